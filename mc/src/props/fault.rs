//! C07, C19: behaviour of readers and writers
use super::codec::{gray_palette, raster8};
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use gift::{Encoder, Step};
use std::cell::RefCell;
use std::io::{ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::Arc;

/// What happens at a byte position
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// A call reaching the position ends there
    Split,
    /// Interrupted, this many times
    Intr(u32),
    /// An error
    Err(ErrorKind),
    /// An error, only once
    ErrOnce(ErrorKind),
    /// Zero bytes accepted (writers)
    Zero,
    /// Zero bytes accepted, only once
    ZeroOnce,
}

/// Events sorted by position
type Plan = Vec<(usize, Ev)>;

/// How the calls are cut up
#[derive(Clone, Copy, Debug, Hash)]
struct Pace {
    /// Longest call
    chunk: usize,
    /// Interrupted before every call
    intr: u32,
}
const FULL: Pace = Pace { chunk: usize::MAX, intr: 0 };

/// State machine shared by reader and writer
struct Script {
    plan: Plan,
    pace: Pace,
    next: usize,
    burst: u32,
    /// Interrupted results given since the last progress
    gave: u32,
}

impl Script {
    fn new(plan: Plan, pace: Pace) -> Self {
        Script { plan, pace, next: 0, burst: 0, gave: 0 }
    }

    /// How many bytes the call at `pos` may transfer
    fn allow(&mut self, pos: usize, want: usize) -> std::io::Result<usize> {
        if self.gave < self.pace.intr {
            self.gave += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        while let Some((p, ev)) = self.plan.get(self.next).copied() {
            if p > pos {
                self.gave = 0;
                return Ok(want.min(p - pos).min(self.pace.chunk));
            }
            match ev {
                Ev::Split => self.next += 1,
                Ev::Intr(n) => {
                    if self.burst < n {
                        self.burst += 1;
                        return Err(ErrorKind::Interrupted.into());
                    }
                    self.burst = 0;
                    self.next += 1;
                }
                Ev::Err(k) => return Err(k.into()),
                Ev::ErrOnce(k) => {
                    self.next += 1;
                    return Err(k.into());
                }
                Ev::Zero => return Ok(0),
                Ev::ZeroOnce => {
                    self.next += 1;
                    return Ok(0);
                }
            }
        }
        self.gave = 0;
        Ok(want.min(self.pace.chunk))
    }
}

struct Rd<'a> {
    data: &'a [u8],
    pos: usize,
    script: Script,
}
impl Read for Rd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.script.allow(self.pos, buf.len())?;
        let n = n.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const KINDS: [ErrorKind; 16] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::AlreadyExists,
];

/// What is expected of a file read through a script
struct Want {
    bytes: Vec<u8>,
    p: Parsed,
    g: Grouped,
    c: Composed,
}

impl Want {
    fn new(bytes: &[u8], cut: Option<(usize, ErrorKind)>) -> Self {
        let p = match cut {
            Some((at, k)) => {
                let mut p = parse(&bytes[..at], Some(DEFAULT_LIMIT));
                if p.end == End::Err(E::Eof) {
                    p.end = End::Err(E::Io(k));
                }
                p
            }
            None => parse(bytes, Some(DEFAULT_LIMIT)),
        };
        let g = group(&p);
        let c = compose(&g, Some(DEFAULT_LIMIT), false);
        Want { bytes: bytes.to_vec(), p, g, c }
    }
}

/// Read through a script at one or all levels, compare
fn read_as(ctx: &mut Ctx, w: &Want, plan: &Plan, pace: Pace, levels: u32) -> Check {
    let b = &w.bytes;
    let rd = || Rd { data: b, pos: 0, script: Script::new(plan.clone(), pace) };
    let max = b.len() + 8;
    let err = |e: String| format!("{e}\n reader: {plan:?} {pace:?}");
    ctx.outcome(&(
        plan.iter().map(|p| std::mem::discriminant(&p.1)).collect::<Vec<_>>(),
        w.p.blocks.len(),
        &w.p.end,
    ));
    if levels & 1 != 0 {
        ctx.trace();
        ctx.steps(w.p.blocks.len());
        let got = obs_blocks(rd(), None, max);
        same("blocks", b, &got, &w.p.blocks, &end_err(&w.p.end), w.p.loose).map_err(err)?;
    }
    if levels & 2 != 0 {
        ctx.trace();
        let got = obs_frames(rd(), None, max);
        same("frames", b, &got, &w.g.frames, &end_err(&w.g.end), w.p.loose).map_err(err)?;
        ctx.trace();
        let (pr, got) = obs_pre_frames(rd(), None, max);
        match (&pr, &w.g.preamble) {
            (Ok(Some(a)), Ok(b2)) if a == b2 => {
                same("frames after preamble", b, &got, &w.g.frames, &end_err(&w.g.end), w.p.loose)
                    .map_err(err)?;
            }
            (Err(a), Err(b2)) if a == b2 => (),
            (a, b2) => return Err(err(format!("preamble {a:?}, expected {b2:?}"))),
        }
    }
    if levels & 4 != 0 {
        ctx.trace();
        let got = obs_steps(rd(), None, max);
        same("steps", b, &got, &w.c.steps, &w.c.err, w.p.loose).map_err(err)?;
        ctx.trace();
        let mut it = decoder(rd(), None).into_iter();
        let n = w.c.steps.len();
        for (k, s) in w.c.steps.iter().enumerate() {
            match it.next() {
                Some(Ok(x)) if &st(&x) == s => (),
                _ => return Err(err(format!("looping step {k} of {n} differs"))),
            }
        }
        if let Some(e) = &w.c.err {
            match it.next() {
                Some(Err(x)) if &ek(&x) == e => (),
                _ => return Err(err(format!("looping steps: no error {e:?} after {n} steps"))),
            }
            if it.next().is_some() {
                return Err(err("looping steps: goes on after the error".into()));
            }
        }
    }
    Ok(())
}

fn sources() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> =
        base_files().into_iter().map(|f| (f.0.to_string(), f.1)).collect();
    let mut bs = screen(2, 2, Some(7));
    bs.push(B::Comment(vec![vec![1; 255], vec![2; 254], vec![3]]));
    bs.push(gce(1, 5, 200));
    bs.extend(image_lct((0, 0, 2, 2), 7, 9, 0, vec![255, 200, 3, 4]));
    bs.push(B::Trailer);
    v.push(("large-tables".into(), put_all(&bs)));
    let mut l = lzw_plain(2, &[1, 2, 3, 0, 1, 2]);
    l.extend([9; 20]);
    v.push(("one-byte-sub-blocks".into(), raw_image(3, 2, 1, 2, &l, 1, true)));
    v
}

pub fn c07(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut files = sources();
    let nbase = files.len();
    for i in 0..seq_count(ITEMS, tier.pick(3, 3)) {
        let s = seq_of(i, ITEMS);
        files.push((format!("{s:?}"), put_all(&seq_file(&s, true, true))));
    }
    let files = Arc::new(files);
    let nf = files.len() as u64;
    // every single deviation at every position
    let mut evs = vec![Ev::Split, Ev::Intr(1), Ev::Intr(2), Ev::Intr(3), Ev::Intr(100)];
    for k in KINDS {
        evs.push(Ev::Err(k));
    }
    for k in [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof] {
        evs.push(Ev::ErrOnce(k));
    }
    let ne = evs.len();
    v.push(family(
        "single",
        format!("every byte position of {nf} files times {ne} deviations: the read ends there, Interrupted 1, 2, 3, 100 times, {} kinds of error (lasting, or only once)", KINDS.len()),
        nf,
        {
            let files = files.clone();
            let evs = evs.clone();
            move |i, ctx| {
                let b = &files[i as usize].1;
                let whole = Want::new(b, None);
                ctx.sample(|| format!("{} bytes, {} deviations at each", b.len(), evs.len()));
                for at in 0..b.len() {
                    ctx.state(&(at, &whole.p.blocks.last(), i));
                    for (n, ev) in evs.iter().enumerate() {
                        let lv = if i < nbase as u64 || n < 5 { 7 } else { [1, 2, 4, 7][(n + at) % 4] };
                        let w = match ev {
                            Ev::Err(k) | Ev::ErrOnce(k) => &Want::new(b, Some((at, *k))),
                            _ => &whole,
                        };
                        read_as(ctx, w, &vec![(at, *ev)], FULL, lv)?;
                    }
                }
                Ok(())
            }
        },
    ));
    v.push(family(
        "chunks",
        format!("{nf} files in chunks of 1..=300 bytes and all, Interrupted 0, 1, 2 times before every read"),
        nf * 301 * 3,
        {
            let files = files.clone();
            move |i, ctx| {
                let d = digits(i, &[301, 3, nf]);
                let b = &files[d[2] as usize].1;
                let chunk = match d[0] {
                    300 => usize::MAX,
                    n => n as usize + 1,
                };
                if chunk > b.len() && chunk != usize::MAX {
                    return Ok(());
                }
                read_as(ctx, &Want::new(b, None), &vec![], Pace { chunk, intr: d[1] as u32 }, 7)
            }
        },
    ));
    // all subsets of split and interrupted positions in a window
    let win = tier.pick(11u32, 13);
    let short_files: Vec<Vec<u8>> = files
        .iter()
        .take(nbase)
        .map(|f| f.1.clone())
        .filter(|b| b.len() < 150)
        .collect();
    let mut wins = vec![];
    for (k, b) in short_files.iter().enumerate() {
        for s in (0..b.len()).step_by(win as usize / 2) {
            wins.push((k, s));
        }
    }
    let sf = Arc::new(short_files);
    let nw = wins.len() as u64;
    v.push(family(
        "windows",
        format!("all subsets of split positions in windows of {win} bytes, overlapping by half, over {} files; Interrupted at the splits or not", sf.len()),
        nw * 2 << win,
        {
            let sf = sf.clone();
            move |i, ctx| {
                let d = digits(i, &[1 << win, 2, nw]);
                let (k, s) = wins[d[2] as usize];
                let mut plan = vec![];
                for j in 0..win {
                    if d[0] >> j & 1 != 0 {
                        plan.push((s + j as usize, if d[1] == 0 { Ev::Split } else { Ev::Intr(1) }));
                    }
                }
                let lv = [1, 2, 4][(i % 3) as usize];
                read_as(ctx, &Want::new(&sf[k], None), &plan, FULL, lv)
            }
        },
    ));
    // pairs of deviations
    let ns = sf.len() as u64;
    v.push(family(
        "pairs",
        "all pairs of positions of short files times {split, Interrupted} then {split, Interrupted, error, Interrupted directly before an error}",
        ns * 150,
        {
            let sf = sf.clone();
            let q = 1;
            move |i, ctx| {
                let b = &sf[(i % ns) as usize];
                let p = (i / ns) as usize;
                if p >= b.len() {
                    return Ok(());
                }
                let whole = Want::new(b, None);
                for r in p..b.len() {
                    if b.len() > 60 && (r - p) % q != 0 && r > p + 4 {
                        continue;
                    }
                    let fail = Want::new(b, Some((r, ErrorKind::TimedOut)));
                    for first in [Ev::Split, Ev::Intr(2)] {
                        let lv = [1, 2, 4][(p + r) % 3];
                        read_as(ctx, &whole, &vec![(p, first), (r, Ev::Split)], FULL, lv)?;
                        read_as(ctx, &whole, &vec![(p, first), (r, Ev::Intr(1))], FULL, lv)?;
                        let e = Ev::Err(ErrorKind::TimedOut);
                        read_as(ctx, &fail, &vec![(p, first), (r, e)], FULL, lv)?;
                        read_as(ctx, &fail, &vec![(p, first), (r, Ev::Intr(1)), (r, e)], FULL, lv)?;
                    }
                }
                Ok(())
            }
        },
    ));
    v.push(family(
        "chunked-errors",
        "an error at every position of the base files read in chunks of 1, 2, 3, 7, 16 bytes, Interrupted before every read or not",
        nbase as u64 * 5 * 2,
        {
            let files = files.clone();
            move |i, ctx| {
                let d = digits(i, &[5, 2, nbase as u64]);
                let b = &files[d[2] as usize].1;
                let pace = Pace { chunk: [1, 2, 3, 7, 16][d[0] as usize], intr: d[1] as u32 };
                for at in 0..b.len() {
                    let k = KINDS[at % KINDS.len()];
                    let w = Want::new(b, Some((at, k)));
                    read_as(ctx, &w, &vec![(at, Ev::Err(k))], pace, [1, 2, 4][at % 3])?;
                }
                Ok(())
            }
        },
    ));
    v.push(family(
        "long-bursts",
        "Interrupted 100000 times at the start, in the header, a table, a sub-block, image data",
        6,
        {
            let files = files.clone();
            move |i, ctx| {
                let b = &files[3].1;
                let at = [0, 3, 15, 30, 60, b.len() - 1][i as usize];
                read_as(ctx, &Want::new(b, None), &vec![(at, Ev::Intr(100_000))], FULL, 7)
            }
        },
    ));
    v.push(special_parts(
        "special",
        "in chunks of 1, 2, 3, 255, 256, 1000, 4096 bytes, Interrupted before every read or not; a split, Interrupted or an error at every position, or of files longer than 300 bytes at the first and last 100 (or 20, if longer than 10000) and 10 between",
        9,
        |ctx, b, part| {
            let w = Want::new(b, None);
            for (k, chunk) in [1, 2, 3, 255, 256, 1000, 4096].into_iter().enumerate() {
                if k != part {
                    continue;
                }
                for intr in 0..2 {
                    if chunk < 1000 || b.len() > 1000 {
                        read_as(ctx, &w, &vec![], Pace { chunk, intr }, 7)?;
                    }
                }
            }
            let every = (b.len() / 10).max(1);
            let ends = if b.len() > 10_000 { 20 } else { 100 };
            for at in (0..b.len()).filter(|at| (at / 3 + at / every) % 9 == part) {
                if b.len() > 300 && at > ends && at + ends < b.len() && at % every != 0 {
                    continue;
                }
                let lv = [1, 2, 4][at % 3];
                let k = KINDS[at % KINDS.len()];
                read_as(ctx, &w, &vec![(at, Ev::Split)], FULL, lv)?;
                read_as(ctx, &w, &vec![(at, Ev::Intr(2))], FULL, lv)?;
                read_as(ctx, &Want::new(b, Some((at, k))), &vec![(at, Ev::Err(k))], FULL, lv)?;
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C19

type Sink = Rc<RefCell<Vec<u8>>>;

struct Wr {
    out: Sink,
    script: Script,
}
impl Write for Wr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let pos = self.out.borrow().len();
        let n = self.script.allow(pos, b.len())?;
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A program of encoder calls
#[derive(Clone)]
enum Prog {
    Blocks(Vec<B>),
    Frames(Preamble, Vec<Frame>),
    /// Steps: size, palettes, with loop count and global table
    Steps(Vec<(u8, u8)>, Option<u16>, bool),
}

fn a_step(pal: u8, val: u8) -> Step {
    Step::with_indexed(
        raster8(3, 2, &[val, 0, 1, 0, val, 1]),
        gray_palette([2, 4, 256, 3][pal as usize % 4]),
    )
    .with_delay_time_cs(Some(val.into()))
}

/// Run a program until the first error; returns the bytes after each call
fn run(p: &Prog, plan: &Plan, pace: Pace) -> (Vec<usize>, Option<(usize, E)>, Sink) {
    let out: Sink = Default::default();
    let e = Encoder::new(Wr { out: out.clone(), script: Script::new(plan.clone(), pace) });
    let mut marks = vec![];
    let mut err = None;
    // true: go on
    let mut note = |r: gift::Result<()>| match r {
        Ok(()) => {
            marks.push(out.borrow().len());
            true
        }
        Err(x) => {
            err = Some((out.borrow().len(), ek(&x)));
            false
        }
    };
    match p {
        Prog::Blocks(bs) => {
            let mut e = e.into_block_enc();
            for b in bs {
                if !note(e.encode(to_block(b))) {
                    break;
                }
            }
        }
        Prog::Frames(pr, fs) => {
            let mut e = e.into_frame_enc();
            let mut ok = note(e.encode_preamble(&to_pre(pr)));
            for f in fs {
                ok = ok && note(e.encode_frame(&to_frame(f)));
            }
            if ok {
                note(e.encode_trailer());
            }
        }
        Prog::Steps(ss, lp, global) => {
            let mut e = e.into_step_enc();
            if let Some(n) = lp {
                e = e.with_loop_count(*n);
            }
            if *global {
                e = e.with_global_color_table(&gray_palette(4));
            }
            for (a, b) in ss {
                if !note(e.encode_step(&a_step(*a, *b))) {
                    break;
                }
            }
            drop(e);
        }
    }
    (marks, err, out)
}

fn progs() -> Vec<Prog> {
    let mut v = vec![];
    for (_, f) in base_files() {
        let p = parse(&f, None);
        v.push(Prog::Blocks(p.blocks.clone()));
        let g = group(&p);
        if let Ok(pr) = g.preamble {
            v.push(Prog::Frames(pr, g.frames));
        }
    }
    for i in 0..seq_count(ITEMS, 2) {
        v.push(Prog::Blocks(seq_file(&seq_of(i, ITEMS), true, true)));
    }
    let mut bs = screen(2, 2, Some(7));
    bs.push(B::Comment(vec![vec![1; 255], vec![2; 254], vec![3]]));
    bs.extend(image_lct((0, 0, 40, 40), 7, 9, 0, noise(8, 1600)));
    bs.push(B::Trailer);
    v.push(Prog::Blocks(bs));
    for lp in [None, Some(3)] {
        for g in [false, true] {
            v.push(Prog::Steps(vec![(0, 1)], lp, g));
            v.push(Prog::Steps(vec![(0, 1), (1, 3), (0, 0)], lp, g));
            v.push(Prog::Steps(vec![(3, 2), (2, 200), (2, 1), (1, 2)], lp, g));
        }
    }
    v
}

/// Judge one faulty run against the fault-free one
fn write_as(
    ctx: &mut Ctx,
    p: &Prog,
    clean: &(Vec<usize>, Vec<u8>),
    plan: &Plan,
    pace: Pace,
    fail: Option<(usize, ErrorKind)>,
) -> Check {
    ctx.trace();
    ctx.steps(clean.0.len());
    let (marks, err, out) = run(p, plan, pace);
    let out = out.borrow().clone();
    let say = |m: String| {
        Err(format!(
            "{m}\n writer: {plan:?} {pace:?}\n fault-free: {}\n written: {}\n results: bytes after each successful call {marks:?}, error {err:?}",
            short(&clean.1),
            short(&out)
        ))
    };
    match fail {
        // beyond the last call: the failure hits the trailer written on drop
        Some((at, kind)) if at < *clean.0.last().unwrap_or(&0) => {
            let call = clean.0.iter().take_while(|m| **m <= at).count();
            ctx.outcome(&(call, kind, at));
            match &err {
                None => return say(format!("no error, though the writer fails at byte {at}")),
                Some((_, e)) if *e != E::Io(kind) => {
                    return say(format!("error differs, the writer fails with {kind:?}"));
                }
                Some((n, _)) => {
                    if marks.len() != call {
                        return say(format!("call {} fails, but the failure is in call {call}", marks.len()));
                    }
                    if *n > clean.1.len() || out[..*n] != clean.1[..*n] {
                        return say("bytes accepted are no prefix of the fault-free output".into());
                    }
                    let lasting = !plan.iter().any(|p| matches!(p.1, Ev::ErrOnce(_) | Ev::ZeroOnce));
                    if lasting && (out.len() != *n || *n != at) {
                        return say(format!("{} bytes accepted, {at} offered before the failure", out.len()));
                    }
                }
            }
        }
        _ => {
            ctx.outcome(&(plan.len(), pace.chunk, out.len()));
            if err.is_some() || marks != clean.0 {
                return say("results differ from the fault-free run".into());
            }
            let want = match fail {
                Some((at, _)) => &clean.1[..at.min(clean.1.len())],
                None => &clean.1[..],
            };
            if out != want {
                return say("output differs".into());
            }
        }
    }
    Ok(())
}

pub fn c19(_tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ps: Vec<(Prog, (Vec<usize>, Vec<u8>))> = progs()
        .into_iter()
        .map(|p| {
            let (m, e, o) = run(&p, &vec![], FULL);
            assert!(e.is_none(), "fault-free run fails");
            let o = o.borrow().clone();
            (p, (m, o))
        })
        .collect();
    let ps = Arc::new(ps);
    let np = ps.len() as u64;
    let mut evs = vec![Ev::Split, Ev::Intr(1), Ev::Intr(2), Ev::Intr(100), Ev::Zero, Ev::ZeroOnce];
    evs.extend(KINDS.map(Ev::Err));
    evs.extend([ErrorKind::Other, ErrorKind::BrokenPipe].map(Ev::ErrOnce));
    v.push(family(
        "single",
        format!("every byte position of the output of {np} programs (block, frame and step encoder) times {} deviations: the write ends there, Interrupted, {} kinds of error (lasting or once), nothing accepted (from there on or once)", evs.len(), KINDS.len()),
        np,
        {
            let ps = ps.clone();
            move |i, ctx| {
                let (p, clean) = &ps[i as usize];
                ctx.sample(|| format!("{} calls, {} bytes: {}", clean.0.len(), clean.1.len(), short(&clean.1)));
                for at in 0..=clean.1.len() {
                    ctx.state(&(i, at));
                    for ev in &evs {
                        let fail = match ev {
                            Ev::Err(k) | Ev::ErrOnce(k) => Some((at, *k)),
                            Ev::Zero | Ev::ZeroOnce => Some((at, ErrorKind::WriteZero)),
                            _ => None,
                        };
                        write_as(ctx, p, clean, &vec![(at, *ev)], FULL, fail)?;
                    }
                }
                Ok(())
            }
        },
    ));
    v.push(family(
        "chunks",
        format!("{np} programs, writers which accept 1..=64 bytes at a time, Interrupted 0, 1, 2 times before every write"),
        np * 64 * 3,
        {
            let ps = ps.clone();
            move |i, ctx| {
                let d = digits(i, &[64, 3, np]);
                let (p, clean) = &ps[d[2] as usize];
                let pace = Pace { chunk: d[0] as usize + 1, intr: d[1] as u32 };
                write_as(ctx, p, clean, &vec![], pace, None)
            }
        },
    ));
    v.push(family(
        "chunked-errors",
        format!("{np} programs, an error at every position with writers which accept 1, 2, 3, 7 bytes at a time, Interrupted before every write or not"),
        np * 4 * 2,
        {
            let ps = ps.clone();
            move |i, ctx| {
                let d = digits(i, &[4, 2, np]);
                let (p, clean) = &ps[d[2] as usize];
                let pace = Pace { chunk: [1, 2, 3, 7][d[0] as usize], intr: d[1] as u32 };
                for at in 0..clean.1.len() {
                    let k = KINDS[at % KINDS.len()];
                    let (ev, k) = if at % 5 == 0 { (Ev::Zero, ErrorKind::WriteZero) } else { (Ev::Err(k), k) };
                    write_as(ctx, p, clean, &vec![(at, ev)], pace, Some((at, k)))?;
                }
                Ok(())
            }
        },
    ));
    let q = 1;
    v.push(family(
        "pairs",
        format!("all pairs of positions (every {q}th beyond a distance of 6) of the outputs of up to 130 bytes: {{short write, Interrupted}} then {{short write, Interrupted, error, nothing accepted}}"),
        np * 130,
        {
            let ps = ps.clone();
            move |i, ctx| {
                let (p, clean) = &ps[(i % np) as usize];
                let at = (i / np) as usize;
                let n = clean.1.len();
                if n > 130 || at >= n {
                    return Ok(());
                }
                for r in at..n {
                    if r > at + 6 && (r - at) % q != 0 {
                        continue;
                    }
                    for first in [Ev::Split, Ev::Intr(1)] {
                        for (second, fail) in [
                            (Ev::Split, None),
                            (Ev::Intr(1), None),
                            (Ev::Err(ErrorKind::TimedOut), Some((r, ErrorKind::TimedOut))),
                            (Ev::Zero, Some((r, ErrorKind::WriteZero))),
                        ] {
                            write_as(ctx, p, clean, &vec![(at, first), (r, second)], FULL, fail)?;
                        }
                    }
                }
                Ok(())
            }
        },
    ));
    v.push(special_parts(
        "special",
        "block and frame encoder, outputs of up to 6000 bytes: accepted in chunks of 1, 255, 1000 bytes, Interrupted before every write or not; a short write, Interrupted, an error, nothing accepted (lasting or once) at every position, or of outputs longer than 200 bytes at the first and last 60 and 10 between",
        2,
        |ctx, b, part| {
            let ps = parse(b, None);
            let p = if part == 0 {
                Prog::Blocks(ps.blocks)
            } else {
                let g = group(&ps);
                match g.preamble {
                    Ok(pr) => Prog::Frames(pr, g.frames),
                    _ => return Ok(()),
                }
            };
            let (m, e, o) = run(&p, &vec![], FULL);
            if e.is_some() {
                return Err(format!("fault-free run fails: {e:?}"));
            }
            let clean = (m, o.borrow().clone());
            let n = clean.1.len();
            if n > 6000 {
                return Ok(());
            }
            for chunk in [1, 255, 1000] {
                for intr in 0..2 {
                    write_as(ctx, &p, &clean, &vec![], Pace { chunk, intr }, None)?;
                }
            }
            let every = (n / 10).max(1);
            for at in 0..n {
                if n > 200 && at > 60 && at + 60 < n && at % every != 0 {
                    continue;
                }
                let k = KINDS[at % KINDS.len()];
                for (ev, fail) in [
                    (Ev::Split, None),
                    (Ev::Intr(2), None),
                    (Ev::Err(k), Some((at, k))),
                    (Ev::ErrOnce(k), Some((at, k))),
                    (Ev::Zero, Some((at, ErrorKind::WriteZero))),
                    (Ev::ZeroOnce, Some((at, ErrorKind::WriteZero))),
                ] {
                    write_as(ctx, &p, &clean, &vec![(at, ev)], FULL, fail)?;
                }
            }
            Ok(())
        },
    ));
    v
}
