//! C22: instances side by side
use super::codec::{gray_palette, raster8};
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family, fp};
use gift::{Encoder, Step};
use std::sync::Arc;

/// An instance in use: each call yields a fingerprint of what it returned
trait Machine {
    fn call(&mut self, n: usize) -> u64;
    /// Output written so far (encoders)
    fn output(&mut self) -> Vec<u8>;
}

/// Decoder, with a flag when it has ended
struct Dec<T>(T, bool);
macro_rules! dec {
    ($t:ty, $f:expr) => {
        impl Machine for Dec<$t> {
            fn call(&mut self, _n: usize) -> u64 {
                if self.1 {
                    return 0;
                }
                match self.0.next() {
                    None => {
                        self.1 = true;
                        0
                    }
                    Some(Ok(x)) => fp(&$f(&x)),
                    Some(Err(e)) => fp(&ek(&e)),
                }
            }
            fn output(&mut self) -> Vec<u8> {
                vec![]
            }
        }
    };
}
/// What to do at a read or write call of this thread
struct Hook {
    /// Calls left until then
    left: usize,
    act: Option<Box<dyn FnOnce()>>,
}
thread_local! {
    static HOOK: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
}
/// A read or write call is made
fn hooked() {
    let act = HOOK.with(|h| match &mut *h.borrow_mut() {
        Some(h) if h.left == 0 => h.act.take(),
        Some(h) => {
            h.left -= 1;
            None
        }
        None => None,
    });
    if let Some(act) = act {
        act();
    }
}

struct Src(std::io::Cursor<Vec<u8>>);
impl std::io::Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        hooked();
        self.0.read(b)
    }
}
dec!(gift::decode::Blocks<Src>, bk);
dec!(gift::decode::Frames<Src>, fr);
dec!(gift::decode::Steps<Src>, st);

/// Frames with the preamble read first
struct DecPre(gift::decode::Frames<Src>, bool);
impl Machine for DecPre {
    fn call(&mut self, n: usize) -> u64 {
        if n == 1 {
            return match self.0.preamble() {
                Ok(p) => fp(&p.as_ref().map(pre)),
                Err(e) => fp(&ek(&e)),
            };
        }
        if self.1 {
            return 0;
        }
        match self.0.next() {
            None => {
                self.1 = true;
                0
            }
            Some(Ok(x)) => fp(&fr(&x)),
            Some(Err(e)) => fp(&ek(&e)),
        }
    }
    fn output(&mut self) -> Vec<u8> {
        vec![]
    }
}

type Out = std::rc::Rc<std::cell::RefCell<Vec<u8>>>;
struct W(Out);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        hooked();
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn res<T>(r: gift::Result<T>) -> u64 {
    match r {
        Ok(_) => 1,
        Err(e) => fp(&ek(&e)),
    }
}

struct EncB(gift::encode::BlockEnc<W>, Out, Vec<B>);
impl Machine for EncB {
    fn call(&mut self, n: usize) -> u64 {
        match self.2.get(n - 1) {
            Some(b) => res(self.0.encode(to_block(b))),
            None => 0,
        }
    }
    fn output(&mut self) -> Vec<u8> {
        self.1.borrow().clone()
    }
}

struct EncF(gift::encode::FrameEnc<W>, Out, Preamble, Vec<Frame>);
impl Machine for EncF {
    fn call(&mut self, n: usize) -> u64 {
        if n == 1 {
            return res(self.0.encode_preamble(&to_pre(&self.2)));
        }
        match self.3.get(n - 2) {
            Some(f) => res(self.0.encode_frame(&to_frame(f))),
            None => res(self.0.encode_trailer()),
        }
    }
    fn output(&mut self) -> Vec<u8> {
        self.1.borrow().clone()
    }
}

struct EncS(Option<gift::encode::StepEnc<W>>, Out, Vec<Step>);
impl Machine for EncS {
    fn call(&mut self, n: usize) -> u64 {
        match (self.2.get(n - 1), &mut self.0) {
            (Some(s), Some(e)) => res(e.encode_step(s)),
            _ => {
                self.0 = None;
                0
            }
        }
    }
    fn output(&mut self) -> Vec<u8> {
        self.0 = None;
        self.1.borrow().clone()
    }
}

const KINDS: usize = 8;
const VARS: usize = 5;
/// Variants with small images, without faults
const SMALL: usize = 3;

/// File for decoders
fn file(var: usize) -> Vec<u8> {
    static FILES: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    FILES.get_or_init(|| (0..VARS).map(make_file).collect())[var].clone()
}

/// Small variants have the same shape and other contents
fn make_file(var: usize) -> Vec<u8> {
    let v = var as u8;
    if var >= SMALL {
        // many colors and codes; the last one breaks off with a bad code
        let mut bs = screen(80, 70, Some(7));
        bs.push(gce(5, 77, 9));
        bs.extend(image(0, 0, 80, 70, noise(8, 5600)));
        bs.extend(image_lct((3, 1, 9, 9), 5, 8, 0x40, noise(6, 81)));
        let mut f = put_all(&bs);
        let mut l = lzw_plain(7, &noise(7, 700));
        if var > SMALL {
            l.truncate(400);
            l.extend([0xFF; 5]);
        }
        put(&mut f, &B::Desc { l: 7, t: 7, w: 35, h: 20, flags: 0 });
        put_image_data(&mut f, 7, &l, 255);
        put(&mut f, &B::Trailer);
        return f;
    }
    let mut bs = screen(3, 2, Some(1));
    bs[2] = B::Gct(table(4, 50 * v + 3));
    bs.push(loop_ext(1 + var as u16));
    bs.push(gce(4 * v + 1, 10 + var as u16, v));
    bs.extend(image(0, 0, 3, 2, vec![v, 1, 2, 3, 1, v]));
    if var == 2 {
        bs.push(B::Comment(vec![vec![1, 2], vec![3]]));
    }
    bs.extend(image_lct((v as u16 % 2, 0, 2, 2), 1, 90 + v, 0x40 * (v & 1), vec![3, v, 2, 1]));
    bs.push(B::Trailer);
    put_all(&bs)
}

fn big_noise(bits: u32) -> Vec<u8> {
    static NOISE: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    NOISE.get_or_init(|| (0..9).map(|b| noise(b, 5600)).collect())[bits as usize].clone()
}

fn machine(kind: usize, var: usize) -> Box<dyn Machine> {
    let d = || decoder(Src(std::io::Cursor::new(file(var))), Some(Some(10_000 + var)));
    let out: Out = Default::default();
    let e = Encoder::new(W(out.clone()));
    let v = var as u8;
    match kind {
        0 => Box::new(Dec(d().into_blocks(), false)),
        1 => Box::new(Dec(d().into_frames(), false)),
        2 => Box::new(DecPre(d().into_frames(), false)),
        3 => Box::new(Dec(d().into_steps(), false)),
        4 => Box::new(Dec(d().into_iter(), false)),
        5 => {
            let mut bs = screen(3, 2, Some(0));
            bs.push(gce(v, 300 + var as u16, v));
            bs.push(B::Desc { l: v.into(), t: 0, w: 3, h: 2, flags: 0 });
            bs.push(B::Data(vec![v, v + 1, v, 3, v + 1, 1 << (2 * v).min(7)]));
            if var >= SMALL {
                bs.insert(5, B::Desc { l: v.into(), t: 9, w: 80, h: 70, flags: 0 });
                bs.insert(6, B::Data(big_noise(11 - u32::from(v))));
            }
            bs.push(B::Trailer);
            Box::new(EncB(e.into_block_enc(), out, bs))
        }
        6 => {
            let p = parse(&file(var), None);
            let g = group(&p);
            assert!(g.preamble.is_ok());
            Box::new(EncF(e.into_frame_enc(), out, g.preamble.unwrap(), g.frames))
        }
        _ => {
            let mut steps = vec![];
            for k in 0..3u8 {
                let mut pal = gray_palette(4);
                pal.replace_entry(k as usize, pix::rgb::SRgb8::new(v * 60, k, 7));
                let img = if var < SMALL {
                    raster8(2, 2, &[k, v, 1, 3 - k])
                } else {
                    raster8(70, 70, &big_noise(u32::from(v + k))[..4900])
                };
                if var >= SMALL {
                    pal = gray_palette(254 + usize::from(k));
                    pal.replace_entry(usize::from(v), pix::rgb::SRgb8::new(1, v, 7));
                }
                let s = Step::with_indexed(img, if k == 1 { gray_palette(4) } else { pal })
                .with_delay_time_cs(Some(u16::from(v) + 3 * u16::from(k)))
                .with_transparent_color(if k == v { Some(k) } else { None });
                steps.push(s);
            }
            let enc = e.into_step_enc();
            let enc = if var == 1 { enc.with_loop_count(5) } else { enc };
            let enc = if var == 2 {
                enc.with_global_color_table(&gray_palette(4))
            } else {
                enc
            };
            Box::new(EncS(Some(enc), out, steps))
        }
    }
}

/// Run machines by a schedule: entry k is the machine which makes the next
/// call; the first call of a machine creates it, the last one is followed by
/// its end
fn run(ms: &[(usize, usize)], calls: usize, sched: &[usize]) -> Vec<(Vec<u64>, Vec<u8>)> {
    let mut live: Vec<Option<Box<dyn Machine>>> = ms.iter().map(|_| None).collect();
    let mut out: Vec<(Vec<u64>, Vec<u8>)> = ms.iter().map(|_| (vec![], vec![])).collect();
    for &k in sched {
        let n = out[k].0.len();
        if n == 0 {
            live[k] = Some(machine(ms[k].0, ms[k].1));
            out[k].0.push(7);
        } else {
            let r = live[k].as_mut().unwrap().call(n);
            out[k].0.push(r);
        }
        if out[k].0.len() == calls {
            out[k].1 = live[k].as_mut().unwrap().output();
            live[k] = None;
        }
    }
    out
}

fn schedules(n: usize, m: usize) -> Vec<Vec<usize>> {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for k in 0..left.len() {
            if left[k] > 0 {
                left[k] -= 1;
                cur.push(k);
                rec(left, cur, out);
                cur.pop();
                left[k] += 1;
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![m; n], &mut vec![], &mut out);
    out
}

/// What the machine must yield, from the reference model where it says so
fn expect_model(kind: usize, var: usize, calls: usize) -> Option<Vec<u64>> {
    let f = file(var);
    let p = parse(&f, None);
    let g = group(&p);
    let c = compose(&g, None, false);
    let err = match kind {
        0 => end_err(&p.end),
        1 | 2 => end_err(&g.end),
        _ => c.err.clone(),
    };
    let items: Vec<u64> = match kind {
        0 => p.blocks.iter().map(fp).collect(),
        1 => g.frames.iter().map(fp).collect(),
        2 => std::iter::once(fp(&g.preamble.as_ref().ok()))
            .chain(g.frames.iter().map(fp))
            .collect(),
        3 => c.steps.iter().map(fp).collect(),
        4 => {
            let mut v = vec![];
            for _ in 0..if var < SMALL { 2 + var } else { 1 } {
                v.extend(c.steps.iter().map(fp));
            }
            v
        }
        _ => return None,
    };
    let mut v = vec![7];
    v.extend(items);
    v.extend(err.as_ref().map(fp));
    v.resize(v.len().max(calls), 0);
    v.truncate(calls);
    Some(v)
}

type Ref = Arc<Vec<(Vec<u64>, Vec<u8>, bool)>>;

/// Results of each machine alone, and if they are as the model says
fn alone(calls: usize) -> Ref {
    let mut v = vec![];
    for k in 0..KINDS {
        for var in 0..VARS {
            let (r, out) = run(&[(k, var)], calls, &vec![0; calls]).remove(0);
            let ok = expect_model(k, var, calls).is_none_or(|m| m == r);
            v.push((r, out, ok));
        }
    }
    Arc::new(v)
}

/// Number of read or write calls of a machine
fn io_calls(m: (usize, usize)) -> usize {
    HOOK.with(|h| *h.borrow_mut() = Some(Hook { left: usize::MAX, act: None }));
    run(&[m], 12, &[0; 12]);
    let hook = HOOK.with(|h| h.borrow_mut().take()).unwrap();
    usize::MAX - hook.left
}

/// Use `a`, and within its `at`-th read or write call use `b` in another thread
fn two_threads(
    ctx: &mut Ctx,
    a: (usize, usize),
    b: (usize, usize),
    before: usize,
    now: usize,
    at: usize,
    want: &Ref,
) -> Check {
    use std::sync::mpsc::channel;
    const CALLS: usize = 12;
    let (ask, asked) = channel::<usize>();
    let (done, wait) = channel::<()>();
    let side = std::thread::spawn(move || {
        let mut m: Option<Box<dyn Machine>> = None;
        let mut res = vec![];
        for n in asked {
            for _ in 0..n {
                match &mut m {
                    None => {
                        m = Some(machine(b.0, b.1));
                        res.push(7);
                    }
                    Some(m) => res.push(m.call(res.len())),
                }
            }
            let _ = done.send(());
        }
        let out = m.map(|mut m| m.output()).unwrap_or_default();
        (res, out)
    });
    let wait = std::rc::Rc::new(wait);
    let mut left = CALLS;
    if before > 0 {
        let _ = ask.send(before);
        let _ = wait.recv();
        left -= before;
    }
    let (ask2, wait2) = (ask.clone(), wait.clone());
    let act = move || {
        let _ = ask2.send(now);
        let _ = wait2.recv();
    };
    HOOK.with(|h| *h.borrow_mut() = Some(Hook { left: at, act: Some(Box::new(act)) }));
    let ra = run(&[a], CALLS, &[0; CALLS]).remove(0);
    let hook = HOOK.with(|h| h.borrow_mut().take()).unwrap();
    let met = hook.act.is_none();
    drop(hook);
    if met {
        left -= now;
    }
    let _ = ask.send(left);
    let _ = wait.recv();
    drop(ask);
    let rb = side.join().map_err(|_| format!("instance {b:?} panics in a thread of its own"))?;
    if met {
        ctx.trace();
        ctx.steps(2 * CALLS);
        ctx.state(&(a, b, before, now, at));
    }
    for (m, got) in [(a, ra), (b, rb)] {
        let w = &want[m.0 * VARS + m.1];
        if (&got.0, &got.1) != (&w.0, &w.1) {
            let n = got.0.iter().zip(&w.0).take_while(|(x, y)| x == y).count();
            return Err(format!(
                "{a:?} and {b:?} (kind, variant) in two threads, the second one making {now} \
                 calls within read or write {at} of the first: {m:?} differs from the same \
                 instance alone at call {n}\n output {}\n alone  {}",
                short(&got.1),
                short(&w.1)
            ));
        }
    }
    Ok(())
}

fn compare(
    ctx: &mut Ctx,
    ms: &[(usize, usize)],
    calls: usize,
    sched: &[usize],
    want: &Ref,
) -> Check {
    ctx.trace();
    ctx.steps(sched.len());
    ctx.state(&(ms, sched));
    let got = run(ms, calls, sched);
    for (k, g) in got.iter().enumerate() {
        let (kind, var) = ms[k];
        let w = &want[kind * VARS + var];
        if !w.2 {
            return Err(format!("instance of kind {kind}/{var} alone differs from the model"));
        }
        ctx.outcome(&(kind, var, &g.0));
        if (&g.0, &g.1) != (&w.0, &w.1) {
            let at = g.0.iter().zip(&w.0).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "instances {ms:?} (kind, variant), schedule {sched:?}: instance {k} differs \
                 from the same instance alone at call {at}\n output {}\n alone  {}",
                short(&g.1),
                short(&w.1)
            ));
        }
    }
    Ok(())
}

/// Read and write two files by turns
fn by_turns(ctx: &mut Ctx, files: [&[u8]; 2]) -> Check {
    let ps = files.map(|f| parse(f, Some(DEFAULT_LIMIT)));
    let gs = [group(&ps[0]), group(&ps[1])];
    let mut blocks = files.map(|f| decoder(f, None).into_blocks());
    let mut frames = files.map(|f| decoder(f, None).into_frames());
    let mut outs = [vec![], vec![]];
    let mut encs = outs.each_mut().map(|o| Encoder::new(o).into_block_enc());
    ctx.trace();
    let n = ps.iter().map(|p| p.blocks.len()).max().unwrap_or(0);
    for k in 0..n {
        for x in 0..2 {
            ctx.steps(1);
            let bad = |what| Err(format!("{what} {k} of file {x}\n inputs: {}\n {}", short(files[0]), short(files[1])));
            if let Some(want) = ps[x].blocks.get(k) {
                match blocks[x].next() {
                    Some(Ok(b)) if bk(&b) == *want => {
                        if encs[x].encode(b).is_err() {
                            return bad("error writing block");
                        }
                    }
                    _ => return bad("wrong block"),
                }
            }
            if let Some(want) = gs[x].frames.get(k) {
                match frames[x].next() {
                    Some(Ok(f)) if fr(&f) == *want => (),
                    _ => return bad("wrong frame"),
                }
            }
        }
    }
    drop(encs);
    for x in 0..2 {
        let q = parse(&outs[x], Some(DEFAULT_LIMIT));
        if q.blocks != ps[x].blocks || q.end != ps[x].end {
            return Err(format!("file {x} is written as {}\n inputs: {}\n {}", short(&outs[x]), short(files[0]), short(files[1])));
        }
    }
    ctx.outcome(&(fp(&outs[0]), fp(&outs[1])));
    Ok(())
}

pub fn c22(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let n = (KINDS * SMALL) as u64;
    let calls = tier.pick(5, 6);
    let want = alone(calls);
    let sch = Arc::new(schedules(2, calls));
    let ns = sch.len() as u64;
    v.push(family(
        "pairs",
        format!("all {ns} interleavings of {calls} calls (creation first, end last) of all ordered pairs of {n} instances"),
        n * n * ns,
        {
            let want = want.clone();
            move |i, ctx| {
                let d = digits(i, &[ns, n, n]);
                let ms = [1, 2].map(|k| (d[k] as usize / SMALL, d[k] as usize % SMALL));
                let s = &sch[d[0] as usize];
                ctx.sample(|| format!("{ms:?} {s:?}"));
                compare(ctx, &ms, calls, s, &want)
            }
        },
    ));
    // longer runs of two instances: one call each in blocks
    let calls = 12;
    let want12 = alone(calls);
    let mut long = vec![];
    for a in 0..=calls {
        for b in 0..=calls {
            // a calls of 0, b calls of 1, then alternate, then the rest
            let mut s = vec![0; a];
            s.extend(vec![1; b]);
            let (mut x, mut y) = (calls - a, calls - b);
            while x > 0 || y > 0 {
                if x > 0 {
                    s.push(0);
                    x -= 1;
                }
                if y > 0 {
                    s.push(1);
                    y -= 1;
                }
            }
            long.push(s);
        }
    }
    let nl = long.len() as u64;
    let n = (KINDS * VARS) as u64;
    let skip = tier.pick(5, 1);
    v.push(family(
        "long",
        format!("{nl} schedules (a calls, b calls, then alternating) of 12 calls of all ordered pairs of {n} instances (with large images, every {skip}. schedule, or every {}. if both have)", 2 * skip),
        n * n * nl,
        {
            let want = want12.clone();
            move |i, ctx| {
                let d = digits(i, &[nl, n, n]);
                let ms = [1, 2].map(|k| (d[k] as usize / VARS, d[k] as usize % VARS));
                let large = ms.iter().filter(|m| m.1 >= SMALL).count();
                if large > 0 && d[0] % (skip * large as u64) != 0 {
                    return Ok(());
                }
                compare(ctx, &ms, calls, &long[d[0] as usize], &want)
            }
        },
    ));
    // three instances
    let c3 = tier.pick(3, 4);
    let want3 = alone(c3);
    let sch = Arc::new(schedules(3, c3));
    let ns = sch.len() as u64;
    let k = KINDS as u64;
    v.push(family(
        "triples",
        format!("all {ns} interleavings of {c3} calls of three instances, all triples of kinds, different variants"),
        k * k * k * ns,
        move |i, ctx| {
            let d = digits(i, &[ns, k, k, k]);
            let ms = [(d[1] as usize, 0), (d[2] as usize, 1), (d[3] as usize, 2)];
            compare(ctx, &ms, c3, &sch[d[0] as usize], &want3)
        },
    ));
    // two threads: while one instance is within a call, the other is used
    let want_t = want12.clone();
    let most = tier.pick(64, 160);
    let counts: Vec<usize> = (0..KINDS * VARS).map(|m| io_calls((m / VARS, m % VARS))).collect();
    let k = KINDS as u64;
    v.push(family(
        "threads",
        format!("all pairs of kinds in two threads: during each of the first {most} reads or writes of one, the other makes its next call or all its calls, having made 0, 1 or 3 before"),
        k * k * 4 * 6 * most,
        move |i, ctx| {
            let d = digits(i, &[k, k, 2, 2, 3, 2, most]);
            let a = (d[0] as usize, if d[2] == 0 { 0 } else { 3 });
            let b = (d[1] as usize, if d[3] == 0 { 1 } else { 4 });
            if d[6] as usize >= counts[a.0 * VARS + a.1] {
                return Ok(());
            }
            let before = [0, 1, 3][d[4] as usize];
            let now = if d[5] == 0 { 1 } else { 12 - before };
            two_threads(ctx, a, b, before, now, d[6] as usize, &want_t)
        },
    ));
    // repetition
    v.push(family(
        "repeat",
        format!("each of {n} instances alone, 300 (or 30) times in a row, and after each other instance"),
        n * n,
        move |i, ctx| {
            let a = ((i % n) as usize / VARS, i as usize % VARS);
            let b = ((i / n) as usize / VARS, (i / n) as usize % VARS);
            compare(ctx, &[b], 12, &[0; 12], &want12)?;
            for _ in 0..if i % n == i / n { if a.1 < SMALL { 300 } else { 30 } } else { 3 } {
                compare(ctx, &[a], 12, &[0; 12], &want12)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "similar",
        "two images which differ in one pixel (first, middle, last; the value within or beyond the other's range), or have one pixel more, of 1..=20 and up to 70000 pixels in 8 textures; written and read one after the other, alternately",
        38 * 4 * 8,
        |i, ctx| {
            let d = digits(i, &[38, 4, 8]);
            let n = match d[0] {
                k @ 0..20 => k as usize + 1,
                k => [50, 100, 255, 256, 257, 600, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 9000, 20_000, 65_535, 70_000][k as usize - 20],
            };
            let m = 1 + d[2] as u32;
            let w = if n <= 65_535 { n } else { 500 };
            let h = n / w;
            let a = noise(m, n);
            let mut b = a.clone();
            let (mut bw, mut bh) = (w, h);
            match d[1] {
                0 => b[0] ^= 1,
                1 => b[n / 2] ^= 0x80,
                2 => b[n - 1] ^= 1,
                _ if n < 65_535 => {
                    bw += 1;
                    b.push(a[n / 3]);
                }
                _ => {
                    bh += 1;
                    b.extend(vec![1; w]);
                }
            }
            let file = |w: usize, h: usize, px: &[u8]| {
                let mut bs = screen(w as u16, h as u16, Some(7));
                bs.extend(image(0, 0, w as u16, h as u16, px.to_vec()));
                bs.push(B::Trailer);
                put_all(&bs)
            };
            let f = [file(w, h, &a), file(bw, bh, &b)];
            ctx.state(&(n, d[1], m));
            by_turns(ctx, [&f[0], &f[1]])?;
            by_turns(ctx, [&f[1], &f[0]])?;
            // one by one
            let (mut o, mut first) = (vec![], vec![]);
            for k in [0, 1, 0, 1, 1, 0] {
                ctx.trace();
                let blocks: Vec<_> = decoder(&f[k][..], None).into_blocks().collect();
                let mut e = Encoder::new(&mut o).into_block_enc();
                for b in blocks {
                    if b.and_then(|b| e.encode(b)).is_err() {
                        return Err(format!("image {k} of {n} pixels: not read or written"));
                    }
                }
                drop(e);
                if first.len() < 2 {
                    first.push(std::mem::take(&mut o));
                } else {
                    if o != first[k] {
                        return Err(format!("image {k} of {n} pixels is written otherwise the second time"));
                    }
                    o.clear();
                }
            }
            for k in 0..2 {
                if parse(&first[k], None).blocks != parse(&f[k], None).blocks {
                    return Err(format!("image {k} of {n} pixels (texture {m}, difference {}): written wrong after the other", d[1]));
                }
            }
            Ok(())
        },
    ));
    v.push(special_family(
        "special",
        "each read as blocks and frames, and written as blocks, by turns with each of the next 6 of the list",
        |ctx, a| {
            let k = special().partition_point(|f| f.1.len() < a.len());
            for j in 1..=6 {
                by_turns(ctx, [a, &special()[(k + j) % special().len()].1])?;
            }
            Ok(())
        },
    ));
    v
}
