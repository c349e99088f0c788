//! C10, C17, C18: encoders
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family, fp};
use gift::block as gb;
use gift::{Encoder, Step};
use pix::{Palette, rgb::SRgb8};
use std::sync::Arc;

// ------------------------------------------------------------------ C10

/// Encode blocks one by one, comparing the bytes of each
fn encode_is(ctx: &mut Ctx, bs: &[B]) -> Check {
    ctx.trace();
    ctx.steps(bs.len());
    let mut out = vec![];
    let mut at = vec![0];
    for b in bs {
        ctx.state(b);
        let mut one = vec![];
        if let Err(e) = Encoder::new(&mut one).into_block_enc().encode(to_block(b)) {
            return Err(format!("encoding {b:?} fails: {e:?}"));
        }
        if !matches!(b, B::Data(_)) {
            let mut want = vec![];
            put(&mut want, b);
            if one != want {
                return Err(format!("{b:?} is written as\n {}\n want {}", short(&one), short(&want)));
            }
        }
        out.extend(one);
        at.push(out.len());
    }
    ctx.outcome(&fp(&out[..]));
    ctx.sample(|| short(&out));
    // one encoder writes the same
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_block_enc();
    for b in bs {
        if let Err(e) = e.encode(to_block(b)) {
            return Err(format!("encoding {b:?} fails: {e:?}"));
        }
    }
    drop(e);
    if o != out {
        return Err(format!("blocks written by one encoder differ\n {}\n want {}", short(&o), short(&out)));
    }
    // the format says these bytes are these blocks
    let p = parse(&o, None);
    if p.blocks != bs || p.end != End::Trailer || p.used != o.len() {
        let n = p.blocks.iter().zip(bs).take_while(|(a, b)| a == b).count();
        return Err(format!("written bytes mean something else from block {n}: {:?}\n {}", p.end, short(&o)));
    }
    // decode, compare, encode again
    let mut again = vec![];
    let mut e = Encoder::new(&mut again).into_block_enc();
    let mut k = 0;
    for b in decoder(&o[..], Some(None)).into_blocks() {
        let b = b.map_err(|e| format!("decoding fails after {k} blocks: {e:?}\n input: {}", short(&o)))?;
        if k >= bs.len() || b != to_block(&bs[k]) {
            return Err(format!("block {k} decodes as {}, want {:?}", clipd(&b), bs.get(k).map(clipd)));
        }
        k += 1;
        if let Err(e) = e.encode(b) {
            return Err(format!("encoding again fails: {e:?}"));
        }
    }
    drop(e);
    if k != bs.len() || again != o {
        return Err(format!("encoded again after decoding: {}\n want {}", short(&again), short(&o)));
    }
    Ok(())
}

pub fn c10(tier: Tier) -> Vec<Family> {
    let mut v = super::stream::block_spaces(tier, encode_is);
    v.push(family(
        "re-encode",
        format!("files by other writers ({} kinds), decoded and encoded again, mean the same", base_files().len()),
        base_files().len() as u64,
        |i, ctx| {
            let (_, f) = &base_files()[i as usize];
            let p = parse(f, None);
            if p.end != End::Trailer {
                return Ok(());
            }
            encode_is(ctx, &p.blocks)
        },
    ));
    v.push(family(
        "loop-counts",
        "all 65536 loop counts as application blocks",
        65536,
        |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            ctx.outcome(&i);
            let n = i as u16;
            let mut o = vec![];
            let r = Encoder::new(&mut o)
                .into_block_enc()
                .encode(gb::Application::with_loop_count(n));
            let mut want = vec![];
            put(&mut want, &loop_ext(n));
            if r.is_err() || o != want {
                return Err(format!("loop count {n} is written as {}", hex(&o)));
            }
            Ok(())
        },
    ));
    v.push(family(
        "defaults",
        "default blocks",
        9,
        |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            let mut o = vec![];
            let mut e = Encoder::new(&mut o).into_block_enc();
            let z = |n: usize| vec![0; n];
            let (r, want) = match i {
                0 => (e.encode(gb::Header::default()), b"GIF89a".to_vec()),
                1 => (e.encode(gb::LogicalScreenDesc::default()), z(7)),
                2 => (e.encode(gb::GraphicControl::default()), vec![0x21, 0xF9, 4, 0, 0, 0, 0, 0]),
                3 => (e.encode(gb::Comment::default()), vec![0x21, 0xFE, 0]),
                4 => (e.encode(gb::Application::default()), vec![0x21, 0xFF, 0]),
                5 => (e.encode(gb::PlainText::default()), vec![0x21, 1, 0]),
                6 => {
                    let mut w = z(10);
                    w[0] = 0x2C;
                    (e.encode(gb::ImageDesc::default()), w)
                }
                7 => (e.encode(gb::Trailer::default()), vec![0x3B]),
                _ => (e.encode(gb::GlobalColorTable::with_colors(&[1, 2, 3, 4, 5, 6])), vec![1, 2, 3, 4, 5, 6]),
            };
            drop(e);
            ctx.outcome(&o);
            if r.is_err() || o != want {
                return Err(format!("default block {i} is written as {}, want {}", hex(&o), hex(&want)));
            }
            Ok(())
        },
    ));
    v.push(family(
        "versions",
        "headers of versions with all values of two bytes at each place: written as given",
        65536 * 3,
        |i, ctx| {
            let (a, b) = (i as u8, (i >> 8) as u8);
            let n = [[a, b, b'a'], [a, b'9', b], [b'8', a, b]][(i >> 16) as usize];
            ctx.trace();
            ctx.steps(1);
            ctx.outcome(&n);
            let mut o = vec![];
            let r = Encoder::new(&mut o).into_block_enc().encode(gb::Header::with_version(n));
            if r.is_err() || o[..] != [b"GIF", &n[..]].concat() {
                return Err(format!("version {n:?} is written as {}", hex(&o)));
            }
            Ok(())
        },
    ));
    v.push(family(
        "table-lengths",
        "color tables of 0 to 1000 entries: written as given",
        1001 * 2,
        |i, ctx| {
            let c = noise(8, 3 * (i / 2) as usize);
            ctx.trace();
            ctx.steps(1);
            ctx.outcome(&i);
            let mut o = vec![];
            let mut e = Encoder::new(&mut o).into_block_enc();
            let r = if i % 2 == 0 {
                e.encode(gb::GlobalColorTable::with_colors(&c))
            } else {
                e.encode(gb::LocalColorTable::with_colors(&c))
            };
            drop(e);
            if r.is_err() || o != c {
                return Err(format!("table of {} entries is written as {} bytes: {}", i / 2, o.len(), hex(&o)));
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C17

#[derive(Clone)]
enum Op {
    Pre(Preamble),
    Frame(Frame),
    Trailer,
}

fn blocks_of(op: &Op) -> Vec<B> {
    match op {
        Op::Pre(p) => {
            let mut v = vec![
                B::Header(p.version),
                B::Lsd { w: p.w, h: p.h, flags: p.flags, bg: p.bg, aspect: p.aspect },
            ];
            v.extend(p.gct.iter().map(|c| B::Gct(c.clone())));
            v.extend(p.loop_ext.iter().map(|c| B::App(c.clone())));
            v.extend(p.comments.iter().map(|c| B::Comment(c.clone())));
            v
        }
        Op::Frame(f) => {
            let mut v = vec![];
            v.extend(f.gce.map(|(flags, delay, tidx)| B::Gce { flags, delay, tidx }));
            v.push(B::Desc { l: f.l, t: f.t, w: f.w, h: f.h, flags: f.flags });
            v.extend(f.lct.iter().map(|c| B::Lct(c.clone())));
            v.push(B::Data(f.px.clone()));
            v
        }
        Op::Trailer => vec![B::Trailer],
    }
}

/// Writer which can be looked at while an encoder owns it
#[derive(Clone, Default)]
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Shared {
    fn len(&self) -> usize {
        self.0.borrow().len()
    }
    fn get(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}

/// Make calls, compare with the protocol
fn calls(ctx: &mut Ctx, ops: &[&Op]) -> Check {
    ctx.trace();
    let w = Shared::default();
    let mut e = Encoder::new(w.clone()).into_frame_enc();
    // protocol state: 0 nothing, 1 preamble written, 2 trailer written
    let mut state = 0;
    let mut want: Vec<B> = vec![];
    for (n, op) in ops.iter().enumerate() {
        ctx.steps(1);
        ctx.state(&(state, blocks_of(op)));
        let before = w.len();
        let (r, legal) = match op {
            Op::Pre(p) => (e.encode_preamble(&to_pre(p)), state == 0),
            Op::Frame(f) => (e.encode_frame(&to_frame(f)), state == 1),
            Op::Trailer => (e.encode_trailer(), state == 1),
        };
        match (legal, r) {
            (true, Ok(())) => {
                want.extend(blocks_of(op));
                match op {
                    Op::Pre(_) => state = 1,
                    Op::Trailer => state = 2,
                    _ => (),
                }
            }
            (false, Err(er)) if ek(&er) == E::InvalidBlockSequence => {
                if w.len() != before {
                    return Err(format!("rejected call {n} writes {} bytes", w.len() - before));
                }
            }
            (_, r) => {
                return Err(format!(
                    "call {n} in state {state} returns {:?}, legal: {legal}",
                    r.map_err(|e| ek(&e))
                ));
            }
        }
    }
    let all = w.get();
    drop(e);
    if w.len() != all.len() {
        return Err("dropping the encoder writes".into());
    }
    ctx.outcome(&fp(&all[..]));
    if state == 0 {
        return if all.is_empty() { Ok(()) } else { Err("bytes without preamble".into()) };
    }
    let p = parse(&all, None);
    let end = if state == 2 { End::Trailer } else { End::Err(E::Eof) };
    if p.blocks != want || p.end != end || (state == 2 && p.used != all.len()) {
        return Err(format!(
            "written {}\n means {}\n want {}",
            short(&all),
            clipd(&p.blocks),
            clipd(&want)
        ));
    }
    // everything but the image data is prescribed to the byte
    let (mut off, mut lit) = (0, vec![]);
    for b in &want {
        if matches!(b, B::Data(_)) {
            break;
        }
        put(&mut lit, b);
    }
    off += lit.len();
    if all.get(..off) != Some(&lit[..]) {
        return Err(format!("written {}\n want {}", short(&all), short(&lit)));
    }
    // a file without frames has no preamble for the library
    if state == 2 && want.iter().any(|b| matches!(b, B::Data(_))) {
        let (pre, fr) = obs_pre_frames(&all[..], Some(None), ops.len() + 4);
        let wp = ops.iter().find_map(|o| if let Op::Pre(p) = o { Some(p.clone()) } else { None });
        if pre != Ok(wp) {
            return Err(format!("preamble decodes as {}", clipd(&pre)));
        }
        let mut wf = vec![];
        let mut st = 0;
        for o in ops {
            match o {
                Op::Pre(_) => st = st.max(1),
                Op::Frame(f) if st == 1 => wf.push(f.clone()),
                Op::Trailer if st == 1 => st = 2,
                _ => (),
            }
        }
        same("frames written", &all, &fr, &wf, &None, false)?;
    }
    Ok(())
}

/// Write a preamble, a frame and a trailer and compare with their blocks
fn as_given(ctx: &mut Ctx, p: &Preamble, f: &Frame) -> Check {
    ctx.trace();
    ctx.steps(3);
    let w = Shared::default();
    let mut e = Encoder::new(w.clone()).into_frame_enc();
    let r = e
        .encode_preamble(&to_pre(p))
        .and_then(|_| e.encode_frame(&to_frame(f)))
        .and_then(|_| e.encode_trailer());
    let all = w.get();
    let mut head = blocks_of(&Op::Pre(p.clone()));
    head.extend(blocks_of(&Op::Frame(f.clone())));
    head.pop();
    let head = put_all(&head);
    ctx.state(&fp(&head[..]));
    let err = |m: &str| Err(format!("{m}: {r:?}, written {}\n want {} and the image data", short(&all), short(&head)));
    if r.is_err() || !all.starts_with(&head) {
        return err("not written as given");
    }
    // the image data by itself, as if the size were right
    let mut x = put_all(&[B::Header(*b"89a"), B::Lsd { w: 9, h: 9, flags: 0, bg: 0, aspect: 0 }]);
    put(&mut x, &B::Desc { l: 0, t: 0, w: f.px.len() as u16, h: 1, flags: 0 });
    x.extend_from_slice(&all[head.len()..]);
    let g = parse(&x, None);
    if g.end != End::Trailer || g.used != x.len() || g.blocks.get(3) != Some(&B::Data(f.px.clone())) {
        return err("other pixels");
    }
    Ok(())
}

fn preamble(k: u64) -> Preamble {
    let d = digits(k, &[3, 3, 4, 2]);
    let n = [0, 2, 256][d[0] as usize];
    Preamble {
        version: if d[3] == 0 { *b"89a" } else { *b"87a" },
        w: 3 + k as u16,
        h: 700,
        flags: [0x71, 0x80, 0xFF][d[0] as usize],
        bg: 1,
        aspect: 49,
        gct: (n > 0).then(|| table(n, 60)),
        loop_ext: match d[1] {
            0 => None,
            1 => Some(vec![b"NETSCAPE2.0".to_vec(), vec![1, 0, 0]]),
            _ => Some(vec![b"ANIMEXTS1.0".to_vec(), vec![1, 0xFE, 0xFF]]),
        },
        comments: [
            vec![],
            vec![vec![b"one".to_vec()]],
            vec![vec![], vec![b"a".to_vec(), vec![0; 255]]],
            vec![vec![vec![1]], vec![vec![2]], vec![vec![1]]],
        ][d[2] as usize]
            .clone(),
    }
}
const PREAMBLES: u64 = 3 * 3 * 4 * 2;

fn frame(k: u64) -> Frame {
    let d = digits(k, &[4, 3, 3]);
    let (w, h) = [(1, 1), (3, 5), (0, 2)][d[2] as usize];
    Frame {
        gce: [None, Some((0, 0, 0)), Some((0x0D, 300, 2)), Some((0xFF, 65535, 255))][d[0] as usize],
        l: 2 * k as u16,
        t: 600,
        w,
        h,
        flags: [0x00, 0x81, 0x7F | 0xE7][d[1] as usize] & [0xFF, 0xFF, 0xE7][d[1] as usize],
        lct: [None, Some(table(4, 9)), Some(table(256, 8))][d[1] as usize].clone(),
        px: (0..w * h).map(|x| (x % 4) as u8).collect(),
    }
}
const FRAMES: u64 = 36;

pub fn c17(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ops: Arc<Vec<Op>> = Arc::new(vec![
        Op::Pre(preamble(0)),
        Op::Frame(frame(0)),
        Op::Trailer,
        Op::Pre(preamble(1 + 3 + 9)),
        Op::Frame(frame(2 + 4)),
        Op::Frame(frame(3 + 12)),
    ]);
    let depth = tier.pick(8, 9);
    v.push(family(
        "calls",
        format!("all sequences of up to {depth} calls of 2 preambles, 3 frames, trailer"),
        seq_count(6, depth),
        {
            let ops = ops.clone();
            move |i, ctx| {
                let s = seq_of(i, 6);
                ctx.sample(|| format!("{s:?}"));
                calls(ctx, &s.iter().map(|k| &ops[*k as usize]).collect::<Vec<_>>())
            }
        },
    ));
    let depth = tier.pick(12, 15);
    v.push(family(
        "long-calls",
        format!("all sequences of up to {depth} calls of preamble, frame, trailer"),
        seq_count(3, depth),
        {
            let ops = ops.clone();
            move |i, ctx| {
                let s = seq_of(i, 3);
                calls(ctx, &s.iter().map(|k| &ops[*k as usize]).collect::<Vec<_>>())
            }
        },
    ));
    v.push(family(
        "parts",
        "all combinations of optional parts: table none, 2, 256; loop count none, two kinds; four comment shapes; version; times all frames (control none, default, some, all bits; local table none, 4, 256; three sizes), with every kind of illegal call in between",
        PREAMBLES * FRAMES * 2,
        |i, ctx| {
            let d = digits(i, &[2, PREAMBLES, FRAMES]);
            let p = Op::Pre(preamble(d[1]));
            let f = Op::Frame(frame(d[2]));
            if d[0] == 0 {
                calls(ctx, &[&p, &f, &f, &Op::Trailer])
            } else {
                calls(
                    ctx,
                    &[&f, &Op::Trailer, &p, &p, &f, &p, &f, &Op::Trailer, &f, &p, &Op::Trailer],
                )
            }
        },
    ));
    v.push(family(
        "frame-pairs",
        "all pairs of frames after each other",
        FRAMES * FRAMES,
        |i, ctx| {
            let p = Op::Pre(preamble(1));
            let (a, b) = (Op::Frame(frame(i % FRAMES)), Op::Frame(frame(i / FRAMES)));
            calls(ctx, &[&p, &a, &b, &Op::Trailer])
        },
    ));
    v.push(family(
        "flags",
        "all screen flags, image flags (with tables) and control flags",
        256 * 3,
        |i, ctx| {
            let x = (i / 3) as u8;
            let (mut p, mut f) = (preamble(0), frame(0));
            match i % 3 {
                0 => {
                    p.flags = x;
                    p.gct = (x & 0x80 != 0).then(|| table(2 << (x & 7), 4));
                }
                1 => {
                    f.flags = x;
                    f.lct = (x & 0x80 != 0).then(|| table(2 << (x & 7), 4));
                }
                _ => f.gce = Some((x, x as u16 * 257, !x)),
            }
            calls(ctx, &[&Op::Pre(p), &Op::Frame(f), &Op::Trailer])
        },
    ));
    let most = tier.pick(1000, 4000);
    v.push(family(
        "many",
        format!("0..={most} and 70000 frames between preamble and trailer, 0..=300, 1001, 4097, 65537 comments in the preamble"),
        most + 2 + 304,
        move |i, ctx| {
            let mut p = preamble(1);
            let f: Vec<Op> = (0..4).map(|k| Op::Frame(frame(k * 7 % 24))).collect();
            let n = if i <= most {
                i
            } else if i == most + 1 {
                70_000
            } else {
                let n = match i - most - 2 {
                    n @ 0..=300 => n,
                    n => [1001, 4097, 65537][n as usize - 301],
                };
                p.comments = (0..n).map(|k| vec![le(k as u16).to_vec()]).collect();
                1
            };
            let p = Op::Pre(p);
            let mut ops = vec![&p];
            for k in 0..n {
                // one wrong call now and then
                if k % 64 == 63 {
                    ops.push(&p);
                }
                ops.push(&f[(k % if n > 1000 { 1 } else { 4 }) as usize]);
            }
            ops.push(&Op::Trailer);
            calls(ctx, &ops)
        },
    ));
    v.push(family(
        "as-given",
        "parts which do not fit together are written as they are: every screen flags with a global table of 0, 1, 2, 3, 255, 256, 257 entries or none, extensions in place of the loop count, every image flags with such a local table, pixels fewer or more than the image size",
        256 * 8 * 5,
        |i, ctx| {
            let d = digits(i, &[256, 8, 5]);
            let t = [0, 1, 2, 3, 255, 256, 257].get(d[1] as usize).map(|n| table(*n, 7));
            let (mut p, mut f) = (preamble(0), frame(0));
            p.loop_ext = [
                None,
                Some(vec![]),
                Some(vec![b"NETSCAPE2.0".to_vec()]),
                Some(vec![b"other".to_vec(), vec![1, 2, 3], vec![4]]),
                Some(vec![b"NETSCAPE2.0".to_vec(), vec![1, 2, 3], vec![4]]),
            ][d[2] as usize]
                .clone();
            if d[2] % 2 == 0 {
                (p.flags, p.gct) = (d[0] as u8, t);
            } else {
                (f.flags, f.lct) = (d[0] as u8, t);
                f.px = vec![1; d[1] as usize];
            }
            as_given(ctx, &p, &f)
        },
    ));
    v.push(special_family("special", "preamble and frames", |ctx, b| {
        let g = group(&parse(b, None));
        let Ok(pre) = g.preamble else { return Ok(()) };
        let mut ops = vec![Op::Pre(pre)];
        ops.extend(g.frames.into_iter().map(Op::Frame));
        ops.push(Op::Trailer);
        calls(ctx, &ops.iter().collect::<Vec<_>>())
    }));
    v.push(around_family("preamble and frames", |ctx, a| {
        let g = group(&parse(&a.file(), None));
        let Ok(pre) = g.preamble else { return Ok(()) };
        let mut ops = vec![Op::Pre(pre)];
        ops.extend(g.frames.into_iter().map(Op::Frame));
        ops.push(Op::Trailer);
        calls(ctx, &ops.iter().collect::<Vec<_>>())
    }));
    v.push(family(
        "geometry",
        "10 corner values of two of screen width and height, image left, top and one of image width and height",
        6 * 100,
        |i, ctx| {
            let d = digits(i, &[10, 10, 6]);
            let (x, y) = (CORNERS[d[0] as usize], CORNERS[d[1] as usize]);
            let mut p = preamble(0);
            let mut f = frame(0);
            match d[2] {
                0 => (p.w, p.h) = (x, y),
                1 => (f.l, f.t) = (x, y),
                2 => (f.l, f.w, f.h) = (x, y, 1),
                3 => (f.t, f.w, f.h) = (x, 1, y),
                4 => (p.w, f.l) = (x, y),
                _ => (p.h, f.t) = (x, y),
            }
            f.px = (0..f.w as usize * f.h as usize).map(|k| (k % 3) as u8).collect();
            calls(ctx, &[&Op::Pre(p), &Op::Frame(f), &Op::Trailer])
        },
    ));
    v
}

// ------------------------------------------------------------------ C18

/// Palette of `n` colors, most of which are in no other palette
fn palette(n: usize, tag: u8) -> Palette {
    let mut p = Palette::new(n);
    for i in 0..n {
        p.set_entry(SRgb8::new(i as u8, tag, (i >> 8) as u8 + 1));
    }
    p
}

/// Palette with given colors, which may repeat
fn exact(c: &[[u8; 3]]) -> Palette {
    let mut p = palette(c.len(), 255);
    for (i, c) in c.iter().enumerate() {
        p.replace_entry(i, SRgb8::new(c[0], c[1], c[2]));
    }
    p
}

fn rgb(p: &Palette) -> Vec<u8> {
    let mut v = vec![];
    for c in p.colors().iter().take(256) {
        use pix::rgb::Rgb;
        v.extend([u8::from(Rgb::red(*c)), u8::from(Rgb::green(*c)), u8::from(Rgb::blue(*c))]);
    }
    v
}

/// One step to encode
#[derive(Clone)]
struct In {
    w: u32,
    h: u32,
    px: Vec<u8>,
    pal: Palette,
    disposal: u8,
    transparent: Option<u8>,
    delay: Option<u16>,
}

fn step_of(s: &In) -> Step {
    let r = pix::Raster::with_u8_buffer(s.w, s.h, s.px.clone());
    Step::with_indexed(r, s.pal.clone())
        .with_disposal_method(s.disposal.into())
        .with_transparent_color(s.transparent)
        .with_delay_time_cs(s.delay)
}

/// What a plain step looks like
fn plain(w: u32, h: u32, px: Vec<u8>, pal: &Palette) -> In {
    In { w, h, px, pal: pal.clone(), disposal: 0, transparent: None, delay: None }
}

/// A setting of the step encoder
enum Set<'a> {
    Global(&'a Palette),
    Loops(u16),
}

/// Encode steps and compare what was written with what was given
fn written(
    ctx: &mut Ctx,
    steps: &[In],
    global: Option<&Palette>,
    loops: Option<u16>,
    decode: bool,
) -> Check {
    let mut v = vec![];
    v.extend(global.map(|g| (0, Set::Global(g))));
    v.extend(loops.map(|n| (0, Set::Loops(n))));
    written_set(ctx, steps, &v, decode)
}

/// Same, with settings made before given steps
fn written_set(ctx: &mut Ctx, steps: &[In], sets: &[(usize, Set)], decode: bool) -> Check {
    ctx.trace();
    let w = Shared::default();
    let mut e = Encoder::new(w.clone()).into_step_enc();
    let (mut global, mut loops) = (None, None);
    let mut took: Vec<&In> = vec![];
    for (n, s) in steps.iter().enumerate() {
        ctx.steps(1);
        for (at, set) in sets {
            // what is set after the first step comes too late
            match set {
                _ if *at != n => (),
                Set::Global(g) => {
                    e = e.with_global_color_table(g);
                    global = if took.is_empty() { Some(*g) } else { global };
                }
                Set::Loops(n) => {
                    e = e.with_loop_count(*n);
                    loops = if took.is_empty() { Some(*n) } else { loops };
                }
            }
        }
        let before = w.len();
        let r = e.encode_step(&step_of(s)).map_err(|e| ek(&e));
        let big = s.w > 65535 || s.h > 65535;
        let other = took.first().is_some_and(|f| (f.w, f.h) != (s.w, s.h));
        if big || other {
            // too large for the format and other than the first are two faults
            let ok = match &r {
                Err(E::InvalidRasterDims) => other,
                Err(E::TryFromInt) => big,
                _ => false,
            };
            if !ok {
                return Err(format!("step {n} of {}x{} returns {r:?}", s.w, s.h));
            }
            if w.len() != before {
                return Err(format!("rejected step {n} writes {} bytes", w.len() - before));
            }
            continue;
        }
        if r.is_err() {
            return Err(format!("step {n} returns {r:?}"));
        }
        took.push(s);
    }
    drop(e);
    let o = w.get();
    ctx.outcome(&fp(&o[..]));
    ctx.sample(|| short(&o));
    ctx.say(|| format!("written: {}", hex(&o)));
    let Some(first) = took.first() else {
        return if o.is_empty() {
            Ok(())
        } else {
            Err(format!("no step was encoded, but written is {}", short(&o)))
        };
    };
    let bad = |m: String| Err(format!("{m}\n written: {}", short(&o)));
    let p = parse(&o, None);
    if p.end != End::Trailer || p.used != o.len() {
        return bad(format!("not one complete GIF: {:?}, {} of {} bytes", p.end, p.used, o.len()));
    }
    let g = group(&p);
    let Ok(pre) = &g.preamble else { return bad("no preamble".into()) };
    if (pre.w as u32, pre.h as u32) != (first.w, first.h) {
        return bad(format!("screen of {}x{}", pre.w, pre.h));
    }
    if pre.loop_ext.as_ref().and_then(|l| loop_count(l)) != loops {
        return bad(format!("loop count {:?}, want {loops:?}", pre.loop_ext));
    }
    if g.frames.len() != took.len() {
        return bad(format!("{} frames, want {}", g.frames.len(), took.len()));
    }
    let gc = rgb(global.unwrap_or(&first.pal));
    if !pre.gct.as_ref().is_some_and(|t| t.starts_with(&gc)) {
        return bad("global table is not the configured one or that of the first step".into());
    }
    for (n, (s, f)) in took.iter().zip(&g.frames).enumerate() {
        ctx.state(&(n.min(2), f.lct.is_some(), f.gce, s.pal.len()));
        if (f.l, f.t, f.w as u32, f.h as u32) != (0, 0, s.w, s.h) || f.flags & 0x40 != 0 {
            return bad(format!("frame {n} is {}x{} at {},{}", f.w, f.h, f.l, f.t));
        }
        if f.px != s.px {
            return bad(format!("pixels of frame {n} differ"));
        }
        let eff = f.lct.as_ref().or(pre.gct.as_ref()).unwrap();
        if !eff.starts_with(&rgb(&s.pal)) {
            return bad(format!("colors of frame {n} differ (local table: {})", f.lct.is_some()));
        }
        // a smaller palette is another one even if the global table has its colors
        let size = |c: &[u8]| (c.len() / 3).max(2).next_power_of_two();
        if f.lct.is_none() && size(&rgb(&s.pal)) != size(&gc) {
            return bad(format!("palette of frame {n} is not carried by it"));
        }
        let want = (
            s.disposal << 2 | s.transparent.is_some() as u8,
            s.delay.unwrap_or(0),
            s.transparent.unwrap_or(0),
        );
        if f.gce.unwrap_or((0, 0, 0)) != want {
            return bad(format!("control of frame {n} is {:?}, want {want:?}", f.gce));
        }
    }
    if decode {
        let lv = Lv { blocks: false, frames: false, steps: true, looping: true };
        check_parsed(ctx, &o, Some(None), lv, &p)?;
    }
    Ok(())
}

pub fn c18(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // 3 entries; 4 which agree but for the last; 4 where the last is what
    // padding would be; shared beginnings
    let pals: Arc<Vec<Palette>> = Arc::new(vec![
        exact(&[[9, 8, 7], [6, 5, 4]]),
        exact(&[[9, 8, 7], [6, 5, 3]]),
        exact(&[[9, 8, 7], [6, 5, 4], [1, 1, 1]]),
        exact(&[[9, 8, 7], [6, 5, 4], [1, 1, 1], [0, 0, 0]]),
        exact(&[[9, 8, 7], [6, 5, 4], [1, 1, 1], [2, 2, 2]]),
        palette(256, 40),
        palette(300, 40),
        exact(&[[0, 0, 0]]),
    ]);
    let np = pals.len() as u64;
    let na = np * 2 + 1;
    let depth = tier.pick(4, 5);
    let configs = 5 * 3;
    v.push(family(
        "sequences",
        format!("all sequences of up to {depth} steps over {np} palettes (equal but for one entry, padding, shared beginnings, 256, 300, 1 entries), with and without control, and one of other dimensions; global table none or one of 4; loop count none, 0, 513"),
        seq_count(na, depth) * configs,
        {
            let pals = pals.clone();
            move |i, ctx| {
                let d = digits(i, &[5, 3, seq_count(na, depth)]);
                let s = seq_of(d[2], na);
                let mut steps = vec![];
                for (pos, k) in s.iter().enumerate() {
                    let p = &pals[(k / 2 % np) as usize];
                    let n = p.len().min(256);
                    let px: Vec<u8> = (0..4).map(|x| ((x * 85 + pos) % n) as u8).collect();
                    let mut t = plain(2, 2, px, p);
                    if k % 2 == 1 {
                        t.disposal = (pos % 3 + 1) as u8;
                        t.transparent = Some(pos as u8 % 2);
                        t.delay = Some(256 * pos as u16 + 7);
                    }
                    if *k == na - 1 {
                        (t.w, t.h) = (1, 4);
                    }
                    steps.push(t);
                }
                let g = [None, Some(0), Some(2), Some(4), Some(5)][d[0] as usize];
                let l = [None, Some(0), Some(513)][d[1] as usize];
                written(ctx, &steps, g.map(|k: usize| &pals[k]), l, true)
            }
        },
    ));
    let depth = tier.pick(5, 6);
    v.push(family(
        "settings",
        format!("all sequences of up to {depth} settings over 5 global tables and loop counts 0, 1, 65535, all before the first step, or the last before the second or third; the last one before the first step counts"),
        seq_count(8, depth) * 3,
        {
            let pals = pals.clone();
            move |i, ctx| {
                let s = seq_of(i / 3, 8);
                let mut sets: Vec<(usize, Set)> = s
                    .iter()
                    .map(|k| match k {
                        5 => (0, Set::Loops(0)),
                        6 => (0, Set::Loops(1)),
                        7 => (0, Set::Loops(65535)),
                        k => (0, Set::Global(&pals[[0, 3, 4, 5, 7][*k as usize]])),
                    })
                    .collect();
                if let Some(l) = sets.last_mut() {
                    l.0 = (i % 3) as usize;
                }
                let steps = [
                    plain(2, 1, vec![0, 1], &pals[2]),
                    plain(2, 1, vec![1, 3], &pals[4]),
                    plain(2, 1, vec![0, 1], &pals[0]),
                ];
                written_set(ctx, &steps, &sets, true)
            }
        },
    ));
    // palette sizes
    let sizes: Arc<Vec<Palette>> = Arc::new((1..=260).chain([300, 511, 512, 513, 1000]).map(|n| palette(n, 70)).collect());
    let ns = sizes.len() as u64;
    v.push(family(
        "palette-sizes",
        format!("palettes of 1..=260, 300, 511..=513, 1000 entries, all usable indices; in the first or second step, with no, the same, a smaller or a larger global table"),
        ns * 2 * 6,
        {
            let z = sizes.clone();
            move |i, ctx| {
                let d = digits(i, &[2, 6, ns]);
                let p = &z[d[2] as usize];
                let n = p.len().min(256);
                let a = plain(n as u32, 1, (0..n).map(|k| k as u8).collect(), p);
                let b = plain(n as u32, 1, vec![0; n], &z[1]);
                let g = match d[1] {
                    0 => None,
                    1 => Some(p.clone()),
                    2 => Some(z[(d[2] as usize).saturating_sub(1)].clone()),
                    3 => Some(z[(d[2] as usize + 1).min(z.len() - 1)].clone()),
                    4 => Some(z[255].clone()),
                    _ => Some(exact(&[[0, 0, 0], [0, 0, 0]])),
                };
                let s = if d[0] == 0 { vec![a, b] } else { vec![b, a] };
                written(ctx, &s, g.as_ref(), None, true)
            }
        },
    ));
    v.push(family(
        "palette-entries",
        "global table and palette of 2, 4, 16, 256 entries which differ in one channel of one entry (all of them)",
        (2 + 4 + 16 + 256) * 3,
        |i, ctx| {
            let (n, k) = match i / 3 {
                k @ 0..=1 => (2, k),
                k @ 2..=5 => (4, k - 2),
                k @ 6..=21 => (16, k - 6),
                k => (256, k - 22),
            };
            let c: Vec<[u8; 3]> = (0..n).map(|x| [x as u8, 100, 50]).collect();
            let mut c2 = c.clone();
            c2[k as usize][(i % 3) as usize] ^= 1;
            let px = vec![k as u8; 2];
            let (a, b) = (exact(&c), exact(&c2));
            let s = [plain(2, 1, px.clone(), &a), plain(2, 1, px.clone(), &b), plain(2, 1, px, &a)];
            written(ctx, &s, None, None, true)?;
            written(ctx, &s[..1], Some(&b), None, true)
        },
    ));
    v.push(family(
        "palette-orders",
        "palettes of the same 2..=6 colors in every order, or with the channels of their colors in every order, in the first and second step, with or without global table",
        (2 + 6 + 24 + 120 + 720 + 6) * 3,
        |i, ctx| {
            let c = [[1, 2, 3], [200, 100, 7], [0, 0, 255], [9, 9, 9], [255, 128, 64], [3, 2, 1]];
            let (mut k, mut n) = (i / 3, 2);
            let mut c2 = vec![];
            if k < 872 {
                let mut f = 2;
                while k >= f {
                    k -= f;
                    n += 1;
                    f *= n;
                }
                let mut left = c[..n as usize].to_vec();
                for m in (1..=n).rev() {
                    c2.push(left.remove((k % m) as usize));
                    k /= m;
                }
            } else {
                n = 4;
                let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k as usize - 872];
                c2 = c[..4].iter().map(|c| o.map(|k| c[k])).collect();
            }
            let px = vec![0, 1];
            let (a, b) = (exact(&c[..n as usize]), exact(&c2));
            let s = [plain(2, 1, px.clone(), &a), plain(2, 1, px, &b)];
            let g = [None, Some(&a), Some(&b)][(i % 3) as usize];
            written(ctx, &s, g, None, true)
        },
    ));
    v.push(family(
        "palette-bytes",
        "every value of two bytes next to each other in the palette of the second step: all 3 places in a color and the next",
        65536 * 3,
        |i, ctx| {
            let c = [[1, 2, 3], [200, 100, 7], [0, 0, 255], [9, 9, 9]];
            let mut f: Vec<u8> = c.concat();
            let k = 3 + i as usize % 3;
            f[k..k + 2].copy_from_slice(&le((i / 3) as u16));
            let c2: Vec<[u8; 3]> = f.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
            let s = [plain(2, 1, vec![0, 1], &exact(&c)), plain(2, 1, vec![1, 2], &exact(&c2))];
            written(ctx, &s, None, None, false)
        },
    ));
    // controls
    let two = pals[4].clone();
    v.push(family(
        "delays",
        "all delays, with and without transparency, in the first or second step",
        65536 * 4,
        {
            let two = two.clone();
            move |i, ctx| {
                let d = digits(i, &[65536, 2, 2]);
                let mut a = plain(1, 1, vec![1], &two);
                let b = a.clone();
                a.delay = Some(d[0] as u16);
                a.transparent = (d[1] == 1).then_some(2);
                let s = if d[2] == 0 { [a, b] } else { [b, a] };
                written(ctx, &s, None, None, false)
            }
        },
    ));
    v.push(family(
        "controls",
        "disposal 0..=7, all transparent indices or none, delays none, 0, 1, 65535; two steps",
        8 * 257 * 4,
        {
            let two = two.clone();
            move |i, ctx| {
                let d = digits(i, &[8, 257, 4]);
                let mut a = plain(2, 1, vec![1, 2], &two);
                a.disposal = d[0] as u8;
                a.transparent = (d[1] < 256).then_some(d[1] as u8);
                a.delay = [None, Some(0), Some(1), Some(65535)][d[2] as usize];
                let b = plain(2, 1, vec![2, 3], &two);
                written(ctx, &[a.clone(), b, a], None, Some(3), true)
            }
        },
    ));
    v.push(family(
        "control-sequences",
        "all sequences of up to 4 steps over 9 controls (none; delay, transparency, disposal alone and together)",
        seq_count(9, 4),
        {
            let two = two.clone();
            move |i, ctx| {
                let s = seq_of(i, 9);
                let steps: Vec<In> = s
                    .iter()
                    .enumerate()
                    .map(|(pos, k)| {
                        let mut a = plain(2, 1, vec![pos as u8 % 4, 1], &two);
                        if *k < 8 {
                            a.delay = (k & 1 != 0).then_some(1 + pos as u16);
                            a.transparent = (k & 2 != 0).then_some(pos as u8 % 2);
                            a.disposal = if k & 4 != 0 { 1 + pos as u8 % 3 } else { 0 };
                        } else {
                            a.transparent = Some(0);
                            a.delay = Some(0);
                        }
                        a
                    })
                    .collect();
                written(ctx, &steps, None, None, true)
            }
        },
    ));
    v.push(family(
        "equal-steps",
        "all sequences of up to 4 steps over 3 rasters, each with 3 controls, where equal steps are equal in everything",
        seq_count(9, 4),
        {
            let two = two.clone();
            move |i, ctx| {
                let steps: Vec<In> = seq_of(i, 9)
                    .iter()
                    .map(|k| {
                        let mut a = plain(2, 1, [[0, 0], [0, 1], [3, 2]][(k / 3) as usize].to_vec(), &two);
                        if k % 3 > 0 {
                            a.delay = Some(5);
                            a.transparent = (k % 3 == 2).then_some(0);
                            a.disposal = *k as u8 % 4;
                        }
                        a
                    })
                    .collect();
                written(ctx, &steps, None, None, true)
            }
        },
    ));
    v.push(family(
        "loop-counts",
        "all loop counts",
        65536,
        {
            let two = two.clone();
            move |i, ctx| written(ctx, &[plain(1, 1, vec![1], &two)], None, Some(i as u16), false)
        },
    ));
    // dimensions
    let side: [u32; 13] = [1, 2, 3, 4, 255, 256, 257, 258, 511, 512, 513, 65535, 65536];
    v.push(family(
        "dimensions",
        "ordered pairs of sizes over 13 widths and heights from 1 to 65536 (area up to 140000): second size accepted only if equal, first only if representable; a third step of the first size after it",
        (13 * 13) * (13 * 13),
        {
            let two = two.clone();
            move |i, ctx| {
                let d = digits(i, &[13, 13, 13, 13]);
                let s: Vec<u32> = d.iter().map(|k| side[*k as usize]).collect();
                let (aa, ab) = (s[0] as u64 * s[1] as u64, s[2] as u64 * s[3] as u64);
                if aa.max(ab) > 140_000 || aa + ab > 3000 && (d[0] + d[1] + 2 * d[2] + 3 * d[3]) % 4 != 0 && d[0] != d[2] && d[1] != d[3] {
                    return Ok(());
                }
                let a = plain(s[0], s[1], vec![1; aa as usize], &two);
                let b = plain(s[2], s[3], vec![2; ab as usize], &two);
                written(ctx, &[a.clone(), b, a], None, None, false)
            }
        },
    ));
    v.push(family(
        "nothing",
        "no step at all, or only steps too large, with every configuration",
        6 * 5 * 3,
        {
            let pals = pals.clone();
            move |i, ctx| {
                let d = digits(i, &[6, 5, 3]);
                let p = &pals[4];
                let wide = plain(65536, 1, vec![0; 65536], p);
                let high = plain(1, 65536, vec![0; 65536], p);
                let ok = plain(1, 1, vec![0], p);
                let s = match d[0] {
                    0 => vec![],
                    1 => vec![wide],
                    2 => vec![high],
                    3 => vec![wide, high],
                    4 => vec![wide.clone(), ok.clone(), wide, ok],
                    _ => vec![high, ok],
                };
                let g = [None, Some(0), Some(2), Some(5), Some(7)][d[1] as usize];
                let l = [None, Some(0), Some(65535)][d[2] as usize];
                written(ctx, &s, g.map(|k: usize| &pals[k]), l, true)
            }
        },
    ));
    // rasters
    v.push(family(
        "rasters",
        "all 3x2 rasters over 4 indices, and rasters of noise over palettes of every power of two at sizes up to 200x90",
        4096 + 8 * 6,
        {
            let (two, z) = (two.clone(), sizes.clone());
            move |i, ctx| {
                if i < 4096 {
                    let px = (0..6).map(|k| (i >> (2 * k) & 3) as u8).collect();
                    return written(ctx, &[plain(3, 2, px, &two)], None, None, true);
                }
                let d = digits(i - 4096, &[8, 6]);
                let (w, h) = [(1, 1), (16, 16), (17, 15), (64, 64), (200, 90), (1, 300)][d[1] as usize];
                let bits = d[0] as u8 + 1;
                let px = noise(bits.into(), (w * h) as usize);
                let p = &z[(1 << bits) - 1];
                let a = plain(w, h, px.clone(), p);
                let mut b = a.clone();
                b.px.reverse();
                b.transparent = Some(1);
                written(ctx, &[a, b], None, None, true)
            }
        },
    ));
    let most = tier.pick(1000, 4000);
    v.push(family(
        "many",
        format!("1..={most} and 70000 steps alternating between two palettes every k steps (k in 1, 3)"),
        (most + 1) * 2,
        {
            let pals = pals.clone();
            move |i, ctx| {
                let n = if i / 2 == most { 70_000 } else { i / 2 + 1 };
                let k = 1 + 2 * (i % 2);
                let s: Vec<In> = (0..n)
                    .map(|x| {
                        let mut t = plain(1, 1, vec![(x % 2) as u8], &pals[(x / k % 2) as usize]);
                        t.delay = Some(x as u16);
                        t
                    })
                    .collect();
                written(ctx, &s, None, None, n < 10_000)
            }
        },
    ));
    v.push(family(
        "unwinding",
        "0..=6 steps of 1..=3 x 1..=3 pixels, the encoder dropped while a panic unwinds: written as if dropped by itself",
        7 * 9,
        |i, ctx| {
            let d = digits(i, &[7, 3, 3]);
            let (w, h) = (d[1] as u32 + 1, d[2] as u32 + 1);
            let pal = palette(4, 3);
            let steps: Vec<In> =
                (0..d[0]).map(|k| plain(w, h, vec![k as u8 % 4; (w * h) as usize], &pal)).collect();
            written(ctx, &steps, None, None, true)?;
            let out = [false, true].map(|panics| {
                let o = Shared::default();
                let mut e = Encoder::new(o.clone()).into_step_enc();
                for s in &steps {
                    e.encode_step(&step_of(s)).unwrap();
                }
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _e = e;
                    if panics {
                        // does not call the panic hook
                        std::panic::resume_unwind(Box::new(()));
                    }
                }));
                o.get()
            });
            ctx.trace();
            if out[0] != out[1] {
                return Err(format!("{} written when dropped in a panic, not {}", short(&out[1]), short(&out[0])));
            }
            Ok(())
        },
    ));
    v
}
