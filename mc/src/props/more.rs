//! C24 to C28: preamble at any time, blocks built by hand, errors and their
//! causes, copying, streaming
use super::stream::{Shared, streams};
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use gift::block as gb;
use gift::{Decoder, Encoder, Step};
use pix::Raster;
use pix::gray::Gray8;
use pix::rgb::SRgba8;
use std::cell::Cell;
use std::error::Error as _;
use std::io::{ErrorKind, Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

// ------------------------------------------------------------------ C24

/// Run a schedule: `asks[k]` times preamble() before the k-th next().
/// The files follow each other in one stream.
pub(super) fn asking(ctx: &mut Ctx, files: &[&[u8]], asks: impl Fn(usize) -> usize) -> Check {
    let all = files.concat();
    let mut it = decoder(&all[..], None).into_frames();
    let call = Cell::new(0usize);
    ctx.trace();
    'files: for (k, file) in files.iter().enumerate() {
        let p = parse(file, Some(DEFAULT_LIMIT));
        let g = group(&p);
        let bad = |what: String| {
            Err(format!("GIF {k}, call {}: {what}\n input: {}", call.get(), short(&all)))
        };
        // what the next preamble() must give
        let mut first = true;
        let mut n = 0;
        loop {
            for _ in 0..asks(call.get()) {
                ctx.steps(1);
                let got = it.preamble();
                let got = got.map(|p| p.as_ref().map(pre)).map_err(|e| ek(&e));
                if first {
                    first = false;
                    match (&got, &g.preamble) {
                        (Ok(Some(a)), Ok(b)) if a == b => (),
                        // at the end of a GIF without frames
                        (Err(a), Err(b)) if a == b && g.end == End::Trailer => {
                            ctx.outcome(&(k, 0));
                            continue 'files;
                        }
                        (Err(a), Err(b)) if a == b => {
                            ctx.outcome(&(k, 0));
                            return Ok(());
                        }
                        (a, b) => {
                            return bad(format!("preamble() gives {}, not {}", clipd(a), clipd(b)));
                        }
                    }
                } else if got != Ok(None) {
                    return bad(format!(
                        "preamble() after the beginning ({n} frames read) gives {}",
                        clipd(&got)
                    ));
                }
                ctx.state(&(k, n, first, &g.frames.len()));
            }
            call.set(call.get() + 1);
            ctx.steps(1);
            first = false;
            let got = it.next().map(|r| r.map(|f| fr(&f)).map_err(|e| ek(&e)));
            let want = match (g.frames.get(n), &g.end) {
                (Some(f), _) => Some(Ok(f.clone())),
                (None, End::Err(e)) => Some(Err(e.clone())),
                (None, End::Trailer) => None,
            };
            if got != want {
                return bad(format!("frame {n} is {}, not {}", clipd(&got), clipd(&want)));
            }
            n += 1;
            match got {
                Some(Ok(_)) => (),
                Some(Err(_)) => return Ok(()),
                None => break,
            }
        }
        ctx.outcome(&(k, n, call.get()));
    }
    Ok(())
}

pub fn c24(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let depth = tier.pick(5, 6);
    for gct in [true, false] {
        v.push(family(
            format!("files-{}", if gct { "gct" } else { "nogct" }),
            format!("all files of up to {depth} of {ITEMS} block groups; preamble() 0, 1 or 2 times before each next(), all combinations"),
            seq_count(ITEMS, depth),
            move |i, ctx| {
                let f = put_all(&seq_file(&seq_of(i, ITEMS), gct, true));
                let g = group(&parse(&f, None));
                let calls = g.frames.len() as u32 + 1;
                for c in 0..3u64.pow(calls) {
                    asking(ctx, &[&f], |k| (c / 3u64.pow(k as u32) % 3) as usize)?;
                }
                Ok(())
            },
        ));
    }
    v.push(family(
        "variants",
        format!("all files of up to {depth} of {ITEMS} block groups, {VARIANTS_TEXT}; preamble() or not before each next(), all combinations"),
        seq_count(ITEMS, depth) * VARIANTS,
        move |i, ctx| {
            let f = put_all(&variant_file(&seq_of(i / VARIANTS, ITEMS), i % VARIANTS, true, true));
            let g = group(&parse(&f, None));
            for c in 0..1u64 << (g.frames.len() + 1) {
                asking(ctx, &[&f], |k| (c >> k & 1) as usize)?;
            }
            Ok(())
        },
    ));
    let st = Arc::new(streams(1));
    let n = st.len() as u64;
    v.push(family(
        "pairs",
        format!("all ordered pairs of {n} GIFs in one stream, preamble() or not before each next() (the first 6), all combinations"),
        n * n * 64,
        {
            let s = st.clone();
            move |i, ctx| {
                let d = digits(i, &[64, n, n]);
                let f = [&s[d[1] as usize][..], &s[d[2] as usize][..]];
                asking(ctx, &f, |k| if k < 6 { (d[0] >> k) as usize & 1 } else { k & 1 })
            }
        },
    ));
    v.push(family(
        "cuts",
        "every prefix of the base files, preamble() never, always, or twice in every place",
        base_files().len() as u64,
        |i, ctx| {
            let (_, f) = &base_files()[i as usize];
            for n in 0..f.len() {
                for a in 0..3 {
                    asking(ctx, &[&f[..n]], |_| a)?;
                }
                // only late
                asking(ctx, &[&f[..n]], |k| (k > 0) as usize)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "many",
        "300 frames with comments in between: preamble() before every k-th next(), k in 1..=300",
        300,
        |i, ctx| {
            let mut b = screen(4, 4, Some(2));
            b.push(B::Comment(vec![b"first".to_vec()]));
            b.push(loop_ext(7));
            for k in 0..300 {
                b.extend(item(2, k % 90));
                b.extend(item(0, k % 90));
                if k % 3 == 0 {
                    b.push(loop_ext(k as u16));
                }
            }
            b.push(B::Trailer);
            let f = put_all(&b);
            asking(ctx, &[&f], |k| (k as u64 % (i + 1) == i) as usize)
        },
    ));
    v.push(special_family("special", "asked before every frame, twice before every other, before the first and third, never; followed by itself", |ctx, b| {
        asking(ctx, &[b], |_| 1)?;
        asking(ctx, &[b, b], |c| 2 * (c % 2))?;
        asking(ctx, &[b], |c| (c == 0 || c == 2) as usize)?;
        asking(ctx, &[b, b], |_| 0)
    }));
    v.push(around_family("asked before every frame, and never", |ctx, a| {
        let b = a.file();
        asking(ctx, &[&b], |_| 1)?;
        asking(ctx, &[&b, &b], |_| 0)
    }));
    v
}

// ------------------------------------------------------------------ C25

/// Run something which may panic as documented
fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// Block which holds sub-blocks
trait Subs: Clone + PartialEq + Default + std::fmt::Debug + Into<gb::Block> {
    fn add(&mut self, b: &[u8]);
    fn get(&self) -> Vec<Vec<u8>>;
}
impl Subs for gb::Comment {
    fn add(&mut self, b: &[u8]) {
        self.add_comment(b)
    }
    fn get(&self) -> Vec<Vec<u8>> {
        self.comments().to_vec()
    }
}
impl Subs for gb::PlainText {
    fn add(&mut self, b: &[u8]) {
        self.add_sub_block(b)
    }
    fn get(&self) -> Vec<Vec<u8>> {
        self.sub_blocks().to_vec()
    }
}
impl Subs for gb::Application {
    fn add(&mut self, b: &[u8]) {
        self.add_app_data(b)
    }
    fn get(&self) -> Vec<Vec<u8>> {
        self.app_data().to_vec()
    }
}
impl Subs for gb::Unknown {
    fn add(&mut self, b: &[u8]) {
        self.add_sub_block(b)
    }
    /// The identifier counts as the first
    fn get(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        if !self.ext_id().is_empty() {
            v.push(self.ext_id().to_vec());
        }
        v.extend(self.sub_blocks().iter().cloned());
        v
    }
}

/// Add pieces one after another; only those of 1 to 255 bytes are taken
fn adding<T: Subs>(ctx: &mut Ctx, pieces: &[Vec<u8>]) -> Check {
    let mut b = T::default();
    let mut want: Vec<Vec<u8>> = vec![];
    if !b.get().is_empty() {
        return Err(format!("not empty at first: {b:?}"));
    }
    ctx.trace();
    for p in pieces {
        ctx.steps(1);
        let before = b.clone();
        let ok = !p.is_empty() && p.len() < 256;
        if panics(|| b.add(p)) == ok {
            return Err(format!("piece of {} bytes: taken is {}", p.len(), !ok));
        }
        if ok {
            want.push(p.clone());
        }
        ctx.state(&want);
        if b.get() != want {
            return Err(format!("{} pieces: {}", want.len(), clipd(&b)));
        }
        if (b == before) == ok {
            return Err(format!("equality after adding: {}", clipd(&b)));
        }
        if before.get().len() + ok as usize != want.len() {
            return Err("copy changes with the original".into());
        }
    }
    if b.clone() != b || !b.clone().into().has_sub_blocks() {
        return Err(format!("copy differs: {}", clipd(&b)));
    }
    ctx.outcome(&want.len());
    Ok(())
}

fn adding_kind(ctx: &mut Ctx, kind: u64, pieces: &[Vec<u8>]) -> Check {
    match kind {
        0 => adding::<gb::Comment>(ctx, pieces),
        1 => adding::<gb::PlainText>(ctx, pieces),
        2 => adding::<gb::Application>(ctx, pieces),
        _ => adding::<gb::Unknown>(ctx, pieces),
    }
}

/// Small set of blocks, all different
fn some_blocks() -> Vec<B> {
    let mut v = vec![B::Header(*b"89a"), B::Header(*b"87a"), B::Trailer];
    for k in 0..5u32 {
        let n = [0u16; 5].map(|_| 0);
        let mut f = n;
        f[k as usize] = 1;
        v.push(B::Lsd { w: f[0] + 9, h: f[1], flags: f[2] as u8, bg: f[3] as u8, aspect: f[4] as u8 });
        v.push(B::Desc { l: f[0], t: f[1], w: f[2], h: f[3], flags: f[4] as u8 * 0x40 });
    }
    v.push(B::Lsd { w: 0, h: 0, flags: 0, bg: 0, aspect: 0 });
    v.push(B::Desc { l: 0, t: 0, w: 0, h: 0, flags: 0 });
    for (flags, delay, tidx) in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 256, 0), (0, 0, 1), (4, 0, 0)] {
        v.push(gce(flags, delay, tidx));
    }
    for t in [table(2, 1), table(2, 2), table(4, 1), vec![]] {
        v.push(B::Gct(t.clone()));
        v.push(B::Lct(t));
    }
    for s in [vec![], vec![vec![1]], vec![vec![1], vec![1]], vec![vec![1, 1]], vec![vec![2]]] {
        v.push(B::Comment(s.clone()));
        v.push(B::App(s.clone()));
        v.push(B::Text(s.clone()));
        v.push(B::Unknown(0x10, s.clone()));
        v.push(B::Unknown(0x11, s));
    }
    for d in [vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![1, 0]] {
        v.push(B::Data(d));
    }
    v
}

pub fn c25(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family(
        "table-sizes",
        "global and local tables of 0..=1000 bytes: taken exactly if divisible by 3, and then kept",
        1001 * 2,
        |i, ctx| {
            let n = (i / 2) as usize;
            let c: Vec<u8> = noise(8, n);
            ctx.trace();
            ctx.steps(1);
            ctx.state(&(i % 2, n));
            let mut got = None;
            let p = panics(|| {
                got = Some(if i % 2 == 0 {
                    let t = gb::GlobalColorTable::with_colors(&c);
                    (t.len(), t.is_empty(), t.colors().to_vec(), t == t.clone())
                } else {
                    let t = gb::LocalColorTable::with_colors(&c);
                    (t.len(), t.is_empty(), t.colors().to_vec(), t == t.clone())
                })
            });
            ctx.outcome(&(p, n / 3));
            let want = (n % 3 == 0).then(|| (n / 3, n == 0, c.clone(), true));
            if got != want || p != want.is_none() {
                return Err(format!("table of {n} bytes: {}", clipd(&got)));
            }
            Ok(())
        },
    ));
    v.push(family(
        "piece-sizes",
        "comment, text, application and unknown extension: pieces of all pairs of sizes 0..=300 (second every 3rd, and around 255)",
        301 * 4,
        |i, ctx| {
            let a = (i / 4) as usize;
            for b in (0..=300).filter(|b| b % 3 == 0 || (250..260).contains(b)) {
                adding_kind(ctx, i % 4, &[vec![7; a], vec![9; b]])?;
            }
            Ok(())
        },
    ));
    let depth = tier.pick(7, 8);
    v.push(family(
        "pieces",
        format!("all sequences of up to {depth} pieces of 0, 1 (two values), 2, 255 or 256 bytes"),
        seq_count(6, depth) * 4,
        |i, ctx| {
            let s = seq_of(i / 4, 6);
            let p: Vec<Vec<u8>> = s
                .iter()
                .enumerate()
                .map(|(k, x)| match x {
                    0 => vec![],
                    1 => vec![0],
                    2 => vec![k as u8 + 1],
                    3 => vec![k as u8, 0],
                    4 => vec![k as u8; 255],
                    _ => vec![1; 256],
                })
                .collect();
            adding_kind(ctx, i % 4, &p)
        },
    ));
    v.push(family(
        "same-pieces",
        "all sequences of up to 7 pieces of 1, 2, 4, 11 or 255 bytes, the same at every place",
        seq_count(5, 7) * 4,
        |i, ctx| {
            let p: Vec<Vec<u8>> = seq_of(i / 4, 5).iter().map(|x| vec![7; [1, 2, 4, 11, 255][*x as usize]]).collect();
            adding_kind(ctx, i % 4, &p)
        },
    ));
    v.push(family(
        "many-pieces",
        "255..=258, 1000, 4097, 65537 and 70000 pieces of 1 or 5 bytes, different or the same",
        8 * 2 * 2 * 4,
        |i, ctx| {
            let d = digits(i, &[8, 2, 2, 4]);
            let n = [255, 256, 257, 258, 1000, 4097, 65537, 70000][d[0] as usize];
            let p: Vec<Vec<u8>> = (0..n).map(|k| vec![1 + (k % 200) as u8 * d[1] as u8; 1 + 4 * d[2] as usize]).collect();
            ctx.trace();
            ctx.steps(n);
            ctx.state(&d);
            fn all<T: Subs>(p: &[Vec<u8>]) -> bool {
                let mut b = T::default();
                p.iter().for_each(|p| b.add(p));
                b.get() == p && b.clone() == b && b.clone().get() == p
            }
            let ok = match d[3] {
                0 => all::<gb::Comment>(&p),
                1 => all::<gb::PlainText>(&p),
                2 => all::<gb::Application>(&p),
                _ => all::<gb::Unknown>(&p),
            };
            ctx.outcome(&ok);
            if !ok {
                return Err(format!("{n} pieces are not kept as they are"));
            }
            Ok(())
        },
    ));
    let bs = Arc::new(some_blocks());
    let n = bs.len() as u64;
    v.push(family(
        "equality",
        format!("all pairs of {n} blocks: equal exactly if the same; kind, fields and has_sub_blocks of each"),
        n * n,
        move |i, ctx| {
            let (a, b) = (&bs[(i / n) as usize], &bs[(i % n) as usize]);
            let (x, y) = (to_block(a), to_block(b));
            ctx.trace();
            ctx.steps(1);
            ctx.state(a);
            ctx.outcome(&(a == b));
            if (x == y) != (a == b) || (x != y) != (a != b) {
                return Err(format!("{x:?} and {y:?}: equal is {}", x == y));
            }
            let subs = matches!(
                a,
                B::Comment(_) | B::App(_) | B::Text(_) | B::Unknown(..) | B::Gce { .. } | B::Data(_)
            );
            if bk(&x) != *a || x.clone() != x || x.has_sub_blocks() != subs {
                return Err(format!("{a:?} becomes {x:?}, sub-blocks {}", x.has_sub_blocks()));
            }
            Ok(())
        },
    ));
    v.push(family(
        "long-equality",
        "image data of 18 lengths up to 70000, tables of 256 entries, extensions of up to 300 sub-blocks of 255 bytes: one byte changed (each of 41 places from the first to the last, each bit), one left out or added at the end",
        (18 + 2 + 4 * 3) * 41,
        |i, ctx| {
            const N: [usize; 18] = [
                1, 2, 100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 70000,
            ];
            let (what, at) = ((i / 41) as usize, (i % 41) as usize);
            let n = match what {
                ..18 => N[what],
                18 | 19 => 768,
                k => 255 * [2, 17, 300][(k - 20) % 3],
            };
            let make = |px: &[u8]| match what {
                ..18 => B::Data(px.to_vec()),
                18 => B::Gct(px.to_vec()),
                19 => B::Lct(px.to_vec()),
                k => {
                    let p = px.chunks(255).map(|c| c.to_vec()).collect();
                    match (k - 20) / 3 {
                        0 => B::Comment(p),
                        1 => B::Text(p),
                        2 => B::App(p),
                        _ => B::Unknown(0x77, p),
                    }
                }
            };
            let px = noise(8, n);
            let a = to_block(&make(&px));
            let pos = (n - 1) * at / 40;
            ctx.state(&(what, pos));
            let mut others = vec![];
            for bit in 0..8 {
                let mut p = px.clone();
                p[pos] ^= 1 << bit;
                others.push(p);
            }
            // a table keeps its length divisible by 3
            let k = if (18..20).contains(&what) { 3 } else { 1 };
            if n > k {
                others.push(px[..n - k].to_vec());
            }
            others.push([&px[..], &vec![0; k]].concat());
            for p in others {
                ctx.trace();
                ctx.steps(1);
                let b = to_block(&make(&p));
                if a == b || b == a || !(a != b) {
                    return Err(format!("{} bytes changed at {pos}: still equal ({})", n, clipd(&a)));
                }
            }
            let b = to_block(&make(&px));
            ctx.outcome(&(what, pos));
            if a != b || a.clone() != b || bk(&a.clone()) != make(&px) {
                return Err(format!("{n} bytes: not equal to the same ({})", clipd(&a)));
            }
            Ok(())
        },
    ));
    v.push(family(
        "image-size",
        "image size of all widths with 9 heights, and all heights with 9 widths",
        65536,
        |i, ctx| {
            ctx.trace();
            for k in [0u16, 1, 2, 255, 256, 257, 32768, 65534, 65535] {
                for (w, h) in [(i as u16, k), (k, i as u16)] {
                    ctx.steps(1);
                    let got = desc(3, 4, w, h, 0xC7).image_sz();
                    if got != w as usize * h as usize {
                        return Err(format!("image size of {w}x{h} is {got}"));
                    }
                }
            }
            ctx.outcome(&i);
            Ok(())
        },
    ));
    v.push(family(
        "loop-counts",
        "applications of all 65536 loop counts: name, parameters, count, equality",
        65536,
        |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            let n = i as u16;
            let a = gb::Application::with_loop_count(n);
            let [lo, hi] = n.to_le_bytes();
            let want = [b"NETSCAPE2.0".to_vec(), vec![1, lo, hi]];
            let mut b = gb::Application::default();
            for s in &want {
                b.add_app_data(s);
            }
            ctx.outcome(&a.loop_count());
            if a.app_data().iter().ne(want.iter()) || a.loop_count() != Some(n) || a != b {
                return Err(format!("application of loop count {n} is {a:?}"));
            }
            if a == gb::Application::with_loop_count(n ^ 1) || a == gb::Application::with_loop_count(n ^ 256) {
                return Err(format!("application of loop count {n} equals another"));
            }
            Ok(())
        },
    ));
    v.push(family(
        "raster-data",
        "image data from all rasters of up to 3x3 over 3 values (up to 4x2 over 4 in all shapes), of every size up to 40x40, of 1 to 3000 rows or columns by 1, 2 or 3, and long ones",
        19683 + 65536 + 1600 + 3 * 3000 + 8,
        |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            let (w, h, px) = if i < 19683 {
                (3, 3, (0..9).map(|k| (i / 3u64.pow(k) % 3) as u8 * 127).collect())
            } else if i < 19683 + 65536 {
                let i = i - 19683;
                let (w, h) = [(8, 1), (1, 8), (4, 2), (2, 4)][(i % 4) as usize];
                (w, h, (0..8).map(|k| (i >> (2 * k)) as u8 & 3).collect::<Vec<u8>>())
            } else if i < 19683 + 65536 + 1600 {
                let i = i - 19683 - 65536;
                let (w, h) = (i as u32 % 40 + 1, i as u32 / 40 + 1);
                (w, h, noise(8, (w * h) as usize))
            } else {
                let i = (i - 19683 - 65536 - 1600) as u32;
                let (w, h) = match i.checked_sub(9000) {
                    None => (i / 3 + 1, i % 3 + 1),
                    Some(k) => [(32767, 1), (32769, 2), (65535, 1), (65535, 3), (65536, 1), (65537, 1), (70000, 2), (200000, 1)][k as usize],
                };
                let px = noise(8, (w * h) as usize);
                let r = Raster::<Gray8>::with_u8_buffer(h, w, px.clone());
                if gb::ImageData::from(&r).data() != px {
                    return Err(format!("image data of a {h}x{w} raster differs"));
                }
                (w, h, px)
            };
            ctx.state(&(w, h));
            let r = Raster::<Gray8>::with_u8_buffer(w, h, px.clone());
            let d = gb::ImageData::from(&r);
            ctx.outcome(&px);
            if d.data() != px || d != image_data(&px) {
                return Err(format!("image data of a {w}x{h} raster: {:?}, not {px:?}", d.data()));
            }
            Ok(())
        },
    ));
    v.push(family(
        "frames",
        "frames of all values of each geometry field (others corners), all control flags with 4 indices, with or without table: every accessor",
        65536,
        |i, ctx| {
            ctx.trace();
            let x = i as u16;
            let mut g = [3u16, 258, 7, 513];
            for k in 0..4 {
                let keep = g[k];
                g[k] = x;
                let with = k != 0 && x % 251 != 250;
                let c = with.then_some((x as u8, x.wrapping_mul(3), (x >> 8) as u8));
                let want = Frame {
                    gce: c,
                    l: g[0],
                    t: g[1],
                    w: g[2],
                    h: g[3],
                    flags: (x >> 3) as u8,
                    lct: (k == 2 || x % 97 == 0).then(|| table(2, x as u8)),
                    px: vec![x as u8; 3],
                };
                ctx.steps(1);
                let f = to_frame(&want);
                let r = f.region();
                let (fl, _, ti) = c.unwrap_or((0, 0, 0));
                if fr(&f) != want
                    || [f.left(), f.top(), f.width(), f.height()] != g
                    || (r.left(), r.top()) != (g[0] as i32, g[1] as i32)
                    || (r.width(), r.height()) != (g[2] as u32, g[3] as u32)
                    || u8::from(f.disposal_method()) != (fl >> 2) & 7
                    || f.transparent_color() != (fl & 1 != 0).then_some(ti)
                {
                    return Err(format!("frame {} of {}", clipd(&f), clipd(&want)));
                }
                let p = gb::Preamble {
                    logical_screen_desc: lsd(g[0], g[3], 0, 0, 0),
                    ..Default::default()
                };
                if (p.screen_width(), p.screen_height()) != (g[0], g[3]) {
                    return Err(format!("screen size of {p:?}"));
                }
                g[k] = keep;
            }
            ctx.outcome(&i);
            Ok(())
        },
    ));
    v.push(family(
        "cloned-steps",
        "indexed steps of up to 2x2 pixels over 3 values, copied, with settings before or after: the copy is written like the original",
        81 * 16,
        |i, ctx| {
            let px: Vec<u8> = (0..4).map(|k| (i / 16 / 3u64.pow(k) % 3) as u8).collect();
            let mut pal = pix::Palette::new(4);
            for k in 0..4 {
                pal.set_entry(pix::rgb::SRgb8::new(k * 9, 7, 255 - k));
            }
            let set = |s: Step| {
                s.with_delay_time_cs(Some((i % 2) as u16 * 300))
                    .with_transparent_color((i & 2 != 0).then_some(1))
                    .with_disposal_method(((i >> 2) as u8 & 3).into())
            };
            ctx.trace();
            ctx.steps(2);
            let make = || set(Step::with_indexed(Raster::with_u8_buffer(2, 2, px.clone()), pal.clone()));
            // change the one copied from
            let (orig, s) = (make(), make());
            let c = s.clone();
            let _ = s.with_delay_time_cs(Some(9)).with_transparent_color(Some(2));
            let w = |s: &Step| {
                let mut o = vec![];
                let mut e = Encoder::new(&mut o).into_step_enc();
                let r = e.encode_step(s).map_err(|e| ek(&e));
                drop(e);
                (r, o)
            };
            let (a, b) = (w(&orig), w(&c));
            ctx.outcome(&b.1);
            if a != b || a.0.is_err() || c.delay_time_cs().unwrap_or(0) != (i % 2) as u16 * 300 {
                return Err(format!("copy of step is written as {b:?}, original {a:?}"));
            }
            Ok(())
        },
    ));
    v.push(family(
        "true-color",
        "true color steps of all rasters of up to 2x2 pixels over 4 colors (opaque, transparent, half), of every width or height 1..=300 and 1000, with all orders of delay, transparency and disposal, copied or not: the raster and the settings are as given",
        (4 + 16 * 2 + 256 + 301 * 2) * 16 * 2,
        |i, ctx| {
            let d = digits(i, &[2, 16, 4 + 32 + 256 + 602]);
            let side = |k: u64| if k == 300 { 1000 } else { k as u32 + 1 };
            let (w, h, k) = match d[2] {
                k @ ..4 => (1, 1, k),
                k @ ..20 => (2, 1, k - 4),
                k @ ..36 => (1, 2, k - 20),
                k @ ..292 => (2, 2, k - 36),
                k @ ..593 => (side(k - 292), 2, k),
                k => (3, side(k - 593), k),
            };
            let clr = |n: u64| {
                let [r, g, b, a] = [[1, 2, 3, 255], [0, 0, 0, 0], [255, 128, 0, 128], [255; 4]][n as usize];
                SRgba8::new(r, g, b, a)
            };
            let px: Vec<SRgba8> = match d[2] {
                ..292 => (0..w * h).map(|j| clr(k / 4u64.pow(j) % 4)).collect(),
                _ => (0..w * h).map(|j| SRgba8::new(j as u8, (j >> 8) as u8, k as u8, 255 - j as u8)).collect(),
            };
            let make = || Step::with_true_color(Raster::with_pixels(w, h, px.clone()));
            let mut s = make();
            let order: [u8; 3] = match d[1] / 4 {
                0 => [0, 1, 2],
                1 => [2, 1, 0],
                2 => [1, 0, 2],
                _ => [2, 0, 1],
            };
            let (delay, clear) = (if d[1] & 1 == 1 { 777 } else { 0 }, (d[1] & 2 == 2).then_some(k as u8));
            for o in order {
                s = match o {
                    0 => s.with_delay_time_cs(Some(delay)),
                    1 => s.with_transparent_color(clear),
                    _ => s.with_disposal_method(gb::DisposalMethod::Previous),
                };
            }
            if d[0] == 1 {
                let c = s.clone();
                let _ = s.with_delay_time_cs(Some(5)).with_transparent_color(Some(6));
                s = c;
            }
            ctx.trace();
            ctx.steps(4);
            ctx.outcome(&(w, h, delay, clear));
            let r = s.raster();
            if (r.width(), r.height()) != (w, h) || r.pixels() != &px[..] {
                return Err(format!("raster of a {w}x{h} true color step differs"));
            }
            if s.delay_time_cs().unwrap_or(0) != delay || s.transparent_color() != clear {
                return Err(format!("settings of a {w}x{h} true color step: {:?} {:?}", s.delay_time_cs(), s.transparent_color()));
            }
            Ok(())
        },
    ));
    v.push(family(
        "screen-sizes",
        "screens of all pairs of 40 widths and heights, other fields equal or different: of equal size exactly if width and height are",
        40 * 40 * 2,
        |i, ctx| {
            let d = digits(i, &[2, 40, 40]);
            let side = |k: u64| [k, k, 255, 256, 257, 258, 511, 512, 32767, 32768, 65534, 65535][(k as usize).saturating_sub(27).min(11)] as u16;
            let make = |w, h, x| {
                gb::LogicalScreenDesc::default()
                    .with_screen_width(w)
                    .with_screen_height(h)
                    .with_flags(if x { 0xF7 } else { 0 })
                    .with_background_color_idx(9 * x as u8)
            };
            let (w, h) = (side(d[1]), side(d[2]));
            let a = make(w, h, false);
            ctx.trace();
            for x in 0..40 {
                for y in 0..40 {
                    let (v, u) = (side(x), side(y));
                    let same = a.equal_size(make(v, u, d[0] == 1));
                    ctx.steps(1);
                    if same != ((v, u) == (w, h)) {
                        return Err(format!("screens of {w}x{h} and {v}x{u}: equal size {same}"));
                    }
                }
            }
            ctx.outcome(&(w == h));
            Ok(())
        },
    ));
    v.push(family(
        "cloned-sizes",
        "steps of every palette size 1..=256 and of every width or height 1..=300 and 1000, copied once or twice: written like the original",
        (256 + 301 * 2) * 2,
        |i, ctx| {
            let k = (i / 2) as u32;
            let side = |k| if k == 300 { 1000 } else { k + 1 };
            let (n, w, h) = match k {
                ..256 => (k + 1, 16, 16),
                k if k < 557 => (200, side(k - 256), 3),
                k => (9, 2, side(k - 557)),
            };
            let mut pal = pix::Palette::new(n as usize);
            for j in 0..n {
                pal.set_entry(pix::rgb::SRgb8::new(j as u8, 255 - j as u8 / 2, 7));
            }
            let px: Vec<u8> = (0..w * h).map(|j| (j * 7 % n) as u8).collect();
            let s = Step::with_indexed(Raster::with_u8_buffer(w, h, px), pal)
                .with_delay_time_cs(Some(k as u16))
                .with_transparent_color((k % 3 == 0).then_some(k as u8));
            let mut c = s.clone();
            if i % 2 == 1 {
                c = c.clone();
            }
            ctx.trace();
            ctx.steps(2);
            let put = |s: &Step| {
                let mut o = vec![];
                let mut e = Encoder::new(&mut o).into_step_enc();
                let r = e.encode_step(s).map_err(|e| ek(&e));
                drop(e);
                (r, o)
            };
            let (a, b) = (put(&s), put(&c));
            ctx.outcome(&b.1);
            if a != b || a.0.is_err() || c.transparent_color() != s.transparent_color() || c.delay_time_cs() != s.delay_time_cs() {
                return Err(format!("copy of a {w}x{h} step with {n} colors is written as {}, original {}", short(&b.1), short(&a.1)));
            }
            // a decoded step
            let first = |m: &[u8]| Decoder::new(m).into_steps().next().and_then(|s| s.ok());
            let (Some(s), Some(t)) = (first(&a.1), first(&b.1)) else {
                return Err(format!("step of {w}x{h} with {n} colors is not read back"));
            };
            let c = s.clone();
            let same = |x: &Step, y: &Step| {
                let (p, q) = (x.raster(), y.raster());
                p.width() == q.width() && p.pixels() == q.pixels() && x.transparent_color() == y.transparent_color() && x.delay_time_cs() == y.delay_time_cs()
            };
            if !same(&c, &s) || !same(&s, &t) {
                return Err(format!("copy of a decoded {w}x{h} step with {n} colors differs"));
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C26

/// Cause of an injected error
#[derive(Debug, PartialEq, Clone, Copy)]
struct Cause(u32);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cause {}", self.0)
    }
}
impl std::error::Error for Cause {}

const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::Other,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
];

/// Error number `k`: a kind with a cause, a kind alone, or one of the system
fn io_error(k: u32) -> std::io::Error {
    let kind = KINDS[k as usize % KINDS.len()];
    match k as usize / KINDS.len() {
        0 => std::io::Error::new(kind, Cause(k)),
        1 => kind.into(),
        // system errors which are not interruptions
        2 => std::io::Error::from_raw_os_error(
            [
                1, 2, 5, 12, 13, 17, 22, 28, 32, 104, 110, 111, 9, 16, 21, 27, 95, 30, 113, 101,
                100, 99, 20, 39, 116, 29, 122, 26, 35, 31, 7, 11, 14, 0, -1, 500,
            ][k as usize % KINDS.len()],
        ),
        _ => match k - IO_ERRORS {
            4 => std::io::Error::from_raw_os_error(i32::MIN),
            n @ 0..400 => std::io::Error::from_raw_os_error(n as i32),
            n @ 400..500 => std::io::Error::from_raw_os_error(399 - n as i32),
            502 => std::io::Error::from_raw_os_error(i32::MAX),
            n => std::io::Error::from_raw_os_error(1 << (n - 500)),
        },
    }
}
/// Further ones: all system errors
const OS_ERRORS: u32 = 400 + 100 + 31;
const IO_ERRORS: u32 = 3 * KINDS.len() as u32;

/// Is this the error injected, with everything it carries?
fn is_error(e: &gift::Error, k: u32) -> Check {
    let want = io_error(k);
    let gift::Error::Io(io) = e else {
        return Err(format!("error {e:?} instead of {want:?}"));
    };
    let cause = |e: &std::io::Error| e.get_ref().and_then(|c| c.downcast_ref::<Cause>()).copied();
    let src = e.source().and_then(|s| s.downcast_ref::<std::io::Error>());
    if io.kind() != want.kind()
        || io.raw_os_error() != want.raw_os_error()
        || cause(io) != cause(&want)
        || e.to_string() != want.to_string()
        || src.map(|s| (s.kind(), cause(s), s.to_string()))
            != Some((want.kind(), cause(&want), want.to_string()))
    {
        return Err(format!("error {e:?} ({e}) instead of {want:?} ({want})"));
    }
    Ok(())
}

struct FailRd<'a>(&'a [u8], usize, u32);
impl Read for FailRd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        if n == 0 && !b.is_empty() {
            return Err(io_error(self.2));
        }
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

struct FailWr(usize, u32);
impl Write for FailWr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 && !b.is_empty() {
            return Err(io_error(self.1));
        }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The first error of an iterator
fn first_err<T>(mut it: impl Iterator<Item = gift::Result<T>>) -> Option<gift::Error> {
    it.find_map(|r| r.err())
}

fn other_errors() -> Vec<gift::Error> {
    use gift::Error::*;
    vec![
        MalformedHeader,
        UnsupportedVersion(*b"88a"),
        InvalidBlockCode,
        InvalidBlockSequence,
        MalformedGraphicControlExtension,
        UnexpectedEndOfFile,
        InvalidLzwData,
        TooLargeImage,
        IncompleteImageData,
        InvalidFrameDimensions,
        MissingColorTable,
        InvalidColorIndex,
        InvalidRasterDimensions,
    ]
}

pub fn c26(_tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family(
        "values",
        "each I/O error converted, displayed and asked for its source; the same for number conversion errors; other errors have no source, and all texts differ",
        IO_ERRORS as u64 + 2,
        |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            ctx.outcome(&i);
            if i < IO_ERRORS as u64 {
                return is_error(&io_error(i as u32).into(), i as u32);
            }
            if i == IO_ERRORS as u64 {
                let t = u8::try_from(300u32).unwrap_err();
                let e: gift::Error = t.into();
                let src = e.source().and_then(|s| s.downcast_ref::<std::num::TryFromIntError>());
                if ek(&e) != E::TryFromInt || e.to_string() != t.to_string() || src != Some(&t) {
                    return Err(format!("{e:?} ({e}) of {t:?}"));
                }
                return Ok(());
            }
            let es = other_errors();
            for (k, e) in es.iter().enumerate() {
                ctx.state(&k);
                if e.source().is_some() || e.to_string().is_empty() {
                    return Err(format!("{e:?}: text {:?}, source {:?}", e.to_string(), e.source()));
                }
                for f in &es[..k] {
                    if f.to_string() == e.to_string() {
                        return Err(format!("{e:?} and {f:?} have the same text"));
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(family(
        "system",
        "system errors -100..400 but interruptions, all powers of two, the least and the largest: converted, by a reader at every 7th position and by a writer",
        OS_ERRORS as u64,
        |i, ctx| {
            let k = IO_ERRORS + i as u32;
            is_error(&io_error(k).into(), k)?;
            let mut bs = screen(2, 1, Some(1));
            bs.push(gce(1, 2, 3));
            bs.extend(image(0, 0, 2, 1, vec![1, 2]));
            bs.push(B::Trailer);
            let f = put_all(&bs);
            ctx.outcome(&i);
            for at in (0..f.len()).step_by(7) {
                ctx.trace();
                ctx.steps(1);
                let d = || decoder(FailRd(&f, at, k), None);
                for e in [first_err(d().into_blocks()), first_err(d().into_frames()), first_err(d().into_steps())] {
                    let Some(e) = e else {
                        return Err(format!("no error with the reader failing after {at} bytes"));
                    };
                    is_error(&e, k).map_err(|m| format!("{m}\n reader failing after {at} bytes"))?;
                }
                let mut enc = Encoder::new(FailWr(at, k)).into_block_enc();
                let e = bs.iter().find_map(|b| enc.encode(to_block(b)).err());
                let Some(e) = e else {
                    return Err(format!("no error with the writer failing after {at} bytes"));
                };
                is_error(&e, k).map_err(|m| format!("{m}\n writer failing after {at} bytes"))?;
            }
            Ok(())
        },
    ));
    let files = Arc::new(streams(1));
    v.push(family(
        "reading",
        format!("a reader failing at every position of {} files with each of {IO_ERRORS} errors: blocks, frames, preamble, steps, looping steps", files.len()),
        files.len() as u64,
        {
            let files = files.clone();
            move |i, ctx| {
                let f = &files[i as usize];
                let p = parse(f, Some(DEFAULT_LIMIT));
                let g = group(&p);
                let c = compose(&g, Some(DEFAULT_LIMIT), false);
                let far = if f.len() > 700 { 97 } else { 1 };
                for at in (0..p.used).step_by(far) {
                    // all errors at some positions, one at the others
                    let ks: Vec<u32> = if at % 13 == 0 {
                        (0..IO_ERRORS).collect()
                    } else {
                        vec![(at as u32 * 7 + i as u32) % IO_ERRORS]
                    };
                    // faults of the file which come first
                    let q = parse(&f[..at], Some(DEFAULT_LIMIT));
                    let qg = group(&q);
                    let qc = compose(&qg, Some(DEFAULT_LIMIT), false);
                    for k in ks {
                        let d = |lv: u32| {
                            let d = decoder(FailRd(f, at, k), None);
                            match lv {
                                0 => first_err(d.into_blocks()),
                                1 => first_err(d.into_frames()),
                                2 => d.into_frames().preamble().err(),
                                3 => first_err(d.into_steps()),
                                _ => first_err(d.into_iter()),
                            }
                        };
                        for lv in 0..5 {
                            ctx.trace();
                            ctx.steps(1);
                            ctx.outcome(&(k, lv));
                            let e = d(lv);
                            let earlier = match lv {
                                0 => q.end != End::Err(E::Eof),
                                1 => qg.end != End::Err(E::Eof),
                                2 => qg.preamble != Err(E::Eof),
                                _ => qc.err != Some(E::Eof),
                            };
                            if earlier {
                                continue;
                            }
                            let Some(e) = e else {
                                return Err(format!("no error with the reader failing after {at} bytes, level {lv}\n input: {}", short(f)));
                            };
                            is_error(&e, k)
                                .map_err(|m| format!("{m}\n reader failing after {at} bytes, level {lv}\n input: {}", short(f)))?;
                        }
                    }
                }
                let _ = (g, c);
                Ok(())
            }
        },
    ));
    v.push(family(
        "writing",
        format!("a writer failing at every position of the output of {} files with each of {IO_ERRORS} errors: block, frame and step encoder", files.len()),
        files.len() as u64,
        move |i, ctx| {
            let f = &files[i as usize];
            let p = parse(f, Some(DEFAULT_LIMIT));
            if p.end != End::Trailer {
                return Ok(());
            }
            let g = group(&p);
            let bs: Vec<gb::Block> = p.blocks.iter().map(to_block).collect();
            let write = |w: FailWr, lv: u32| -> gift::Result<()> {
                match lv {
                    0 => {
                        let mut e = Encoder::new(w).into_block_enc();
                        for b in &bs {
                            e.encode(b.clone())?;
                        }
                    }
                    1 => {
                        let mut e = Encoder::new(w).into_frame_enc();
                        if let Ok(p) = &g.preamble {
                            e.encode_preamble(&to_pre(p))?;
                            for f in &g.frames {
                                e.encode_frame(&to_frame(f))?;
                            }
                            e.encode_trailer()?;
                        }
                    }
                    _ => {
                        let mut e = Encoder::new(w).into_step_enc();
                        for f in &g.frames {
                            if f.w == 0 || f.h == 0 || (f.w, f.h) != (g.frames[0].w, g.frames[0].h) {
                                continue;
                            }
                            let mut pal = pix::Palette::new(256);
                            for k in 0..=255 {
                                pal.set_entry(pix::rgb::SRgb8::new(k, 1, 2));
                            }
                            let r = Raster::with_u8_buffer(f.w as u32, f.h as u32, f.px.clone());
                            e.encode_step(&Step::with_indexed(r, pal))?;
                        }
                    }
                }
                Ok(())
            };
            for lv in 0..3 {
                let mut at = 0;
                loop {
                    let ks: Vec<u32> = if at % 13 == 0 {
                        (0..IO_ERRORS).collect()
                    } else {
                        vec![(at as u32 * 7 + i as u32) % IO_ERRORS]
                    };
                    let mut over = false;
                    for k in ks {
                        ctx.trace();
                        ctx.steps(1);
                        ctx.outcome(&(k, 10 + lv));
                        match write(FailWr(at, k), lv) {
                            Ok(()) => over = true,
                            Err(e) => is_error(&e, k)
                                .map_err(|m| format!("{m}\n writer failing after {at} bytes, level {lv}\n input: {}", short(f)))?,
                        }
                    }
                    if over {
                        break;
                    }
                    at += if at > 700 { 97 } else { 1 };
                }
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C27

/// Copy a GIF frame by frame
fn copy(f: &[u8]) -> Result<Vec<u8>, String> {
    let go = || -> gift::Result<Vec<u8>> {
        let mut o = vec![];
        let mut e = Encoder::new(&mut o).into_frame_enc();
        let mut it = decoder(f, None).into_frames();
        if let Some(p) = it.preamble()? {
            e.encode_preamble(&p)?;
        }
        for f in it {
            e.encode_frame(&f?)?;
        }
        e.encode_trailer()?;
        drop(e);
        Ok(o)
    };
    go().map_err(|e| format!("copying fails: {e:?}\n input: {}", short(f)))
}

/// Copy block by block
fn copy_blocks(f: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_block_enc();
    for b in decoder(f, None).into_blocks() {
        b.and_then(|b| e.encode(b))
            .map_err(|e| format!("copying blocks fails: {e:?}\n input: {}", short(f)))?;
    }
    drop(e);
    Ok(o)
}

pub fn copying(ctx: &mut Ctx, f: &[u8]) -> Check {
    let p = parse(f, Some(DEFAULT_LIMIT));
    if p.odd || p.end != End::Trailer {
        return Ok(());
    }
    ctx.trace();
    ctx.steps(p.blocks.len());
    let b = copy_blocks(f)?;
    let q = parse(&b, Some(DEFAULT_LIMIT));
    if q.blocks != p.blocks || q.end != p.end || q.used != b.len() {
        return Err(format!("copy of blocks differs: {}\n input: {}", short(&b), short(f)));
    }
    let g = group(&p);
    if g.end != End::Trailer || g.preamble.is_err() || g.frames.is_empty() {
        return Ok(());
    }
    ctx.trace();
    ctx.steps(g.frames.len() + 2);
    for f in &g.frames {
        ctx.state(f);
    }
    let b = copy(f)?;
    let q = parse(&b, Some(DEFAULT_LIMIT));
    let h = group(&q);
    if h != g || q.used != b.len() {
        return Err(format!("copy differs: {}\n input: {}", short(&b), short(f)));
    }
    let c = compose(&g, Some(DEFAULT_LIMIT), false);
    let d = compose(&h, Some(DEFAULT_LIMIT), false);
    let got = obs_steps(&b[..], None, b.len());
    if c != d {
        return Err(format!("animation of the copy differs: {}\n input: {}", short(&b), short(f)));
    }
    same("steps of the copy", &b, &got, &c.steps, &c.err, false)?;
    // a copy of the copy
    if copy(&b)? != b {
        return Err(format!("copy of the copy differs from {}\n input: {}", short(&b), short(f)));
    }
    ctx.outcome(&b);
    Ok(())
}

pub fn c27(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let depth = tier.pick(4, 5);
    for gct in [true, false] {
        v.push(family(
            format!("sequences-{}", if gct { "gct" } else { "nogct" }),
            format!("all sequences of up to {depth} of {ITEMS} block groups"),
            seq_count(ITEMS, if gct { depth } else { depth - 1 }),
            move |i, ctx| copying(ctx, &put_all(&seq_file(&seq_of(i, ITEMS), gct, true))),
        ));
    }
    v.push(family(
        "variants",
        format!("all sequences of up to {depth} of {ITEMS} block groups, {VARIANTS_TEXT}"),
        seq_count(ITEMS, depth) * VARIANTS,
        move |i, ctx| copying(ctx, &put_all(&variant_file(&seq_of(i / VARIANTS, ITEMS), i % VARIANTS, true, true))),
    ));
    let st = Arc::new(streams(2));
    v.push(family(
        "mutants",
        "all single-byte substitutions of a corpus of files, where the result is well-formed",
        st.len() as u64,
        move |i, ctx| {
            let mut f = st[i as usize].clone();
            copying(ctx, &f)?;
            if f.len() > 1000 {
                return Ok(());
            }
            for at in 0..f.len() {
                let was = f[at];
                for x in 0..=255 {
                    f[at] = x;
                    // sizes far beyond the data cannot be well-formed
                    copying(ctx, &f)?;
                }
                f[at] = was;
            }
            Ok(())
        },
    ));
    v.push(family(
        "flags",
        "all pairs of screen flags and image flags, with the tables they announce",
        65536,
        |i, ctx| {
            let (s, d) = (i as u8, (i >> 8) as u8);
            let mut b = vec![header(), B::Lsd { w: 3, h: 5, flags: s, bg: d, aspect: s }];
            if s & 0x80 != 0 {
                b.push(B::Gct(table(2 << (s & 7), 9)));
            }
            b.push(gce(d, 3, s));
            b.push(B::Desc { l: 1, t: 0, w: 2, h: 5, flags: d });
            if d & 0x80 != 0 {
                b.push(B::Lct(table(2 << (d & 7), 77)));
            }
            b.push(B::Data(vec![0, 1, 1, 0, 0, 0, 1, 1, 0, 1]));
            b.push(B::Trailer);
            copying(ctx, &put_all(&b))
        },
    ));
    v.push(family(
        "data",
        "images of 1..=3000 pixels of each code size by another compressor: codes of every size in use, sub-blocks of 1, 7, 255 bytes, pixels and bytes beyond the end",
        3000 * 7,
        |i, ctx| {
            let n = (i / 7) as usize + 1;
            let m = (i % 7) as u8 + 2;
            if n > 300 && n % 53 != 7 {
                return Ok(());
            }
            let px = noise(m as u32, n);
            let l = lzw_plain(m, &px);
            for chunk in [1, 7, 255] {
                copying(ctx, &raw_image(n as u16, 1, m - 1, m, &l, chunk, true))?;
                copying(ctx, &raw_image(n as u16 - 1, 1, m - 1, m, &l, chunk, true))?;
            }
            let mut l = l;
            l.extend([0x3B; 20]);
            copying(ctx, &raw_image(n as u16, 1, 7, m, &l, 255, true))
        },
    ));
    v.push(family(
        "many",
        "1..=400 frames with rotating parts",
        400,
        |i, ctx| {
            let mut b = screen(4, 4, Some(2));
            for k in 0..=i {
                let pos = (k % 90) as usize;
                if k % 3 == 1 {
                    b.extend(item(1, pos));
                }
                b.extend(item([2, 3, 9][(k % 3) as usize], pos));
            }
            b.push(B::Trailer);
            copying(ctx, &put_all(&b))
        },
    ));
    v.push(special_family("special", "copies", copying));
    v.push(around_family("copies", |ctx, a| {
        if a.small() {
            copying(ctx, &a.file())?;
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C28

/// Nothing is read beyond the item delivered
fn reading(ctx: &mut Ctx, f: &[u8]) -> Check {
    let p = parse(f, Some(DEFAULT_LIMIT));
    if p.odd {
        return Ok(());
    }
    let g = group(&p);
    let c = compose(&g, Some(DEFAULT_LIMIT), false);
    let pos = Cell::new(0);
    let rd = || {
        pos.set(0);
        decoder(Shared { data: f, pos: &pos }, None)
    };
    let bad = |what: &str, n: usize, want: usize| {
        Err(format!("{} bytes taken from the reader at {what} {n}, which ends at {want}\n input: {}", pos.get(), short(f)))
    };
    ctx.trace();
    ctx.steps(p.blocks.len());
    let mut it = rd().into_blocks();
    if pos.get() != 0 {
        return bad("creation of the block iterator", 0, 0);
    }
    for (n, e) in p.ends.iter().enumerate() {
        ctx.state(&(n, e));
        if !matches!(it.next(), Some(Ok(b)) if bk(&b) == p.blocks[n]) || pos.get() != *e {
            return bad("block", n, *e);
        }
    }
    drop(it);
    // where frames and the first part of a frame end
    let mut ends = vec![];
    let mut first = None;
    for (b, e) in p.blocks.iter().zip(&p.ends) {
        match b {
            B::Data(_) => ends.push(*e),
            B::Gce { .. } | B::Desc { .. } if first.is_none() => first = Some(*e),
            _ => (),
        }
    }
    ctx.trace();
    ctx.steps(g.frames.len());
    let mut it = rd().into_frames();
    if pos.get() != 0 {
        return bad("creation of the frame iterator", 0, 0);
    }
    for (n, e) in ends.iter().take(g.frames.len()).enumerate() {
        if !matches!(it.next(), Some(Ok(_))) || pos.get() != *e {
            return bad("frame", n, *e);
        }
    }
    drop(it);
    if let (Some(e), Ok(_)) = (first, &g.preamble) {
        let mut it = rd().into_frames();
        if !matches!(it.preamble(), Ok(Some(_))) || pos.get() > e {
            return bad("preamble before", 0, e);
        }
        for (n, e) in ends.iter().take(g.frames.len()).enumerate() {
            if !matches!(it.next(), Some(Ok(_))) || pos.get() != *e {
                return bad("frame after preamble", n, *e);
            }
        }
    }
    ctx.trace();
    ctx.steps(c.steps.len());
    let mut it = rd().into_steps();
    if pos.get() != 0 {
        return bad("creation of the step iterator", 0, 0);
    }
    for (n, e) in ends.iter().take(c.steps.len()).enumerate() {
        if !matches!(it.next(), Some(Ok(_))) || pos.get() != *e {
            return bad("step", n, *e);
        }
    }
    ctx.outcome(&p.ends);
    Ok(())
}

/// Sink which can be looked at while an encoder owns it
#[derive(Clone, Default)]
struct Tap(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Write for Tap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Nothing is held back after a call
fn writing(ctx: &mut Ctx, f: &[u8]) -> Check {
    let p = parse(f, Some(DEFAULT_LIMIT));
    if p.odd || p.end != End::Trailer {
        return Ok(());
    }
    let g = group(&p);
    // what is there must be exactly these blocks
    let there = |t: &Tap, what: &str, n: usize, want: &dyn Fn(&Parsed) -> bool| -> Check {
        let o = t.0.borrow();
        let q = parse(&o, Some(DEFAULT_LIMIT));
        let whole = q.ends.last().copied().unwrap_or(0) == o.len();
        if !whole || !want(&q) {
            return Err(format!("after {what} {n} the writer has {}\n input: {}", short(&o), short(f)));
        }
        Ok(())
    };
    ctx.trace();
    ctx.steps(p.blocks.len());
    let t = Tap::default();
    let mut e = Encoder::new(t.clone()).into_block_enc();
    let mut last = 0;
    for (n, b) in p.blocks.iter().enumerate() {
        let r = e.encode(to_block(b)).map_err(|e| ek(&e));
        if r.is_err() {
            return Err(format!("block {n}: {r:?}\n input: {}", short(f)));
        }
        if p.blocks.len() <= 40 || n % 16 == 0 || n + 1 == p.blocks.len() {
            there(&t, "block", n, &|q| q.blocks == p.blocks[..=n])?;
        } else if t.0.borrow().len() <= last {
            return Err(format!("nothing written for block {n}\n input: {}", short(f)));
        }
        last = t.0.borrow().len();
    }
    drop(e);
    if t.0.borrow().len() != last {
        return Err(format!("more is written when the block encoder is dropped\n input: {}", short(f)));
    }
    let Ok(pre) = &g.preamble else { return Ok(()) };
    if g.end != End::Trailer {
        return Ok(());
    }
    ctx.trace();
    ctx.steps(g.frames.len() + 2);
    let t = Tap::default();
    let mut e = Encoder::new(t.clone()).into_frame_enc();
    let mut n = 0;
    let r = e.encode_preamble(&to_pre(pre));
    there(&t, "preamble", 0, &|q| r.is_ok() && q.end == End::Err(E::Eof) && group(q).frames.is_empty() && q.blocks.len() >= 2)?;
    for fr in &g.frames {
        let r = e.encode_frame(&to_frame(fr));
        n += 1;
        if g.frames.len() <= 40 || n % 16 == 0 {
            there(&t, "frame", n - 1, &|q| {
                let h = group(q);
                r.is_ok() && h.frames == g.frames[..n] && h.preamble.as_ref() == Ok(pre) && q.end == End::Err(E::Eof)
            })?;
        }
    }
    let r = e.encode_trailer();
    there(&t, "trailer", 0, &|q| r.is_ok() && q.end == End::Trailer)?;
    let len = t.0.borrow().len();
    drop(e);
    if t.0.borrow().len() != len {
        return Err(format!("more is written when the frame encoder is dropped\n input: {}", short(f)));
    }
    // steps: whole frames after each call, and the trailer at the end
    let Some(f0) = g.frames.first() else { return Ok(()) };
    if f0.w == 0 || f0.h == 0 {
        return Ok(());
    }
    let t = Tap::default();
    let mut e = Encoder::new(t.clone()).into_step_enc();
    let mut n = 0;
    ctx.trace();
    for fr in g.frames.iter().filter(|f| (f.w, f.h) == (f0.w, f0.h)).take(40) {
        let mut pal = pix::Palette::new(256);
        for k in 0..=255 {
            pal.set_entry(pix::rgb::SRgb8::new(k, fr.l as u8, 2));
        }
        let r = Raster::with_u8_buffer(fr.w as u32, fr.h as u32, fr.px.clone());
        let r = e.encode_step(&Step::with_indexed(r, pal));
        n += 1;
        ctx.steps(1);
        there(&t, "step", n - 1, &|q| {
            let h = group(q);
            r.is_ok() && h.frames.len() == n && h.frames[n - 1].px == fr.px && q.end == End::Err(E::Eof)
        })?;
    }
    drop(e);
    there(&t, "drop after step", n, &|q| q.end == End::Trailer && group(q).frames.len() == n)?;
    Ok(())
}

pub fn c28(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let depth = tier.pick(4, 5);
    for gct in [true, false] {
        v.push(family(
            format!("sequences-{}", if gct { "gct" } else { "nogct" }),
            format!("reader position after every item, writer content after every call: all sequences of up to {depth} of {ITEMS} block groups"),
            seq_count(ITEMS, if gct { depth } else { depth - 1 }),
            move |i, ctx| {
                let mut f = put_all(&seq_file(&seq_of(i, ITEMS), gct, true));
                writing(ctx, &f)?;
                f.extend([0x2C; 30]);
                reading(ctx, &f)
            },
        ));
    }
    v.push(family(
        "variants",
        format!("the same for all sequences of up to {depth} of {ITEMS} block groups, {VARIANTS_TEXT}"),
        seq_count(ITEMS, depth) * VARIANTS,
        move |i, ctx| {
            let mut f = put_all(&variant_file(&seq_of(i / VARIANTS, ITEMS), i % VARIANTS, true, true));
            writing(ctx, &f)?;
            f.extend([0; 30]);
            reading(ctx, &f)
        },
    ));
    let st = Arc::new(streams(2));
    let n = st.len() as u64;
    v.push(family(
        "streams",
        format!("{n} streams followed by each other stream"),
        n * n,
        move |i, ctx| {
            let (a, b) = (&st[(i / n) as usize], &st[(i % n) as usize]);
            if i % n == 0 {
                writing(ctx, a)?;
            }
            reading(ctx, &[&a[..], &b[..]].concat())
        },
    ));
    v.push(family(
        "mutants",
        "all single-byte substitutions of the base files: blocks and frames before the fault",
        base_files().len() as u64,
        |i, ctx| {
            let mut f = base_files()[i as usize].1.clone();
            for at in 0..f.len() {
                let was = f[at];
                for x in 0..=255 {
                    f[at] = x;
                    reading(ctx, &f)?;
                }
                f[at] = was;
            }
            Ok(())
        },
    ));
    v.push(family(
        "sizes",
        "tables of every size, sub-blocks of every size, 0..=300 sub-blocks, images of 1..=600 pixels in sub-blocks of 1..=255 bytes",
        8 + 255 + 301 + 600,
        |i, ctx| {
            let mut f = if i < 8 {
                let mut b = screen(2, 2, Some(i as u8));
                b.extend(image_lct((0, 0, 1, 1), 7 - i as u8, 4, 0, vec![1]));
                b.push(B::Trailer);
                put_all(&b)
            } else if i < 8 + 255 {
                let k = (i - 7) as usize;
                let mut b = screen(2, 2, None);
                b.push(B::Comment(vec![vec![1; k]; 2]));
                b.push(B::App(vec![vec![2; k], vec![3; 256 - k]]));
                b.push(B::Text(vec![vec![0; k]]));
                b.push(B::Unknown(5, vec![vec![0; k]; 3]));
                b.extend(image_lct((0, 0, 1, 1), 0, 4, 0, vec![1]));
                b.push(B::Trailer);
                put_all(&b)
            } else if i < 8 + 255 + 301 {
                let k = (i - 8 - 255) as usize;
                let mut b = screen(2, 2, None);
                b.push(B::Comment(vec![vec![1; 3]; k]));
                b.push(B::App(vec![vec![2]; k]));
                b.push(B::Text(vec![vec![0; 2]; k]));
                b.push(B::Unknown(5, vec![vec![0, 1]; k]));
                b.push(B::Trailer);
                put_all(&b)
            } else {
                let k = (i - 8 - 255 - 301) as usize + 1;
                let l = lzw_plain(6, &noise(6, k));
                raw_image(k as u16, 1, 5, 6, &l, k % 255 + 1, true)
            };
            writing(ctx, &f)?;
            f.extend([0; 40]);
            reading(ctx, &f)
        },
    ));
    v.push(special_family("special", "reader positions and writer contents", |ctx, b| {
        if b.len() < 20_000 {
            writing(ctx, b)?;
        }
        reading(ctx, &[b, &[0x2C; 30]].concat())
    }));
    v.push(around_family("reader positions and writer contents", |ctx, a| {
        let b = a.file();
        if a.small() {
            writing(ctx, &b)?;
            reading(ctx, &[&b[..], &[0x2C; 30]].concat())?;
        }
        Ok(())
    }));
    v
}
