//! C04, C05, C06, C14, C16: malformed input, errors, limits
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family, peak_of};
use std::io::{ErrorKind, Read};
use std::sync::Arc;

// ------------------------------------------------------------------ C04

fn walk<I, T>(it: &mut I, len: usize, what: &str, bytes: &[u8]) -> Result<usize, String>
where
    I: Iterator<Item = gift::Result<T>>,
{
    let mut n = 0;
    for _ in 0..len + 8 {
        match it.next() {
            Some(Ok(_)) => n += 1,
            Some(Err(_)) => (),
            None => {
                if n > len {
                    break;
                }
                return Ok(n);
            }
        }
    }
    Err(format!(
        "{what}: iteration over {len} bytes of input does not end ({n} items)\n \
         input: {}",
        short(bytes)
    ))
}

/// Run everything on an input
fn survive(ctx: &mut Ctx, bytes: &[u8], lim: Lim) -> Check {
    survive_within(ctx, bytes, lim, 200)
}

/// Run everything on an input, with so much memory per byte
fn survive_within(ctx: &mut Ctx, bytes: &[u8], lim: Lim, each: usize) -> Check {
    ctx.say(|| format!("limit {lim:?} input {}", hex(bytes)));
    for _ in 0..5 {
        ctx.trace();
    }
    let len = bytes.len();
    let px = lim_value(lim).unwrap_or(1 << 25);
    let bound = 40 * px + each * len + (4 << 20);
    let check = |what: &str, peak: usize| {
        if peak > bound {
            Err(format!(
                "{what}: holds {peak} bytes for {len} bytes of input and a \
                 limit of {px} pixels\n input: {}",
                short(bytes)
            ))
        } else {
            Ok(())
        }
    };
    let (r, peak) =
        peak_of(|| walk(&mut decoder(bytes, lim).into_blocks(), len, "blocks", bytes));
    let nb = r?;
    check("blocks", peak)?;
    let (r, peak) =
        peak_of(|| walk(&mut decoder(bytes, lim).into_frames(), len, "frames", bytes));
    let nf = r?;
    check("frames", peak)?;
    let (r, peak) = peak_of(|| {
        let mut f = decoder(bytes, lim).into_frames();
        match f.preamble() {
            Ok(_) => walk(&mut f, len, "frames after preamble", bytes),
            Err(_) => Ok(0),
        }
    });
    r?;
    check("preamble", peak)?;
    let (r, peak) =
        peak_of(|| walk(&mut decoder(bytes, lim).into_steps(), len, "steps", bytes));
    let ns = r?;
    check("steps", peak)?;
    let mut it = decoder(bytes, lim).into_iter();
    let mut nl = 0;
    for _ in 0..ns + 3 {
        if it.next().is_none() {
            break;
        }
        nl += 1;
    }
    ctx.steps(nb + nf + ns + nl + 4);
    ctx.outcome(&(nb, nf, ns, nl));
    ctx.state(&(nb, nf, ns, nl, len));
    Ok(())
}

/// Mutation kinds of one byte position
pub const MUT: u64 = 256 + 256 + 3;

pub fn mutate(base: &[u8], pos: usize, k: u64) -> Vec<u8> {
    let mut v = base.to_vec();
    match k {
        0..256 => v[pos] = k as u8,
        256..512 => v.insert(pos, (k - 256) as u8),
        512 => {
            v.remove(pos);
        }
        513 => v.truncate(pos),
        _ => {
            // duplicate the rest
            let rest = v[pos..].to_vec();
            v.extend(rest);
        }
    }
    v
}

const EDGY: [u8; 12] = [0, 1, 2, 4, 0x21, 0x2C, 0x3B, 0x7F, 0x80, 0xF9, 0xFE, 0xFF];

pub fn c04(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (name, b) in base_files() {
        let n = b.len() as u64;
        let b = Arc::new(b);
        let b1 = b.clone();
        v.push(family(
            format!("mutate-{name}"),
            "every single-byte substitution, insertion, deletion, truncation, duplication",
            n * MUT,
            move |i, ctx| {
                let m = mutate(&b1, (i / MUT) as usize, i % MUT);
                ctx.sample(|| short(&m));
                survive(ctx, &m, None)
            },
        ));
        if n <= tier.pick(110, 400) {
            let e = EDGY.len() as u64;
            let b = b.clone();
            // positions after the signature, later one first
            let p = n - 6;
            v.push(family(
                format!("mutate2-{name}"),
                format!("every pair of byte substitutions from {EDGY:02x?}, limit 65536 pixels"),
                tier.pick(p * p * e, p * p * e * e),
                move |i, ctx| {
                    let d = if tier == Tier::Quick {
                        // second value follows from the first and the place
                        let d = digits(i, &[p, p, e]);
                        vec![d[0], d[1], d[2], (d[2] * 5 + d[0] + d[1]) % e]
                    } else {
                        digits(i, &[p, p, e, e])
                    };
                    if d[0] >= d[1] {
                        return Ok(());
                    }
                    let mut m = b.to_vec();
                    m[6 + d[0] as usize] = EDGY[d[2] as usize];
                    m[6 + d[1] as usize] = EDGY[d[3] as usize];
                    survive(ctx, &m, Some(Some(1 << 16)))
                },
            ));
        }
    }
    v.push(family(
        "largest",
        "no limit: images of all widths and heights of 0, 1, 255, 256, 4096, 32767, 32768, 65534, 65535, with data for all or a few pixels, or cut off (those of more than 2^26 pixels always before the data)",
        9 * 9 * 3,
        |i, ctx| {
            const N: [u16; 9] = [0, 1, 255, 256, 4096, 32_767, 32_768, 65_534, 65_535];
            let d = digits(i, &[9, 9, 3]);
            let (w, h) = (N[d[0] as usize], N[d[1] as usize]);
            let sz = w as usize * h as usize;
            let mut m = put_all(&screen(4, 4, Some(0)));
            put(&mut m, &B::Desc { l: 0, t: 0, w, h, flags: 0 });
            if sz > 1 << 26 {
                // must not be asked to hold it
                return survive(ctx, &m, Some(None));
            }
            let n = if d[2] == 0 && sz < 1 << 22 { sz } else { sz.min(99) };
            put_image_data(&mut m, 2, &lzw_plain(2, &vec![1; n]), 255);
            m.push(0x3B);
            if d[2] == 2 {
                m.truncate(m.len() - 3);
            }
            ctx.trace();
            ctx.state(&(w, h, d[2]));
            let len = m.len();
            let nb = walk(&mut decoder(&m[..], Some(None)).into_blocks(), len, "blocks", &m)?;
            let nf = walk(&mut decoder(&m[..], Some(None)).into_frames(), len, "frames", &m)?;
            let ns = walk(&mut decoder(&m[..], Some(None)).into_steps(), len, "steps", &m)?;
            ctx.outcome(&(nb, nf, ns));
            ctx.steps(nb + nf + ns);
            Ok(())
        },
    ));
    // short streams
    v.push(family(
        "tiny",
        "all inputs of 0..=2 bytes; all of 6..=7 bytes starting GIF89 or GIF87",
        1 + 256 + 65536 + 2 * 65536,
        |i, ctx| {
            let m = if i == 0 {
                vec![]
            } else if i < 257 {
                vec![(i - 1) as u8]
            } else if i < 257 + 65536 {
                le((i - 257) as u16).to_vec()
            } else {
                let j = i - 257 - 65536;
                let mut m = if j < 65536 { b"GIF89".to_vec() } else { b"GIF87".to_vec() };
                m.extend(le(j as u16));
                m
            };
            survive(ctx, &m, None)
        },
    ));
    for (k, gct) in [(0, None), (1, Some(0u8))] {
        v.push(family(
            format!("after-screen-{k}"),
            "all 2-byte continuations after the screen descriptor",
            65536,
            move |i, ctx| {
                let mut m = put_all(&screen(2, 2, gct));
                m.extend(le(i as u16));
                survive(ctx, &m, None)
            },
        ));
    }
    let depth = tier.pick(5, 6);
    let e = EDGY.len() as u64;
    v.push(family(
        "tokens",
        format!("all continuations of {depth} bytes from {EDGY:02x?} after the screen descriptor"),
        e.pow(depth),
        move |mut i, ctx| {
            let mut m = put_all(&screen(2, 2, Some(0)));
            for _ in 0..depth {
                m.push(EDGY[(i % e) as usize]);
                i /= e;
            }
            ctx.sample(|| short(&m));
            survive(ctx, &m, Some(Some(1 << 16)))
        },
    ));
    v.push(family(
        "descriptor-tail",
        "all 2-byte continuations after an image descriptor, with 5 flag bytes",
        5 * 65536,
        |i, ctx| {
            let mut m = put_all(&screen(3, 2, Some(0)));
            let flags = [0u8, 0x80, 0x40, 0xC1, 0x27][(i / 65536) as usize];
            put(&mut m, &B::Desc { l: 0, t: 0, w: 3, h: 2, flags });
            m.extend(le(i as u16));
            m.extend([3, 0x44, 0x12, 0x05, 0, 0x3B]);
            survive(ctx, &m, None)
        },
    ));
    // LZW payloads
    let mcss = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 31, 32, 64, 128, 255];
    v.push(family(
        "payload",
        format!("all 2-byte LZW payloads, minimum code sizes {mcss:?}"),
        65536 * mcss.len() as u64,
        move |i, ctx| {
            let m = raw_image(3, 2, 1, mcss[(i / 65536) as usize], &le(i as u16), 255, true);
            survive(ctx, &m, None)
        },
    ));
    let n3 = tier.pick(1u64 << 20, 1 << 24);
    v.push(family(
        "payload-3",
        format!("{} 3-byte LZW payloads, minimum code size 2", tier.pick("the first 2^20", "all")),
        n3,
        |i, ctx| {
            let d = [i as u8, (i >> 8) as u8, (i >> 16) as u8];
            let m = raw_image(2, 2, 1, 2, &d, 255, true);
            ctx.trace();
            walk(&mut decoder(&m[..], None).into_frames(), m.len(), "frames", &m)?;
            Ok(())
        },
    ));
    // all bytes equal / periodic payloads of every length
    v.push(family(
        "periodic",
        "payloads of 1..=64 sub-blocks of one repeated byte (all 256), code sizes 2, 5, 8",
        256 * 3 * 8,
        |i, ctx| {
            let d = digits(i, &[256, 3, 8]);
            let n = [1usize, 2, 5, 100, 255, 256, 4000, 16320][d[2] as usize];
            let m = raw_image(5, 5, 1, [2, 5, 8][d[1] as usize], &vec![d[0] as u8; n], 255, true);
            survive(ctx, &m, Some(Some(1000)))
        },
    ));
    // code streams that lead everywhere: every raw code at every table boundary
    let mut cfg = vec![];
    for mcs in 2..=8u8 {
        for k in mcs as usize + 1..=12 {
            for d in -2i64..=2 {
                let t = (1i64 << k) + d;
                if t >= (1 << mcs) + 2 && t <= 4096 {
                    cfg.push((mcs, t as usize));
                }
            }
        }
    }
    v.push(family(
        "codes-at-boundary",
        "at each table size within 2 of a power of two: every code (defined or not) in every width, then two more",
        cfg.len() as u64,
        move |i, ctx| {
            let (mcs, t) = cfg[i as usize];
            let mut w = CodeWriter::new(mcs);
            let mut k = 0usize;
            while w.next < t {
                let n = w.clear_code();
                w.code(k * 7 % n);
                k += 1;
            }
            ctx.sample(|| format!("minimum code size {mcs}, table size {t}"));
            for c in 0..1usize << w.width {
                // codes far from any limit behave alike: thin out
                let near = |x: usize| c.abs_diff(x) < 4;
                if !(near(0) || near(w.clear_code()) || near(w.next) || near((1 << w.width) - 1) || c % 61 == 0) {
                    continue;
                }
                let mut x = w.clone();
                x.raw(c);
                x.raw(0);
                x.raw(c);
                let m = raw_image(2, 2, 1, mcs, &x.finish(), 255, true);
                ctx.trace();
                ctx.steps(3);
                ctx.state(&(mcs, t, c));
                walk(&mut decoder(&m[..], None).into_frames(), m.len(), "frames", &m)?;
            }
            Ok(())
        },
    ));
    // extreme geometry
    const G: [u16; 8] = [0, 1, 2, 255, 256, 32767, 32768, 65535];
    v.push(family(
        "geometry",
        format!("screen width/height and frame left/top/width/height all from {G:?}, limit 65536 pixels"),
        8u64.pow(6),
        |i, ctx| {
            let d: Vec<u16> =
                digits(i, &[8; 6]).iter().map(|k| G[*k as usize]).collect();
            let mut m = put_all(&screen(d[0], d[1], Some(0)));
            put(&mut m, &gce(0x0C, 1, 0));
            put(&mut m, &B::Desc { l: d[2], t: d[3], w: d[4], h: d[5], flags: 0 });
            let px = vec![1; (d[4] as usize * d[5] as usize).min(4)];
            put(&mut m, &B::Data(px));
            put(&mut m, &gce(0x08, 1, 0));
            put(&mut m, &B::Desc { l: d[3], t: d[2], w: d[5], h: d[4], flags: 0x40 });
            put(&mut m, &B::Data(vec![0; 4]));
            m.push(0x3B);
            ctx.sample(|| short(&m));
            survive(ctx, &m, Some(Some(1 << 16)))
        },
    ));
    v.push(family(
        "geometry-default",
        "extreme screens and frames with the default limit",
        8 * 8 * 2,
        |i, ctx| {
            let d = digits(i, &[8, 8, 2]);
            let (w, h) = (G[d[0] as usize], G[d[1] as usize]);
            let mut m = put_all(&screen(w, h, Some(0)));
            let (fw, fh) = if d[2] == 0 { (w, h) } else { (1, 1) };
            put(&mut m, &B::Desc { l: 0, t: 0, w: fw, h: fh, flags: 0 });
            put(&mut m, &B::Data(vec![1]));
            m.push(0x3B);
            survive(ctx, &m, None)
        },
    ));
    // empty frames everywhere
    v.push(family(
        "empty",
        "frames with zero width or height, each disposal, interlaced or not, on screens with and without pixels, twice",
        6 * 6 * 8 * 2 * 4,
        |i, ctx| {
            let d = digits(i, &[6, 6, 8, 2, 4]);
            let dims = [(0u16, 0u16), (0, 1), (1, 0), (1, 1), (0, 7), (2, 2)];
            let s = dims[d[0] as usize];
            let f = dims[d[1] as usize];
            let mut bs = screen(s.0, s.1, Some(0));
            for _ in 0..2 {
                bs.push(gce((d[2] as u8) << 2, 1, 0));
                bs.push(B::Desc {
                    l: (d[4] & 1) as u16,
                    t: (d[4] >> 1) as u16,
                    w: f.0,
                    h: f.1,
                    flags: 0x40 * d[3] as u8,
                });
                bs.push(B::Data(vec![1; f.0 as usize * f.1 as usize]));
            }
            bs.push(B::Trailer);
            survive(ctx, &put_all(&bs), None)
        },
    ));
    // data which expands enormously
    v.push(family(
        "bomb",
        "image data of 1..=45 KB which expands to up to 110 MB, tiny and exact limits, end code or not",
        3 * 4 * 2,
        |i, ctx| {
            let d = digits(i, &[3, 4, 2]);
            let m = bomb(2 + 3 * d[0] as u8, [2_000, 9_000, 20_000, 30_000][d[1] as usize], d[2] == 1);
            ctx.sample(|| format!("{} bytes of input", m.len()));
            survive(ctx, &m, Some(Some(100)))
        },
    ));
    // many of everything
    v.push(family(
        "many",
        "70000 comments, sub-blocks, frames, graphic controls with plain text, empty extensions, all at the start, after an image, and after a graphic control",
        6 * 3,
        |i, ctx| {
            let mut m = put_all(&screen(1, 1, Some(0)));
            match i / 6 {
                0 => (),
                1 => m.extend(put_all(&image(0, 0, 1, 1, vec![1]))),
                _ => m.extend(put_all(&[gce(9, 1, 0)])),
            }
            let i = i % 6;
            let unit = match i {
                0 => put_all(&[B::Comment(vec![vec![65]])]),
                1 => vec![1, 66],
                2 => put_all(&image(0, 0, 1, 1, vec![1])),
                3 => put_all(&[gce(0, 1, 0), B::Text(vec![vec![1; 12]])]),
                4 => put_all(&[B::Unknown(7, vec![])]),
                _ => put_all(&[gce(0x0D, 1, 0), B::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0x40 }, B::Data(vec![1])]),
            };
            if i == 1 {
                m.extend([0x21, 0xFE]);
            }
            for _ in 0..70_000 {
                m.extend_from_slice(&unit);
            }
            if i == 1 {
                m.push(0);
            }
            m.push(0x3B);
            survive(ctx, &m, Some(Some(100)))
        },
    ));
    v.push(family(
        "many-large",
        "300 frames of one pixel or full ones on a 200x200 screen, in each disposal, plain or interlaced, with local or global table: memory does not grow with the number of frames",
        2 * 4 * 2 * 2,
        |i, ctx| {
            let d = digits(i, &[2, 4, 2, 2]);
            let size = if d[0] == 0 { 1 } else { 200 };
            let bs = screen(200, 200, (d[3] == 0).then_some(1));
            let il = 0x40 * d[2] as u8;
            let mut f = vec![gce((d[1] as u8) << 2, 1, 0)];
            let px = vec![1; usize::from(size) * usize::from(size)];
            if d[3] == 0 {
                f.push(B::Desc { l: 0, t: 0, w: size, h: size, flags: il });
                f.push(B::Data(px));
            } else {
                f.extend(image_lct((0, 0, size, size), 1, 7, il, px));
            }
            let mut m = put_all(&bs);
            let f = put_all(&f);
            for _ in 0..300 {
                m.extend_from_slice(&f);
            }
            m.push(0x3B);
            survive_within(ctx, &m, Some(Some(40_000)), 20)
        },
    ));
    // block sequences
    let depth = tier.pick(4, 5);
    for gct in [true, false] {
        v.push(family(
            format!("sequences-{}", if gct { "gct" } else { "nogct" }),
            format!("all sequences of up to {depth} of {ITEMS} block groups"),
            seq_count(ITEMS, depth),
            move |i, ctx| {
                let s = seq_of(i, ITEMS);
                survive(ctx, &put_all(&seq_file(&s, gct, i % 2 == 0)), None)
            },
        ));
    }
    v
}

/// A 10x10 image whose data has `codes` codes with strings of up to 4090
pub fn bomb(mcs: u8, codes: usize, end: bool) -> Vec<u8> {
    bomb_sized(10, mcs, codes, end)
}

/// Data expanding much for a square image
fn bomb_sized(size: u16, mcs: u8, codes: usize, end: bool) -> Vec<u8> {
    let mut w = CodeWriter::new(mcs);
    w.code(1);
    for _ in 0..codes {
        let c = w.next.min(4095);
        w.code(c);
    }
    if end {
        let e = w.end_code();
        w.code(e);
    }
    raw_image(size, size, 0, mcs, &w.finish(), 255, true)
}

// ------------------------------------------------------------------ C05

pub fn c05(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // corpus: base files, block sequences
    for (name, b) in base_files() {
        if ["missing-table", "bad-index", "outside"].contains(&name) {
            continue;
        }
        let n = b.len() as u64;
        v.push(family(
            format!("base-{name}"),
            "every cut position",
            n,
            move |i, ctx| cut(ctx, &b, i as usize),
        ));
    }
    let depth = tier.pick(3, 4);
    v.push(family(
        "sequences",
        format!("every cut position of all files of up to {depth} of {ITEMS} block groups"),
        seq_count(ITEMS, depth),
        |i, ctx| {
            let s = seq_of(i, ITEMS);
            let b = put_all(&seq_file(&s, true, true));
            if parse(&b, None).end != End::Trailer
                || end_err(&group(&parse(&b, None)).end).is_some()
            {
                return Ok(());
            }
            ctx.sample(|| format!("all cuts of {}", short(&b)));
            // cuts in earlier items are those of shorter sequences
            let from = if s.is_empty() {
                0
            } else {
                put_all(&seq_file(&s[..s.len() - 1], true, false)).len()
            };
            for p in from..b.len() {
                cut(ctx, &b, p)?;
            }
            Ok(())
        },
    ));
    // sizes of pieces
    v.push(family(
        "tables",
        "every cut position of files with global and local tables of every size",
        8 * 8,
        |i, ctx| {
            let (g, l) = ((i % 8) as u8, (i / 8) as u8);
            let mut bs = screen(1, 1, Some(g));
            bs.extend(image_lct((0, 0, 1, 1), l, 3, 0, vec![1]));
            bs.push(B::Trailer);
            let b = put_all(&bs);
            ctx.sample(|| format!("all {} cuts, table sizes {g} {l}", b.len()));
            for p in 0..b.len() {
                // inside tables: the ends and every 16th byte
                if p > 16 && p % 16 > 2 && p + 40 < b.len() && (13 + table_bytes(tflags(g))).abs_diff(p) > 12 {
                    continue;
                }
                cut(ctx, &b, p)?;
            }
            Ok(())
        },
    ));
    let sizes = [1usize, 2, 3, 7, 127, 128, 129, 200, 253, 254, 255];
    v.push(family(
        "sub-blocks",
        "every cut position of comments, text, application and unknown extensions with two sub-blocks of given sizes",
        (sizes.len() * sizes.len() * 4) as u64,
        move |i, ctx| {
            let d = digits(i, &[11, 11, 4]);
            let s = vec![vec![7u8; sizes[d[0] as usize]], vec![0u8; sizes[d[1] as usize]]];
            let b = match d[2] {
                0 => B::Comment(s),
                1 => B::Text(s),
                2 => B::App(s),
                _ => B::Unknown(0x99, s),
            };
            let mut bs = screen(1, 1, Some(0));
            bs.push(b);
            bs.extend(image(0, 0, 1, 1, vec![1]));
            bs.push(B::Trailer);
            let b = put_all(&bs);
            ctx.sample(|| format!("all cuts of {}", short(&b)));
            for p in 19..b.len() {
                cut(ctx, &b, p)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "images",
        "every cut position of images of 1..=3000 pixels (up to several sub-blocks), with data complete before the end or not",
        30,
        |i, ctx| {
            let n = [1usize, 2, 5, 30, 100, 300, 500, 700, 1000, 3000][(i % 10) as usize];
            let m = [2u32, 4, 8][(i / 10) as usize];
            let px = noise(m, n);
            let mut o = put_all(&screen(n as u16, 1, Some(m as u8 - 1)));
            put(&mut o, &B::Desc { l: 0, t: 0, w: n as u16, h: 1, flags: 0 });
            let mut lzw = lzw_plain(m as u8, &px);
            if i % 3 == 0 {
                lzw.extend([0; 300]);
            }
            put_image_data(&mut o, m as u8, &lzw, [255, 100, 7][(i % 3) as usize]);
            put(&mut o, &gce(0, 3, 0));
            o.extend(put_all(&image(0, 0, 1, 1, vec![0])));
            o.push(0x3B);
            ctx.sample(|| format!("all cuts of {} bytes", o.len()));
            let from = 13 + table_bytes(tflags(m as u8 - 1));
            for p in from..o.len() {
                cut(ctx, &o, p)?;
            }
            Ok(())
        },
    ));
    // far into a long file
    v.push(family(
        "long",
        "last 400 cut positions of files with 300 frames, 300 comments, 2000 one-byte sub-blocks",
        3 * 400,
        |i, ctx| {
            let mut bs = screen(2, 2, Some(0));
            match i % 3 {
                0 => {
                    for k in 0..300u16 {
                        bs.push(gce(4, k, 0));
                        bs.extend(image(k % 2, 0, 1, 2, vec![1, 0]));
                    }
                }
                1 => {
                    for k in 0..300u16 {
                        bs.push(B::Comment(vec![le(k).to_vec()]));
                    }
                    bs.extend(image(0, 0, 2, 2, vec![1, 0, 1, 0]));
                }
                _ => {
                    let n = 2000;
                    bs.push(B::Comment((0..n).map(|k| vec![k as u8]).collect()));
                    bs.extend(image(0, 0, 2, 2, vec![1, 0, 1, 0]));
                }
            }
            bs.push(B::Trailer);
            let b = put_all(&bs);
            let p = b.len() - 1 - (i / 3) as usize;
            cut(ctx, &b, p)
        },
    ));
    v.push(special_parts(
        "special",
        "all cut positions, or of files longer than 900 bytes the first and last 200 (or 40, if longer than 20000) and 40 between",
        8,
        |ctx, b, part| {
            let every = (b.len() / 40).max(1);
            let ends = if b.len() > 20_000 { 40 } else { 200 };
            for p in (0..b.len()).filter(|p| p / every % 8 == part) {
                if b.len() <= 900 || p < ends || p + ends >= b.len() || p % every == 0 {
                    cut(ctx, b, p)?;
                }
            }
            Ok(())
        },
    ));
    v.push(around_family("cut at every second of the last 60 positions", |ctx, a| {
        let b = a.file();
        for p in (b.len() - 60..b.len()).step_by(2) {
            if a.small() {
                cut(ctx, &b, p)?;
            }
        }
        Ok(())
    }));
    v
}

/// Compare with the model after cutting at `p`
fn cut(ctx: &mut Ctx, b: &[u8], p: usize) -> Check {
    let c = &b[..p];
    let ps = parse(c, Some(DEFAULT_LIMIT));
    if ps.odd || ps.end != End::Err(E::Eof) {
        // cannot happen for prefixes of valid files
        return Err(format!("model: cut {p} of {} gives {:?}", short(b), ps.end));
    }
    ctx.state(&(p, ps.blocks.len(), ps.blocks.last()));
    check_parsed(ctx, c, None, NO_LOOP, &ps).map_err(|e| format!("cut at {p}: {e}"))
}

// ------------------------------------------------------------------ C06

/// After the error: None, and the step iterators stay ended
fn check_after(ctx: &mut Ctx, bytes: &[u8], lim: Lim, p: &Parsed) -> Check {
    if p.odd {
        return Ok(());
    }
    let c = compose(&group(p), lim_value(lim), false);
    if c.err.is_none() {
        return Ok(());
    }
    ctx.trace();
    ctx.trace();
    ctx.steps(8);
    let mut a = decoder(bytes, lim).into_steps();
    let mut b = decoder(bytes, lim).into_iter();
    let n = c.steps.len() + 1;
    for k in 0..n + 5 {
        for (what, r) in [("steps", a.next()), ("looping steps", b.next())] {
            let ok = match &r {
                Some(Ok(_)) => k + 1 < n,
                Some(Err(_)) => k + 1 == n,
                None => k >= n,
            };
            if !ok {
                return Err(format!(
                    "{what}: call {k} gives {:?}, though the error is item {}\n input: {}",
                    r.map(|r| r.map(|_| "a step").map_err(|e| ek(&e))),
                    n - 1,
                    short(bytes)
                ));
            }
        }
    }
    Ok(())
}

fn faults() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("block code 0", vec![0]),
        ("block code ff", vec![0xFF]),
        ("block code 2d", vec![0x2D, 1, 2, 3]),
        ("control length 3", vec![0x21, 0xF9, 3, 0, 0, 0, 0]),
        ("control length 5", vec![0x21, 0xF9, 5, 0, 0, 0, 0, 0, 0]),
        ("end of file", vec![]),
        ("end of file in extension", vec![0x21, 0xFE, 9, 1]),
    ];
    let two = put_all(&[gce(0, 1, 0), gce(0, 2, 0)]);
    v.push(("two controls", two));
    let img = |w: u16, h: u16, flags: u8, tail: &[u8]| {
        let mut o = vec![];
        put(&mut o, &B::Desc { l: 0, t: 0, w, h, flags });
        o.extend_from_slice(tail);
        o
    };
    v.push(("corrupt code", img(2, 1, 0, &[2, 2, 0xFC, 0xFF, 0])));
    v.push(("corrupt later", img(5, 5, 0, &[2, 3, 0x44, 0xFE, 0xFF, 0])));
    v.push(("short data", img(4, 4, 0, &[2, 2, 0x44, 0x0A, 0])));
    v.push(("no data", img(1, 1, 0, &[2, 0])));
    v.push(("too large", img(1000, 1000, 0, &[2, 0])));
    let fr = |l, t, w: u16, h: u16, px: Vec<u8>| {
        put_all(&[B::Desc { l, t, w, h, flags: 0 }, B::Data(px)])
    };
    v.push(("outside", fr(3, 3, 2, 2, vec![0; 4])));
    v.push(("empty frame", fr(0, 0, 0, 2, vec![])));
    v.push(("bad index", fr(0, 0, 2, 2, vec![0, 0, 0, 9])));
    let mut o = vec![];
    put(&mut o, &B::Desc { l: 0, t: 0, w: 1, h: 1, flags: tflags(0) });
    o.extend(table(2, 1));
    put(&mut o, &B::Data(vec![2]));
    v.push(("bad local index", o));
    v
}

pub fn c06(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let fs = Arc::new(faults());
    let nf = fs.len() as u64;
    let depth = tier.pick(3, 4);
    let nseq = seq_count(ITEMS, depth);
    v.push(family(
        "faults",
        format!("{nf} faults after all sequences of up to {depth} block groups, followed by nothing, a trailer, an image, another fault, another file, garbage; with and without global table"),
        nf * nseq * 6 * 2,
        move |i, ctx| {
            let d = digits(i, &[nf, 6, 2, nseq]);
            let s = seq_of(d[3], ITEMS);
            let mut m = put_all(&seq_file(&s, d[2] == 0, false));
            let f = &fs[d[0] as usize];
            m.extend_from_slice(&f.1);
            match d[1] {
                0 => (),
                1 => m.push(0x3B),
                2 => {
                    m.extend(put_all(&image(0, 0, 2, 2, vec![1, 2, 3, 0])));
                    m.push(0x3B);
                }
                3 => m.extend_from_slice(&fs[(d[0] as usize + 3) % nf as usize].1),
                4 => m.extend(put_all(&seq_file(&[2, 1, 2], true, true))),
                _ => m.extend([0xFF, 0x2C, 0x21, 0x00, 0x3B, 0x47]),
            }
            ctx.sample(|| format!("{} after {s:?}: {}", f.0, short(&m)));
            let lim = Some(Some(100_000));
            let p = parse(&m, lim_value(lim));
            check_parsed(ctx, &m, lim, ALL, &p)?;
            check_after(ctx, &m, lim, &p)
        },
    ));
    // long ways to the fault
    let fs = Arc::new(faults());
    v.push(family(
        "late",
        format!("{nf} faults as item 250..=260 and around 300 frames"),
        nf * 12,
        move |i, ctx| {
            let d = digits(i, &[nf, 12]);
            let n = [250u16, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300][d[1] as usize];
            let mut bs = screen(4, 4, Some(2));
            for k in 0..n {
                bs.extend(image(k % 3, 0, 1, 1, vec![(k % 8) as u8]));
            }
            let mut m = put_all(&bs);
            m.extend_from_slice(&fs[d[0] as usize].1);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            let lim = Some(Some(100_000));
            let p = parse(&m, lim_value(lim));
            check_parsed(ctx, &m, lim, ALL, &p)?;
            check_after(ctx, &m, lim, &p)
        },
    ));
    // loop counts do not repeat a broken animation
    let fs = Arc::new(faults());
    v.push(family(
        "looped",
        format!("{nf} faults in animations with loop counts 0, 1, 2, 3, 65535 after 0..4 frames, graphic control pending or not"),
        nf * 5 * 4 * 2,
        move |i, ctx| {
            let d = digits(i, &[nf, 5, 4, 2]);
            let mut bs = screen(4, 4, Some(2));
            bs.push(loop_ext([0, 1, 2, 3, 65535][d[1] as usize]));
            for k in 0..d[2] as u16 {
                bs.push(gce(4, 5 + k, 0));
                bs.extend(image(k, 0, 1, 1, vec![k as u8]));
            }
            if d[3] == 1 {
                bs.push(gce(0, 1, 0));
            }
            let mut m = put_all(&bs);
            m.extend_from_slice(&fs[d[0] as usize].1);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            let lim = Some(Some(100_000));
            let p = parse(&m, lim_value(lim));
            ctx.sample(|| format!("{}: {}", fs[d[0] as usize].0, short(&m)));
            check_parsed(ctx, &m, lim, ALL, &p)?;
            check_after(ctx, &m, lim, &p)
        },
    ));
    v.push(special_family("special", "every fault, an I/O error or another file after", |ctx, b| {
        let lim = Some(Some(2_000_000));
        let b = &b[..b.len() - 1];
        for (_, f) in faults() {
            let mut m = b.to_vec();
            m.extend(&f);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            let p = parse(&m, lim_value(lim));
            check_parsed(ctx, &m, lim, NO_LOOP, &p)?;
            check_after(ctx, &m, lim, &p)?;
            if b.len() > 5000 {
                break;
            }
        }
        let m = [b, &[0x3B]].concat();
        for at in [b.len(), b.len() / 2, b.len() - 1, 13] {
            io_fault(ctx, &m, at, ErrorKind::Other)?;
        }
        Ok(())
    }));
    v.push(around_family("each of 17 faults", |ctx, a| {
        let lim = Some(Some(200_000));
        for k in 0..AROUND_FAULTS {
            let m = a.fault(k);
            let p = parse(&m, lim_value(lim));
            check_after(ctx, &m, lim, &p)?;
        }
        Ok(())
    }));
    // I/O errors
    for (name, b) in base_files() {
        let n = b.len() as u64;
        v.push(family(
            format!("io-{name}"),
            "an I/O error at every byte position, then more data",
            n * 2,
            move |i, ctx| io_fault(ctx, &b, (i / 2) as usize, [ErrorKind::Other, ErrorKind::UnexpectedEof][(i % 2) as usize]),
        ));
    }
    for (name, b) in base_files() {
        let n = b.len() as u64;
        v.push(family(
            format!("mutate-{name}"),
            "every single-byte substitution and deletion, compared with the model, then calls past the end",
            n * 257,
            move |i, ctx| {
                let k = i % 257;
                let m = mutate(&b, (i / 257) as usize, if k == 256 { 512 } else { k });
                let lim = Some(Some(1 << 20));
                let p = parse(&m, lim_value(lim));
                check_parsed(ctx, &m, lim, ALL, &p)?;
                check_after(ctx, &m, lim, &p)
            },
        ));
    }
    v
}

/// Reader which fails once at a position and then goes on
pub struct FailAt<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub kind: ErrorKind,
    pub failed: bool,
}
impl Read for FailAt<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.at && !self.failed && !buf.is_empty() {
            self.failed = true;
            return Err(self.kind.into());
        }
        let end = if self.pos < self.at { self.at } else { self.data.len() };
        let n = buf.len().min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn io_fault(ctx: &mut Ctx, b: &[u8], at: usize, kind: ErrorKind) -> Check {
    let mut p = parse(&b[..at], Some(DEFAULT_LIMIT));
    if p.odd || p.loose || p.end != End::Err(E::Eof) {
        return Ok(());
    }
    p.end = End::Err(E::Io(kind));
    let g = group(&p);
    let c = compose(&g, Some(DEFAULT_LIMIT), false);
    let rd = || FailAt { data: b, pos: 0, at, kind, failed: false };
    let max = b.len() + 8;
    ctx.steps(p.blocks.len() + g.frames.len() + 2 * c.steps.len() + 4);
    ctx.state(&(at, p.blocks.last()));
    for _ in 0..4 {
        ctx.trace();
    }
    ctx.outcome(&(p.blocks.len(), c.steps.len(), &c.err));
    let e = end_err(&p.end);
    same("blocks", b, &obs_blocks(rd(), None, max), &p.blocks, &e, false)?;
    same("frames", b, &obs_frames(rd(), None, max), &g.frames, &end_err(&g.end), false)?;
    // steps: end at the error and stay ended
    for looping in [false, true] {
        let mut it = if looping {
            decoder(rd(), None).into_iter()
        } else {
            decoder(rd(), None).into_steps()
        };
        let what = if looping { "looping steps" } else { "steps" };
        let got = drain(&mut it, max, st);
        same(what, b, &got, &c.steps, &c.err, false)?;
        for _ in 0..4 {
            if it.next().is_some() {
                return Err(format!("{what}: yields after the end; error at byte {at} of {}", short(b)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

pub fn c14(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family(
        "header",
        "every value of each header byte; every pair of values of the last two and of the first two version bytes",
        6 * 256 + 2 * 65536,
        |i, ctx| {
            let mut m = put_all(&seq_file(&[2], true, true));
            if i < 6 * 256 {
                m[(i / 256) as usize] = i as u8;
            } else {
                let j = i - 6 * 256;
                let o = 3 + (j / 65536) as usize;
                m[o] = j as u8;
                m[o + 1] = (j >> 8) as u8;
            }
            ctx.sample(|| short(&m));
            check_file(ctx, &m, None, NO_LOOP)
        },
    ));
    let ns = seq_count(ITEMS, 2);
    v.push(family(
        "introducer",
        "every block introducer after all sequences of up to 2 block groups",
        256 * ns,
        move |i, ctx| {
            let s = seq_of(i / 256, ITEMS);
            let mut m = put_all(&seq_file(&s, true, false));
            m.push(i as u8);
            m.extend([0x42, 2, 7, 7, 0, 0x3B]);
            ctx.sample(|| short(&m));
            check_file(ctx, &m, None, NO_LOOP)
        },
    ));
    v.push(family(
        "control-length",
        "graphic control with every sub-block length, as block 0..3, contents 0x00 or 0x04",
        256 * 4 * 2,
        |i, ctx| {
            let d = digits(i, &[256, 4, 2]);
            let s = [vec![], vec![0], vec![2], vec![1, 3]];
            let mut m = put_all(&seq_file(&s[d[1] as usize], true, false));
            m.extend([0x21, 0xF9, d[0] as u8]);
            m.extend(vec![4 * d[2] as u8; d[0] as usize]);
            m.push(0);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            ctx.sample(|| short(&m));
            check_file(ctx, &m, None, NO_LOOP)
        },
    ));
    v.push(family(
        "control-two-lengths",
        "graphic control with a valid sub-block followed by one of every other length",
        256,
        |i, ctx| {
            let mut m = put_all(&seq_file(&[2], true, false));
            m.extend([0x21, 0xF9, 4, 0, 0, 0, 0, i as u8]);
            m.extend(vec![0; i as usize]);
            m.push(0);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            check_file(ctx, &m, None, NO_LOOP)
        },
    ));
    let depth = tier.pick(4, 5);
    for gct in [true, false] {
        v.push(family(
            format!("sequences-{}", if gct { "gct" } else { "nogct" }),
            format!("all sequences of up to {depth} of {ITEMS} block groups (two controls in a row, missing tables, no frame at all; the rest well-formed)"),
            seq_count(ITEMS, depth),
            move |i, ctx| {
                let s = seq_of(i, ITEMS);
                let m = put_all(&seq_file(&s, gct, true));
                ctx.sample(|| format!("{s:?}"));
                check_file(ctx, &m, None, NO_LOOP)
            },
        ));
    }
    v.push(family(
        "variants",
        format!("all sequences of up to {depth} of {ITEMS} block groups, {VARIANTS_TEXT} (two equal controls in a row)"),
        seq_count(ITEMS, depth) * VARIANTS,
        move |i, ctx| {
            let s = seq_of(i / VARIANTS, ITEMS);
            ctx.sample(|| format!("{s:?}"));
            check_file(ctx, &put_all(&variant_file(&s, i % VARIANTS, true, true)), None, NO_LOOP)
        },
    ));
    // codes not defined
    let mut cfg = vec![];
    for mcs in 2..=8u8 {
        for k in mcs as usize + 1..=12 {
            for d in -3i64..=3 {
                let t = (1i64 << k) + d;
                if t >= (1 << mcs) + 2 && t < 4096 {
                    cfg.push((mcs, t as usize));
                }
            }
        }
    }
    v.push(family(
        "undefined-code",
        "at each table size within 3 of a power of two: every code beyond the next one; after a clear every code that is not a literal",
        cfg.len() as u64,
        move |i, ctx| {
            let (mcs, t) = cfg[i as usize];
            let mut w = CodeWriter::new(mcs);
            let mut k = 0usize;
            while w.next < t || !w.prev {
                let n = w.clear_code();
                w.code(k * 5 % n);
                k += 1;
            }
            ctx.sample(|| format!("minimum code size {mcs}, table size {t}"));
            for c in w.next + 1..1 << w.width {
                if c > w.next + 4 && c + 4 < 1 << w.width && c % 97 != 0 {
                    continue;
                }
                let mut x = w.clone();
                x.raw(c);
                x.raw(0);
                x.raw(0);
                bad_lzw(ctx, mcs, x, k)?;
            }
            let mut w = CodeWriter::new(mcs);
            for p in 0..i % 3 {
                w.code(p as usize);
            }
            let cc = w.clear_code();
            w.code(cc);
            for c in w.end_code() + 1..1 << w.width {
                let mut x = w.clone();
                x.raw(c);
                x.raw(0);
                x.raw(0);
                bad_lzw(ctx, mcs, x, 3)?;
            }
            let w = CodeWriter::new(mcs);
            for c in w.end_code() + 1..1 << w.width {
                let mut x = w.clone();
                x.raw(c);
                x.raw(0);
                x.raw(0);
                bad_lzw(ctx, mcs, x, 3)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "payload",
        "all 2-byte payloads, code sizes 2..=8, 5 pixels",
        7 * 65536,
        |i, ctx| {
            let m = raw_image(5, 1, 7, 2 + (i / 65536) as u8, &le(i as u16), 255, true);
            check_file(ctx, &m, None, NO_LOOP)
        },
    ));
    v.push(family(
        "short-data",
        "data for 0..=300 pixels in images of 1..=3 (and 1000) pixels more, with and without end code, first or second image",
        301 * 4 * 2 * 2,
        |i, ctx| {
            let d = digits(i, &[301, 4, 2, 2]);
            let n = d[0] as usize;
            let px = noise(3, n);
            let mut lzw = lzw_plain(3, &px);
            if d[2] == 1 {
                // leave the end code away: codes of the pixels only
                let mut w = CodeWriter::new(3);
                w.code(8);
                for p in &px {
                    w.code(*p as usize);
                }
                let k = w.bits;
                lzw = w.out.clone();
                if k > 0 {
                    lzw = w.finish();
                }
            }
            let want = n + [1usize, 2, 3, 1000][d[1] as usize];
            let mut bs = screen(2000, 1, Some(2));
            if d[3] == 1 {
                bs.extend(image(0, 0, 3, 1, vec![1, 2, 3]));
            }
            bs.push(B::Desc { l: 0, t: 0, w: want as u16, h: 1, flags: 0 });
            let mut m = put_all(&bs);
            put_image_data(&mut m, 3, &lzw, 255);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            check_file(ctx, &m, None, NO_LOOP)
        },
    ));
    // rectangles around the screen
    v.push(family(
        "rectangles",
        "screens 0..=3 x 0..=3, frames at 0..=4, sizes 0..=4, first or second frame",
        4 * 4 * 625 * 2,
        |i, ctx| {
            let d = digits(i, &[4, 4, 5, 5, 5, 5, 2]);
            let mut bs = screen(d[0] as u16, d[1] as u16, Some(0));
            if d[6] == 1 {
                if d[0] == 0 || d[1] == 0 {
                    return Ok(());
                }
                bs.extend(image(0, 0, 1, 1, vec![1]));
            }
            bs.extend(image(
                d[2] as u16,
                d[3] as u16,
                d[4] as u16,
                d[5] as u16,
                vec![1; (d[4] * d[5]) as usize],
            ));
            bs.extend(image(0, 0, 1, 1, vec![0]));
            bs.push(B::Trailer);
            check_file(ctx, &put_all(&bs), None, NO_LOOP)
        },
    ));
    const G: [u16; 9] = [0, 1, 255, 256, 32767, 32768, 65533, 65534, 65535];
    v.push(family(
        "far-rectangles",
        format!("screens and frame positions from {G:?}, frames of 1 or 2 pixels or up to the edge, each disposal 0..3"),
        9 * 9 * 9 * 3 * 2 * 4,
        |i, ctx| {
            let d = digits(i, &[9, 9, 9, 3, 2, 4]);
            // one axis is long, the other is 2
            let (s, p, q) = (G[d[0] as usize], G[d[1] as usize], G[d[2] as usize]);
            let (sw, sh, l, t) = if d[4] == 0 { (s, 2, p, q % 3) } else { (2, s, q % 3, p) };
            let n = [1u16, 2, s.wrapping_sub(p).min(300)][d[3] as usize];
            let (w, h) = if d[4] == 0 { (n, 1) } else { (1, n) };
            let mut bs = screen(sw, sh, Some(0));
            bs.push(gce((d[5] as u8) << 2, 0, 0));
            bs.extend(image(l, t, w, h, vec![1; n as usize]));
            bs.push(B::Trailer);
            check_file(ctx, &put_all(&bs), None, NO_LOOP)
        },
    ));
    // wide frames whose sum overflows 16 bits
    v.push(family(
        "overflow",
        "left + width or top + height of 65535 and more",
        6 * 6 * 2,
        |i, ctx| {
            let d = digits(i, &[6, 6, 2]);
            let p = [0u16, 1, 2, 32768, 65534, 65535][d[0] as usize];
            let n = [1u16, 2, 32767, 32768, 65534, 65535][d[1] as usize];
            let (a, b, c, e) = if d[2] == 0 { (p, 0, n, 1) } else { (0, p, 1, n) };
            let (sw, sh) = if d[2] == 0 { (65535, 1) } else { (1, 65535) };
            let mut bs = screen(sw, sh, Some(0));
            bs.extend(image(a, b, c, e, vec![1; n as usize]));
            bs.push(B::Trailer);
            check_file(ctx, &put_all(&bs), None, NO_LOOP)
        },
    ));
    v.push(family(
        "index",
        "every index against every table size, local or global (the other larger), transparent or not, first, middle or last pixel, plain or interlaced",
        256 * 8 * 2 * 2 * 3 * 2,
        |i, ctx| {
            let d = digits(i, &[256, 8, 2, 2, 3, 2]);
            let (idx, bits) = (d[0] as u8, d[1] as u8);
            let mut bs = screen(3, 3, Some(if d[2] == 0 { bits } else { 7 }));
            bs.push(gce(d[3] as u8, 7, idx));
            let mut px = vec![0; 9];
            px[[0, 4, 8][d[4] as usize]] = idx;
            let fl = 0x40 * d[5] as u8;
            if d[2] == 0 {
                bs.push(B::Desc { l: 0, t: 0, w: 3, h: 3, flags: fl });
                bs.push(B::Data(px));
            } else {
                bs.extend(image_lct((0, 0, 3, 3), bits, 5, fl, px));
            }
            bs.push(B::Trailer);
            check_file(ctx, &put_all(&bs), None, NO_LOOP)
        },
    ));
    v.push(family(
        "no-table",
        "no table for the first or the second of two frames of 1 to 4 pixels, some or all of them of the transparent index, every disposal, plain or interlaced",
        4 * 16 * 8 * 2 * 2 * 2,
        |i, ctx| {
            let d = digits(i, &[4, 16, 8, 2, 2, 2]);
            let n = d[0] as usize + 1;
            let px = (0..n).map(|k| (d[1] >> k) as u8 & 1).collect();
            let mut bs = screen(4, 1, None);
            if d[4] == 1 {
                bs.extend(image_lct((0, 0, 1, 1), 0, 3, 0, vec![1]));
            }
            bs.push(gce((d[2] as u8) << 2 | d[5] as u8, 3, 1));
            bs.push(B::Desc { l: 0, t: 0, w: n as u16, h: 1, flags: 0x40 * d[3] as u8 });
            bs.push(B::Data(px));
            bs.extend(image_lct((1, 0, 1, 1), 0, 3, 0, vec![1]));
            bs.push(B::Trailer);
            check_file(ctx, &put_all(&bs), None, NO_LOOP)
        },
    ));
    for (name, b) in base_files() {
        let n = b.len() as u64;
        v.push(family(
            format!("mutate-{name}"),
            "every single-byte substitution, insertion and deletion, compared with the model",
            n * 513,
            move |i, ctx| {
                let m = mutate(&b, (i / 513) as usize, i % 513);
                check_file(ctx, &m, Some(Some(1 << 20)), NO_LOOP)
            },
        ));
    }
    v.push(special_family("special", "never rejected", |ctx, b| check_file(ctx, b, None, ALL)));
    v.push(around_family("each of 17 faults and none", |ctx, a| {
        let lv = Lv { steps: a.small(), ..NO_LOOP };
        check_file(ctx, &a.file(), None, lv)?;
        for k in 0..AROUND_FAULTS {
            check_file(ctx, &a.fault(k), None, lv)?;
        }
        Ok(())
    }));
    const W: [u64; 12] = [1, 2, 99, 101, 127, 128, 255, 256, 257, 300, 513, 1000];
    v.push(family(
        "large-index",
        format!("images with sides from {W:?}, up to 300000 pixels, index beyond the table at one of 5 places of 5 rows, plain or interlaced, with local or global table, at the corner or 301 right and down"),
        12 * 12 * 5 * 5 * 4 * 2,
        |i, ctx| {
            let d = digits(i, &[12, 12, 5, 5, 4, 2]);
            let (w, h) = (W[d[0] as usize], W[d[1] as usize]);
            if w * h > 300_000 || (w * h > 20_000 && d[2] != d[3]) {
                return Ok(());
            }
            let at = |n: u64, k: u64| [0, n / 3, n / 2, (n - 1).min(256), n - 1][k as usize];
            let (x, y) = (at(w, d[2]), at(h, d[3]));
            let o = 301 * d[5] as u16;
            let mut px = vec![1; (w * h) as usize];
            px[(y * w + x) as usize] = 4;
            let mut bs = screen(w as u16 + o, h as u16 + o, Some(1));
            let fl = 0x40 * (d[4] & 1) as u8;
            if d[4] & 2 == 0 {
                bs.push(B::Desc { l: o, t: o, w: w as u16, h: h as u16, flags: fl });
                bs.push(B::Data(px));
            } else {
                bs.extend(image_lct((o, o, w as u16, h as u16), 1, 3, fl, px));
            }
            bs.push(B::Trailer);
            ctx.state(&d);
            check_file(ctx, &put_all(&bs), None, Lv { blocks: false, frames: false, steps: true, looping: false })
        },
    ));
    v.push(family(
        "large-short",
        format!("images with sides from {W:?}, up to 300000 pixels, data for 1, 2, 3, a row or half of the pixels less, or for one or a row more, plain or interlaced, in random or equal colors, as first or second image"),
        12 * 12 * 7 * 8,
        |i, ctx| {
            let d = digits(i, &[12, 12, 7, 2, 2, 2]);
            let (w, h) = (W[d[0] as usize], W[d[1] as usize]);
            let all = w * h;
            if all > 300_000 || (all > 20_000 && (d[3] != d[4] || d[5] == 1)) {
                return Ok(());
            }
            let n = match d[2] {
                k @ 0..=2 => all.saturating_sub(k + 1),
                3 => all - w,
                4 => all / 2,
                5 => all + 1,
                _ => all + w,
            } as usize;
            let px = if d[4] == 0 { noise(3, n) } else { vec![1; n] };
            let mut bs = screen(w as u16, h as u16, Some(2));
            if d[5] == 1 {
                bs.extend(image(0, 0, 1, 1, vec![1]));
            }
            bs.push(B::Desc { l: 0, t: 0, w: w as u16, h: h as u16, flags: 0x40 * d[3] as u8 });
            let mut m = put_all(&bs);
            put_image_data(&mut m, 3, &lzw_plain(3, &px), 255);
            m.extend(put_all(&image(0, 0, 1, 1, vec![1])));
            m.push(0x3B);
            ctx.state(&d);
            check_file(ctx, &m, None, Lv { frames: false, steps: all < 3000, ..NO_LOOP })
        },
    ));
    v
}

fn bad_lzw(ctx: &mut Ctx, mcs: u8, w: CodeWriter, have: usize) -> Check {
    let lzw = w.finish();
    let l = lzw_decode(mcs, &lzw, 99);
    assert!(l.bad);
    let n = have.max(l.px.len()) + 10;
    let m = raw_image(n as u16, 1, 7, mcs, &lzw, 255, true);
    ctx.steps(1);
    ctx.state(&(mcs, l.state, lzw.last()));
    check_file(ctx, &m, None, NO_LOOP)
}

// ------------------------------------------------------------------ C16

pub fn c16(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let m = tier.pick(12u64, 15);
    v.push(family(
        "grid",
        format!("screens and images of every size 0..{m} x 0..{m}, every limit up to one above the largest"),
        m * m * ((m - 1) * (m - 1) + 2),
        move |i, ctx| {
            let d = digits(i, &[m, m, (m - 1) * (m - 1) + 2]);
            let (w, h) = (d[0] as u16, d[1] as u16);
            let mut bs = screen(w, h, Some(0));
            bs.extend(image(0, 0, w, h, vec![1; (w * h) as usize]));
            bs.push(B::Trailer);
            let lim = Some(Some(d[2] as usize));
            ctx.state(&d);
            ctx.sample(|| format!("{w}x{h} limit {}", d[2]));
            check_file(ctx, &put_all(&bs), lim, ALL)?;
            // small image on a screen of that size, twice
            if w > 0 && h > 0 {
                let mut bs = screen(w, h, Some(0));
                bs.extend(image(w - 1, h - 1, 1, 1, vec![1]));
                bs.extend(image(0, 0, w, h, vec![1; (w * h) as usize]));
                bs.push(B::Trailer);
                check_file(ctx, &put_all(&bs), lim, ALL)?;
            }
            Ok(())
        },
    ));
    // large sizes: only the descriptor decides
    const S: [u16; 14] = [
        1, 2, 255, 256, 257, 511, 512, 513, 4095, 4096, 8191, 8192, 32768, 65535,
    ];
    v.push(family(
        "large",
        format!("images with sides from {S:?}: limits of exactly, one less, one more, half, double, none, default; descriptor reached or not"),
        14 * 14 * 8,
        |i, ctx| {
            let d = digits(i, &[14, 14, 8]);
            let (w, h) = (S[d[0] as usize], S[d[1] as usize]);
            let n = w as usize * h as usize;
            let lim: Lim = match d[2] {
                0 => Some(Some(n)),
                1 => Some(Some(n - 1)),
                2 => Some(Some(n + 1)),
                3 => Some(Some(n / 2)),
                4 => Some(Some(n * 2)),
                5 => Some(None),
                6 => Some(Some(0)),
                _ => None,
            };
            let mut bs = screen(1, 1, Some(0));
            bs.push(B::Desc { l: 0, t: 0, w, h, flags: 0 });
            let b = put_all(&bs);
            ctx.sample(|| format!("{w}x{h} limit {lim:?}"));
            ctx.state(&(w, h, d[2]));
            check_file(ctx, &b, lim, Lv { blocks: true, frames: true, steps: false, looping: false })
        },
    ));
    v.push(family(
        "flags",
        "a 6x5 image with each of 256 flag bytes and the table it announces, first or second, with or without control: limits 28..=31",
        256 * 4 * 4,
        |i, ctx| {
            let d = digits(i, &[256, 4, 4]);
            let flags = d[0] as u8;
            let mut bs = screen(5, 5, Some(0));
            if d[2] & 1 == 1 {
                bs.extend(image(0, 0, 1, 1, vec![1]));
            }
            if d[2] & 2 == 2 {
                bs.push(gce(flags, 3, 1));
            }
            bs.push(B::Desc { l: 0, t: 0, w: 6, h: 5, flags });
            if table_bytes(flags) > 0 {
                bs.push(B::Lct(table(table_bytes(flags) / 3, 9)));
            }
            bs.push(B::Data(vec![1; 30]));
            bs.push(B::Trailer);
            ctx.state(&d);
            check_file(ctx, &put_all(&bs), Some(Some(28 + d[1] as usize)), ALL)
        },
    ));
    v.push(family(
        "default",
        "around the default limit of 2^25 pixels: every width within 40 of the exact one for heights 512..=65535 (powers of two and others)",
        81 * 9,
        |i, ctx| {
            let h = [512u64, 513, 1000, 1024, 4096, 8192, 16384, 32768, 65535][(i % 9) as usize];
            let w = ((1u64 << 25) / h) as i64 - 40 + (i / 9) as i64;
            if w > 65535 {
                return Ok(());
            }
            let mut bs = screen(1, 1, Some(0));
            bs.push(B::Desc { l: 0, t: 0, w: w as u16, h: h as u16, flags: 0 });
            ctx.state(&(w, h));
            check_file(ctx, &put_all(&bs), None, Lv { blocks: true, frames: true, steps: false, looping: false })
        },
    ));
    v.push(family(
        "screen",
        "large screens (sides from 1 to 65535) with a limit of exactly, one less, one more; small frame",
        14 * 14 * 3,
        |i, ctx| {
            let d = digits(i, &[14, 14, 3]);
            let (w, h) = (S[d[0] as usize], S[d[1] as usize]);
            let n = w as usize * h as usize;
            let lim = [n, n - 1, n + 1][d[2] as usize];
            // accepted screens must stay affordable
            if n > 1 << 19 && d[2] != 1 {
                return Ok(());
            }
            let mut bs = screen(w, h, Some(0));
            bs.push(gce(0x0C, 1, 0));
            bs.extend(image(w - 1, h - 1, 1, 1, vec![1]));
            bs.push(B::Trailer);
            ctx.state(&(w, h, d[2]));
            if lim == 0 {
                return Ok(());
            }
            check_file(ctx, &put_all(&bs), Some(Some(lim)), Lv { blocks: false, frames: true, steps: true, looping: true })
        },
    ));
    v.push(around_family("limits of one less than and exactly the image and the screen", |ctx, a| {
        let b = a.file();
        let p = parse(&b, None);
        let Some(B::Lsd { w, h, .. }) = p.blocks.get(1) else { unreachable!() };
        let n = *w as usize * *h as usize;
        for lim in [0, 3, 4, n - 1, n] {
            let steps = lim < n || a.small();
            check_file(ctx, &b, Some(Some(lim)), Lv { blocks: true, frames: true, steps, looping: steps })?;
        }
        Ok(())
    }));
    v.push(family(
        "screen-empty-image",
        "screens of 0..=8 by 0..=8 pixels with an empty image, every limit up to 65 and none",
        9 * 9 * 67 * 2,
        |i, ctx| {
            let d = digits(i, &[9, 9, 67, 2]);
            let mut bs = screen(d[0] as u16, d[1] as u16, Some(0));
            bs.extend(image(0, 0, 0, d[3] as u16, vec![]));
            bs.push(B::Trailer);
            ctx.state(&d);
            let lim = (d[2] < 66).then_some(d[2] as usize);
            check_file(ctx, &put_all(&bs), Some(lim), ALL)
        },
    ));
    v.push(family(
        "screen-default",
        "screens around the default limit; rejected ones cost no memory, and those just above are accepted without limit",
        8 + 3,
        |i, ctx| {
            let open = i >= 8;
            let i = if open { i - 7 } else { i };
            let (w, h) = [(8192u16, 4096u16), (8193, 4096), (8192, 4097), (65535, 513), (65535, 65535), (32768, 1025), (46341, 46341), (65535, 512)][i as usize];
            let mut bs = screen(w, h, Some(0));
            bs.extend(image(w - 1, h - 1, 1, 1, vec![1]));
            bs.push(B::Trailer);
            let b = put_all(&bs);
            let n = w as usize * h as usize;
            let big = n > DEFAULT_LIMIT && !open;
            let limit = if open { Some(None) } else { None };
            ctx.trace();
            ctx.steps(1);
            ctx.state(&(w, h));
            let (r, peak) = peak_of(|| {
                let mut it = decoder(&b[..], limit).into_steps();
                match it.next() {
                    Some(Ok(s)) => Ok((s.raster().width(), s.raster().height())),
                    Some(Err(e)) => Err(ek(&e)),
                    None => Err(E::Other("None".into())),
                }
            });
            let want = if big { Err(E::TooLarge) } else { Ok((w as u32, h as u32)) };
            if r != want {
                return Err(format!("screen {w}x{h}: {r:?} instead of {want:?}"));
            }
            let most = if big { 4 << 20 } else { n * 40 };
            if peak > most {
                return Err(format!("screen {w}x{h}: holds {peak} bytes"));
            }
            Ok(())
        },
    ));
    v.push(family(
        "set-again",
        "all sequences of up to 4 limits of 5 (none, 0, 1, 6 and 7 pixels) set one after another: the last one counts",
        seq_count(5, 4),
        |i, ctx| {
            const LIMITS: [Option<usize>; 5] = [None, Some(0), Some(1), Some(6), Some(7)];
            let set: Vec<_> = seq_of(i, 5).iter().map(|k| LIMITS[*k as usize]).collect();
            let limit = *set.last().unwrap_or(&Some(DEFAULT_LIMIT));
            ctx.state(&set);
            for (w, h) in [(1u16, 1u16), (2, 3), (7, 1), (2, 4), (8192, 4097)] {
                let mut bs = screen(w.min(8), h.min(8), Some(0));
                bs.extend(image(0, 0, w, h, vec![1; (w as usize * h as usize).min(9)]));
                let b = put_all(&bs);
                ctx.trace();
                ctx.steps(1);
                let mut d = gift::Decoder::new(&b[..]);
                for l in &set {
                    d = d.max_image_sz(*l);
                }
                let mut large = false;
                for r in d.into_blocks().take(9) {
                    large |= matches!(r, Err(gift::Error::TooLargeImage));
                }
                let want = limit.is_some_and(|l| w as usize * h as usize > l);
                ctx.outcome(&large);
                if large != want {
                    return Err(format!("image {w}x{h} after limits {set:?}: too large {large}, should be {want}"));
                }
            }
            Ok(())
        },
    ));
    v.push(family(
        "unlimited",
        "no limit: images and screens well above any set limit of the other cases decode",
        4,
        |i, ctx| {
            let (w, h) = [(3000u16, 40u16), (65535, 3), (700, 700), (1, 65535)][i as usize];
            let n = w as usize * h as usize;
            let mut bs = screen(w, h, Some(0));
            bs.extend(image(0, 0, w, h, vec![1; n]));
            bs.push(B::Trailer);
            let b = put_all(&bs);
            check_file(ctx, &b, Some(None), ALL)?;
            check_file(ctx, &b, Some(Some(n)), ALL)?;
            check_file(ctx, &b, Some(Some(n - 1)), ALL)
        },
    ));
    v.push(family(
        "memory",
        "data expanding up to 4000-fold: blocks, frames and steps, limits 100 (exact), 1000, 10000; images of 10x10, or fewer, or empty; blocks of 600x600 with that limit",
        3 * 5 * 2 * 3 + 12 + 2,
        |i, ctx| {
            let (i, size) = match i.checked_sub(90) {
                None => (i, 10),
                Some(k @ 12..) => (2 * (k - 12), 600),
                Some(k) => (k * 13 % 24 + 12 + 24 * (k % 2), [0, 1, 2][k as usize % 3]),
            };
            let d = digits(i, &[3, 5, 2, 3]);
            let codes = if size == 600 { 9_000 } else { [500, 2_000, 5_000, 9_000, 20_000][d[1] as usize] };
            let b = bomb_sized(size, 2 + 3 * d[0] as u8, codes, d[2] == 1);
            let lim = if size == 600 { 360_000 } else { [100usize, 1000, 10_000][d[3] as usize] };
            ctx.sample(|| format!("{} bytes, limit {lim}", b.len()));
            ctx.steps(4);
            ctx.state(&d);
            ctx.outcome(&d);
            let bound = 40 * lim + 20 * b.len() + (4 << 20);
            for lv in 0..if size == 600 { 1 } else { 3 } {
                ctx.trace();
                let (n, peak) = peak_of(|| {
                    let dec = decoder(&b[..], Some(Some(lim)));
                    match lv {
                        0 => dec.into_blocks().filter(|r| r.is_ok()).count(),
                        1 => dec.into_frames().filter(|r| r.is_ok()).count(),
                        _ => dec.into_steps().filter(|r| r.is_ok()).count(),
                    }
                });
                let want = [6, 1, u16::from(size > 0)][lv];
                if n != want.into() {
                    return Err(format!("{n} items instead of {want}"));
                }
                if peak > bound {
                    return Err(format!(
                        "holds {peak} bytes while decoding a {size}x{size} image from {} bytes with a limit of {lim} pixels",
                        b.len()
                    ));
                }
            }
            Ok(())
        },
    ));
    v.push(family(
        "memory-many",
        "300 full-screen frames on a 200x200 screen: memory does not grow with the number of frames",
        4,
        |i, ctx| {
            let mut bs = screen(200, 200, Some(1));
            for _ in 0..300 {
                bs.push(gce((i as u8) << 2, 1, 0));
                bs.extend(image(0, 0, 200, 200, vec![1; 40_000]));
            }
            bs.push(B::Trailer);
            let b = put_all(&bs);
            ctx.trace();
            ctx.steps(300);
            ctx.state(&i);
            let (n, peak) = peak_of(|| decoder(&b[..], Some(Some(40_000))).into_steps().filter(|r| r.is_ok()).count());
            if n != 300 {
                return Err(format!("{n} steps instead of 300"));
            }
            if peak > 40 * 40_000 + 20 * b.len() + (4 << 20) {
                return Err(format!("holds {peak} bytes for a 200x200 screen"));
            }
            Ok(())
        },
    ));
    v
}
