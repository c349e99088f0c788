//! C12, C13, C15: steps of animations
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use gift::block as gb;

const STEPS: Lv = Lv { blocks: false, frames: false, steps: true, looping: false };
const BOTH: Lv = Lv { blocks: false, frames: false, steps: true, looping: true };

/// Compare the steps of a list of blocks
fn shows(ctx: &mut Ctx, bs: &[B], lv: Lv) -> Check {
    let m = put_all(bs);
    ctx.sample(|| short(&m));
    check_file(ctx, &m, None, lv)?;
    shows_local(ctx, bs, lv)
}

/// The same with local tables only, and with blocks which do not matter
fn shows_local(ctx: &mut Ctx, bs: &[B], lv: Lv) -> Check {
    check_file(ctx, &put_all(&localized(bs)), None, lv)?;
    check_file(ctx, &put_all(&dressed(bs)), None, lv)
}

/// A frame: control flags, rectangle, interlaced, pixels
fn frame(
    bs: &mut Vec<B>,
    flags: u8,
    r: (u16, u16, u16, u16),
    il: bool,
    local: Option<(u8, u8)>,
    px: Vec<u8>,
) {
    bs.push(gce(flags, 7, 0));
    let il = if il { 0x40 } else { 0 };
    match local {
        Some((bits, tag)) => bs.extend(image_lct(r, bits, tag, il, px)),
        None => {
            bs.push(B::Desc { l: r.0, t: r.1, w: r.2, h: r.3, flags: il });
            bs.push(B::Data(px));
        }
    }
}

/// A frame which changes nothing, so that the canvas can be seen
fn look(bs: &mut Vec<B>) {
    frame(bs, 0x05, (0, 0, 1, 1), false, None, vec![0]);
}

fn rects(w: u16, h: u16) -> Vec<(u16, u16, u16, u16)> {
    let mut v = vec![];
    for l in 0..w {
        for t in 0..h {
            for x in 1..=w - l {
                for y in 1..=h - t {
                    v.push((l, t, x, y));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C12

pub fn c12(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // full transition relation on a 2x2 screen
    let mut frames = vec![];
    for r in rects(2, 2) {
        let area = r.2 as u32 * r.3 as u32;
        for p in 0..3u32.pow(area) {
            let px: Vec<u8> = (0..area).map(|k| (p / 3u32.pow(k) % 3) as u8).collect();
            frames.push((r, px));
        }
    }
    let nf = frames.len() as u64;
    v.push(family(
        "transitions-2x2",
        format!("2x2 screen: all 81 canvases over {{clear, A, B}} times all {nf} rectangles and pixel contents of three values, transparency on or off, disposal 0..=7, interlaced or not; the canvas is looked at before, during and after"),
        81 * nf * 2 * 8 * 2,
        move |i, ctx| {
            let d = digits(i, &[2, 2, 8, 81, nf]);
            let (r, px) = &frames[d[4] as usize];
            let mut bs = screen(2, 2, Some(1));
            let base = (0..4).map(|k| (d[3] / 3u64.pow(k) % 3) as u8).collect();
            frame(&mut bs, 0x05, (0, 0, 2, 2), false, None, base);
            frame(&mut bs, (d[2] as u8) << 2 | d[0] as u8, *r, d[1] == 1, None, px.clone());
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // histories
    let rs = [(0, 0, 3, 2), (0, 0, 2, 1), (1, 0, 2, 2), (2, 1, 1, 1)];
    let na = 4 * 2 * 3 * 2u64;
    let depth = tier.pick(3, 4);
    v.push(family(
        "histories",
        format!("3x2 screen: all sequences of up to {depth} of {na} frames (4 rectangles, plain or half transparent, disposal 1..=3, transparency on or off, some with local tables), different or the same at every place"),
        seq_count(na, depth) * 2,
        move |i, ctx| {
            let s = seq_of(i / 2, na);
            let mut bs = screen(3, 2, Some(1));
            for (pos, k) in s.iter().enumerate() {
                let pos = if i % 2 == 0 { pos } else { 0 };
                let d = digits(*k, &[4, 2, 3, 2]);
                let r = rs[d[0] as usize];
                let n = r.2 as usize * r.3 as usize;
                let c = 1 + (pos % 3) as u8;
                let px = (0..n)
                    .map(|x| if d[1] == 1 && x % 2 == pos % 2 { 0 } else { c })
                    .collect();
                let local = (d[0] % 2 == 1 && d[3] == 1).then_some((1, 150 + pos as u8));
                frame(&mut bs, (1 + d[2] as u8) << 2 | d[3] as u8, r, false, local, px);
            }
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    let depth = tier.pick(6, 7);
    v.push(family(
        "disposal-histories",
        format!("2x1 screen: all sequences of up to {depth} of 8 frames (left, right, both; disposal 0..=3), without control too; all of different colors, or (up to {}) the same at every place", depth - 1),
        seq_count(10, depth) + seq_count(10, depth - 1),
        move |i, ctx| {
            let all = seq_count(10, depth);
            let s = seq_of(i % all, 10);
            let mut bs = screen(2, 1, Some(2));
            for (pos, k) in s.iter().enumerate() {
                let pos = if i < all { pos } else { 0 };
                let c = 1 + (pos % 7) as u8;
                match *k {
                    k @ 0..=3 => frame(&mut bs, (k as u8) << 2, (0, 0, 1, 1), false, None, vec![c]),
                    k @ 4..=7 => frame(&mut bs, (k as u8 - 4) << 2, (0, 0, 2, 1), false, None, vec![c, 0]),
                    8 => bs.extend(image(1, 0, 1, 1, vec![c])),
                    _ => frame(&mut bs, 0x0D, (0, 0, 2, 1), false, None, vec![0, c]),
                }
            }
            look(&mut bs);
            bs.push(B::Trailer);
            if s.len() == depth as usize {
                return check_file(ctx, &put_all(&bs), None, STEPS);
            }
            shows(ctx, &bs, STEPS)
        },
    ));
    // rectangles
    let rc = rects(6, 5);
    let nr = rc.len() as u64;
    v.push(family(
        "rectangles",
        format!("6x5 screen: all {nr} rectangles, disposal 0..=3, transparency, interlacing, local table, empty or filled canvas"),
        nr * 4 * 16,
        move |i, ctx| {
            let d = digits(i, &[4, 2, 2, 2, 2, nr]);
            let r = rc[d[5] as usize];
            let mut bs = screen(6, 5, Some(4));
            if d[4] == 1 {
                bs.extend(image(0, 0, 6, 5, (0..30).map(|k| 31 - k).collect()));
            }
            let n = r.2 as usize * r.3 as usize;
            let px = (0..n).map(|k| if k % 5 == 3 { 0 } else { k as u8 + 1 }).collect();
            let local = (d[3] == 1).then_some((4, 99));
            frame(&mut bs, (d[0] as u8) << 2 | d[1] as u8, r, d[2] == 1, local, px);
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // interlacing
    let maxh = tier.pick(2100, 4200);
    v.push(family(
        "interlace",
        format!("interlaced images of every height 1..={maxh} and 4095, 4096, 32768, 65535, each row distinct, at the top or below, with transparency"),
        (maxh + 4) * 3,
        move |i, ctx| {
            let h = match i / 3 {
                k if k < maxh => k as usize + 1,
                k => [4095, 4096, 32768, 65535][(k - maxh) as usize],
            };
            let top = if i % 3 == 1 && h < 65000 { 5 } else { 0 };
            let mut bs = screen(3, (h + top) as u16, Some(7));
            let mut px = vec![];
            for k in 0..h {
                let [a, b] = le(k as u16);
                px.extend([a, b]);
            }
            let fl = if i % 3 == 2 { 1 } else { 0 };
            frame(&mut bs, fl, (1, top as u16, 2, h as u16), true, None, px);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    v.push(family(
        "interlace-widths",
        "interlaced images of width 1..=20 and height 1..=20, all pixels distinct as far as possible",
        400,
        |i, ctx| {
            let (w, h) = (i as u16 % 20 + 1, i as u16 / 20 + 1);
            let mut bs = screen(20, 20, Some(7));
            let px = (0..w * h).map(|k| (k % 251) as u8).collect();
            frame(&mut bs, 4, (20 - w, 20 - h, w, h), true, None, px);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // colors
    v.push(family(
        "indices",
        "all indices of global and local tables of every size times all transparent indices, transparency on or off, over a filled canvas",
        8 * 256 * 2 * 2,
        |i, ctx| {
            let d = digits(i, &[256, 2, 2, 8]);
            let bits = d[3] as u8;
            let n = 2u16 << bits;
            let local = d[2] == 1;
            let mut bs = screen(n, 1, Some(if local { 0 } else { bits }));
            bs.extend(image(0, 0, n, 1, vec![1; n as usize]));
            bs.push(gce(d[1] as u8, 1, d[0] as u8));
            let px: Vec<u8> = (0..n).map(|k| k as u8).collect();
            if local {
                bs.extend(image_lct((0, 0, n, 1), bits, 200, 0, px));
            } else {
                bs.extend(image(0, 0, n, 1, px));
            }
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    v.push(family(
        "table-choice",
        "global table of each size or none, frames with local tables of each size or none, all triples of a small set in sequence",
        9 * 9 * 9 * 9,
        |i, ctx| {
            let d = digits(i, &[9, 9, 9, 9]);
            let mut bs = screen(2, 2, (d[0] < 8).then_some(d[0] as u8));
            for k in 1..4 {
                let px = vec![0, 1, 1, 0];
                if d[k] < 8 {
                    bs.extend(image_lct((0, 0, 2, 2), d[k] as u8, 10 * k as u8, 0, px));
                } else {
                    bs.extend(image(0, 0, 2, 2, px));
                }
            }
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    v.push(family(
        "screen-flags",
        "all screen flags and background indices (with the table announced), all image flags with their tables; disposal 2; clearing never uses a color",
        256 * 3,
        |i, ctx| {
            let x = (i / 3) as u8;
            let (mut sf, mut bg, mut imf) = (tflags(2), 0, tflags(1));
            match i % 3 {
                0 => sf = x,
                1 => bg = x,
                _ => imf = x,
            }
            let mut bs = vec![header(), B::Lsd { w: 3, h: 9, flags: sf, bg, aspect: x }];
            if table_bytes(sf) > 0 {
                bs.push(B::Gct(table(table_bytes(sf) / 3, 77)));
            }
            for disp in [1u8, 2, 3] {
                bs.push(gce(disp << 2, 1, 0));
                bs.push(B::Desc { l: 0, t: 0, w: 2, h: 9, flags: imf });
                if table_bytes(imf) > 0 {
                    bs.push(B::Lct(table(table_bytes(imf) / 3, 5 * disp)));
                }
                bs.push(B::Data((0..18).map(|k| (k / 2 % 2) as u8).collect()));
            }
            bs.extend(image_lct((2, 8, 1, 1), 0, 1, 0, vec![1]));
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    v.push(family(
        "control-flags",
        "all control flags times 6 transparent indices, twice in a row, over a filled canvas, then looked at",
        256 * 6 * 2,
        |i, ctx| {
            let d = digits(i, &[256, 6, 2]);
            let t = [0, 1, 2, 3, 4, 255][d[1] as usize];
            let mut bs = screen(2, 2, Some(1));
            bs.extend(image(0, 0, 2, 2, vec![3, 2, 1, 0]));
            for k in 0..2u8 {
                let f = if k == d[2] as u8 { d[0] as u8 } else { 4 };
                bs.push(gce(f, 3, t));
                bs.extend(image(k.into(), 0, 1, 2, vec![1 + k, k]));
            }
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // sizes
    let dims: [(u16, u16); 14] = [
        (255, 3), (256, 3), (257, 3), (3, 255), (3, 256), (3, 257), (300, 300),
        (65535, 1), (1, 65535), (65534, 2), (2, 65534), (1000, 700), (511, 513), (4096, 8),
    ];
    v.push(family(
        "large",
        "14 large screens: frames in each corner, along each edge, and full size, each disposal, then looked at",
        14 * 9 * 4,
        move |i, ctx| {
            let d = digits(i, &[14, 9, 4]);
            let (w, h) = dims[d[0] as usize];
            let (fw, fh) = (2.min(w), 2.min(h));
            let r = match d[1] {
                0 => (0, 0, fw, fh),
                1 => (w - fw, 0, fw, fh),
                2 => (0, h - fh, fw, fh),
                3 => (w - fw, h - fh, fw, fh),
                4 => (0, 0, w, fh),
                5 => (0, h - fh, w, fh),
                6 => (0, 0, fw, h),
                7 => (w - fw, 0, fw, h),
                _ => (0, 0, w, h),
            };
            let mut bs = screen(w, h, Some(2));
            if (w as usize) * (h as usize) < 100_000 {
                bs.extend(image(0, 0, w, h, (0..w as usize * h as usize).map(|k| (k % 7) as u8).collect()));
            }
            let n = r.2 as usize * r.3 as usize;
            frame(&mut bs, (d[2] as u8) << 2 | 1, r, false, None, (0..n).map(|k| (k % 3) as u8).collect());
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // rows which are transparent, solid or mixed
    v.push(family(
        "rows",
        "frames of every height 1..=40 and width 1, 2, 5 with all periods of up to 4 rows (transparent, one color, half transparent, other color), each disposal, interlaced or not, on a colored canvas",
        40 * 3 * 256 * 4 * 2,
        |i, ctx| {
            let d = digits(i, &[2, 4, 256, 3, 40]);
            let (w, h) = ([1u16, 2, 5][d[3] as usize], d[4] as u16 + 1);
            let row = |y: u64| d[2] >> (2 * (y % 4)) & 3;
            let px = |f: &dyn Fn(u64, u64) -> u8| -> Vec<u8> {
                (0..h as u64).flat_map(|y| (0..w as u64).map(move |x| (x, y))).map(|(x, y)| f(x, y)).collect()
            };
            let mut bs = screen(w + 1, h + 1, Some(2));
            let n = (w as usize + 1) * (h as usize + 1);
            bs.extend(image(0, 0, w + 1, h + 1, (0..n).map(|k| (k % 5) as u8).collect()));
            let p = px(&|x, y| match row(y) {
                0 => 0,
                1 => 6,
                2 => 3 * (x & 1) as u8,
                _ => 7,
            });
            frame(&mut bs, (d[1] as u8) << 2 | 1, ((d[4] & 1) as u16, (d[4] >> 1 & 1) as u16, w, h), d[0] == 1, None, p);
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // contents of local tables
    v.push(family(
        "local-tables",
        "local tables of 2..=256 entries: all black, all white, all one color, that of the screen or its beginning, the same in reverse, black but for one entry; global table of 2..=256 entries or none; all pixel values",
        8 * 8 * 9 * 2,
        |i, ctx| {
            let d = digits(i, &[8, 8, 9, 2]);
            let n = 2usize << d[0];
            let g = (d[2] < 8).then_some(d[2] as u8);
            let mut bs = screen(16, 16, g);
            let all = table(256, 0);
            let global = match bs.last() {
                Some(B::Gct(t)) => t.clone(),
                _ => all.clone(),
            };
            let fit = |t: &[u8]| t.iter().chain(&all).take(3 * n).copied().collect::<Vec<u8>>();
            let t: Vec<u8> = match d[1] {
                0 => vec![0; 3 * n],
                1 => vec![255; 3 * n],
                2 => [1, 2, 3].repeat(n),
                3 => fit(&global),
                4 => fit(&global).chunks(3).rev().flatten().copied().collect(),
                5 => (0..3 * n).map(|k| 255 * (k == 3 * n - 1) as u8).collect(),
                6 => (0..3 * n).map(|k| 255 * (k == 0) as u8).collect(),
                _ => fit(&global[3..]),
            };
            if let (Some(g), 1) = (g, d[3]) {
                let m = 2usize << g;
                bs.extend(image(0, 0, 16, 16, (0..256).map(|k| (k % m) as u8).collect()));
            }
            let px = |m: usize| (0..256).map(|k| (k % m) as u8).collect::<Vec<u8>>();
            frame(&mut bs, 0, (0, 0, 16, 16), false, Some((d[0] as u8, 0)), px(n));
            for b in &mut bs {
                if let B::Lct(x) = b {
                    x.clone_from(&t);
                }
            }
            frame(&mut bs, 5, (1, 0, 9, 16), d[3] == 1, Some((1, 77)), px(4)[..144].to_vec());
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // contents of tables together with a transparent index
    v.push(family(
        "transparent-tables",
        "local or global tables of 2..=256 entries: all black, all white, all one color, two colors in turn, every color twice, one color at both ends, black but for one entry, no color twice; no transparent index, 0, 1, the middle or the last one; no disposal, clear or restore; all pixel values, plain or interlaced",
        8 * 8 * 5 * 3 * 2 * 2,
        |i, ctx| {
            let d = digits(i, &[8, 8, 5, 3, 2, 2]);
            let n = 2usize << d[0];
            let all = table(256, 7);
            let rgb = |k: usize| all[3 * k..3 * k + 3].to_vec();
            let t: Vec<u8> = (0..n)
                .flat_map(|k| match d[1] {
                    0 => vec![0; 3],
                    1 => vec![255; 3],
                    2 => vec![1, 2, 3],
                    3 => vec![255 * (k % 2) as u8; 3],
                    4 => rgb(k / 2),
                    5 => rgb(k % (n - 1)),
                    6 => vec![255 * (k == n / 2) as u8; 3],
                    _ => rgb(k),
                })
                .collect();
            let idx = match d[2] {
                0 => None,
                1 => Some(0),
                2 => Some(1),
                3 => Some((n / 2) as u8),
                _ => Some((n - 1) as u8),
            };
            let flags = [0, 8, 12][d[3] as usize] | idx.is_some() as u8;
            let mut bs = screen(16, 16, Some(d[0] as u8));
            frame(&mut bs, 0, (0, 0, 16, 16), false, Some((2, 99)), (0..256).map(|k| (k / 16 % 8) as u8).collect());
            if d[4] == 0 {
                for b in &mut bs {
                    if let B::Gct(x) = b {
                        x.clone_from(&t);
                    }
                }
            }
            let at = bs.len();
            let lct = (d[4] == 1).then_some((d[0] as u8, 0));
            frame(&mut bs, flags, (0, 0, 16, 16), d[5] == 1, lct, (0..256).map(|k| (k % n) as u8).collect());
            bs[at] = gce(flags, 3, idx.unwrap_or(0));
            for b in &mut bs[at..] {
                if let B::Lct(x) = b {
                    x.clone_from(&t);
                }
            }
            frame(&mut bs, 0, (2, 1, 3, 3), false, Some((0, 5)), vec![0, 1, 0, 1, 1, 0, 0, 0, 1]);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    // other blocks in between, many frames
    v.push(family(
        "between",
        "comments, applications, unknown extensions, plain text between control and image and between frames (all placements of 4 kinds at 4 places)",
        5u64.pow(4),
        |i, ctx| {
            let d = digits(i, &[5, 5, 5, 5]);
            let other = |k: u64| match k {
                0 => vec![],
                1 => vec![B::Comment(vec![b"c".to_vec()])],
                2 => vec![B::App(vec![b"XXXXXXXXXXX".to_vec(), vec![1]])],
                3 => vec![B::Unknown(0x55, vec![vec![1]])],
                _ => vec![B::Text(vec![vec![1; 12], b"t".to_vec()])],
            };
            let mut bs = screen(2, 2, Some(1));
            bs.extend(other(d[0]));
            bs.extend(image(0, 0, 2, 2, vec![1, 2, 3, 1]));
            bs.extend(other(d[1]));
            bs.push(gce(0x09, 3, 2));
            bs.extend(other(d[2]));
            bs.extend(image(0, 0, 2, 1, vec![2, 3]));
            bs.extend(other(d[3]));
            look(&mut bs);
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    let depth = tier.pick(4, 5);
    v.push(family(
        "sequences",
        format!("all sequences of up to {depth} of {ITEMS} block groups, plain and {VARIANTS_TEXT}"),
        seq_count(ITEMS, depth) * (VARIANTS + 1),
        |i, ctx| {
            let (s, how) = (seq_of(i / 4, ITEMS), i % 4);
            let bs = match how {
                3 => seq_file(&s, true, true),
                how => variant_file(&s, how, true, true),
            };
            shows(ctx, &bs, STEPS)
        },
    ));
    v.push(family(
        "colors",
        "one table with all colors over 6 values per channel (black, white and gray among them), each drawn over a filled canvas and over a cleared one, local or global, disposal 0..=3",
        8,
        |i, ctx| {
            const C: [u8; 6] = [0, 1, 127, 128, 254, 255];
            let mut t = vec![];
            for k in 0..256 {
                t.extend(digits(k, &[6, 6, 6]).iter().map(|c| C[*c as usize]));
            }
            let d = digits(i, &[2, 4]);
            let flags = if d[0] == 0 { tflags(7) } else { 0 };
            let mut bs = vec![header(), B::Lsd { w: 256, h: 2, flags, bg: 3, aspect: 0 }];
            if d[0] == 0 {
                bs.push(B::Gct(t.clone()));
            }
            for (disp, x) in [(1, 0), (d[1] as u8, 216), (2, 7), (1, 100)] {
                bs.push(gce(disp << 2, 1, 0));
                bs.push(B::Desc { l: 0, t: 0, w: 256, h: 1, flags: tflags(7) & !flags });
                if d[0] == 1 {
                    bs.push(B::Lct(t.clone()));
                }
                bs.push(B::Data((0..256).map(|k| ((k + x) % 256) as u8).collect()));
            }
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    let last = tier.pick(9000, 70_000);
    v.push(family(
        "many",
        format!("1..=300, 1000 and {last} frames with rotating disposal, position and color; for 1000 and {last} in all 24 phases, so that each kind of frame comes at each place"),
        348,
        move |i, ctx| {
            let (n, at) = match i {
                ..300 => (i + 1, 0),
                i if i < 324 => (1000, i - 300),
                i => (last, i - 324),
            };
            let mut bs = screen(3, 1, Some(2));
            for k in at..n + at {
                let r = ((k % 2) as u16, 0, 2, 1);
                frame(&mut bs, ((k / 3 % 4) as u8) << 2 | (k / 12 % 2) as u8, r, k % 5 == 0, None, vec![(k % 8) as u8, (k / 8 % 8) as u8]);
            }
            bs.push(B::Trailer);
            shows(ctx, &bs, STEPS)
        },
    ));
    v.push(special_family("special", "steps", |ctx, b| {
        let lv = Lv { blocks: false, frames: false, steps: true, looping: false };
        check_file(ctx, b, None, lv)
    }));
    v.push(around_family("steps", |ctx, a| {
        if a.small() {
            check_file(ctx, &a.file(), None, STEPS)?;
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C13

/// Control of a frame, or none, or one consumed by a plain text
fn control(k: u64, pos: usize) -> Vec<B> {
    match k {
        0 => vec![],
        1 => vec![gce(0, 0, 0)],
        2 => vec![gce(0x01, 10 + pos as u16, pos as u8 % 4)],
        3 => vec![gce(0x04, 65535 - pos as u16, 3)],
        4 => vec![gce(0xFF, 256, 255)],
        5 => vec![gce(0x01, 0, 0)],
        6 => vec![gce(0x01, 99, 1), B::Text(vec![vec![1]])],
        _ => vec![gce(0x02, 1, 9), B::Comment(vec![vec![1]])],
    }
}

pub fn c13(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family(
        "delays",
        "all delays, with and without transparency, first frame or second",
        65536 * 4,
        |i, ctx| {
            let d = digits(i, &[65536, 2, 2]);
            let mut bs = screen(1, 1, Some(0));
            bs.push(loop_ext(1));
            if d[2] == 1 {
                bs.push(gce(0, 500, 1));
                bs.extend(image(0, 0, 1, 1, vec![1]));
            }
            bs.push(gce(d[1] as u8, d[0] as u16, 1));
            bs.extend(image(0, 0, 1, 1, vec![0]));
            if d[2] == 0 {
                bs.extend(image(0, 0, 1, 1, vec![1]));
            }
            bs.push(B::Trailer);
            shows(ctx, &bs, BOTH)
        },
    ));
    v.push(family(
        "flags",
        "all pairs of control flags and transparent index, delays 0, 1 and 65535",
        65536 * 3,
        |i, ctx| {
            let d = digits(i, &[256, 256, 3]);
            let mut bs = screen(1, 1, Some(7));
            bs.push(gce(d[0] as u8, [0, 1, 65535][d[2] as usize], d[1] as u8));
            bs.extend(image(0, 0, 1, 1, vec![d[1] as u8 ^ 1]));
            bs.extend(image(0, 0, 1, 1, vec![2]));
            bs.push(B::Trailer);
            shows(ctx, &bs, BOTH)
        },
    ));
    let depth = tier.pick(6, 7);
    v.push(family(
        "sequences",
        format!("all sequences of up to {depth} frames over 8 kinds of control (none, default, transparent only, delay only, all bits, consumed by a text, with a comment), loop count none, 1, 2; different (delays name the place) or the same at every place"),
        seq_count(8, depth) * 6,
        move |i, ctx| {
            let s = seq_of(i / 6, 8);
            let mut bs = screen(2, 1, Some(1));
            match i % 3 {
                0 => (),
                n => bs.push(loop_ext(n as u16)),
            }
            for (pos, k) in s.iter().enumerate() {
                let pos = if i / 3 % 2 == 0 { pos } else { 0 };
                bs.extend(control(*k, pos));
                let px = vec![(pos % 4) as u8, 1];
                if pos % 2 == 0 {
                    bs.extend(image(0, 0, 2, 1, px));
                } else {
                    bs.extend(image_lct((0, 0, 2, 1), 1, pos as u8, 0, px));
                }
            }
            bs.push(B::Trailer);
            ctx.sample(|| format!("{s:?}"));
            if s.len() == depth as usize {
                return check_file(ctx, &put_all(&bs), None, BOTH);
            }
            shows(ctx, &bs, BOTH)
        },
    ));
    v.push(family(
        "many",
        "1..=600 frames, every k-th with a control (k in 1..=3), loop count 1",
        600 * 3,
        |i, ctx| {
            let mut bs = screen(1, 1, Some(0));
            bs.push(loop_ext(1));
            for n in 0..=i / 3 {
                if n % (i % 3 + 1) == 0 {
                    bs.push(gce((n % 2) as u8, 100 + n as u16, n as u8));
                }
                bs.extend(image(0, 0, 1, 1, vec![(n % 2) as u8]));
            }
            bs.push(B::Trailer);
            if i / 3 < 40 || i / 3 % 16 == 15 || (250..=260).contains(&(i / 3)) {
                shows(ctx, &bs, BOTH)
            } else {
                Ok(())
            }
        },
    ));
    const SIDES: [u16; 8] = [1, 2, 128, 201, 256, 257, 600, 1001];
    v.push(family(
        "sizes",
        format!("images with sides from {SIDES:?} up to 70000 pixels, delays 0, 255..=257, 1000, 6001, 32767, 32768, 65535, flags 0, 1, 9, 255, indices 0, 1, 255"),
        64 * 9 * 4 * 3,
        |i, ctx| {
            let d = digits(i, &[8, 8, 9, 4, 3]);
            let (w, h) = (SIDES[d[0] as usize], SIDES[d[1] as usize]);
            let n = w as usize * h as usize;
            if n > 70_000 || n > 10_000 && d[3] != d[4] {
                return Ok(());
            }
            let mut bs = screen(w, h, Some(0));
            let delay = [0, 255, 256, 257, 1000, 6001, 32767, 32768, 65535][d[2] as usize];
            bs.push(gce([0, 1, 9, 255][d[3] as usize], delay, [0, 1, 255][d[4] as usize]));
            bs.extend(image(0, 0, w, h, vec![1; n]));
            bs.push(B::Trailer);
            check_file(ctx, &put_all(&bs), None, STEPS)
        },
    ));
    v.push(special_family("special", "steps and looping steps", |ctx, b| {
        check_file(ctx, b, None, BOTH)
    }));
    v.push(around_family("steps and looping steps", |ctx, a| {
        if a.small() {
            check_file(ctx, &a.file(), None, BOTH)?;
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C15

/// An animation of `n` steps with the given extension blocks in front
fn animation(front: &[B], n: usize) -> Vec<B> {
    let mut bs = screen(2, 1, Some(2));
    bs.extend_from_slice(front);
    for k in 0..n {
        bs.push(gce(0x04 | (k as u8 & 1), k as u16, 7));
        bs.extend(image((k % 2) as u16, 0, 1, 1, vec![(k % 7) as u8]));
    }
    bs.push(B::Trailer);
    bs
}

/// Count steps to the end without keeping them, with a global table and without
fn count(ctx: &mut Ctx, bs: &[B], cap: usize) -> Check {
    count_of(ctx, &put_all(bs), cap)?;
    count_of(ctx, &put_all(&localized(bs)), cap)
}

fn count_of(ctx: &mut Ctx, m: &[u8], cap: usize) -> Check {
    ctx.trace();
    let c = compose(&group(&parse(m, None)), None, false);
    let n = c.steps.len();
    let total = loop_passes(&c).map(|p| p * n);
    let mut it = decoder(m, None).into_iter();
    let mut k = 0;
    let say = |e: String| Err(format!("{e}\n loop count {:?}, {n} steps\n input: {}", c.loops, short(m)));
    while k < cap {
        match it.next() {
            Some(Ok(s)) => {
                if total.is_some_and(|t| k >= t) {
                    return say(format!("more than {} steps", total.unwrap()));
                }
                let w = &c.steps[k % n];
                if s.raster().as_u8_slice() != &w.rgba[..]
                    || s.delay_time_cs().unwrap_or(0) != w.delay
                    || s.transparent_color() != w.transparent
                {
                    return say(format!("step {k} differs from that of the first pass"));
                }
            }
            Some(Err(e)) => return say(format!("error {:?} after {k} steps", ek(&e))),
            None => {
                if total != Some(k) {
                    return say(format!("ends after {k} steps, expected {total:?}"));
                }
                ctx.steps(k);
                ctx.state(&(c.loops, n));
                ctx.outcome(&k);
                return Ok(());
            }
        }
        k += 1;
    }
    if total.is_some() {
        return say(format!("does not end after {k} steps, expected {total:?}"));
    }
    ctx.steps(k);
    ctx.outcome(&"endless");
    Ok(())
}

/// Values next to powers of two and of the byte boundary, and small ones
fn counts(small: u16) -> Vec<u16> {
    let mut v: Vec<u16> = (0..=small).collect();
    for k in 1..=16 {
        for d in -2i32..=2 {
            let x = (1i32 << k) + d;
            if (0..65536).contains(&x) {
                v.push(x as u16);
            }
        }
    }
    v.extend((1..=255).map(|k| k * 257));
    v.extend((1..=254).map(|k| k * 256));
    v.sort();
    v.dedup();
    v
}

pub fn c15(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family(
        "values",
        "all 65536 loop counts: read from a file (both identifiers) through block, preamble and accessor; written by block, frame and step encoder",
        65536,
        |i, ctx| {
            let n = i as u16;
            ctx.trace();
            ctx.steps(6);
            ctx.state(&n);
            ctx.outcome(&n);
            let [lo, hi] = le(n);
            let bad = |w: &str, g: String| Err(format!("{w}: loop count {n} read or written as {g}"));
            for id in [b"NETSCAPE2.0", b"ANIMEXTS1.0"] {
                let m = put_all(&animation(&[B::App(vec![id.to_vec(), vec![1, lo, hi]])], 1));
                for b in decoder(&m[..], None).into_blocks() {
                    if let Ok(gb::Block::Application(a)) = b
                        && a.loop_count() != Some(n)
                    {
                        return bad("block", format!("{:?}", a.loop_count()));
                    }
                }
                let p = decoder(&m[..], None).into_frames().preamble();
                let c = p.ok().flatten().and_then(|p| p.loop_count_ext).and_then(|a| a.loop_count());
                if c != Some(n) {
                    return bad("preamble", format!("{c:?}"));
                }
            }
            let a = gb::Application::with_loop_count(n);
            if a.loop_count() != Some(n) {
                return bad("with_loop_count", format!("{:?}", a.loop_count()));
            }
            let ext = [0x21, 0xFF, 11, 78, 69, 84, 83, 67, 65, 80, 69, 50, 46, 48, 3, 1, lo, hi, 0];
            let mut o = vec![];
            let _ = gift::Encoder::new(&mut o).into_block_enc().encode(a.clone());
            if o != ext {
                return bad("block encoder", hex(&o));
            }
            let mut o = vec![];
            let pr = gb::Preamble { loop_count_ext: Some(a), ..Default::default() };
            let _ = gift::Encoder::new(&mut o).into_frame_enc().encode_preamble(&pr);
            if !o.ends_with(&ext) {
                return bad("frame encoder", hex(&o));
            }
            let mut o = vec![];
            let mut e = gift::Encoder::new(&mut o).into_step_enc().with_loop_count(n);
            let s = gift::Step::with_indexed(
                super::codec::raster8(1, 1, &[1]),
                super::codec::gray_palette(2),
            );
            let _ = e.encode_step(&s);
            drop(e);
            let l = group(&parse(&o, None)).preamble.ok().and_then(|p| p.loop_ext);
            if l.as_ref().and_then(|l| loop_count(l)) != Some(n) {
                return bad("step encoder", hex(&o));
            }
            Ok(())
        },
    ));
    let cs = counts(tier.pick(9000, 65535));
    let nc = cs.len() as u64;
    v.push(family(
        "passes-1",
        format!("every pass counted for {nc} loop counts, 1 step"),
        nc,
        {
            let cs = cs.clone();
            move |i, ctx| {
                let m = animation(&[loop_ext(cs[i as usize])], 1);
                ctx.sample(|| format!("loop count {}", cs[i as usize]));
                count(ctx, &m, 66_000)
            }
        },
    ));
    let cs = counts(300);
    let small: Vec<u16> = cs.iter().copied().filter(|c| *c <= 5000 || *c == 65535).collect();
    let nc = small.len() as u64;
    v.push(family(
        "passes",
        format!("every pass counted for {nc} loop counts up to 5000, and 65535, times 2, 3, 4, 7 steps; NETSCAPE2.0 and ANIMEXTS1.0"),
        nc * 4 * 2,
        move |i, ctx| {
            let d = digits(i, &[4, 2, nc]);
            let n = small[d[2] as usize];
            if n == 65535 && d[0] > 1 {
                return Ok(());
            }
            let id = [b"NETSCAPE2.0", b"ANIMEXTS1.0"][d[1] as usize];
            let [a, b] = le(n);
            let m = animation(
                &[B::App(vec![id.to_vec(), vec![1, a, b]])],
                [2, 3, 4, 7][d[0] as usize],
            );
            count(ctx, &m, 200_000)
        },
    ));
    v.push(family(
        "step-numbers",
        "0..=300 and 1000 steps with no loop count, 0, 1, 2, 3; raster and timing of every step of every pass",
        302 * 5,
        |i, ctx| {
            let d = digits(i, &[5, 302]);
            let n = if d[1] == 301 { 1000 } else { d[1] as usize };
            let front = match d[0] {
                0 => vec![],
                k => vec![loop_ext(k as u16 - 1)],
            };
            let m = animation(&front, n);
            if n == 0 {
                return shows(ctx, &m, BOTH);
            }
            count(ctx, &m, 8 * n + 20)
        },
    ));
    v.push(family(
        "endless",
        "loop count 0 with 1, 2, 3, 5 steps still going after 200000 steps, and 0 steps ending",
        5,
        |i, ctx| {
            let m = animation(&[loop_ext(0)], [0, 1, 2, 3, 5][i as usize]);
            if i == 0 {
                return shows(ctx, &m, BOTH);
            }
            count(ctx, &m, 200_000)
        },
    ));
    v.push(family(
        "large",
        "screens of 1000x1000, 1025x1024, 2048x1500, 65535x31 and 4096x2048 pixels, 1 to 5 steps, loop counts 1, 2 or none",
        5 * 5 * 3,
        |i, ctx| {
            let d = digits(i, &[5, 5, 3]);
            let (w, h) = [(1000, 1000), (1025, 1024), (2048, 1500), (65535, 31), (4096, 2048)][d[0] as usize];
            let mut bs = screen(w, h, Some(1));
            if d[2] > 0 {
                bs.push(loop_ext(d[2] as u16));
            }
            for k in 0..=d[1] as u16 {
                bs.push(gce(0, 1 + k, 0));
                bs.extend(image(w - 1 - k, h - 1 - k, 1, 1, vec![k as u8 % 4]));
            }
            bs.push(B::Trailer);
            count_of(ctx, &put_all(&bs), 99)
        },
    ));
    // variants of the extension
    v.push(family(
        "identifier",
        "each byte of either identifier replaced by 8 values, identifier of other length, each value of the sub-block id, data of 1..=255 bytes",
        11 * 8 * 2 + 256 + 255 + 24,
        |i, ctx| {
            let mut id = if i % 2 == 0 { b"NETSCAPE2.0".to_vec() } else { b"ANIMEXTS1.0".to_vec() };
            let mut data = vec![1, 2, 0];
            if i < 176 {
                let (p, k) = ((i / 16) as usize, i / 2 % 8);
                id[p] = match k {
                    0 => id[p] ^ 0x20,
                    1 => 0,
                    2 => b' ',
                    3 => id[p].wrapping_add(1),
                    4 => id[p].wrapping_sub(1),
                    5 => 0xFF,
                    6 => b'1',
                    _ => id[p] ^ 0x80,
                };
            } else if i < 176 + 256 {
                data[0] = (i - 176) as u8;
            } else if i < 176 + 256 + 255 {
                data = vec![1; (i - 176 - 256) as usize + 1];
            } else {
                let k = (i - 176 - 256 - 255) / 2;
                match k {
                    0..=10 => id.truncate(k as usize + 1),
                    _ => id.push(0),
                }
            }
            let m = animation(&[B::App(vec![id, data])], 2);
            shows(ctx, &m, BOTH)
        },
    ));
    let depth = tier.pick(4, 5);
    v.push(family(
        "placement",
        format!("all sequences of up to {depth} of: loop extension (count names its place), comment, other application, unknown, text, image, control with image; different or the same at every place"),
        seq_count(7, depth) * 2,
        |i, ctx| {
            let s = seq_of(i / 2, 7);
            let mut bs = screen(4, 4, Some(2));
            for (pos, k) in s.iter().enumerate() {
                let pos = if i % 2 == 0 { pos } else { 0 };
                match k {
                    0 => bs.push(loop_ext(pos as u16 + 1)),
                    1 => bs.extend(item(0, pos)),
                    2 => bs.extend(item(5, pos)),
                    3 => bs.extend(item(7, pos)),
                    4 => bs.extend(item(6, pos)),
                    5 => bs.extend(item(2, pos)),
                    _ => {
                        bs.extend(item(1, pos));
                        bs.extend(item(3, pos));
                    }
                }
            }
            bs.push(B::Trailer);
            for bs in [localized(&bs), bs] {
                let m = put_all(&bs);
                let p = parse(&m, None);
                let c = compose(&group(&p), None, false);
                check_loop(ctx, &m, None, &c, false, 200)?;
            }
            Ok(())
        },
    ));
    v.push(special_family("special", "looping steps", |ctx, b| {
        let lv = Lv { blocks: false, frames: false, steps: false, looping: true };
        check_file(ctx, b, None, lv)
    }));
    v.push(around_family("looping steps", |ctx, a| {
        let lv = Lv { blocks: false, frames: false, steps: false, looping: true };
        if a.small() {
            check_file(ctx, &a.file(), None, lv)?;
        }
        Ok(())
    }));
    v
}
