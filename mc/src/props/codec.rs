//! C01, C02, C03, C29: the LZW codec
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use gift::Encoder;
use gift::block as gb;
use pix::{Palette, Raster, gray::Gray8, rgb::SRgb8};
use std::sync::Arc;

/// An image: width, height, pixels
type Img = (u16, u16, Vec<u8>);
type Gen = Arc<dyn Fn(u64) -> Img + Sync + Send>;

struct Images {
    name: String,
    bound: String,
    count: u64,
    generate: Gen,
    /// Also through the frame and step encoders
    all_levels: bool,
}

fn flat(px: Vec<u8>) -> Img {
    (px.len() as u16, 1, px)
}

/// Cut n pixels to rectangle with n pixels at most
fn rect(n: usize) -> (u16, u16) {
    if n <= 65535 { (n as u16, 1) } else { (250, (n / 250) as u16) }
}

/// The space of images for C01, C02 and C29
fn images(tier: Tier) -> Vec<Images> {
    let mut v: Vec<Images> = vec![];
    let mut add = |name: String, bound: String, count, all_levels, g: Gen| {
        v.push(Images { name, bound, count, generate: g, all_levels });
    };
    let alphabets: Vec<(Vec<u8>, u32, u32)> = {
        let mut a = vec![];
        for m in 2..=8u32 {
            let top = ((1u32 << m) - 1) as u8;
            a.push((vec![0, top], 14, 18));
            a.push((vec![top - 1, top], 13, 17));
            if m > 2 {
                a.push((vec![(1 << (m - 1)) as u8, top], 12, 15));
            }
        }
        a.push((vec![0, 1], 15, 20));
        a.push((vec![1, 0], 12, 14));
        a.push((vec![0, 1, 2], 9, 12));
        a.push((vec![3, 5, 7], 8, 11));
        a.push((vec![0, 128, 255], 8, 10));
        a.push((vec![0, 1, 2, 3], 7, 8));
        a.push((vec![0, 85, 170, 255], 6, 8));
        a.push((vec![0, 1, 2, 3, 4, 5], 5, 6));
        a
    };
    for (al, q, t) in alphabets {
        let k = al.len() as u64;
        let depth = tier.pick(q, t);
        let name = format!(
            "seq-{}",
            al.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-")
        );
        add(
            name,
            format!("all pixel sequences over {al:?} of length 0..={depth}"),
            seq_count(k, depth),
            false,
            Arc::new(move |i| {
                flat(seq_of(i, k).iter().map(|d| al[*d as usize]).collect())
            }),
        );
    }
    // every length, several textures, every code size
    let n = tier.pick(9000, 20000);
    for m in 2..=8u32 {
        let top = (1usize << m) - 1;
        let mut textures: Vec<(&str, Vec<u8>, usize)> = vec![];
        textures.push(("noise", noise(m, n), n));
        textures.push(("const", vec![top as u8; 1200], 1200));
        textures.push((
            "ramp",
            (0..n).map(|i| (i % (top + 1)) as u8).collect(),
            2000,
        ));
        textures.push((
            "sparse",
            (0..n)
                .map(|i| if i % 17 == 3 { top as u8 } else { (i / 300 % 2) as u8 })
                .collect(),
            3000,
        ));
        for (tn, px, n) in textures {
            let px = Arc::new(px);
            add(
                format!("len-{tn}-{m}"),
                format!("every length 0..{n} of the {tn} texture, {m} bits"),
                n as u64,
                false,
                Arc::new(move |i| flat(px[..i as usize].to_vec())),
            );
        }
        // windows of lengths far out: several table resets, > 65535 pixels
        let big = Arc::new(noise(m, 150_000));
        let starts = tier.pick(vec![5000u64, 16384, 35000], vec![
            3000, 5000, 7000, 10000, 16384, 20000, 30000, 35000,
        ]);
        let win = tier.pick(48, 200);
        add(
            format!("far-{m}"),
            format!("4 rows of {win} widths from each of {starts:?}, noise"),
            starts.len() as u64 * win,
            false,
            Arc::new(move |i| {
                let w = starts[(i / win) as usize] + i % win;
                (w as u16, 4, big[..w as usize * 4].to_vec())
            }),
        );
        // around the first table resets: every length
        let big = Arc::new(noise(m, 30_000));
        let b2 = big.clone();
        let stop = reset_lengths(m as u8, &b2);
        let cnt = stop.len() as u64;
        add(
            format!("reset-{m}"),
            format!("every length within 6 pixels of the first {} table resets", cnt / 13),
            cnt,
            false,
            Arc::new(move |i| flat(big[..stop[i as usize]].to_vec())),
        );
    }
    // longest strings
    for (k, n) in tier.pick(
        vec![(0u8, 600_000usize), (255, 600_000)],
        vec![(0, 8_600_000), (3, 600_000), (255, 8_600_000), (15, 3_000_000)],
    ) {
        add(
            format!("run-{k}"),
            format!("constant run of about {n} pixels, 8 lengths"),
            8,
            false,
            Arc::new(move |i| {
                let w = 3000 + i as usize;
                (w as u16, (n / w) as u16, vec![k; n / w * w])
            }),
        );
    }
    // long strings of more than one value
    add(
        "periodic".into(),
        "periods 2..=9 of 3 patterns until the table has been filled, one pixel changed near the end or not".into(),
        8 * 3 * 2,
        false,
        Arc::new(|i| {
            let d = digits(i, &[8, 3, 2]);
            let mut img = periodic(d[0] as usize + 2, d[1]);
            if d[2] == 1 {
                let n = img.2.len();
                img.2[n - 700] ^= 1;
            }
            img
        }),
    );
    // every maximum value
    add(
        "max".into(),
        "every maximum 0..=255, 4 textures, every length 1..=40".into(),
        256 * 4 * 40,
        true,
        Arc::new(|i| {
            let d = digits(i, &[256, 4, 40]);
            let (v, n) = (d[0] as u8, d[2] as usize + 1);
            let mut px = match d[1] {
                0 => vec![v; n],
                1 => (0..n).map(|i| (i % (v as usize + 1)) as u8).collect(),
                2 => vec![0; n],
                _ => (0..n).map(|i| v - (i % (v as usize + 1)) as u8).collect(),
            };
            if d[1] == 2 {
                px[n - 1] = v;
            }
            flat(px)
        }),
    );
    // a large value far from the beginning
    let places: Vec<usize> = [256usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072]
        .iter()
        .flat_map(|n| [n - 1, *n, n + 1])
        .chain(tier.pick(vec![], vec![262144, 524288, 1048576]))
        .collect();
    let np = places.len() as u64;
    add(
        "late".into(),
        format!("largest value 4, 16, 128, 255 first seen at pixel {places:?} of an image of values 0, 1 (runs or noise), then last pixel or 300 more"),
        np * 4 * 2 * 2,
        false,
        Arc::new(move |i| {
            let d = digits(i, &[np, 4, 2, 2]);
            let at = places[d[0] as usize];
            let n = at + 1 + 300 * d[3] as usize;
            let (w, h) = if n <= 65535 { (n, 1) } else { (500, n.div_ceil(500)) };
            let mut px = if d[2] == 0 {
                (0..w * h).map(|k| (k / 50 % 2) as u8).collect()
            } else {
                noise(1, w * h)
            };
            px[at] = [4, 16, 128, 255][d[1] as usize];
            (w as u16, h as u16, px)
        }),
    );
    // all pairs of values
    add(
        "pair".into(),
        "a b a b b a for all values a, b".into(),
        65536,
        false,
        Arc::new(|i| {
            let (a, b) = (i as u8, (i >> 8) as u8);
            flat(vec![a, b, a, b, b, a])
        }),
    );
    const EDGE: [u8; 17] =
        [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255];
    let len = tier.pick(4, 5);
    add(
        "edge".into(),
        format!("all sequences of length {len} over {EDGE:?}"),
        17u64.pow(len),
        false,
        Arc::new(move |mut i| {
            let mut px = vec![];
            for _ in 0..len {
                px.push(EDGE[(i % 17) as usize]);
                i /= 17;
            }
            flat(px)
        }),
    );
    // order in which strings with a common prefix are defined
    for (name, vals) in [
        ("low", [1u8, 2, 3, 4, 5, 6, 7]),
        ("high", [3, 60, 100, 127, 128, 200, 255]),
    ] {
        add(
            format!("siblings-{name}"),
            format!("all 5040 orders of {vals:?} after 0, then each looked up"),
            5040,
            false,
            Arc::new(move |i| {
                let p = perm(i, &vals);
                let mut px = vec![];
                for x in p.iter().chain(vals.iter()).chain(p.iter().rev()) {
                    px.extend([0, *x]);
                }
                flat(px)
            }),
        );
    }
    // all strings with a common prefix, defined in orders which make a chain
    add(
        "sibling-chains".into(),
        "every value after a prefix of 1 to 3 equal pixels, in 6 orders (up, down, from both ends, from the middle, odd after even, bits reversed), twice; 2 to 8 bits, four prefixes".into(),
        7 * 4 * 6 * 3,
        false,
        Arc::new(|i| {
            let d = digits(i, &[7, 4, 6, 3]);
            let m = d[0] as u32 + 2;
            let n = 1usize << m;
            let p = [0, 1, n / 2, n - 1][d[1] as usize] as u8;
            let order = |k: usize| match d[2] {
                0 => k,
                1 => n - 1 - k,
                2 if k % 2 == 0 => k / 2,
                2 => n - 1 - k / 2,
                3 if k % 2 == 0 => n / 2 + k / 2,
                3 => n / 2 - 1 - k / 2,
                4 => (2 * k) % n + 2 * k / n,
                _ => ((k as u8).reverse_bits() >> (8 - m)) as usize,
            };
            let mut px = vec![];
            for k in (0..n).chain(0..n) {
                px.extend(vec![p; d[3] as usize + 1]);
                px.push(order(k) as u8);
            }
            flat(px)
        }),
    );
    // very large images
    let big: Vec<(u16, u16)> = tier.pick(
        vec![(512, 513), (1024, 1024), (1025, 1024), (65535, 17), (17, 65535), (2048, 2049), (4097, 4096)],
        vec![
            (512, 513), (1024, 1024), (1025, 1024), (65535, 17), (17, 65535), (2048, 2049),
            (4095, 4096), (4096, 4096), (4097, 4096), (8191, 4096), (8192, 4096), (65535, 512),
        ],
    );
    let nb = big.len() as u64;
    add(
        "huge".into(),
        format!("sizes {big:?}, three textures, last pixel of its own value"),
        nb * 3,
        false,
        Arc::new(move |i| {
            let (w, h) = big[(i / 3) as usize];
            let n = w as usize * h as usize;
            let mut px: Vec<u8> = match i % 3 {
                0 => vec![1; n],
                1 => (0..n).map(|k| ((k * k) >> 7) as u8 & 0x7F).collect(),
                _ => (0..n).map(|k| (k >> 8) as u8 & 0x3F).collect(),
            };
            px[n - 1] = 200;
            (w, h, px)
        }),
    );
    // sizes
    add(
        "dims".into(),
        "every width and height 0..=24, and extreme shapes".into(),
        25 * 25 + 12,
        true,
        Arc::new(|i| {
            let (w, h) = if i < 625 {
                ((i % 25) as u16, (i / 25) as u16)
            } else {
                [
                    (65535, 1),
                    (1, 65535),
                    (65535, 2),
                    (2, 65535),
                    (256, 256),
                    (255, 257),
                    (300, 300),
                    (1, 256),
                    (256, 1),
                    (65535, 0),
                    (0, 65535),
                    (1024, 512),
                ][i as usize - 625]
            };
            let n = w as usize * h as usize;
            (w, h, noise(1 + (i % 8) as u32, n))
        }),
    );
    v
}

/// Image of a repeated pattern, large enough to fill the table
fn periodic(p: usize, kind: u64) -> Img {
    let pat: Vec<u8> = (0..p)
        .map(|k| match kind {
            0 => k as u8,
            1 => u8::from(k == 0),
            _ => (k * 37 + 5) as u8,
        })
        .collect();
    let (w, h) = (2011, (4096 * 4096 / (2 * p) * 21 / 20) / 2011);
    (w as u16, h as u16, (0..w * h).map(|k| pat[k % p]).collect())
}

fn perm(mut i: u64, vals: &[u8]) -> Vec<u8> {
    let mut pool = vals.to_vec();
    let mut v = vec![];
    while !pool.is_empty() {
        let n = pool.len() as u64;
        v.push(pool.remove((i % n) as usize));
        i /= n;
    }
    v
}

/// Lengths near which a table is full, by the plain rules
fn reset_lengths(m: u8, px: &[u8]) -> Vec<usize> {
    use std::collections::HashMap;
    let mut tbl: HashMap<(usize, u8), usize> = HashMap::new();
    let base = (1usize << m) + 2;
    let mut next = base;
    let mut cur: Option<usize> = None;
    let mut v = vec![];
    for (i, &p) in px.iter().enumerate() {
        let Some(c) = cur else {
            cur = Some(p as usize);
            continue;
        };
        if let Some(n) = tbl.get(&(c, p)) {
            cur = Some(*n);
            continue;
        }
        tbl.insert((c, p), next);
        next += 1;
        cur = Some(p as usize);
        if next == 4097 {
            for k in i - 6..=i + 6 {
                v.push(k);
            }
            tbl.clear();
            next = base;
            if v.len() >= 26 {
                break;
            }
        }
    }
    v
}

fn encode_blocks(w: u16, h: u16, px: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_block_enc();
    let er = |e: gift::Error| format!("encoding fails: {e:?}");
    e.encode(gb::Header::default()).map_err(er)?;
    e.encode(lsd(w, h, 0, 0, 0)).map_err(er)?;
    e.encode(desc(0, 0, w, h, 0)).map_err(er)?;
    e.encode(image_data(px)).map_err(er)?;
    e.encode(gb::Trailer::default()).map_err(er)?;
    drop(e);
    Ok(o)
}

fn encode_frames(w: u16, h: u16, px: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_frame_enc();
    let er = |e: gift::Error| format!("encoding fails: {e:?}");
    let p = gb::Preamble {
        logical_screen_desc: lsd(w, h, 0, 0, 0),
        ..Default::default()
    };
    e.encode_preamble(&p).map_err(er)?;
    let f = gb::Frame::new(None, desc(0, 0, w, h, 0), None, image_data(px));
    e.encode_frame(&f).map_err(er)?;
    e.encode_trailer().map_err(er)?;
    drop(e);
    Ok(o)
}

pub fn gray_palette(n: usize) -> Palette {
    let mut p = Palette::new(n);
    for i in 0..n {
        p.set_entry(SRgb8::new(i as u8, (i as u8) ^ 0x5A, 255 - i as u8));
    }
    p
}

pub fn raster8(w: u16, h: u16, px: &[u8]) -> Raster<Gray8> {
    Raster::with_u8_buffer(w as u32, h as u32, px.to_vec())
}

fn encode_steps(w: u16, h: u16, px: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_step_enc();
    let er = |e: gift::Error| format!("encoding fails: {e:?}");
    let s = gift::Step::with_indexed(raster8(w, h, px), gray_palette(256));
    e.encode_step(&s).map_err(er)?;
    drop(e);
    Ok(o)
}

fn img_text(i: &Img) -> String {
    format!("{}x{} pixels {}", i.0, i.1, short(&i.2))
}

/// Image data of a file which has a single image and no tables, found by
/// walking the bytes: (minimum code size, sub-blocks)
fn find_data(bytes: &[u8], local: usize) -> Result<(u8, Vec<Vec<u8>>), String> {
    let mut p = 6 + 7 + local + 10;
    let mcs = *bytes.get(p).ok_or("no image data")?;
    p += 1;
    let mut subs = vec![];
    loop {
        let n = *bytes.get(p).ok_or("sub-blocks are not terminated")? as usize;
        p += 1;
        if n == 0 {
            break;
        }
        subs.push(bytes.get(p..p + n).ok_or("sub-block is cut off")?.to_vec());
        p += n;
    }
    if bytes[p..] != [0x3B] {
        return Err("image data is not followed by the trailer".into());
    }
    Ok((mcs, subs))
}

fn roundtrip(ctx: &mut Ctx, img: &Img, bytes: &[u8], what: &str) -> Check {
    ctx.trace();
    let got = obs_frames(bytes, None, 8);
    let fail = |m: String| {
        Err(format!("{what}: {m}\n image: {}\n file: {}", img_text(img), short(bytes)))
    };
    if got.err.is_some() || got.items.len() != 1 || !got.ended {
        return fail(format!(
            "decoding gives {} frames and error {:?}",
            got.items.len(),
            got.err
        ));
    }
    let f = &got.items[0];
    if (f.w, f.h) != (img.0, img.1) {
        return fail(format!("size becomes {}x{}", f.w, f.h));
    }
    if f.px != img.2 {
        let n = f.px.iter().zip(&img.2).take_while(|(a, b)| a == b).count();
        return fail(format!(
            "pixel {n} changes: {:?} instead of {:?} ({} pixels of {})",
            f.px.get(n),
            img.2.get(n),
            f.px.len(),
            img.2.len()
        ));
    }
    Ok(())
}

pub fn c01(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for im in images(tier) {
        let g = im.generate.clone();
        let all = im.all_levels;
        v.push(family(im.name, im.bound, im.count, move |i, ctx| {
            let img = g(i);
            ctx.sample(|| img_text(&img));
            ctx.say(|| img_text(&img));
            let at = |e| format!("{e}\n image: {}", img_text(&img));
            let b = encode_blocks(img.0, img.1, &img.2).map_err(at)?;
            if let Ok((mcs, subs)) = find_data(&b, 0) {
                let l = lzw_decode(mcs.clamp(2, 8), &subs.concat(), img.2.len());
                ctx.state(&(mcs, l.state));
                ctx.steps(l.codes);
                ctx.outcome(&(mcs, l.codes));
            }
            roundtrip(ctx, &img, &b, "blocks")?;
            if all {
                let b = encode_frames(img.0, img.1, &img.2).map_err(at)?;
                roundtrip(ctx, &img, &b, "frames")?;
                if img.0 > 0 && img.1 > 0 {
                    let b = encode_steps(img.0, img.1, &img.2).map_err(at)?;
                    roundtrip(ctx, &img, &b, "steps")?;
                }
            }
            Ok(())
        }));
    }
    // several images through one encoder and one decoder
    let set = small_images();
    let n = set.len() as u64;
    let depth = 3;
    v.push(family(
        "several",
        format!("all sequences of {depth} of {n} images through one encoder and decoder"),
        n.pow(depth),
        move |i, ctx| {
            let d = digits(i, &[n, n, n]);
            let imgs: Vec<&Img> = d.iter().map(|k| &set[*k as usize]).collect();
            let b = encode_several(&imgs)?;
            ctx.sample(|| format!("images {d:?}"));
            ctx.trace();
            ctx.steps(imgs.len());
            let got = obs_frames(&b[..], None, 8);
            let px: Vec<_> = got.items.iter().map(|f| &f.px).collect();
            let want: Vec<_> = imgs.iter().map(|i| &i.2).collect();
            if px != want || got.err.is_some() {
                return Err(format!(
                    "images {:?} come back as {px:?} {:?}",
                    imgs, got.err
                ));
            }
            Ok(())
        },
    ));
    v
}

fn small_images() -> Vec<Img> {
    let mut set: Vec<Img> = vec![
        flat(vec![]),
        flat(vec![0]),
        flat(vec![255]),
        flat(vec![0, 1, 2]),
        flat(vec![0; 7]),
        flat(vec![1, 0, 1, 0, 1, 0, 1]),
        flat(vec![127; 30]),
        flat(vec![128; 31]),
    ];
    for m in 2..=8 {
        set.push(flat(noise(m, 50 + m as usize)));
    }
    set.push(flat(noise(2, 4000)));
    set.push(flat(noise(8, 4500)));
    set.push((9, 9, noise(4, 81)));
    set
}

fn encode_several(imgs: &[&Img]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_block_enc();
    let er = |e: gift::Error| format!("encoding fails: {e:?}");
    e.encode(gb::Header::default()).map_err(er)?;
    e.encode(lsd(9, 9, 0, 0, 0)).map_err(er)?;
    for i in imgs {
        e.encode(desc(0, 0, i.0, i.1, 0)).map_err(er)?;
        e.encode(image_data(&i.2)).map_err(er)?;
    }
    e.encode(gb::Trailer::default()).map_err(er)?;
    drop(e);
    Ok(o)
}

/// Judge image data by the standard
fn judge(ctx: &mut Ctx, img: &Img, bytes: &[u8], local: usize) -> Check {
    ctx.trace();
    let fail = |m: String| {
        Err(format!("{m}\n image: {}\n file: {}", img_text(img), short(bytes)))
    };
    let (mcs, subs) = match find_data(bytes, local) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    if !(2..=8).contains(&mcs) {
        return fail(format!("minimum code size is {mcs}"));
    }
    let max = img.2.iter().copied().max().unwrap_or(0);
    if (max as u32) >= 1 << mcs {
        return fail(format!("minimum code size {mcs} cannot hold index {max}"));
    }
    let lzw = subs.concat();
    let l = lzw_decode(mcs, &lzw, img.2.len());
    ctx.steps(l.codes);
    ctx.state(&(mcs, l.state));
    ctx.outcome(&(mcs, l.codes, l.ended));
    if !l.starts_clear {
        return fail("image data does not begin with a clear code".into());
    }
    if l.bad {
        return fail(format!("code {} is not defined", l.codes));
    }
    if l.px != img.2 {
        let n = l.px.iter().zip(&img.2).take_while(|(a, b)| a == b).count();
        return fail(format!(
            "a standard decoder sees {:?} instead of {:?} at pixel {n} ({} of {})",
            l.px.get(n),
            img.2.get(n),
            l.px.len(),
            img.2.len()
        ));
    }
    if l.max_width > 12 {
        return fail("code wider than 12 bits".into());
    }
    Ok(())
}

pub fn c02(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for im in images(tier) {
        let g = im.generate.clone();
        let all = im.all_levels;
        v.push(family(im.name, im.bound, im.count, move |i, ctx| {
            let img = g(i);
            ctx.sample(|| img_text(&img));
            ctx.say(|| img_text(&img));
            let at = |e| format!("{e}\n image: {}", img_text(&img));
            let b = encode_blocks(img.0, img.1, &img.2).map_err(at)?;
            judge(ctx, &img, &b, 0)?;
            if all {
                let b = encode_frames(img.0, img.1, &img.2).map_err(at)?;
                judge(ctx, &img, &b, 0)?;
                if img.0 > 0 && img.1 > 0 {
                    let b = encode_steps(img.0, img.1, &img.2).map_err(at)?;
                    judge(ctx, &img, &b, 768)?;
                }
            }
            Ok(())
        }));
    }
    let set = small_images();
    let n = set.len() as u64;
    v.push(family(
        "several",
        format!("all sequences of 3 of {n} images through one encoder"),
        n.pow(3),
        move |i, ctx| {
            let d = digits(i, &[n, n, n]);
            let imgs: Vec<&Img> = d.iter().map(|k| &set[*k as usize]).collect();
            let b = encode_several(&imgs)?;
            ctx.sample(|| format!("images {d:?}"));
            ctx.trace();
            ctx.steps(imgs.len());
            let p = parse(&b, None);
            let px: Vec<_> = p
                .blocks
                .iter()
                .filter_map(|b| match b {
                    B::Data(p) => Some(p),
                    _ => None,
                })
                .collect();
            let want: Vec<_> = imgs.iter().map(|i| &i.2).collect();
            if px != want || p.end != End::Trailer || p.used != b.len() {
                return Err(format!("images {d:?} read as {:?}", p.end));
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C29

thread_local! {
    /// For each code and pixel, the stamp of the table which has the string
    static KNOWN: std::cell::RefCell<(u32, Vec<u32>)> = std::cell::RefCell::new((0, vec![0; 4096 << 8]));
}

/// Entries from which on a table may be cleared
const NEARLY_FULL: usize = 4000;

/// Check that each code stands for the longest string of the table
fn longest(ctx: &mut Ctx, img: &Img, bytes: &[u8], local: usize) -> Check {
    ctx.trace();
    let px = &img.2;
    let (mcs, subs) = find_data(bytes, local)?;
    if !(2..=8).contains(&mcs) {
        return Err(format!("minimum code size is {mcs}"));
    }
    let data = subs.concat();
    let clear = 1usize << mcs;
    let (mut acc, mut bits, mut pos) = (0u32, 0u32, 0);
    let mut width = mcs as u32 + 1;
    // number of pixels of each code, previous code, pixels so far
    let mut lens: Vec<usize> = vec![1; clear + 2];
    let (mut prev, mut at, mut codes, mut clears) = (None, 0, 0, 0);
    KNOWN.with(|k| {
        let (stamp, known) = &mut *k.borrow_mut();
        *stamp += 1;
        while at < px.len() {
            while bits < width && pos < data.len() {
                acc |= (data[pos] as u32) << bits;
                bits += 8;
                pos += 1;
            }
            if bits < width {
                return Err(format!("data ends at pixel {at}"));
            }
            let code = (acc & ((1 << width) - 1)) as usize;
            acc >>= width;
            bits -= width;
            codes += 1;
            if code == clear {
                if clears > 0 && lens.len() < NEARLY_FULL {
                    return Err(format!("table is cleared at pixel {at} with {} entries", lens.len()));
                }
                clears += 1;
                *stamp += 1;
                lens.truncate(clear + 2);
                width = mcs as u32 + 1;
                prev = None;
                continue;
            }
            // new entry: previous string and first pixel of this one
            if let Some(p) = prev
                && lens.len() < 4096
            {
                known[(p << 8) + px[at] as usize] = *stamp;
                lens.push(lens[p] + 1);
                if lens.len() == 1 << width && width < 12 {
                    width += 1;
                }
            }
            if code == clear + 1 || code >= lens.len() {
                return Err(format!("code {code} at pixel {at}"));
            }
            let end = at + lens[code];
            if end < px.len() && known[(code << 8) + px[end] as usize] == *stamp {
                return Err(format!("code {code} at pixel {at}: table has the same with pixel {end} too"));
            }
            at = end;
            prev = Some(code);
        }
        Ok(())
    })
    .map_err(|m| format!("{m}\n image: {}\n file: {}", img_text(img), short(bytes)))?;
    ctx.steps(codes);
    ctx.state(&(mcs, clears, width, lens.len()));
    ctx.outcome(&(mcs, codes));
    Ok(())
}

pub fn c29(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for im in images(tier) {
        let g = im.generate.clone();
        let all = im.all_levels;
        v.push(family(im.name, im.bound, im.count, move |i, ctx| {
            let img = g(i);
            ctx.sample(|| img_text(&img));
            ctx.say(|| img_text(&img));
            let at = |e| format!("{e}\n image: {}", img_text(&img));
            let b = encode_blocks(img.0, img.1, &img.2).map_err(at)?;
            longest(ctx, &img, &b, 0)?;
            if all && img.0 > 0 && img.1 > 0 {
                let b = encode_steps(img.0, img.1, &img.2).map_err(at)?;
                longest(ctx, &img, &b, 768)?;
            }
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------ C03

/// Decode LZW bytes as an image of `n` pixels and compare
fn check_lzw(ctx: &mut Ctx, mcs: u8, lzw: &[u8], want: &[u8], chunk: usize) -> Check {
    let (w, h) = rect(want.len());
    let n = w as usize * h as usize;
    let mut o = put_all(&screen(w, h, None));
    put(&mut o, &B::Desc { l: 0, t: 0, w, h, flags: 0 });
    put_image_data(&mut o, mcs, lzw, chunk);
    o.push(0x3B);
    expect_image(ctx, &o, &want[..n], &|| {
        format!("minimum code size {mcs}, LZW bytes {}", short(lzw))
    })
}

fn expect_image(
    ctx: &mut Ctx,
    file: &[u8],
    want: &[u8],
    what: &dyn Fn() -> String,
) -> Check {
    ctx.trace();
    ctx.say(|| format!("file {}", short(file)));
    let got = obs_frames(file, None, 8);
    if got.err.is_some() || got.items.len() != 1 || !got.ended {
        return Err(format!(
            "valid image data gives {} frames, error {:?}\n {}\n pixels {}",
            got.items.len(),
            got.err,
            what(),
            short(want)
        ));
    }
    let px = &got.items[0].px;
    if px != want {
        let n = px.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "pixel {n} is {:?} instead of {:?} ({} of {} pixels)\n {}",
            px.get(n),
            want.get(n),
            px.len(),
            want.len(),
            what()
        ));
    }
    Ok(())
}

/// All code sequences from a prefix
fn dfs(ctx: &mut Ctx, w: &CodeWriter, depth: u32) -> Check {
    ctx.state(&w.state());
    ctx.steps(1);
    // complete the stream here: with end code, without
    let lzw = w.clone().finish();
    let l = lzw_decode(w.mcs, &lzw, 1000);
    // without an end code the padding may hold further codes: take the
    // reference's view of the very same bytes
    if !l.bad {
        check_lzw(ctx, w.mcs, &lzw, &l.px, 255)?;
    }
    let mut e = w.clone();
    let ec = e.end_code();
    e.code(ec);
    let lzw = e.finish();
    let l = lzw_decode(w.mcs, &lzw, 1000);
    assert!(!l.bad && l.ended);
    ctx.outcome(&l.px);
    check_lzw(ctx, w.mcs, &lzw, &l.px, 255)?;
    if !l.px.is_empty() {
        // surplus pixel
        check_lzw(ctx, w.mcs, &lzw, &l.px[..l.px.len() - 1], 1)?;
    }
    if depth > 0 {
        for c in choices(w) {
            let mut n = w.clone();
            n.code(c);
            dfs(ctx, &n, depth - 1)?;
        }
    }
    Ok(())
}

fn choices(w: &CodeWriter) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=w.clear_code()).collect();
    if w.prev {
        v.extend(w.end_code() + 1..=w.next.min(4095));
    }
    v
}

/// Codes of the class alphabet in this state
fn classes(w: &CodeWriter) -> Vec<usize> {
    let mut v = vec![0, w.clear_code() - 1, w.clear_code()];
    if w.prev {
        let first = w.end_code() + 1;
        if w.next > first {
            v.push(first);
            v.push(w.next - 1);
            v.push(first + (w.next - first) / 2);
        }
        if w.next < 4096 {
            v.push(w.next);
        }
    }
    v
}

fn class_dfs(ctx: &mut Ctx, w: &CodeWriter, px_base: &[u8], from: usize, depth: u32) -> Check {
    ctx.state(&w.state());
    ctx.steps(1);
    if depth == 0 {
        let mut e = w.clone();
        let ec = e.end_code();
        e.code(ec);
        let lzw = e.finish();
        let l = lzw_decode(w.mcs, &lzw, 1 << 20);
        assert!(!l.bad && l.ended && l.px.starts_with(&px_base[..from]));
        check_lzw(ctx, w.mcs, &lzw, &l.px, 255)?;
        // the codes after these must be read in the proper width
        let mut e = w.clone();
        e.code(1);
        e.code(0);
        let x = e.next.min(4095);
        e.code(x);
        let lzw = e.finish();
        let l = lzw_decode(w.mcs, &lzw, 1 << 20);
        assert!(!l.bad);
        return check_lzw(ctx, w.mcs, &lzw, &l.px, 255);
    }
    for c in classes(w) {
        let mut n = w.clone();
        n.code(c);
        class_dfs(ctx, &n, px_base, from, depth - 1)?;
    }
    Ok(())
}

/// Fill the table until `next` has the value (4096: full), then `extra` codes
fn fill(w: &mut CodeWriter, kind: u64, target: usize, extra: usize) {
    let mut i = 0usize;
    let mut more = 0;
    loop {
        if w.next >= target {
            if more >= extra {
                return;
            }
            more += 1;
        }
        let lit = |i: usize| {
            let n = w.clear_code();
            (i.wrapping_mul(7) ^ (i >> 3)) % n
        };
        let c = match kind {
            0 => lit(i),
            1 => {
                // entries of length two and three
                if i % 3 == 2 && w.prev && w.next > w.end_code() + 2 {
                    w.end_code() + 1 + (i % (w.next - w.end_code() - 1)).min(40)
                } else {
                    lit(i)
                }
            }
            _ => {
                // self-referencing codes
                if w.prev && w.next < 4096 && i % 5 != 0 { w.next } else { lit(i) }
            }
        };
        w.code(c);
        i += 1;
    }
}

pub fn c03(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // 1. all code sequences, smallest code size
    for (mcs, depth) in [(2u8, tier.pick(6u32, 8)), (3, tier.pick(5, 5))] {
        let n = (1u64 << mcs) + 4;
        v.push(family(
            format!("codes-{mcs}"),
            format!("all valid code sequences up to {depth} codes (with or without leading clear), minimum code size {mcs}, each with and without end code and with a surplus pixel"),
            n * n,
            move |i, ctx| {
                let (a, b) = ((i % n) as usize, (i / n) as usize);
                let w = CodeWriter::new(mcs);
                if i == 0 {
                    dfs(ctx, &w, 1)?;
                }
                if !choices(&w).contains(&a) {
                    return Ok(());
                }
                let mut w = w;
                w.code(a);
                if !choices(&w).contains(&b) {
                    return Ok(());
                }
                w.code(b);
                ctx.sample(|| format!("all sequences from codes {a} {b}"));
                dfs(ctx, &w, depth - 2)
            },
        ));
    }
    // 2. class alphabet from every boundary state
    let mut cfg = vec![];
    for mcs in 2..=8u8 {
        for k in mcs as usize + 1..=12 {
            for d in -3i64..=3 {
                let t = (1i64 << k) + d;
                if t < (1 << mcs) + 2 || t > 4096 {
                    continue;
                }
                for kind in 0..2u64 {
                    for dirty in 0..3 {
                        cfg.push((mcs, t as usize, 0usize, kind, dirty));
                    }
                }
                if t < 700 {
                    cfg.push((mcs, t as usize, 0, 2, 0));
                }
            }
        }
        for extra in [1usize, 2, 3, 7, 100, 1000, 5000] {
            for kind in 0..2 {
                cfg.push((mcs, 4096, extra, kind, 0));
            }
            cfg.push((mcs, 4096, extra, 0, 1));
        }
    }
    let depth = tier.pick(2, 3);
    v.push(family(
        "boundary",
        format!("from each table size within 3 of a power of two, and from a full table used on: all sequences of {depth} code classes (lowest/highest literal, clear, oldest/middle/newest entry, self-reference); after nothing, a leading clear, or a full table and a clear"),
        cfg.len() as u64,
        move |i, ctx| {
            let (mcs, t, extra, kind, dirty) = cfg[i as usize];
            let mut w = CodeWriter::new(mcs);
            if dirty > 0 {
                let cc = w.clear_code();
                w.code(cc);
                if dirty > 1 {
                    fill(&mut w, 1, 4096, 3);
                    w.code(cc);
                }
            }
            fill(&mut w, kind, t, extra);
            ctx.sample(|| format!("minimum code size {mcs}, table size {t}+{extra}, texture {kind}, start {dirty}"));
            class_dfs(ctx, &w, &[], 0, depth)
        },
    ));
    // 2b. every table size: stop there, or clear there, then two codes
    for mcs in 2..=8u8 {
        let lo = (1usize << mcs) + 2;
        let step = 1;
        let n = (4100 - lo) / step + 1;
        v.push(family(
            format!("size-{mcs}"),
            format!("every {step}. table size up to full: clear code there, and then on"),
            n as u64,
            move |i, ctx| {
                let t = lo + i as usize * step;
                let mut w = CodeWriter::new(mcs);
                let cc = w.clear_code();
                w.code(cc);
                fill(&mut w, 1, t.min(4096), t.saturating_sub(4096));
                w.code(cc);
                w.code(1);
                w.code(0);
                let x = w.next;
                w.code(x);
                ctx.steps(t);
                ctx.state(&w.state());
                ctx.sample(|| format!("clear at table size {t}"));
                let lzw = w.finish();
                let l = lzw_decode(mcs, &lzw, 1 << 20);
                if l.bad {
                    return Ok(());
                }
                check_lzw(ctx, mcs, &lzw, &l.px, 255)
            },
        ));
    }
    // 3. very long use of a full table
    v.push(family(
        "deferred",
        "full table used on for 65000..150000 codes without clear, each code size",
        7 * 4,
        |i, ctx| {
            let mcs = 2 + (i % 7) as u8;
            let extra = [60_000, 65_536, 70_000, 150_000][(i / 7) as usize];
            let mut w = CodeWriter::new(mcs);
            fill(&mut w, 0, 4096, extra);
            let c = w.next - 1;
            w.code(c);
            w.code(0);
            ctx.sample(|| format!("minimum code size {mcs}, {extra} codes on a full table"));
            ctx.steps(extra);
            class_dfs(ctx, &w, &[], 0, 1)
        },
    ));
    // 4. clear codes at every period
    for (mcs, n) in [(2u8, 6000usize), (5, 4000), (8, 9000)] {
        let px = Arc::new(noise(mcs as u32, n));
        let maxp = tier.pick(4400, 6000u64);
        v.push(family(
            format!("clears-{mcs}"),
            format!("a clear code after every p codes, p in 1..={maxp}, {n} pixels"),
            maxp,
            move |i, ctx| {
                let lzw = lzw_clears(mcs, &px, i as usize + 1);
                ctx.sample(|| format!("clear every {} codes", i + 1));
                ctx.steps(n);
                let l = lzw_decode(mcs, &lzw, n);
                assert!(!l.bad && l.px == **px);
                check_lzw(ctx, mcs, &lzw, &px, 255)
            },
        ));
    }
    // 5. sub-block divisions
    let mut w = CodeWriter::new(2);
    for c in [4, 0, 6, 1, 7, 2, 8, 3, 10, 4, 1, 2, 6, 3, 8, 0, 10, 5] {
        w.code(c);
    }
    let data = w.finish();
    let nb = data.len().min(tier.pick(13, 16));
    let l = lzw_decode(2, &data[..nb], 100);
    assert!(!l.bad);
    let d2 = data.clone();
    v.push(family(
        "split-all",
        format!("all {} divisions of {nb} LZW bytes into sub-blocks", 1u64 << (nb - 1)),
        1 << (nb - 1),
        move |i, ctx| {
            let l = lzw_decode(2, &d2[..nb], 100);
            let mut f = put_all(&screen(9, 9, None));
            let (w, h) = rect(l.px.len());
            put(&mut f, &B::Desc { l: 0, t: 0, w, h, flags: 0 });
            f.push(2);
            let mut s = 0;
            for k in 1..=nb {
                if k == nb || (i >> (k - 1)) & 1 != 0 {
                    f.push((k - s) as u8);
                    f.extend_from_slice(&d2[s..k]);
                    s = k;
                }
            }
            f.extend([0, 0x3B]);
            ctx.steps(nb);
            ctx.state(&i);
            ctx.sample(|| short(&f));
            expect_image(ctx, &f, &l.px, &|| format!("division {i:b}"))
        },
    ));
    for mcs in [2u8, 4, 8] {
        let px = Arc::new(noise(mcs as u32, 3000));
        let lzw = Arc::new(lzw_plain(mcs, &px));
        v.push(family(
            format!("chunk-{mcs}"),
            "uniform sub-block sizes 1..=255".to_string(),
            255,
            move |i, ctx| {
                ctx.steps(lzw.len());
                ctx.sample(|| format!("sub-blocks of {} bytes", i + 1));
                check_lzw(ctx, mcs, &lzw, &px, i as usize + 1)
            },
        ));
    }
    // 6. after the end code
    let n = tier.pick(65536u64, 65536);
    v.push(family(
        "after-end",
        "all pairs of bytes after the end code, in the same and in another sub-block, image complete",
        n,
        |i, ctx| {
            let px = vec![0u8, 1, 1, 0, 3];
            let mut lzw = lzw_plain(2, &px);
            let cut = lzw.len();
            lzw.extend([i as u8, (i >> 8) as u8]);
            ctx.steps(7);
            ctx.outcome(&i);
            ctx.sample(|| format!("trailing {:04x}", i));
            check_lzw(ctx, 2, &lzw, &px, 255)?;
            check_lzw(ctx, 2, &lzw, &px, cut)
        },
    ));
    v.push(family(
        "after-end-bits",
        "all 4096 bit patterns after an end code that ends inside a byte, each bit phase",
        8 * 4096,
        |i, ctx| {
            let k = (i % 8) as usize;
            let px: Vec<u8> = (0..k + 1).map(|i| (i % 4) as u8).collect();
            // literals only, clear in front of each: all widths are 3
            let mut w = CodeWriter::new(2);
            for p in &px {
                w.code(4);
                w.code(*p as usize);
            }
            w.code(5);
            let g = (i / 8) as usize;
            for s in [0, 3, 6, 9] {
                w.raw((g >> s) & 7);
            }
            let lzw = w.finish();
            ctx.steps(px.len() + 5);
            ctx.sample(|| short(&lzw));
            check_lzw(ctx, 2, &lzw, &px, 255)
        },
    ));
    v.push(family(
        "after-end-long",
        "1..=600 bytes (0xFF, 0x00, 0x55) after the end code",
        600 * 3,
        |i, ctx| {
            let px = vec![3u8, 1, 1, 0, 3];
            let mut lzw = lzw_plain(2, &px);
            let b = [0xFFu8, 0, 0x55][(i % 3) as usize];
            lzw.extend(vec![b; (i / 3) as usize + 1]);
            ctx.steps(5);
            check_lzw(ctx, 2, &lzw, &px, 255)
        },
    ));
    let mut cfg = vec![];
    for mcs in 2..=8u8 {
        for k in mcs as usize + 1..=12 {
            for t in [(1usize << k) - 2, (1 << k) - 1, 1 << k] {
                if t >= (1 << mcs) + 3 {
                    cfg.push((mcs, t, 0usize));
                }
            }
        }
        for extra in [1, 2, 100, 5000] {
            cfg.push((mcs, 4096, extra));
        }
    }
    v.push(family(
        "after-end-full",
        "the end code when the table has grown to a power of two (or 1, 2 less), is full or was used on when full; then literals, codes not yet defined, a clear code with valid or undefined codes, another end code, or 300 bytes",
        cfg.len() as u64 * 8,
        move |i, ctx| {
            let (mcs, t, extra) = cfg[(i / 8) as usize];
            let mut w = CodeWriter::new(mcs);
            fill(&mut w, 1, t, extra);
            let (cc, ec) = (w.clear_code(), w.end_code());
            w.code(ec);
            let top = (1 << w.width) - 1;
            let more: &[usize] = match i % 8 {
                0 => &[],
                1 => &[1, 0, 1],
                2 => &[top, top],
                3 => &[cc, 1, 0],
                4 => &[cc, (2 << mcs) - 1, 0],
                5 => &[cc, ec, 1],
                6 => &[ec, 0, ec],
                _ => &[top; 300],
            };
            for c in more {
                if *c == cc { w.code(cc) } else { w.raw(*c) }
            }
            let lzw = w.finish();
            let l = lzw_decode(mcs, &lzw, 1 << 20);
            assert!(l.ended && !l.bad);
            ctx.steps(t + extra);
            ctx.state(&(mcs, t, extra, i % 8));
            ctx.sample(|| format!("minimum code size {mcs}, end at table size {t}+{extra}, then {more:?}"));
            check_lzw(ctx, mcs, &lzw, &l.px, 255)?;
            check_lzw(ctx, mcs, &lzw, &l.px, 254)
        },
    ));
    // 7. surplus
    let px = Arc::new(noise(3, 1500));
    let lzw = Arc::new(lzw_plain(3, &px));
    v.push(family(
        "surplus",
        "image of every size 0..=1500 from data for 1500 pixels",
        1501,
        move |i, ctx| {
            ctx.steps(i as usize);
            ctx.sample(|| format!("{} of 1500 pixels wanted", i));
            check_lzw(ctx, 3, &lzw, &px[..i as usize], 255)
        },
    ));
    // 8. raw payloads: whatever bytes are valid
    let (bytes, sizes) = (2u32, tier.pick(9u64, 16));
    v.push(family(
        "payload",
        format!("all {bytes}-byte payloads, code sizes 2..=8, image sizes 0..{sizes}: the valid ones"),
        7 * sizes * 65536,
        move |i, ctx| {
            let d = digits(i, &[65536, sizes, 7]);
            let data = le(d[0] as u16);
            let mcs = d[2] as u8 + 2;
            let n = d[1] as usize;
            let l = lzw_decode(mcs, &data, n);
            if l.bad || l.px.len() < n {
                return Ok(());
            }
            ctx.steps(l.codes);
            ctx.state(&(mcs, l.state, &l.px));
            check_lzw(ctx, mcs, &data, &l.px[..n], 255)
        },
    ));
    if tier == Tier::Thorough {
        v.push(family(
            "payload-3",
            "all 3-byte payloads, code size 2, image size of all pixels",
            1 << 24,
            |i, ctx| {
                let data = [i as u8, (i >> 8) as u8, (i >> 16) as u8];
                let l = lzw_decode(2, &data, 99);
                if l.bad {
                    return Ok(());
                }
                ctx.steps(l.codes);
                check_lzw(ctx, 2, &data, &l.px, 255)
            },
        ));
    }
    // 9. plain images by the reference compressor, every max value and length
    v.push(family(
        "plain",
        "images written by the reference compressor: every length 0..=300, each code size, 3 textures",
        301 * 7 * 3,
        |i, ctx| {
            let d = digits(i, &[301, 7, 3]);
            let m = d[1] as u32 + 2;
            let n = d[0] as usize;
            let px: Vec<u8> = match d[2] {
                0 => noise(m, n),
                1 => vec![((1u32 << m) - 1) as u8; n],
                _ => (0..n).map(|i| (i % (1 << m)) as u8).collect(),
            };
            ctx.steps(n);
            check_lzw(ctx, m as u8, &lzw_plain(m as u8, &px), &px, 255)
        },
    ));
    // 10. longest chains
    v.push(family(
        "chain",
        "self-referencing codes until the table is full (strings of up to 4090 pixels), then the longest again",
        7,
        |i, ctx| {
            let mcs = 2 + i as u8;
            let mut w = CodeWriter::new(mcs);
            w.code(1);
            while w.next < 4096 {
                let c = w.next;
                w.code(c);
            }
            w.code(4095);
            w.code(4094);
            let ec = w.end_code();
            w.code(ec);
            let lzw = w.finish();
            let l = lzw_decode(mcs, &lzw, 1 << 24);
            assert!(!l.bad);
            ctx.steps(4096);
            check_lzw(ctx, mcs, &lzw, &l.px, 255)
        },
    ));
    v.push(family(
        "periodic",
        "periods 2..=9 of 3 patterns, by the reference compressor, until the table has been filled, sub-blocks of 255 or 7 bytes",
        8 * 3 * 2,
        |i, ctx| {
            let d = digits(i, &[8, 3, 2]);
            let (w, h, px) = periodic(d[0] as usize + 2, d[1]);
            let m = if d[1] == 2 { 8 } else { 4 };
            let lzw = lzw_plain(m, &px);
            ctx.steps(lzw.len());
            let mut f = put_all(&screen(w, h, None));
            put(&mut f, &B::Desc { l: 0, t: 0, w, h, flags: 0 });
            put_image_data(&mut f, m, &lzw, if d[2] == 0 { 255 } else { 7 });
            f.push(0x3B);
            expect_image(ctx, &f, &px, &|| format!("period {} of pattern {}", d[0] + 2, d[1]))
        },
    ));
    // 11. state does not carry over from image to image
    let streams = Arc::new(carry_streams());
    let n = streams.len() as u64;
    v.push(family(
        "carry",
        format!("all triples of {n} streams (some cut off, some without end code) in one file"),
        n * n * n,
        move |i, ctx| {
            let d = digits(i, &[n, n, n]);
            let mut f = put_all(&screen(9, 9, None));
            let mut want = vec![];
            for k in &d {
                let (mcs, lzw, px) = &streams[*k as usize];
                let (w, h) = rect(px.len());
                put(&mut f, &B::Desc { l: 0, t: 0, w, h, flags: 0 });
                put_image_data(&mut f, *mcs, lzw, 255);
                want.push(px);
            }
            f.push(0x3B);
            ctx.trace();
            ctx.steps(3);
            ctx.state(&d);
            ctx.sample(|| format!("streams {d:?}"));
            let got = obs_frames(&f[..], None, 9);
            let px: Vec<_> = got.items.iter().map(|f| &f.px).collect();
            if px != want || got.err.is_some() {
                return Err(format!(
                    "streams {d:?}: {} images, error {:?}\n file {}",
                    px.len(),
                    got.err,
                    short(&f)
                ));
            }
            Ok(())
        },
    ));
    v
}

fn carry_streams() -> Vec<(u8, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for mcs in [2u8, 3, 8] {
        let px = noise(mcs as u32, 40);
        // with end code
        v.push((mcs, lzw_plain(mcs, &px), px.clone()));
        // no leading clear, no end code, odd bit phase
        let mut w = CodeWriter::new(mcs);
        for p in &px[..9] {
            w.code(*p as usize);
        }
        let lzw = w.finish();
        let l = lzw_decode(mcs, &lzw, 99);
        if !l.bad {
            v.push((mcs, lzw, l.px));
        }
        // surplus and wide codes at the end
        let px = noise(mcs as u32, 900);
        let lzw = lzw_plain(mcs, &px);
        let cut = lzw.len() - 7;
        let l = lzw_decode(mcs, &lzw[..cut], 900);
        v.push((mcs, lzw[..cut].to_vec(), l.px[..700].to_vec()));
        // nothing wanted
        v.push((mcs, lzw, vec![]));
    }
    v
}

/// Compress with a clear code after every `period` codes
fn lzw_clears(mcs: u8, px: &[u8], period: usize) -> Vec<u8> {
    use std::collections::HashMap;
    let mut w = CodeWriter::new(mcs);
    let cc = w.clear_code();
    let mut tbl: HashMap<(usize, u8), usize> = HashMap::new();
    let mut next = cc + 2;
    let mut cur: Option<usize> = None;
    let mut since = 0;
    for &p in px {
        let Some(c) = cur else {
            cur = Some(p as usize);
            continue;
        };
        if let Some(n) = tbl.get(&(c, p)) {
            cur = Some(*n);
            continue;
        }
        w.code(c);
        since += 1;
        cur = Some(p as usize);
        if since == period {
            w.code(cc);
            since = 0;
            tbl.clear();
            next = cc + 2;
        } else if next < 4096 {
            tbl.insert((c, p), next);
            next += 1;
        }
    }
    if let Some(c) = cur {
        w.code(c);
    }
    let ec = w.end_code();
    w.code(ec);
    w.finish()
}
