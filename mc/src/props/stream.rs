//! C08, C09, C11, C22: streams of blocks, frames, interleavings
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family, fp};
use gift::block as gb;
use std::io::Read;
use std::sync::Arc;

// ------------------------------------------------------------------ C08

/// Reader which counts what is taken from it
pub struct Counted<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
impl Read for Counted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Reader shared with the explorer, so that it can look at the position
/// while an iterator owns the reader
pub struct Shared<'a> {
    pub data: &'a [u8],
    pub pos: &'a std::cell::Cell<usize>,
}
impl Read for Shared<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = self.pos.get();
        let n = buf.len().min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

/// Well-formed block streams
pub fn streams(depth: u32) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = base_files().into_iter().map(|f| f.1).collect();
    for i in 0..seq_count(ITEMS, depth) {
        v.push(put_all(&seq_file(&seq_of(i, ITEMS), i % 3 != 2, true)));
    }
    // image data with codes after the last pixel, after the end code, sub-blocks
    // of one byte, no end code, empty image
    let px = noise(2, 9);
    let mut l = lzw_plain(2, &px);
    v.push(raw_image(3, 3, 1, 2, &l, 1, true));
    v.push(raw_image(2, 2, 1, 2, &l, 255, true));
    l.extend([0x3B; 300]);
    v.push(raw_image(3, 3, 1, 2, &l, 255, true));
    let mut w = CodeWriter::new(2);
    for p in &px {
        w.code(*p as usize);
    }
    v.push(raw_image(3, 3, 1, 2, &w.finish(), 2, true));
    v.push(raw_image(0, 3, 1, 2, &[], 255, true));
    // full tables
    v.push(put_all(&{
        let mut b = screen(1, 1, Some(7));
        b.extend(image_lct((0, 0, 1, 1), 7, 5, 0, vec![200]));
        b.push(B::Trailer);
        b
    }));
    v
}

/// Run through a chain of GIFs with one block iterator
fn chain(ctx: &mut Ctx, parts: &[&[u8]], rest: &[u8], lim: Lim) -> Check {
    let mut all: Vec<u8> = parts.concat();
    all.extend_from_slice(rest);
    let pos = std::cell::Cell::new(0);
    let mut it = decoder(Shared { data: &all, pos: &pos }, lim).into_blocks();
    let mut at = 0;
    ctx.trace();
    for (k, part) in parts.iter().enumerate() {
        let p = parse(part, lim_value(lim));
        ctx.steps(p.blocks.len() + 1);
        ctx.state(&(k, fp(*part)));
        let got = drain(&mut it, part.len() + 8, bk);
        same(&format!("blocks of GIF {k}"), &all, &got, &p.blocks, &end_err(&p.end), p.loose)?;
        if p.end != End::Trailer {
            ctx.outcome(&(k, &p.end));
            return Ok(());
        }
        at += p.used;
        if pos.get() != at {
            return Err(format!(
                "{} bytes taken from the reader at the end of GIF {k}, which ends after {at}\n input: {}",
                pos.get(),
                short(&all)
            ));
        }
    }
    ctx.outcome(&(parts.len(), at));
    Ok(())
}

pub fn c08(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let st3 = Arc::new(streams(tier.pick(4, 5)));
    let n = st3.len() as u64;
    let tails: Vec<Vec<u8>> = vec![
        vec![],
        vec![0x3B],
        vec![0],
        vec![0; 300],
        vec![0x3B; 300],
        b"GIF".to_vec(),
        b"GIF89a".to_vec(),
        vec![0xFF; 5000],
        vec![0x2C, 0x21, 0xF9, 0x3B],
        b"\r\n".to_vec(),
    ];
    let nt = tails.len() as u64;
    v.push(family(
        "consumed",
        "bytes taken when None is returned, for all streams times 10 kinds of trailing data",
        n * nt,
        {
            let s = st3.clone();
            move |i, ctx| {
                let f = &s[(i / nt) as usize];
                ctx.sample(|| short(f));
                chain(ctx, &[f], &tails[(i % nt) as usize], None)
            }
        },
    ));
    let st2 = Arc::new(streams(2));
    let n2 = st2.len() as u64;
    v.push(family(
        "pairs",
        format!("all ordered pairs of {n2} streams through one iterator"),
        n2 * n2,
        {
            let s = st2.clone();
            move |i, ctx| {
                let (a, b) = (&s[(i % n2) as usize], &s[(i / n2) as usize]);
                chain(ctx, &[a, b], &[0x47], None)
            }
        },
    ));
    let st1 = Arc::new(streams(tier.pick(2, 2)));
    let n1 = st1.len() as u64;
    v.push(family(
        "triples",
        format!("all ordered triples of {n1} streams through one iterator"),
        n1 * n1 * n1,
        {
            let s = st1.clone();
            move |i, ctx| {
                let d = digits(i, &[n1, n1, n1]);
                let [a, b, c] = [0, 1, 2].map(|k| &s[d[k] as usize][..]);
                chain(ctx, &[a, b, c], &[], None)
            }
        },
    ));
    v.push(family(
        "chains",
        "1..=300 GIFs in a row",
        300,
        {
            let s = st2.clone();
            move |i, ctx| {
                let parts: Vec<&[u8]> =
                    (0..=i).map(|k| &s[((k * 7 + i) % n2) as usize][..]).collect();
                chain(ctx, &parts, &[1, 2, 3], None)
            }
        },
    ));
    v.push(family(
        "cut-second",
        "every cut position of every stream of a corpus, as second GIF",
        n1,
        {
            let s = st1.clone();
            move |i, ctx| {
                let b = &s[i as usize];
                for p in 1..b.len() {
                    let a = &s[(p + i as usize) % s.len()];
                    chain(ctx, &[a, &b[..p]], &[], None)?;
                }
                Ok(())
            }
        },
    ));
    v.push(family(
        "bad-second",
        "every value of each of the first 14 bytes of a second GIF, with a limit of 4 pixels",
        14 * 256 * 3,
        {
            let s = st1.clone();
            move |i, ctx| {
                let d = digits(i, &[256, 14, 3]);
                let mut b = s[1].clone();
                b[d[1] as usize] = d[0] as u8;
                if parse(&b, Some(4)).odd {
                    return Ok(());
                }
                let a = &s[[1, 3, 12][d[2] as usize]];
                chain(ctx, &[a, &b], &[], if d[2] == 0 { Some(Some(4)) } else { None })
            }
        },
    ));
    v.push(family(
        "limits",
        "two or three GIFs of images of 1..=6 by 1..=3 pixels, with every limit of 0..=19 pixels (the limit holds for each of them)",
        18 * 18 * 18 * 20,
        |i, ctx| {
            let d = digits(i, &[18, 18, 18, 20]);
            let [a, b, c] = [0, 1, 2].map(|k| {
                let (w, h) = (d[k] as u16 % 6 + 1, d[k] as u16 / 6 + 1);
                let mut bs = screen(w, h, Some(0));
                bs.extend(image(0, 0, w, h, vec![1; (w * h) as usize]));
                bs.push(B::Trailer);
                put_all(&bs)
            });
            let lim = Some(Some(d[3] as usize));
            chain(ctx, &[&a, &b, &c], &[], lim)
        },
    ));
    v.push(family(
        "fresh",
        format!("all ordered pairs of {n2} streams, the second read by a fresh decoder on the rest of the reader, at every level"),
        n2 * n2,
        {
            let s = st2.clone();
            move |i, ctx| {
                let (a, b) = (&s[(i % n2) as usize], &s[(i / n2) as usize]);
                let all = [&a[..], &b[..]].concat();
                let mut rd = Counted { data: &all, pos: 0 };
                let p = parse(a, Some(DEFAULT_LIMIT));
                let got = obs_blocks(&mut rd, None, a.len() + 8);
                same("first GIF", &all, &got, &p.blocks, &None, false)?;
                let from = rd.pos;
                let p = parse(b, Some(DEFAULT_LIMIT));
                let g = group(&p);
                let max = b.len() + 8;
                ctx.trace();
                ctx.steps(p.blocks.len());
                match i % 3 {
                    0 => {
                        let got = obs_blocks(&mut rd, None, max);
                        same("second GIF", &all, &got, &p.blocks, &None, false)?;
                    }
                    1 => {
                        let got = obs_frames(&mut rd, None, max);
                        same("second GIF (frames)", &all, &got, &g.frames, &end_err(&g.end), false)?;
                    }
                    _ => {
                        let c = compose(&g, Some(DEFAULT_LIMIT), false);
                        let got = obs_steps(&mut rd, None, max);
                        same("second GIF (steps)", &all, &got, &c.steps, &c.err, false)?;
                    }
                }
                if from != a.len() {
                    return Err(format!("{from} bytes taken for a GIF of {}", a.len()));
                }
                Ok(())
            }
        },
    ));
    let some = st1.clone();
    v.push(special_family(
        "special",
        "each followed by other bytes, by itself, before and after another stream, after and before the next special file",
        move |ctx, b| {
            chain(ctx, &[b], &[0x21, 0xFE], None)?;
            chain(ctx, &[b, b], &[], None)?;
            let o = &some[b.len() % some.len()][..];
            chain(ctx, &[b, o, b], &[0], None)?;
            chain(ctx, &[o, b, o], &[0x3B], None)?;
            let k = special().partition_point(|f| f.1.len() < b.len());
            let next = &special()[(k + 7) % special().len()].1[..];
            chain(ctx, &[next, b, next], &[0x47], None)
        },
    ));
    v.push(around_family("followed by itself and other bytes", |ctx, a| {
        let b = a.file();
        chain(ctx, &[&b, &b], &[0x21, 0xFE], None)
    }));
    v
}

// ------------------------------------------------------------------ C09

/// Compare the derived accessors of a block with what its bytes say
pub fn accessors(b: &gb::Block) -> Check {
    let cfg = |flags: u8, sort: u8, c: gb::ColorTableConfig| {
        let n = if flags & 0x80 != 0 { 2usize << (flags & 7) } else { 0 };
        let ok = c.len() == n
            && c.size_bytes() == 3 * n
            && c.is_empty() == (n == 0)
            && (c.existence() == gb::ColorTableExistence::Present) == (flags & 0x80 != 0)
            && (c.ordering() == gb::ColorTableOrdering::Sorted) == (flags & sort != 0);
        if ok { Ok(()) } else { Err(format!("flags {flags:02x} read as {c:?}")) }
    };
    match b {
        gb::Block::LogicalScreenDesc(d) => {
            cfg(d.flags(), 0x08, d.color_table_config())?;
            let r = 2u16 << ((d.flags() >> 4) & 7);
            if d.color_resolution() != r {
                return Err(format!("flags {:02x}: color resolution {}", d.flags(), d.color_resolution()));
            }
        }
        gb::Block::ImageDesc(d) => {
            cfg(d.flags(), 0x20, d.color_table_config())?;
            if d.interlaced() != (d.flags() & 0x40 != 0) {
                return Err(format!("flags {:02x}: interlaced {}", d.flags(), d.interlaced()));
            }
            if d.image_sz() != d.width() as usize * d.height() as usize {
                return Err(format!("image size {} of {d:?}", d.image_sz()));
            }
        }
        gb::Block::GraphicControl(g) => {
            let f = g.flags();
            let t = (f & 1 != 0).then_some(g.transparent_color_idx());
            let m: u8 = g.disposal_method().into();
            if m != (f >> 2) & 7 || g.user_input() != (f & 2 != 0) || g.transparent_color() != t {
                return Err(format!(
                    "flags {f:02x}: disposal {m}, user input {}, transparent {:?}",
                    g.user_input(),
                    g.transparent_color()
                ));
            }
        }
        gb::Block::GlobalColorTable(t)
            if t.len() * 3 != t.colors().len() || t.is_empty() =>
        {
            return Err(format!("global table of {} bytes has {} entries", t.colors().len(), t.len()));
        }
        gb::Block::LocalColorTable(t)
            if t.len() * 3 != t.colors().len() || t.is_empty() =>
        {
            return Err(format!("local table of {} bytes has {} entries", t.colors().len(), t.len()));
        }
        gb::Block::Application(a) if a.loop_count() != loop_count(a.app_data()) => {
            return Err(format!("loop count {:?} of {a:?}", a.loop_count()));
        }
        _ => (),
    }
    Ok(())
}

/// Names of applications, known and unknown
const A: [&[u8]; 16] = [
    b"NETSCAPE2.0", b"ANIMEXTS1.0", b"XMP DataXMP", b"ICCRGBG1012", b"ADOBE:IR1.0",
    b"MGK8BIM0000", b"MGKIPTC0000", b"ImageMagick", b"fractint001", b"CREATOR4.00",
    b"NETSCAPE2.1", b"netscape2.0", b"NETSCAPE", b"NETSCAPE2.0\0", b"JUNK:\xFF\0\x01\x02\x03\x04", b"\0\0\0\0\0\0\0\0\0\0\0",
];

/// Decode the serialized blocks and compare
fn decode_is(ctx: &mut Ctx, bs: &[B]) -> Check {
    let m = put_all(bs);
    ctx.trace();
    ctx.steps(bs.len());
    for b in bs {
        ctx.state(b);
    }
    ctx.outcome(&fp(&m[..]));
    ctx.sample(|| short(&m));
    let mut it = decoder(&m[..], None).into_blocks();
    let mut got = Obs { items: vec![], err: None, ended: false };
    for _ in 0..bs.len() + 4 {
        match it.next() {
            Some(Ok(b)) => {
                accessors(&b).map_err(|e| format!("{e}\n input: {}", short(&m)))?;
                got.items.push(bk(&b));
            }
            Some(Err(e)) => {
                got.err = Some(ek(&e));
            }
            None => {
                got.ended = true;
                break;
            }
        }
    }
    same("blocks", &m, &got, bs, &None, false)
}

pub const NFIELDS: u64 = 7;

/// Blocks with 16-bit field `k` set to `x`
pub fn field16(k: u64, x: u16) -> Vec<B> {
    let mut bs = screen(4, 4, Some(0));
    match k {
        0 | 1 => {
            if let B::Lsd { w, h, .. } = &mut bs[1] {
                if k == 0 { *w = x } else { *h = x }
            }
        }
        2 => bs.extend(image(x, 0x0102, 1, 1, vec![0])),
        3 => bs.extend(image(0x0102, x, 1, 1, vec![0])),
        4 => bs.extend(image(1, 2, x, 0, vec![])),
        5 => bs.extend(image(1, 2, 0, x, vec![])),
        _ => bs.push(gce(0x15, x, 7)),
    }
    bs.push(B::Trailer);
    bs
}

/// Extension of kind 0..4 (4: any other identifier)
pub fn ext(kind: u64, s: Vec<Vec<u8>>) -> B {
    match kind {
        0 => B::Text(s),
        1 => B::Comment(s),
        2 => B::App(s),
        3 => B::Unknown(0x00, s),
        _ => B::Unknown(0xF8, s),
    }
}

pub fn ext_id(id: u8, s: Vec<Vec<u8>>) -> Option<B> {
    match id {
        0x01 => Some(B::Text(s)),
        0xF9 => None,
        0xFE => Some(B::Comment(s)),
        0xFF => Some(B::App(s)),
        _ => Some(B::Unknown(id, s)),
    }
}

pub const SHAPES: u64 = 12;
pub fn shape(k: u64) -> Vec<Vec<u8>> {
    match k {
        0 => vec![],
        1 => vec![vec![0]],
        2 => vec![vec![0x3B; 255]],
        3 => vec![vec![1], vec![2]],
        4 => vec![vec![0x2C, 0x21], vec![0; 255], vec![3]],
        5 => vec![vec![9; 255], vec![8; 255]],
        6 => vec![vec![5; 12], b"some text".to_vec()],
        7 => vec![b"NETSCAPE2.0".to_vec(), vec![1, 2, 3]],
        8 => vec![vec![7; 128], vec![6; 127], vec![5; 129]],
        9 => (1..=255u16).map(|n| vec![n as u8; n as usize]).collect(),
        10 => (0..300u16).map(|n| vec![n as u8]).collect(),
        _ => vec![vec![4, 0, 0, 0], vec![4, 1, 2, 3]],
    }
}

/// Wrap blocks into a file with an image after them
pub fn wrap(mid: Vec<B>) -> Vec<B> {
    let mut bs = screen(2, 1, Some(0));
    bs.extend(mid);
    bs.extend(image(0, 0, 2, 1, vec![1, 0]));
    bs.push(B::Trailer);
    bs
}

/// Lists of blocks shared by decoding (C09) and encoding (C10)
pub fn block_spaces(
    tier: Tier,
    f: impl Fn(&mut Ctx, &[B]) -> Check + Copy + Send + Sync + 'static,
) -> Vec<Family> {
    let mut v = vec![];
    v.push(family(
        "u16-fields",
        "all 65536 values of screen width and height, image left, top, width, height, delay",
        NFIELDS * 65536,
        move |i, ctx| f(ctx, &field16(i / 65536, i as u16)),
    ));
    v.push(family(
        "screen-bytes",
        "all values of the screen flags with the table they announce, all background indices, all aspect ratios; both versions",
        256 * 4,
        move |i, ctx| {
            let x = (i / 4) as u8;
            let mut bs = vec![B::Header(if i % 2 == 0 { *b"87a" } else { *b"89a" })];
            let (mut flags, mut bg, mut aspect) = (0x70, 3, 9);
            match i % 4 {
                0 | 1 => flags = x,
                2 => bg = x,
                _ => aspect = x,
            }
            bs.push(B::Lsd { w: 513, h: 1027, flags, bg, aspect });
            if table_bytes(flags) > 0 {
                bs.push(B::Gct(table(table_bytes(flags) / 3, x)));
            }
            bs.extend(image(0, 0, 1, 1, vec![0]));
            bs.push(B::Trailer);
            f(ctx, &bs)
        },
    ));
    v.push(family(
        "flag-pairs",
        "all pairs of screen flags and image flags, with the tables they announce",
        65536,
        move |i, ctx| {
            let (a, b) = (i as u8, (i >> 8) as u8);
            let mut bs = vec![header(), B::Lsd { w: 1, h: 1, flags: a, bg: 0, aspect: 0 }];
            if table_bytes(a) > 0 {
                bs.push(B::Gct(table(table_bytes(a) / 3, b)));
            }
            bs.push(B::Desc { l: 0, t: 0, w: 1, h: 1, flags: b });
            if table_bytes(b) > 0 {
                bs.push(B::Lct(table(table_bytes(b) / 3, a ^ 0x5A)));
            }
            bs.push(B::Data(vec![0]));
            bs.push(B::Trailer);
            f(ctx, &bs)
        },
    ));
    v.push(family(
        "control",
        "all pairs of graphic control flags and transparent index; all flags with corner delays",
        65536 + 256 * 8,
        move |i, ctx| {
            let g = if i < 65536 {
                gce(i as u8, 0x0100, (i >> 8) as u8)
            } else {
                let j = i - 65536;
                let d = [0u16, 1, 255, 256, 257, 32768, 65534, 65535][(j / 256) as usize];
                gce(j as u8, d, !(j as u8))
            };
            f(ctx, &wrap(vec![g]))
        },
    ));
    v.push(family(
        "tables",
        "global and local tables of every size, 64 contents each, and single-entry variations",
        8 * 64 * 2 + 512,
        move |i, ctx| {
            let mut bs = vec![];
            let (bits, mut t) = if i < 1024 {
                let bits = (i % 8) as u8;
                (bits, table(2 << bits, (i / 16) as u8 * 4 + 1))
            } else {
                (7, vec![0; 768])
            };
            if i >= 1024 {
                let p = (i - 1024) as usize * 3 / 2;
                t[p] = 0xFF;
            }
            let local = (i / 8) % 2 == 1;
            let flags = if local { 0 } else { tflags(bits) };
            bs.push(header());
            bs.push(B::Lsd { w: 1, h: 1, flags, bg: 0, aspect: 0 });
            if !local {
                bs.push(B::Gct(t.clone()));
            }
            let flags = if local { tflags(bits) } else { 0 };
            bs.push(B::Desc { l: 0, t: 0, w: 1, h: 1, flags });
            if local {
                bs.push(B::Lct(t));
            }
            bs.push(B::Data(vec![1]));
            bs.push(B::Trailer);
            f(ctx, &bs)
        },
    ));
    v.push(family(
        "identifiers",
        format!("all extension identifiers times {SHAPES} sub-block shapes, followed by nothing or by each other extension"),
        256 * SHAPES * 3,
        move |i, ctx| {
            let d = digits(i, &[256, SHAPES, 3]);
            let Some(e) = ext_id(d[0] as u8, shape(d[1])) else {
                return Ok(());
            };
            let mut mid = vec![e];
            match d[2] {
                0 => (),
                1 => mid.push(ext(d[0] % 5, vec![vec![7, 7]])),
                _ => mid.insert(0, ext((d[0] + 2) % 5, vec![])),
            }
            f(ctx, &wrap(mid))
        },
    ));
    let q = 1;
    v.push(family(
        "sub-block-sizes",
        format!("plain text, comment, application and two unknown extensions with two sub-blocks of all pairs of sizes (every {q}th second size, and the extremes)"),
        5 * 255 * 255,
        move |i, ctx| {
            let d = digits(i, &[5, 255, 255]);
            if d[2] % q != 0 && d[2] < 253 && d[2] > 1 {
                return Ok(());
            }
            let s = vec![vec![d[1] as u8; d[1] as usize + 1], vec![!d[2] as u8; d[2] as usize + 1]];
            f(ctx, &wrap(vec![ext(d[0], s)]))
        },
    ));
    v.push(family(
        "sub-block-bytes",
        "each extension with all two-byte contents",
        5 * 65536,
        move |i, ctx| {
            let s = vec![le((i / 5) as u16).to_vec()];
            f(ctx, &wrap(vec![ext(i % 5, s)]))
        },
    ));
    v.push(family(
        "sub-block-counts",
        "each extension with 0..=700 sub-blocks, and 70000",
        5 * 702,
        move |i, ctx| {
            let n = match i / 5 {
                701 => 70_000u32,
                n => n as u32,
            };
            let s = (0..n).map(|k| vec![k as u8; 1 + (k % 3) as usize]).collect();
            f(ctx, &wrap(vec![ext(i % 5, s)]))
        },
    ));
    v.push(family(
        "many-blocks",
        "1..=600 comments, images, controls with images, and 70000",
        601 * 4,
        move |i, ctx| {
            let n = match i / 4 {
                600 => 70_000,
                n => n + 1,
            };
            let mut mid = vec![];
            for k in 0..n {
                match i % 4 {
                    0 => mid.push(B::Comment(vec![le(k as u16).to_vec()])),
                    1 => mid.extend(image(k as u16, 0, 1, 1, vec![(k % 2) as u8])),
                    2 => {
                        mid.push(gce(k as u8, k as u16, 0));
                        mid.extend(image(0, k as u16, 1, 1, vec![0]));
                    }
                    _ => mid.push(ext(k % 5, vec![vec![k as u8]])),
                }
            }
            f(ctx, &wrap(mid))
        },
    ));
    let side: [u16; 13] = [0, 1, 2, 3, 4, 7, 15, 16, 17, 255, 256, 257, 300];
    v.push(family(
        "image-sizes",
        "all pairs of 13 widths and heights, placed at 0, 255, 256 and 65535, with pixels",
        13 * 13 * 4,
        move |i, ctx| {
            let d = digits(i, &[13, 13, 4]);
            let (w, h) = (side[d[0] as usize], side[d[1] as usize]);
            let o = [0, 255, 256, 65535][d[2] as usize];
            let n = w as usize * h as usize;
            let mut px = vec![0u8; n];
            for (k, p) in px.iter_mut().enumerate() {
                *p = ((k / 7) % 5) as u8 + d[2] as u8;
            }
            f(ctx, &wrap(image(o, o ^ 1, w, h, px)))
        },
    ));
    const C: [u16; 10] = [0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535];
    const F: [u8; 6] = [0, 0x07, 0x40, 0x81, 0xA9, 0xF7];
    v.push(family(
        "screen-corners",
        format!("all combinations of screen width, height from {C:?}, flags from {F:?}, background index and aspect ratio 0, 1, 255"),
        10 * 10 * 6 * 3 * 3,
        move |i, ctx| {
            let d = digits(i, &[10, 10, 6, 3, 3]);
            let flags = F[d[2] as usize];
            let (bg, aspect) = ([0, 1, 255][d[3] as usize], [0, 1, 255][d[4] as usize]);
            let mut bs = vec![header()];
            bs.push(B::Lsd { w: C[d[0] as usize], h: C[d[1] as usize], flags, bg, aspect });
            if table_bytes(flags) > 0 {
                bs.push(B::Gct(table(table_bytes(flags) / 3, 9)));
            }
            bs.push(B::Trailer);
            f(ctx, &bs)
        },
    ));
    const Z: [(u16, u16); 9] =
        [(0, 0), (0, 1), (1, 0), (1, 1), (2, 300), (300, 2), (1, 65535), (65535, 1), (65535, 0)];
    v.push(family(
        "image-corners",
        format!("all combinations of image left, top from {C:?}, sizes from {Z:?}, flags from {F:?}"),
        10 * 10 * 9 * 6,
        move |i, ctx| {
            let d = digits(i, &[10, 10, 9, 6]);
            let (w, h) = Z[d[2] as usize];
            let flags = F[d[3] as usize];
            let mut mid = vec![B::Desc { l: C[d[0] as usize], t: C[d[1] as usize], w, h, flags }];
            if table_bytes(flags) > 0 {
                mid.push(B::Lct(table(table_bytes(flags) / 3, 9)));
            }
            mid.push(B::Data(vec![1; w as usize * h as usize]));
            mid.push(B::Comment(vec![vec![1]]));
            f(ctx, &wrap(mid))
        },
    ));
    v.push(family(
        "applications",
        format!("application extensions of {} names with 0..=4 further sub-blocks of 1, 2, 3, 4, 5, 16, 255 bytes, which begin with 0..=3", A.len()),
        seq_count(7, 4) * 64,
        move |i, ctx| {
            let s = seq_of(i / 64, 7);
            let mut subs = vec![A[(i % 16) as usize].to_vec()];
            for (k, n) in s.iter().enumerate() {
                let mut b = vec![k as u8 + 2; [1, 2, 3, 4, 5, 16, 255][*n as usize]];
                b[0] = (i / 16 % 4) as u8;
                subs.push(b);
            }
            f(ctx, &wrap(vec![B::App(subs)]))
        },
    ));
    let depth = tier.pick(5, 6);
    for gct in [true, false] {
        v.push(family(
            format!("sequences-{}", if gct { "gct" } else { "nogct" }),
            format!("all sequences of up to {depth} of {ITEMS} block groups"),
            seq_count(ITEMS, depth),
            move |i, ctx| f(ctx, &seq_file(&seq_of(i, ITEMS), gct, true)),
        ));
    }
    v.push(family(
        "variants",
        format!("all sequences of up to {depth} of {ITEMS} block groups, {VARIANTS_TEXT}"),
        seq_count(ITEMS, depth) * VARIANTS,
        move |i, ctx| f(ctx, &variant_file(&seq_of(i / VARIANTS, ITEMS), i % VARIANTS, true, true)),
    ));
    v.push(special_family("special", "blocks", move |ctx, b| {
        f(ctx, &parse(b, None).blocks)
    }));
    v.push(around_family("blocks", move |ctx, a| f(ctx, &a.blocks())));
    v
}

pub fn c09(tier: Tier) -> Vec<Family> {
    let mut v = block_spaces(tier, decode_is);
    // image data by other writers between blocks: everything after it stays in step
    v.push(family(
        "odd-data",
        "image data with 0..=600 extra bytes after the end code in sub-blocks of 1, 2, 3, 255 bytes, blocks before and after",
        601 * 4,
        |i, ctx| {
            let d = digits(i, &[601, 4]);
            let px = noise(2, 12);
            let mut l = lzw_plain(2, &px);
            l.extend((0..d[0]).map(|k| (k as u8).wrapping_mul(37) ^ 0x3B));
            let mut m = put_all(&screen(4, 3, Some(1)));
            put(&mut m, &gce(1, 2, 3));
            put(&mut m, &B::Desc { l: 0, t: 0, w: 4, h: 3, flags: 0 });
            put_image_data(&mut m, 2, &l, [1, 2, 3, 255][d[1] as usize]);
            put(&mut m, &B::Comment(vec![b"x".to_vec()]));
            put(&mut m, &B::Trailer);
            let p = parse(&m, None);
            ctx.sample(|| short(&m));
            check_parsed(ctx, &m, None, Lv { frames: false, steps: false, ..NO_LOOP }, &p)
        },
    ));
    v
}

// ------------------------------------------------------------------ C11

/// Second alphabet, which exercises the preamble and pending parts
fn item2(k: u64, pos: usize) -> Vec<B> {
    let p = pos as u8;
    match k {
        0 => vec![B::Comment(vec![])],
        1 => vec![B::Comment(vec![vec![p + 1], vec![p + 2, 0]])],
        2 => vec![B::App(vec![b"ANIMEXTS1.0".to_vec(), vec![1, p, 1]])],
        3 => vec![B::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, p]])],
        4 => vec![B::Text(vec![])],
        5 => vec![gce(0, 0, 0)],
        6 => image(pos as u16, 0, 0, 3, vec![]),
        7 => image_lct((0, 0, 1, 1), p % 8, p, 0x60, vec![1]),
        8 => image(0, 0, 1, 1, vec![p]),
        _ => vec![gce(0xFF, 65535 - pos as u16, 255 - p)],
    }
}

/// Compare frames and preamble, with the accessors of frames
fn grouping(ctx: &mut Ctx, m: &[u8]) -> Check {
    let lv = Lv { blocks: false, frames: true, steps: false, looping: false };
    let p = parse(m, Some(DEFAULT_LIMIT));
    check_parsed(ctx, m, None, lv, &p)?;
    let g = group(&p);
    ctx.state(&g.preamble.as_ref().ok());
    for f in &g.frames {
        ctx.state(f);
    }
    for (f, want) in decoder(m, None).into_frames().zip(&g.frames) {
        let Ok(f) = f else { break };
        let r = f.region();
        let d: u8 = f.disposal_method().into();
        let c = want.gce.unwrap_or((0, 0, 0));
        let t = (c.0 & 1 != 0).then_some(c.2);
        if (f.left(), f.top(), f.width(), f.height()) != (want.l, want.t, want.w, want.h)
            || (r.left(), r.top()) != (want.l as i32, want.t as i32)
            || (r.width(), r.height()) != (want.w as u32, want.h as u32)
            || d != (c.0 >> 2) & 7
            || f.transparent_color() != t
        {
            return Err(format!("frame accessors: {f:?} of {want:?}\n input: {}", short(m)));
        }
    }
    // a frame read, then the preamble is over
    if let Ok(pre) = &g.preamble
        && (pre.w, pre.h) != {
            let mut f = decoder(m, None).into_frames();
            match f.preamble() {
                Ok(Some(p)) => (p.screen_width(), p.screen_height()),
                _ => (1, 65000),
            }
        }
    {
        return Err(format!("preamble accessors differ\n input: {}", short(m)));
    }
    Ok(())
}

pub fn c11(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let depth = tier.pick(5, 6);
    for gct in [true, false] {
        v.push(family(
            format!("sequences-{}", if gct { "gct" } else { "nogct" }),
            format!("all sequences of up to {depth} of {ITEMS} block groups (two controls in a row included)"),
            seq_count(ITEMS, if gct { depth } else { depth - 1 }),
            move |i, ctx| {
                let s = seq_of(i, ITEMS);
                ctx.sample(|| format!("{s:?}"));
                grouping(ctx, &put_all(&seq_file(&s, gct, true)))
            },
        ));
    }
    v.push(family(
        "variants",
        format!("all sequences of up to {depth} of {ITEMS} block groups, {VARIANTS_TEXT}"),
        seq_count(ITEMS, depth) * VARIANTS,
        move |i, ctx| {
            let s = seq_of(i / VARIANTS, ITEMS);
            ctx.sample(|| format!("{s:?}"));
            grouping(ctx, &put_all(&variant_file(&s, i % VARIANTS, true, true)))
        },
    ));
    let depth2 = tier.pick(5, 6);
    v.push(family(
        "sequences-2",
        format!("all sequences of up to {depth2} of 10 other block groups (empty comments and text, loop extensions of other kinds, empty and interlaced images, default and full controls), different or the same at every place, cut off at the end or not"),
        seq_count(10, depth2) * 4,
        |i, ctx| {
            let s = seq_of(i / 4, 10);
            let mut bs = screen(300, 7, Some(1));
            for (pos, k) in s.iter().enumerate() {
                bs.extend(item2(*k, if i & 2 == 0 { pos } else { 0 }));
            }
            if i % 2 == 0 {
                bs.push(B::Trailer);
            }
            ctx.sample(|| format!("{s:?}"));
            grouping(ctx, &put_all(&bs))
        },
    ));
    v.push(family(
        "screens",
        "all screen flags with their tables, and image flags with theirs, with and without control",
        256 * 8 * 2,
        |i, ctx| {
            let d = digits(i, &[256, 8, 2]);
            let flags = d[0] as u8;
            let mut bs = vec![
                B::Header(if d[2] == 0 { *b"87a" } else { *b"89a" }),
                B::Lsd { w: 258, h: 772, flags, bg: d[0] as u8, aspect: d[1] as u8 },
            ];
            if table_bytes(flags) > 0 {
                bs.push(B::Gct(table(table_bytes(flags) / 3, 3)));
            }
            if d[2] == 1 {
                bs.push(gce(flags, 5, 6));
            }
            bs.extend(image_lct((1, 2, 1, 1), d[1] as u8, flags, 0x20, vec![0]));
            bs.extend(image(3, 4, 1, 1, vec![1]));
            bs.push(B::Trailer);
            grouping(ctx, &put_all(&bs))
        },
    ));
    v.push(family(
        "runs",
        "k comments, applications, unknown extensions or (control, text) pairs between control and image, image and image, or before the first frame; k in 0..=40, 255..=258, 1000, 70000",
        47 * 4 * 4,
        |i, ctx| {
            let d = digits(i, &[47, 4, 4]);
            let k = match d[0] {
                x @ 0..=40 => x,
                x @ 41..=44 => 255 + (x - 41),
                45 => 1000,
                _ => 70_000,
            };
            let run = || {
                let mut r = vec![];
                for j in 0..k {
                    match d[1] {
                        0 => r.push(B::Comment(vec![le(j as u16).to_vec()])),
                        1 => r.push(B::App(vec![vec![65; 11], vec![j as u8]])),
                        2 => r.push(B::Unknown(0x10, vec![vec![j as u8]])),
                        _ => {
                            r.push(gce(1, (j % 60_000) as u16 + 1, 0));
                            r.push(B::Text(vec![vec![j as u8]]));
                        }
                    }
                }
                r
            };
            let mut bs = screen(2, 2, Some(0));
            if d[2] == 0 {
                bs.extend(run());
            }
            bs.push(gce(5, 6, 1));
            if d[2] == 1 && d[1] != 3 {
                bs.extend(run());
            }
            bs.extend(image_lct((0, 0, 1, 1), 1, 2, 0, vec![1]));
            if d[2] == 2 {
                bs.extend(run());
            }
            bs.extend(image(1, 1, 1, 1, vec![0]));
            if d[2] == 3 {
                bs.extend(run());
                bs.push(gce(9, 8, 0));
            }
            bs.extend(image(0, 1, 1, 1, vec![0]));
            bs.push(B::Trailer);
            grouping(ctx, &put_all(&bs))
        },
    ));
    v.push(family(
        "identifiers",
        format!("every extension identifier and every application of {} names, with {SHAPES} sub-block shapes, before the first control, between control and image, or between images", A.len()),
        (256 + 16) * SHAPES * 3,
        |i, ctx| {
            let d = digits(i, &[256 + 16, SHAPES, 3]);
            let s = shape(d[1]);
            let x = if d[0] < 256 {
                ext_id(d[0] as u8, s)
            } else {
                let mut a = vec![A[d[0] as usize - 256].to_vec()];
                a.extend(s);
                Some(B::App(a))
            };
            let Some(x) = x else { return Ok(()) };
            let mut bs = screen(2, 2, Some(0));
            let at = |k: u64, bs: &mut Vec<B>| {
                if d[2] == k {
                    bs.push(x.clone());
                }
            };
            at(0, &mut bs);
            bs.push(gce(0x0D, 500, 1));
            at(1, &mut bs);
            bs.extend(image_lct((0, 0, 1, 1), 1, 2, 0, vec![1]));
            at(2, &mut bs);
            bs.extend(image(1, 0, 1, 1, vec![0]));
            bs.push(B::Trailer);
            grouping(ctx, &put_all(&bs))
        },
    ));
    v.push(family(
        "flags",
        "all flags of a control, 3 delays and indices, times a block between it and its image: none, comment, application, unknown, loop count, of 0..=3 sub-blocks; the image with or without table, in or before the first frame",
        256 * 3 * 17 * 4,
        |i, ctx| {
            let d = digits(i, &[256, 3, 17, 4]);
            let subs = |n: u64| (0..n).map(|k| vec![k as u8 + 1; k as usize * 2 + 1]).collect::<Vec<_>>();
            let mut bs = screen(2, 2, Some(0));
            if d[3] & 1 == 1 {
                bs.extend(image(1, 1, 1, 1, vec![0]));
            }
            bs.push(gce(d[0] as u8, [0, 9, 0xFFFF][d[1] as usize], [0, 1, 0xFF][d[1] as usize]));
            let n = d[2] % 4;
            match d[2] / 4 {
                0 => bs.push(B::Comment(subs(n))),
                1 => bs.push(B::App(subs(n))),
                2 => bs.push(B::Unknown(0x77, subs(n))),
                3 => bs.push(loop_ext(n as u16)),
                _ => (),
            }
            if d[3] & 2 == 2 {
                bs.extend(image_lct((0, 0, 1, 1), 1, 2, 0, vec![1]));
            } else {
                bs.extend(image(0, 0, 1, 1, vec![1]));
            }
            bs.extend(image(1, 0, 1, 1, vec![0]));
            bs.push(B::Trailer);
            grouping(ctx, &put_all(&bs))
        },
    ));
    v.push(family(
        "long",
        "1..=520 frames where every k-th has a control, every l-th a local table, k, l in 1..=3",
        520 * 9,
        |i, ctx| {
            let d = digits(i, &[3, 3, 520]);
            let mut bs = screen(2, 2, Some(0));
            for n in 0..=d[2] {
                if n % (d[0] + 1) == 0 {
                    bs.push(gce(n as u8, n as u16 * 100, n as u8));
                }
                if n % (d[1] + 1) == 0 {
                    bs.extend(image_lct((n as u16, 0, 1, 1), (n % 3) as u8, n as u8, 0, vec![1]));
                } else {
                    bs.extend(image(0, n as u16, 1, 1, vec![0]));
                }
            }
            bs.push(B::Trailer);
            if d[2] % 8 == 7 || d[2] < 24 {
                grouping(ctx, &put_all(&bs))
            } else {
                Ok(())
            }
        },
    ));
    v.push(family(
        "dangling",
        "two GIFs, the first ends with a control without image: all flags, 3 delays and indices, with or without a comment after it; the second begins with a control or image, with preamble asked for or not",
        256 * 3 * 2 * 2 * 3,
        |i, ctx| {
            let d = digits(i, &[256, 3, 2, 2, 3]);
            let mut bs = screen(2, 2, Some(0));
            bs.extend(image_lct((0, 0, 1, 1), 1, 2, 0, vec![1]));
            bs.push(gce(d[0] as u8, [0, 9, 0xFFFF][d[1] as usize], [0, 1, 0xFF][d[1] as usize]));
            if d[2] == 1 {
                bs.push(B::Comment(vec![vec![1]]));
            }
            bs.push(B::Trailer);
            let mut b2 = screen(2, 2, Some(0));
            if d[3] == 1 {
                b2.push(gce(5, 6, 1));
            }
            b2.extend(image(1, 0, 1, 1, vec![0]));
            b2.push(B::Trailer);
            super::more::asking(ctx, &[&put_all(&bs), &put_all(&b2)], |k| match d[4] {
                0 => 0,
                1 => 1,
                _ => k % 2,
            })
        },
    ));
    v.push(special_family("special", "frames and preamble", grouping));
    v.push(around_family("frames and preamble", |ctx, a| grouping(ctx, &a.file())));
    v
}
