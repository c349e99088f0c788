//! Base files and block alphabets.
use crate::refm::*;

/// Color table with `n` entries, tagged so that tables differ
pub fn table(n: usize, tag: u8) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        v.extend([
            (i as u8).wrapping_mul(7).wrapping_add(tag),
            (i as u8) ^ tag,
            (i as u8).wrapping_add(tag.wrapping_mul(31)),
        ]);
    }
    v
}

/// Flag bits for a table of 2^(bits+1) entries
pub fn tflags(bits: u8) -> u8 {
    0x80 | bits
}

pub fn header() -> B {
    B::Header(*b"89a")
}

pub fn screen(w: u16, h: u16, gct: Option<u8>) -> Vec<B> {
    let flags = gct.map_or(0, tflags);
    let mut v = vec![header(), B::Lsd { w, h, flags, bg: 0, aspect: 0 }];
    if let Some(b) = gct {
        v.push(B::Gct(table(2 << b, 40)));
    }
    v
}

pub fn image(l: u16, t: u16, w: u16, h: u16, px: Vec<u8>) -> Vec<B> {
    vec![B::Desc { l, t, w, h, flags: 0 }, B::Data(px)]
}

pub fn image_lct(
    r: (u16, u16, u16, u16),
    bits: u8,
    tag: u8,
    flags: u8,
    px: Vec<u8>,
) -> Vec<B> {
    vec![
        B::Desc { l: r.0, t: r.1, w: r.2, h: r.3, flags: tflags(bits) | flags },
        B::Lct(table(2 << bits, tag)),
        B::Data(px),
    ]
}

/// The same with local tables only
pub fn localized(bs: &[B]) -> Vec<B> {
    let mut v = vec![];
    let mut global = None;
    let mut bits = 0;
    for b in bs {
        match b {
            B::Lsd { w, h, flags, bg, aspect } if flags & 0x80 != 0 => {
                bits = flags & 7;
                v.push(B::Lsd { w: *w, h: *h, flags: flags & 0x7F, bg: *bg, aspect: *aspect });
            }
            B::Gct(c) => global = Some(c.clone()),
            B::Desc { l, t, w, h, flags } if flags & 0x80 == 0 && global.is_some() => {
                v.push(B::Desc { l: *l, t: *t, w: *w, h: *h, flags: flags & 0xF8 | 0x80 | bits });
                v.extend(global.clone().map(B::Lct));
            }
            b => v.push(b.clone()),
        }
    }
    v
}

/// The same with all that must make no difference: a loop count (if there is
/// none), comments and unknown extensions, background and aspect, sorted flags
pub fn dressed(bs: &[B]) -> Vec<B> {
    let looped = bs.iter().any(|b| matches!(b, B::App(_)));
    let mut v = vec![];
    for b in bs {
        match b {
            B::Header(_) => v.push(B::Header(*b"87a")),
            B::Lsd { w, h, flags, .. } => {
                v.push(B::Lsd { w: *w, h: *h, flags: flags ^ 0x58, bg: 1, aspect: 49 });
            }
            B::Desc { l, t, w, h, flags } => {
                v.push(B::Comment(vec![vec![b'c'; 3]]));
                v.push(B::Desc { l: *l, t: *t, w: *w, h: *h, flags: flags ^ 0x38 });
            }
            B::Data(_) => {
                v.push(b.clone());
                v.push(B::Unknown(0x42, vec![vec![9; 4], vec![8]]));
            }
            b => v.push(b.clone()),
        }
        let last = match b {
            B::Lsd { flags, .. } => flags & 0x80 == 0,
            b => matches!(b, B::Gct(_)),
        };
        if last {
            if !looped {
                v.push(loop_ext(1));
            }
            v.push(B::Comment(vec![vec![b'd'; 9], vec![1]]));
        }
    }
    v
}

pub fn loop_ext(n: u16) -> B {
    let [a, b] = le(n);
    B::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, a, b]])
}

pub fn gce(flags: u8, delay: u16, tidx: u8) -> B {
    B::Gce { flags, delay, tidx }
}

/// Number of items in the block alphabet
pub const ITEMS: u64 = 10;

/// Item `k` of the alphabet at position `pos`; every value names its position.
/// All frames fit a 4x4 screen with a global table of 8 entries.
pub fn item(k: u64, pos: usize) -> Vec<B> {
    let p = pos as u8;
    match k {
        0 => vec![B::Comment(vec![vec![b'c', p + 65]])],
        1 => vec![gce(((p % 8) << 2) | 1, 300 + pos as u16, p % 8)],
        2 => image(
            (pos % 3) as u16,
            (pos % 2) as u16,
            2,
            2,
            vec![p % 8, (p + 1) % 8, (p + 2) % 8, (p + 3) % 8],
        ),
        3 => image_lct(
            ((pos % 2) as u16, (pos % 3) as u16, 1, 2),
            p % 3,
            p + 100,
            0,
            vec![p % 2, 1],
        ),
        4 => vec![loop_ext(if pos == 0 { 2 } else { pos as u16 })],
        5 => vec![B::App(vec![b"XMP DataXMP".to_vec(), vec![p, 9, 9]])],
        6 => vec![B::Text(vec![vec![p; 12], vec![b't']])],
        7 => vec![B::Unknown(0x70 + p, vec![vec![p, 1], vec![3]])],
        8 => vec![gce((p % 4) << 2, 2 * pos as u16, 0)],
        // interlaced, with comment of several sub-blocks before it
        _ => {
            let mut v =
                vec![B::Comment(vec![vec![p + 1; 3], vec![b'x'], vec![b'y'; 255]])];
            v.push(B::Desc {
                l: 1,
                t: 0,
                w: 1,
                h: 4,
                flags: 0x40,
            });
            v.push(B::Data(vec![1, 2, p % 8, 3]));
            v
        }
    }
}

/// Number of sequences of up to `depth` items of an alphabet of `k`
pub fn seq_count(k: u64, depth: u32) -> u64 {
    (0..=depth).map(|d| k.pow(d)).sum()
}

/// Decode an index into a sequence of digits, shortest first
pub fn seq_of(mut i: u64, k: u64) -> Vec<u64> {
    let mut d = 0;
    while i >= k.pow(d) {
        i -= k.pow(d);
        d += 1;
    }
    let mut v = vec![0; d as usize];
    for x in v.iter_mut().rev() {
        *x = i % k;
        i /= k;
    }
    v
}

/// Variants of files
pub const VARIANTS: u64 = 3;
pub const VARIANTS_TEXT: &str = "the same at every place, of version 87a, and both";

/// File of a sequence of alphabet items, where an item has the same contents
/// wherever it stands, or of the other version, or both
pub fn variant_file(seq: &[u64], how: u64, gct: bool, trailer: bool) -> Vec<B> {
    let mut v = screen(4, 4, gct.then_some(2));
    if how > 0 {
        v[0] = B::Header(*b"87a");
    }
    for (pos, k) in seq.iter().enumerate() {
        v.extend(item(*k, if how == 1 { pos } else { 0 }));
    }
    if trailer {
        v.push(B::Trailer);
    }
    v
}

/// File of a sequence of alphabet items
pub fn seq_file(seq: &[u64], gct: bool, trailer: bool) -> Vec<B> {
    let mut v = screen(4, 4, gct.then_some(2));
    for (pos, k) in seq.iter().enumerate() {
        v.extend(item(*k, pos));
    }
    if trailer {
        v.push(B::Trailer);
    }
    v
}

/// Fixed high-entropy pattern over 2^bits values
pub fn noise(bits: u32, n: usize) -> Vec<u8> {
    let mut s = 0x2545_F491_4F6C_DD1Du64;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            ((s >> 24) & ((1 << bits) - 1)) as u8
        })
        .collect()
}

/// Raw image file with given LZW bytes
pub fn raw_image(
    w: u16,
    h: u16,
    gct_bits: u8,
    mcs: u8,
    lzw: &[u8],
    chunk: usize,
    trailer: bool,
) -> Vec<u8> {
    let mut bs = screen(w, h, Some(gct_bits));
    bs.push(B::Desc { l: 0, t: 0, w, h, flags: 0 });
    let mut o = put_all(&bs);
    put_image_data(&mut o, mcs, lzw, chunk);
    if trailer {
        o.push(0x3B);
    }
    o
}

/// Hand-picked base files which together use every block type and code path
pub fn base_files() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut add = |n, mut bs: Vec<B>| {
        bs.push(B::Trailer);
        v.push((n, put_all(&bs)));
    };
    add("no-frame", screen(2, 2, None));
    let mut b = screen(2, 2, Some(0));
    b.extend(image(0, 0, 2, 2, vec![0, 1, 1, 0]));
    add("one-frame", b);
    let mut b = screen(2, 1, None);
    b[0] = B::Header(*b"87a");
    b.extend(image_lct((0, 0, 2, 1), 0, 9, 0, vec![1, 0]));
    add("local-87a", b);
    let mut b = screen(3, 3, Some(1));
    b.push(loop_ext(2));
    b.push(B::Comment(vec![b"hi".to_vec(), b"there".to_vec()]));
    b.push(gce(0x04, 10, 0));
    b.extend(image(0, 0, 3, 3, vec![0, 1, 2, 3, 2, 1, 0, 1, 2]));
    b.push(gce(0x09, 20, 3));
    b.extend(image(1, 1, 2, 2, vec![3, 1, 3, 2]));
    b.push(gce(0x0D, 30, 1));
    b.extend(image_lct((0, 1, 1, 2), 0, 77, 0, vec![1, 0]));
    b.extend(image(2, 2, 1, 1, vec![3]));
    add("animation", b);
    let mut b = screen(2, 9, Some(2));
    b.push(B::Desc { l: 0, t: 0, w: 2, h: 9, flags: 0x40 });
    b.push(B::Data((0..18).map(|i| (i % 8) as u8).collect()));
    add("interlaced", b);
    let mut b = screen(1, 1, Some(0));
    b.push(B::Text(vec![vec![1; 12], b"txt".to_vec()]));
    b.push(B::Unknown(0x42, vec![vec![1, 2, 3]]));
    b.push(B::App(vec![b"ICCRGBG1012".to_vec(), vec![5; 20]]));
    b.push(gce(0, 1, 0));
    b.push(B::Comment(vec![]));
    b.extend(image(0, 0, 1, 1, vec![1]));
    b.push(B::Comment(vec![b"end".to_vec()]));
    add("extensions", b);
    let mut b = screen(16, 16, Some(3));
    b.extend(image(0, 0, 16, 16, noise(4, 256)));
    add("two-sub-blocks", b);
    let mut b = screen(2, 2, Some(0));
    b.push(B::App(vec![b"ANIMEXTS1.0".to_vec(), vec![1, 0, 0]]));
    b.push(gce(1, 5, 0));
    b.extend(image(0, 0, 2, 2, vec![0, 1, 0, 1]));
    add("endless", b);
    let mut b = screen(2, 2, Some(0));
    b.push(gce(1, 5, 0));
    b.push(B::Text(vec![vec![0; 12], b"a".to_vec()]));
    b.extend(image(0, 0, 2, 2, vec![0, 1, 0, 1]));
    add("text-takes-control", b);
    let mut b = screen(3, 2, None);
    b.extend(image_lct((0, 0, 3, 1), 1, 9, 0, vec![1, 0, 3]));
    b.extend(image(0, 0, 3, 2, vec![1, 0, 1, 0, 1, 1]));
    add("missing-table", b);
    let mut b = screen(3, 2, Some(0));
    b.extend(image(0, 0, 3, 2, vec![1, 0, 1, 0, 1, 0]));
    b.extend(image(0, 0, 3, 2, vec![1, 0, 1, 0, 1, 2]));
    add("bad-index", b);
    let mut b = screen(3, 2, Some(0));
    b.extend(image(0, 0, 3, 2, vec![1, 0, 1, 0, 1, 0]));
    b.extend(image(2, 0, 2, 2, vec![1, 0, 1, 0]));
    add("outside", b);
    v
}

/// Corner values of 16-bit fields
pub const CORNERS: [u16; 10] = [0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535];

pub const SPECIAL_TEXT: &str = "special files (corner values of screen and image fields, flags, tables of every size, every kind of control, loop counts, every extension, long blocks, large, interlaced and empty images, minimum code sizes, 300 frames, 300 comments)";

/// Files with unusual but valid contents, small ones first
pub fn special() -> &'static [(String, Vec<u8>)] {
    static ALL: std::sync::OnceLock<Vec<(String, Vec<u8>)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = special_files();
        v.sort_by_key(|f| f.1.len());
        v
    })
}

fn special_files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut raw = |n: String, mut b: Vec<u8>| {
        b.push(0x3B);
        v.push((n, b));
    };
    let small = || image(0, 0, 1, 1, vec![1]);
    // geometry
    for x in CORNERS {
        for y in CORNERS {
            let mut b = screen(65535, 65535, Some(0));
            b.extend(image(x, y, 1, 1, vec![1]));
            b.extend(image(y, x, 2, 1, vec![1, 0]));
            raw(format!("at {x},{y}"), put_all(&b));
            if x as u32 * (y as u32) <= 1 << 16 {
                let mut b = screen(x, y, Some(0));
                b.push(gce(4, 1, 0));
                b.extend(image(0, 0, x, y, noise(1, x as usize * y as usize)));
                b.push(gce(8, 2, 0));
                b.extend(image(x.max(1) - 1, y.max(1) - 1, x.min(1), y.min(1), vec![1; (x.min(1) * y.min(1)) as usize]));
                raw(format!("{x}x{y}"), put_all(&b));
            }
        }
    }
    // flags of the screen and of images
    let mut flags = vec![0x00, 0x07, 0x08, 0x10, 0x20, 0x40, 0x70, 0x7F];
    flags.extend((0..8).flat_map(|s| [0x80 | s, 0xF8 | s]));
    for f in flags {
        let mut b = vec![header(), B::Lsd { w: 3, h: 9, flags: f, bg: 200 ^ f, aspect: f }];
        if f & 0x80 != 0 {
            b.push(B::Gct(table(2 << (f & 7), f)));
            b.extend(image(0, 0, 3, 2, vec![0, 1, 0, (1u32 << ((f & 7) + 1)).wrapping_sub(1) as u8, 0, 1]));
        }
        b.extend(image_lct((0, 0, 1, 1), 0, 3, 0, vec![1]));
        raw(format!("screen flags {f:02x}"), put_all(&b));
        let mut b = screen(3, 9, Some(1));
        b.push(B::Desc { l: 0, t: 0, w: 3, h: 9, flags: f });
        if f & 0x80 != 0 {
            b.push(B::Lct(table(2 << (f & 7), f)));
        }
        b.push(B::Data((0..27).map(|k| (k % 2) as u8).collect()));
        b.extend(image(1, 1, 2, 2, vec![3, 2, 1, 0]));
        raw(format!("image flags {f:02x}"), put_all(&b));
    }
    // controls
    for f in 0..=255 {
        if f & 0xE0 == 0 || f & 0x1F == 0x09 {
            let mut b = screen(2, 2, Some(1));
            b.extend(image(0, 0, 2, 2, vec![1, 2, 3, 0]));
            b.push(gce(f, 7, 2));
            b.extend(image(0, 0, 2, 1, vec![2, 1]));
            b.extend(image(1, 0, 1, 2, vec![0, 2]));
            raw(format!("control flags {f:02x}"), put_all(&b));
        }
    }
    for x in CORNERS {
        let mut b = screen(2, 2, Some(7));
        b.push(loop_ext(x));
        b.push(gce(5, x, x as u8));
        b.extend(image(0, 0, 2, 2, vec![1, x as u8, 0, 255]));
        b.push(gce(1, 0, 255));
        b.extend(image(0, 0, 2, 2, vec![x as u8, 3, 255, 0]));
        raw(format!("delay, index and loop count {x}"), put_all(&b));
        let mut b = screen(2, 2, Some(0));
        b.push(B::App(vec![b"ANIMEXTS1.0".to_vec(), vec![1, x as u8, (x >> 8) as u8]]));
        b.extend(small());
        b.extend(small());
        raw(format!("other loop count {x}"), put_all(&b));
    }
    // extensions
    let mut b = screen(1, 1, Some(0));
    for id in 0..=255 {
        let s = vec![vec![id; 3], vec![0x3B], vec![0x2C; id as usize / 2 + 1]];
        b.push(match id {
            0x01 => B::Text(s),
            0xF9 => gce(0, 9, 0),
            0xFE => B::Comment(s),
            0xFF => B::App(s),
            _ => B::Unknown(id, s),
        });
    }
    b.extend(small());
    raw("every extension".into(), put_all(&b));
    for name in [b"NETSCAPE2.0", b"ANIMEXTS1.0", b"netscape2.0", b"NETSCAPE2.1", b"XMP DataXMP", b"ICCRGBG1012", b"fractint001", &[0; 11], &[255; 11]] {
        for sub in [vec![], vec![vec![1, 2, 0]], vec![vec![2, 2, 0]], vec![vec![1, 2]], vec![vec![1, 2, 0, 4]], vec![vec![1, 2, 0], vec![1, 3, 0]]] {
            let mut b = screen(1, 1, Some(0));
            let mut a = vec![name.to_vec()];
            a.extend(sub.clone());
            b.push(B::App(a));
            b.extend(small());
            b.extend(small());
            raw(format!("application {} {sub:?}", String::from_utf8_lossy(name)), put_all(&b));
        }
    }
    for k in 0..4 {
        let s: [Vec<Vec<u8>>; 5] = [
            vec![],
            vec![vec![b'x'; 255]],
            vec![vec![b'y'; 255]; 20],
            (1..=255u8).map(|n| vec![n; n as usize]).collect(),
            (0..1000u16).map(|n| vec![n as u8]).collect(),
        ];
        for (n, s) in s.into_iter().enumerate() {
            let e = match k {
                0 => B::Comment(s),
                1 => B::App(s),
                2 => B::Text(s),
                _ => B::Unknown(0x99, s),
            };
            // first in the preamble, then between and after frames
            let mut b = screen(1, 1, Some(0));
            b.push(e.clone());
            b.extend(small());
            b.push(e.clone());
            b.push(gce(0, 4, 0));
            b.extend(small());
            b.push(e);
            raw(format!("long extension {k} {n}"), put_all(&b));
        }
    }
    // images
    for (w, h, bits) in [
        (300, 300, 8),
        (300, 300, 2),
        (1024, 1025, 0),
        (1500, 1000, 0),
        (65535, 2, 1),
        (2, 65535, 1),
        (271, 259, 1),
        (64, 64, 6),
    ] {
        let n = w as usize * h as usize;
        let mut b = screen(w, h, Some(7));
        b.push(gce(9, 1, 0));
        b.extend(image(0, 0, w, h, if bits > 0 { noise(bits, n) } else { vec![7; n] }));
        b.extend(image(w - 1, h - 1, 1, 1, vec![255]));
        raw(format!("image {w}x{h} of {bits} bits"), put_all(&b));
    }
    for (w, h) in [(300, 300), (1024, 1025), (65535, 2), (2, 65535)] {
        let n = w as usize * h as usize;
        let mut b = screen(w, h, Some(7));
        b.extend(small());
        b.extend(image(0, 0, w, h, (0..n).map(|k| (k / 5000) as u8).collect()));
        raw(format!("image {w}x{h} at the end"), put_all(&b));
    }
    for h in (1..=20).chain([255, 256, 257]) {
        let mut b = screen(2, h, Some(7));
        b.push(B::Desc { l: 0, t: 0, w: 2, h, flags: 0x40 });
        b.push(B::Data((0..2 * h).map(|k| (k / 2) as u8).collect()));
        raw(format!("interlaced {h}"), put_all(&b));
    }
    for mcs in 2..=8u8 {
        for (chunk, extra) in [(255, 0), (1, 0), (7, 0), (255, 300)] {
            let mut b = put_all(&screen(40, 30, Some(7)));
            put(&mut b, &B::Desc { l: 0, t: 0, w: 40, h: 30, flags: 0 });
            let mut l = lzw_plain(mcs, &noise(mcs as u32, 1200));
            l.extend(vec![0; extra]);
            put_image_data(&mut b, mcs, &l, chunk);
            b.extend(put_all(&small()));
            raw(format!("code size {mcs} in {chunk}, {extra} more"), b);
        }
    }
    for (w, h, n, chunk) in [(9, 9, 1200, 255), (9, 9, 1200, 7), (3, 2, 40, 1), (1, 1, 9000, 255), (0, 1, 500, 50)] {
        let mut b = put_all(&screen(9, 9, Some(7)));
        put(&mut b, &B::Desc { l: 0, t: 0, w, h, flags: 0 });
        put_image_data(&mut b, 5, &lzw_plain(5, &noise(5, n)), chunk);
        b.extend(put_all(&small()));
        raw(format!("{n} pixels for an image of {w}x{h} in {chunk}"), b);
    }
    // many
    let mut b = screen(3, 3, Some(2));
    for k in 0..300u16 {
        b.push(gce((k % 4) as u8 * 4 | 1, k, (k % 5) as u8));
        b.extend(image(k % 2, k % 3, 2, 1, vec![(k % 8) as u8, (k / 8 % 8) as u8]));
    }
    raw("300 frames".into(), put_all(&b));
    let mut b = screen(3, 3, Some(2));
    for k in 0..300u16 {
        b.push(B::Comment(vec![le(k).to_vec()]));
    }
    b.extend(small());
    raw("300 comments".into(), put_all(&b));
    let mut b = screen(3, 3, None);
    for k in 0..20u8 {
        b.extend(image_lct((0, 0, 1, 1), k % 8, k, 0, vec![k % 2]));
    }
    raw("20 local tables".into(), put_all(&b));
    let mut b = screen(3, 3, Some(0));
    for (w, h) in [(0, 0), (0, 5), (5, 0), (65535, 0), (0, 65535)] {
        b.extend(image(0, 0, w, h, vec![]));
    }
    b.extend(small());
    raw("empty images".into(), put_all(&b));
    v
}

/// What surrounds a frame without having to matter for it
#[derive(Clone, Debug)]
pub struct Around {
    version: [u8; 3],
    /// Flags of the screen besides those of its table, background and aspect
    lsd: (u8, u8, u8),
    loops: Option<u16>,
    comment: bool,
    /// Blocks before: none, another frame, a text with its control, an
    /// unknown extension
    before: u64,
    control: Option<(u8, u16, u8)>,
    /// Comment between control and image
    between: bool,
    /// Flags of the image besides those of its table
    flags: u8,
    local: bool,
    /// How far image and screen edge are moved right and down
    far: (u16, u16),
}

const DELAYS: [u16; 5] = [0, 1, 256, 1001, 65535];

/// Ways of the first part: every control
const CONTROLS: u64 = 256 * 5 * 2 * 2 * 2;
/// Ways of the second part: combinations of everything else
const REST: u64 = 2 * 2 * 2 * 4 * 3 * 2 * 4 * 2 * 4 * 2 * 4;
/// Ways of the third part: places
const PLACES: u64 = 10 * 10 * 2 * 2;

pub const AROUND: u64 = CONTROLS + REST + PLACES;
pub const AROUND_TEXT: &str = "a frame with every control flag byte, 5 delays, 2 indices, plain or interlaced, with local or global table; with all combinations of version 87a or 89a, screen flags, background, 4 pixel aspects, no, one or 40000 loops, comments, 4 kinds of blocks before, 4 controls, a comment between, plain or interlaced, sort and reserved flags, local or global table; and far right and down on screens of up to 65535";

impl Around {
    pub fn new(i: u64) -> Self {
        let mut a = Around {
            version: *b"89a",
            lsd: (0, 0, 0),
            loops: None,
            comment: false,
            before: 0,
            control: None,
            between: false,
            flags: 0,
            local: false,
            far: (0, 0),
        };
        let d = |i, r: &[u64]| crate::props::digits(i, r);
        if i < CONTROLS {
            let d = d(i, &[256, 5, 2, 2, 2]);
            let tidx = [1, 200][d[2] as usize];
            a.control = Some((d[0] as u8, DELAYS[d[1] as usize], tidx));
            a.flags = 0x40 * d[3] as u8;
            a.local = d[4] == 1;
        } else if i < CONTROLS + REST {
            let d = d(i - CONTROLS, &[2, 2, 2, 4, 3, 2, 4, 2, 4, 2, 4]);
            if d[0] == 1 {
                a.version = *b"87a";
            }
            let aspect = [0, 49, 254, 255][d[3] as usize];
            a.lsd = (0x78 * d[1] as u8, 3 * d[2] as u8, aspect);
            a.loops = [None, Some(1), Some(40_000)][d[4] as usize];
            a.comment = d[5] == 1;
            a.before = d[6];
            a.between = d[7] == 1;
            a.control = [None, Some((0, 0, 0)), Some((0x0D, 10, 1)), Some((0x0A, 300, 2))]
                [d[8] as usize];
            a.local = d[9] == 1;
            a.flags = [0, 0x40, 0x20, 0x78][d[10] as usize];
        } else {
            let d = d(i - CONTROLS - REST, &[10, 10, 2, 2]);
            const FAR: [u16; 10] = [0, 1, 126, 253, 301, 32765, 32766, 40_001, 65531, 65532];
            a.far = (FAR[d[0] as usize], FAR[d[1] as usize]);
            a.flags = 0x40 * d[2] as u8;
            a.local = d[3] == 1;
        }
        a
    }

    /// Whether a whole screen of this size can be afforded
    pub fn small(&self) -> bool {
        self.far.0 as usize * self.far.1 as usize <= 1 << 16
    }

    /// Blocks up to the image
    fn front(&self, w: u16, h: u16, gct: bool) -> Vec<B> {
        let (flags, bg, aspect) = self.lsd;
        let flags = if gct { flags | tflags(2) } else { flags };
        let mut bs = vec![
            B::Header(self.version),
            B::Lsd { w: self.far.0 + w, h: self.far.1 + h, flags, bg, aspect },
        ];
        if gct {
            bs.push(B::Gct(table(8, 0)));
        }
        bs.extend(self.loops.map(loop_ext));
        if self.comment {
            bs.push(B::Comment(vec![b"one".to_vec(), vec![0x3B]]));
        }
        match self.before {
            0 => (),
            1 => bs.extend(image_lct((1, 0, 1, 1), 0, 7, 0, vec![1])),
            2 => bs.extend([gce(5, 9, 1), B::Text(vec![vec![7; 12], vec![b't']])]),
            _ => bs.push(B::Unknown(0x42, vec![vec![9; 4], vec![8]])),
        }
        bs
    }

    /// Control of the image
    fn control(&self) -> Vec<B> {
        let mut bs = vec![];
        bs.extend(self.control.map(|(f, d, t)| gce(f, d, t)));
        if self.between {
            bs.push(B::Comment(vec![b"two".to_vec()]));
        }
        bs
    }

    /// Descriptor of the image and its table
    fn head(&self, w: u16, h: u16) -> Vec<B> {
        let (l, t) = self.far;
        let flags = self.flags | if self.local { tflags(2) } else { 0 };
        let mut bs = vec![B::Desc { l: l + 1, t, w, h, flags }];
        if self.local {
            bs.push(B::Lct(table(8, 50)));
        }
        bs
    }

    /// Blocks after it
    fn back(&self) -> Vec<B> {
        let mut bs = image_lct((0, 1, 2, 1), 1, 9, 0, vec![3, 2]);
        if self.comment {
            bs.push(B::Comment(vec![b"end".to_vec()]));
        }
        bs.push(B::Trailer);
        bs
    }

    /// File with the frame
    pub fn file(&self) -> Vec<u8> {
        put_all(&self.blocks())
    }

    pub fn blocks(&self) -> Vec<B> {
        let mut bs = self.front(3, 2, !self.local);
        bs.extend(self.control());
        bs.extend(self.head(2, 2));
        bs.push(B::Data(vec![1, 2, 7, 0]));
        bs.extend(self.back());
        bs
    }

    /// File with fault `k` of `AROUND_FAULTS` in place of the frame
    pub fn fault(&self, k: u64) -> Vec<u8> {
        let none = k == 3 || k == 15;
        let mut m = put_all(&self.front(3, 2, !self.local && !none));
        let mut a = self.clone();
        let tidx = self.control.map_or(0, |c| c.2);
        a.local &= !none;
        m.extend(put_all(&a.control()));
        let data = |v: &[u8]| B::Data(v.to_vec());
        match k {
            0 => m.extend(put_all(&[&a.head(3, 1)[..], &[data(&[1, 2, 0])]].concat())),
            1 => m.extend(put_all(&[&a.head(1, 3)[..], &[data(&[1, 2, 0])]].concat())),
            2 => m.extend(put_all(&[&a.head(0, 2)[..], &[data(&[])]].concat())),
            3 => m.extend(put_all(&[&a.head(2, 2)[..], &[data(&[1, 2, 3, 0])]].concat())),
            4 => m.extend(put_all(&[&a.head(2, 2)[..], &[data(&[1, 2, 8, 0])]].concat())),
            5 => m.extend(put_all(&[&a.head(2, 2)[..], &[data(&[255, 2, 3, 0])]].concat())),
            6 => {
                m.extend(put_all(&a.head(2, 2)));
                put_image_data(&mut m, 3, &lzw_plain(3, &[1, 2, 3]), 255);
            }
            7 => {
                m.extend(put_all(&a.head(2, 2)));
                put_image_data(&mut m, 3, &[0x18, 0xFE, 0xFF], 255);
            }
            8 => {
                put(&mut m, &gce(1, 5, 0));
                put(&mut m, &gce(1, 5, 0));
            }
            9 => m.push(0x2B),
            10 => m.extend([0x21, 0xF9, 5, 0, 0, 0, 0, 0, 0]),
            11 => m.push(0x3B),
            12 => {
                m.extend(put_all(&a.head(2, 2)));
                m.extend([13, 0]);
            }
            // every pixel has the index of the control
            14 => m.extend(put_all(&[&a.head(3, 1)[..], &[data(&[tidx; 3])]].concat())),
            15 => m.extend(put_all(&[&a.head(2, 2)[..], &[data(&[tidx; 4])]].concat())),
            16 => m.extend(put_all(&[&a.head(0, 0)[..], &[data(&[])]].concat())),
            _ => {
                let mut o = put_all(&a.head(2, 2));
                put_image_data(&mut o, 3, &lzw_plain(3, &[1, 2, 3, 0]), 255);
                o.truncate(o.len() - 2);
                m.extend(o);
                return m;
            }
        }
        m.extend(put_all(&self.back()));
        m
    }
}

pub const AROUND_FAULTS: u64 = 17;
