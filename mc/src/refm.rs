//! Reference model of GIF89a, written from the specification and sharing no
//! code with the implementation: serializer, parser, LZW, frame grouping and
//! canvas composition.  Kept deliberately plain.
use std::io::ErrorKind;

// ------------------------------------------------------------------ blocks

/// A block, as its field values
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Header([u8; 3]),
    Lsd { w: u16, h: u16, flags: u8, bg: u8, aspect: u8 },
    Gct(Vec<u8>),
    Text(Vec<Vec<u8>>),
    Gce { flags: u8, delay: u16, tidx: u8 },
    Comment(Vec<Vec<u8>>),
    App(Vec<Vec<u8>>),
    Unknown(u8, Vec<Vec<u8>>),
    Desc { l: u16, t: u16, w: u16, h: u16, flags: u8 },
    Lct(Vec<u8>),
    Data(Vec<u8>),
    Trailer,
}

/// Kind of error
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Io(ErrorKind),
    TryFromInt,
    MalformedHeader,
    UnsupportedVersion([u8; 3]),
    InvalidBlockCode,
    InvalidBlockSequence,
    MalformedGce,
    Eof,
    InvalidLzw,
    TooLarge,
    Incomplete,
    InvalidFrameDims,
    MissingColorTable,
    InvalidColorIndex,
    InvalidRasterDims,
    Other(String),
}

pub fn le(v: u16) -> [u8; 2] {
    [(v & 255) as u8, (v >> 8) as u8]
}

fn sub_blocks(o: &mut Vec<u8>, subs: &[Vec<u8>]) {
    for s in subs {
        assert!(!s.is_empty() && s.len() < 256);
        o.push(s.len() as u8);
        o.extend_from_slice(s);
    }
    o.push(0);
}

/// Write one block, as the specification lays it out.
/// Image data is written by the plain reference compressor.
pub fn put(o: &mut Vec<u8>, b: &B) {
    match b {
        B::Header(v) => {
            o.extend_from_slice(b"GIF");
            o.extend_from_slice(v);
        }
        B::Lsd { w, h, flags, bg, aspect } => {
            o.extend(le(*w));
            o.extend(le(*h));
            o.extend([*flags, *bg, *aspect]);
        }
        B::Gct(c) | B::Lct(c) => o.extend_from_slice(c),
        B::Text(s) => {
            o.extend([0x21, 0x01]);
            sub_blocks(o, s);
        }
        B::Gce { flags, delay, tidx } => {
            o.extend([0x21, 0xF9, 4, *flags]);
            o.extend(le(*delay));
            o.extend([*tidx, 0]);
        }
        B::Comment(s) => {
            o.extend([0x21, 0xFE]);
            sub_blocks(o, s);
        }
        B::App(s) => {
            o.extend([0x21, 0xFF]);
            sub_blocks(o, s);
        }
        B::Unknown(id, s) => {
            o.extend([0x21, *id]);
            sub_blocks(o, s);
        }
        B::Desc { l, t, w, h, flags } => {
            o.push(0x2C);
            o.extend(le(*l));
            o.extend(le(*t));
            o.extend(le(*w));
            o.extend(le(*h));
            o.push(*flags);
        }
        B::Data(px) => {
            let m = min_code_size(px);
            put_image_data(o, m, &lzw_plain(m, px), 255);
        }
        B::Trailer => o.push(0x3B),
    }
}

pub fn put_all(bs: &[B]) -> Vec<u8> {
    let mut o = vec![];
    for b in bs {
        put(&mut o, b);
    }
    o
}

/// Write image data with LZW bytes cut into sub-blocks of `chunk` bytes
pub fn put_image_data(o: &mut Vec<u8>, mcs: u8, lzw: &[u8], chunk: usize) {
    o.push(mcs);
    for c in lzw.chunks(chunk) {
        o.push(c.len() as u8);
        o.extend_from_slice(c);
    }
    o.push(0);
}

/// Size in bytes of the color table which flags announce
pub fn table_bytes(flags: u8) -> usize {
    if flags & 0x80 != 0 { 3 << ((flags & 7) + 1) } else { 0 }
}

// ------------------------------------------------------------------ LZW

pub fn min_code_size(px: &[u8]) -> u8 {
    let max = px.iter().copied().max().unwrap_or(0);
    let mut m = 2;
    while (1u32 << m) <= max as u32 {
        m += 1;
    }
    m
}

/// Writes LZW codes, tracking what a decoder's table would hold
#[derive(Clone)]
pub struct CodeWriter {
    pub mcs: u8,
    /// Next code the decoder will define
    pub next: usize,
    pub width: u32,
    /// Is there a previous code since the last clear?
    pub prev: bool,
    pub bits: u32,
    acc: u32,
    pub out: Vec<u8>,
}

impl CodeWriter {
    pub fn new(mcs: u8) -> Self {
        CodeWriter {
            mcs,
            next: (1 << mcs) + 2,
            width: mcs as u32 + 1,
            prev: false,
            bits: 0,
            acc: 0,
            out: vec![],
        }
    }
    pub fn clear_code(&self) -> usize {
        1 << self.mcs
    }
    pub fn end_code(&self) -> usize {
        (1 << self.mcs) + 1
    }
    /// Write a code in the current width, without any table effect
    pub fn raw(&mut self, code: usize) {
        self.acc |= (code as u32) << self.bits;
        self.bits += self.width;
        while self.bits >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.bits -= 8;
        }
    }
    /// Write a code and do what a decoder would do with it
    pub fn code(&mut self, code: usize) {
        self.raw(code);
        if code == self.clear_code() {
            self.next = (1 << self.mcs) + 2;
            self.width = self.mcs as u32 + 1;
            self.prev = false;
        } else if code != self.end_code() {
            if self.prev && self.next < 4096 {
                self.next += 1;
                if self.next == 1 << self.width && self.width < 12 {
                    self.width += 1;
                }
            }
            self.prev = true;
        }
    }
    /// Finish the last byte
    pub fn finish(mut self) -> Vec<u8> {
        if self.bits > 0 {
            self.out.push(self.acc as u8);
        }
        self.out
    }
    /// Control state
    pub fn state(&self) -> (u8, usize, u32, u32, bool) {
        (self.mcs, self.next, self.width, self.bits, self.prev)
    }
}

/// Plain LZW compression: longest match in a list of strings
pub fn lzw_plain(mcs: u8, px: &[u8]) -> Vec<u8> {
    use std::collections::HashMap;
    let mut w = CodeWriter::new(mcs);
    let cc = w.clear_code();
    w.code(cc);
    // (prefix code, byte) -> code
    let mut tbl: HashMap<(usize, u8), usize> = HashMap::new();
    let mut next = cc + 2;
    let mut cur: Option<usize> = None;
    for &p in px {
        match cur {
            None => cur = Some(p as usize),
            Some(c) => {
                if let Some(n) = tbl.get(&(c, p)) {
                    cur = Some(*n);
                } else {
                    w.code(c);
                    if next == 4096 {
                        w.code(cc);
                        tbl.clear();
                        next = cc + 2;
                    } else {
                        tbl.insert((c, p), next);
                        next += 1;
                    }
                    cur = Some(p as usize);
                }
            }
        }
    }
    if let Some(c) = cur {
        w.code(c);
    }
    let ec = w.end_code();
    w.code(ec);
    w.finish()
}

/// Result of LZW decompression
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lzw {
    pub px: Vec<u8>,
    pub ended: bool,
    pub bad: bool,
    /// Codes read
    pub codes: usize,
    /// Widest code
    pub max_width: u32,
    /// Was the first code a clear code?
    pub starts_clear: bool,
    /// Control state at the end
    pub state: (usize, u32, u32),
    /// Input bytes not needed after the end code
    pub unused: usize,
}

/// Decompress by the rules of GIF89a.  Each table entry is kept as a slice of
/// the output it was first seen in.
pub fn lzw_decode(mcs: u8, data: &[u8], limit: usize) -> Lzw {
    let clear = 1usize << mcs;
    let end = clear + 1;
    let mut strs: Vec<(usize, usize)> = vec![]; // (start, len) of codes > end
    let mut out: Vec<u8> = vec![];
    let mut r = Lzw {
        px: vec![],
        ended: false,
        bad: false,
        codes: 0,
        max_width: 0,
        starts_clear: false,
        state: (0, 0, 0),
        unused: 0,
    };
    let mut width = mcs as u32 + 1;
    let mut prev: Option<(usize, usize)> = None;
    let (mut acc, mut bits) = (0u32, 0u32);
    let mut pos = 0;
    loop {
        while bits < width && pos < data.len() {
            acc |= (data[pos] as u32) << bits;
            bits += 8;
            pos += 1;
        }
        if bits < width {
            break;
        }
        let code = (acc & ((1 << width) - 1)) as usize;
        acc >>= width;
        bits -= width;
        r.codes += 1;
        r.max_width = r.max_width.max(width);
        if code == clear {
            if r.codes == 1 {
                r.starts_clear = true;
            }
            strs.clear();
            width = mcs as u32 + 1;
            prev = None;
            continue;
        }
        if code == end {
            r.ended = true;
            r.unused = data.len() - pos;
            break;
        }
        let start = out.len();
        let next = end + 1 + strs.len();
        match prev {
            None => {
                if code > end {
                    r.bad = true;
                    break;
                }
                out.push(code as u8);
            }
            Some((ps, pl)) => {
                if code < clear {
                    out.push(code as u8);
                } else if code < next {
                    let (s, l) = strs[code - end - 1];
                    for i in s..s + l {
                        let b = out[i];
                        out.push(b);
                    }
                } else if code == next && next < 4096 {
                    for i in ps..ps + pl {
                        let b = out[i];
                        out.push(b);
                    }
                    let b = out[ps];
                    out.push(b);
                } else {
                    r.bad = true;
                    break;
                }
                // new entry: previous string and the first byte of this one,
                // which lie side by side in the output
                if next < 4096 {
                    strs.push((ps, pl + 1));
                    if next + 1 == 1 << width && width < 12 {
                        width += 1;
                    }
                }
            }
        }
        prev = Some((start, out.len() - start));
        if out.len() > limit.saturating_mul(64) + (1 << 22) {
            // far beyond what can matter
            break;
        }
    }
    r.state = (end + 1 + strs.len(), width, bits);
    r.px = out;
    r
}

// ------------------------------------------------------------------ parser

/// How a stream ends
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Trailer,
    Err(E),
}

/// What a stream denotes, block by block
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Parsed {
    /// Blocks (the trailer included)
    pub blocks: Vec<B>,
    pub end: End,
    /// Position after each block
    pub ends: Vec<usize>,
    /// Bytes belonging to the GIF (when it ends with a trailer)
    pub used: usize,
    /// The kind of error is open to interpretation: the stream has two faults
    /// at once (such as corrupt codes in data which is also cut off)
    pub loose: bool,
    /// The format does not prescribe what to make of the stream
    pub odd: bool,
}

struct Rd<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], E> {
        if self.d.len() - self.p < n {
            self.p = self.d.len();
            return Err(E::Eof);
        }
        let s = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u8(&mut self) -> Result<u8, E> {
        Ok(self.take(1)?[0])
    }
    fn u16(b: &[u8]) -> u16 {
        b[0] as u16 + 256 * b[1] as u16
    }
    fn subs(&mut self) -> Result<Vec<Vec<u8>>, E> {
        let mut v = vec![];
        loop {
            let n = self.u8()? as usize;
            if n == 0 {
                return Ok(v);
            }
            v.push(self.take(n)?.to_vec());
        }
    }
}

pub const DEFAULT_LIMIT: usize = 1 << 25;

pub fn parse(d: &[u8], limit: Option<usize>) -> Parsed {
    let mut r = Rd { d, p: 0 };
    let mut blocks = vec![];
    let mut q = Q { loose: false, odd: false, ends: vec![] };
    let end = match parse_into(&mut r, limit, &mut blocks, &mut q) {
        Ok(()) => End::Trailer,
        Err(e) => End::Err(e),
    };
    Parsed { blocks, end, ends: q.ends, used: r.p, loose: q.loose, odd: q.odd }
}

struct Q {
    loose: bool,
    odd: bool,
    ends: Vec<usize>,
}
impl Q {
    /// Note where the last block ends
    fn mark(&mut self, r: &Rd, o: &[B]) {
        if self.ends.len() < o.len() {
            self.ends.push(r.p);
        }
    }
}

fn parse_into(
    r: &mut Rd,
    limit: Option<usize>,
    o: &mut Vec<B>,
    q: &mut Q,
) -> Result<(), E> {
    if r.d.len() < 6 && !b"GIF".starts_with(&r.d[..r.d.len().min(3)]) {
        q.loose = true;
    }
    let h = r.take(6)?;
    if &h[..3] != b"GIF" {
        return Err(E::MalformedHeader);
    }
    let v = [h[3], h[4], h[5]];
    if &v != b"87a" && &v != b"89a" {
        return Err(E::UnsupportedVersion(v));
    }
    o.push(B::Header(v));
    q.mark(r, o);
    let s = r.take(7)?;
    o.push(B::Lsd {
        w: Rd::u16(s),
        h: Rd::u16(&s[2..]),
        flags: s[4],
        bg: s[5],
        aspect: s[6],
    });
    q.mark(r, o);
    let n = table_bytes(s[4]);
    if n > 0 {
        o.push(B::Gct(r.take(n)?.to_vec()));
    }
    loop {
        q.mark(r, o);
        match r.u8()? {
            0x3B => {
                o.push(B::Trailer);
                q.mark(r, o);
                return Ok(());
            }
            0x21 => match r.u8()? {
                0x01 => o.push(B::Text(r.subs()?)),
                0xF9 => {
                    let (mut flags, mut delay, mut tidx) = (0, 0, 0);
                    let mut count = 0;
                    loop {
                        let n = r.u8()? as usize;
                        if n == 0 {
                            break;
                        }
                        count += 1;
                        if n != 4 {
                            q.loose |= r.d.len() - r.p < n;
                        }
                        let s = r.take(n)?;
                        if n != 4 {
                            return Err(E::MalformedGce);
                        }
                        flags = s[0];
                        delay = Rd::u16(&s[1..]);
                        tidx = s[3];
                    }
                    q.odd |= count != 1;
                    o.push(B::Gce { flags, delay, tidx });
                }
                0xFE => o.push(B::Comment(r.subs()?)),
                0xFF => o.push(B::App(r.subs()?)),
                id => o.push(B::Unknown(id, r.subs()?)),
            },
            0x2C => {
                let s = r.take(9)?;
                let (w, h) = (Rd::u16(&s[4..]), Rd::u16(&s[6..]));
                let sz = w as usize * h as usize;
                if limit.is_some_and(|l| sz > l) {
                    return Err(E::TooLarge);
                }
                o.push(B::Desc {
                    l: Rd::u16(s),
                    t: Rd::u16(&s[2..]),
                    w,
                    h,
                    flags: s[8],
                });
                q.mark(r, o);
                let n = table_bytes(s[8]);
                if n > 0 {
                    o.push(B::Lct(r.take(n)?.to_vec()));
                    q.mark(r, o);
                }
                let mcs = r.u8()?;
                q.odd |= !(2..=8).contains(&mcs);
                let mcs = mcs.clamp(2, 8);
                // gather sub-blocks until the terminator, the end of the
                // stream, or a corrupt code -- whichever is met first
                let mut lzw = vec![];
                loop {
                    let n = match r.u8() {
                        Ok(n) => n as usize,
                        Err(e) => {
                            let l = lzw_decode(mcs, &lzw, sz);
                            if l.bad {
                                q.loose = true;
                                return Err(E::InvalidLzw);
                            }
                            return Err(e);
                        }
                    };
                    if n == 0 {
                        break;
                    }
                    match r.take(n) {
                        Ok(s) => lzw.extend_from_slice(s),
                        Err(e) => {
                            let l = lzw_decode(mcs, &lzw, sz);
                            if l.bad {
                                q.loose = true;
                                return Err(E::InvalidLzw);
                            }
                            return Err(e);
                        }
                    }
                }
                let mut l = lzw_decode(mcs, &lzw, sz);
                if l.bad {
                    // a corrupt code after the last pixel of the image
                    q.odd |= l.px.len() >= sz;
                    return Err(E::InvalidLzw);
                }
                if l.px.len() < sz {
                    return Err(E::Incomplete);
                }
                l.px.truncate(sz);
                o.push(B::Data(l.px));
            }
            _ => return Err(E::InvalidBlockCode),
        }
    }
}

// ------------------------------------------------------------------ frames

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frame {
    pub gce: Option<(u8, u16, u8)>,
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
    pub flags: u8,
    pub lct: Option<Vec<u8>>,
    pub px: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Preamble {
    pub version: [u8; 3],
    pub w: u16,
    pub h: u16,
    pub flags: u8,
    pub bg: u8,
    pub aspect: u8,
    pub gct: Option<Vec<u8>>,
    pub loop_ext: Option<Vec<Vec<u8>>>,
    pub comments: Vec<Vec<Vec<u8>>>,
}

/// Loop count of an application extension
pub fn loop_count(app: &[Vec<u8>]) -> Option<u16> {
    if app.len() == 2
        && (app[0] == b"NETSCAPE2.0" || app[0] == b"ANIMEXTS1.0")
        && app[1].len() == 3
        && app[1][0] == 1
    {
        Some(app[1][1] as u16 + 256 * app[1][2] as u16)
    } else {
        None
    }
}

/// The stream as a preamble and frames
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Grouped {
    /// Preamble; None when no frame block follows it
    pub preamble: Result<Preamble, E>,
    pub frames: Vec<Frame>,
    pub end: End,
}

pub fn group(p: &Parsed) -> Grouped {
    let mut pre = Preamble::default();
    let mut in_pre = true;
    let mut frames = vec![];
    let mut gce = None;
    let mut desc = None;
    let mut lct = None;
    let mut end = p.end.clone();
    for b in &p.blocks {
        match b {
            B::Header(v) => pre.version = *v,
            B::Lsd { w, h, flags, bg, aspect } => {
                pre.w = *w;
                pre.h = *h;
                pre.flags = *flags;
                pre.bg = *bg;
                pre.aspect = *aspect;
            }
            B::Gct(c) => pre.gct = Some(c.clone()),
            B::Comment(c) if in_pre => pre.comments.push(c.clone()),
            B::App(a) if in_pre && loop_count(a).is_some() => {
                pre.loop_ext = Some(a.clone())
            }
            B::Text(_) => gce = None,
            B::Gce { flags, delay, tidx } => {
                if gce.is_some() {
                    end = End::Err(E::InvalidBlockSequence);
                    break;
                }
                in_pre = false;
                gce = Some((*flags, *delay, *tidx));
            }
            B::Desc { l, t, w, h, flags } => {
                in_pre = false;
                desc = Some((*l, *t, *w, *h, *flags));
            }
            B::Lct(c) => lct = Some(c.clone()),
            B::Data(px) => {
                let (l, t, w, h, flags) = desc.take().unwrap();
                frames.push(Frame {
                    gce: gce.take(),
                    l,
                    t,
                    w,
                    h,
                    flags,
                    lct: lct.take(),
                    px: px.clone(),
                });
            }
            _ => (),
        }
    }
    let preamble = if !in_pre {
        Ok(pre)
    } else {
        match &end {
            End::Err(e) => Err(e.clone()),
            End::Trailer => Err(E::InvalidBlockSequence),
        }
    };
    Grouped { preamble, frames, end }
}

// ------------------------------------------------------------------ steps

/// One step: the whole screen, as RGBA bytes
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct StepR {
    pub w: u32,
    pub h: u32,
    pub rgba: Vec<u8>,
    /// Delay (zero when there is none)
    pub delay: u16,
    pub transparent: Option<u8>,
}

impl std::fmt::Debug for StepR {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "Step({}x{} delay {} trans {:?} rgba {}{})",
            self.w,
            self.h,
            self.delay,
            self.transparent,
            hex(&self.rgba[..self.rgba.len().min(256)]),
            if self.rgba.len() > 256 { "..." } else { "" }
        )
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Order in which rows of an interlaced image are stored
pub fn interlace_order(h: usize) -> Vec<usize> {
    let mut v = vec![];
    for (s, d) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut y = s;
        while y < h {
            v.push(y);
            y += d;
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Composed {
    pub steps: Vec<StepR>,
    /// None: normal end
    pub err: Option<E>,
    pub loops: Option<u16>,
    /// Fingerprint of the canvas before each frame, and at the end
    pub canvas: Vec<Vec<u8>>,
}

/// Screen limit used by the step decoder
pub fn compose(g: &Grouped, limit: Option<usize>, keep_canvas: bool) -> Composed {
    let mut c = Composed { steps: vec![], err: None, loops: None, canvas: vec![] };
    let pre = match &g.preamble {
        Ok(p) => p,
        Err(e) => {
            c.err = Some(e.clone());
            return c;
        }
    };
    let (w, h) = (pre.w as usize, pre.h as usize);
    if limit.is_some_and(|l| w * h > l) || w * h > i32::MAX as usize {
        c.err = Some(E::TooLarge);
        return c;
    }
    c.loops = pre.loop_ext.as_ref().and_then(|a| loop_count(a));
    let mut canvas = vec![0u8; w * h * 4];
    for f in &g.frames {
        if keep_canvas {
            c.canvas.push(canvas.clone());
        }
        let (fl, ft, fw, fh) =
            (f.l as usize, f.t as usize, f.w as usize, f.h as usize);
        if fw == 0 || fh == 0 || fl + fw > w || ft + fh > h {
            c.err = Some(E::InvalidFrameDims);
            return c;
        }
        let tbl = match (&f.lct, &pre.gct) {
            (Some(t), _) => t,
            (None, Some(t)) => t,
            _ => {
                c.err = Some(E::MissingColorTable);
                return c;
            }
        };
        let gce = f.gce.unwrap_or((0, 0, 0));
        let disposal = (gce.0 >> 2) & 7;
        let trans = if gce.0 & 1 != 0 { Some(gce.2) } else { None };
        let before = if disposal == 3 { Some(canvas.clone()) } else { None };
        let order: Vec<usize> = if f.flags & 0x40 != 0 {
            interlace_order(fh)
        } else {
            (0..fh).collect()
        };
        for (srow, &y) in order.iter().enumerate() {
            for x in 0..fw {
                let i = f.px[srow * fw + x];
                if i as usize * 3 >= tbl.len() {
                    c.err = Some(E::InvalidColorIndex);
                    return c;
                }
                if trans == Some(i) {
                    continue;
                }
                let p = ((ft + y) * w + fl + x) * 4;
                let q = i as usize * 3;
                canvas[p..p + 3].copy_from_slice(&tbl[q..q + 3]);
                canvas[p + 3] = 255;
            }
        }
        c.steps.push(StepR {
            w: w as u32,
            h: h as u32,
            rgba: canvas.clone(),
            delay: gce.1,
            transparent: trans,
        });
        match disposal {
            2 => {
                for y in ft..ft + fh {
                    for x in fl..fl + fw {
                        let p = (y * w + x) * 4;
                        canvas[p..p + 4].fill(0);
                    }
                }
            }
            3 => canvas = before.unwrap(),
            _ => (),
        }
    }
    if keep_canvas {
        c.canvas.push(canvas);
    }
    if let End::Err(e) = &g.end {
        c.err = Some(e.clone());
    }
    c
}
