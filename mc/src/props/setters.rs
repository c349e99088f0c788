//! C20, C21: settings packed into flags
use super::codec::{gray_palette, raster8};
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use gift::block as gb;
use gift::{Encoder, Step};

// ------------------------------------------------------------------ C20

/// Model of a graphic control: all settings on their own
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Ctl {
    reserved: u8,
    disposal: u8,
    user: bool,
    transp: bool,
    idx: u8,
    delay: u16,
}

#[derive(Clone, Copy, Debug)]
enum Set {
    Flags(u8),
    Disposal(u8),
    User(bool),
    Transparent(Option<u8>),
    Idx(u8),
    Delay(u16),
}

impl Ctl {
    fn new(flags: u8, delay: u16, idx: u8) -> Ctl {
        Ctl {
            reserved: flags >> 5,
            disposal: flags >> 2 & 7,
            user: flags & 2 != 0,
            transp: flags & 1 != 0,
            idx,
            delay,
        }
    }
    fn flags(&self) -> u8 {
        self.reserved << 5 | self.disposal << 2 | (self.user as u8) << 1 | self.transp as u8
    }
    fn set(self, s: Set) -> Ctl {
        let mut c = self;
        match s {
            Set::Flags(f) => c = Ctl::new(f, c.delay, c.idx),
            Set::Disposal(d) => c.disposal = d & 7,
            Set::User(u) => c.user = u,
            Set::Transparent(Some(i)) => (c.transp, c.idx) = (true, i),
            Set::Transparent(None) => (c.transp, c.idx) = (false, 0),
            Set::Idx(i) => c.idx = i,
            Set::Delay(d) => c.delay = d,
        }
        c
    }
    fn triple(&self) -> (u8, u16, u8) {
        (self.flags(), self.delay, self.idx)
    }
}

fn method(d: u8) -> gb::DisposalMethod {
    use gb::DisposalMethod::*;
    match d {
        0 => NoAction,
        1 => Keep,
        2 => Background,
        3 => Previous,
        n => Reserved(n),
    }
}

fn apply(g: &mut gb::GraphicControl, s: Set) {
    match s {
        Set::Flags(f) => g.set_flags(f),
        Set::Disposal(d) => g.set_disposal_method(method(d)),
        Set::User(u) => g.set_user_input(u),
        Set::Transparent(t) => g.set_transparent_color(t),
        Set::Idx(i) => g.set_transparent_color_idx(i),
        Set::Delay(d) => g.set_delay_time_cs(d),
    }
}

/// Read everything back
fn reads(g: gb::GraphicControl, c: &Ctl) -> Check {
    let t = c.transp.then_some(c.idx);
    if g.flags() != c.flags()
        || g.disposal_method() != method(c.disposal)
        || g.user_input() != c.user
        || g.transparent_color() != t
        || g.transparent_color_idx() != c.idx
        || g.delay_time_cs() != c.delay
    {
        return Err(format!(
            "reads back as flags {:02x} {:?} user input {} transparent {:?} index {} delay {}, want {c:?}",
            g.flags(),
            g.disposal_method(),
            g.user_input(),
            g.transparent_color(),
            g.transparent_color_idx(),
            g.delay_time_cs()
        ));
    }
    Ok(())
}

/// Set, and set again, from one state
fn sets(ctx: &mut Ctx, c: Ctl, ops: &[Set]) -> Check {
    let mut g = mk_gce(c.flags(), c.delay, c.idx);
    let mut c = c;
    reads(g, &c)?;
    for (n, s) in ops.iter().enumerate() {
        ctx.steps(1);
        let old = c;
        c = c.set(*s);
        apply(&mut g, *s);
        reads(g, &c).map_err(|e| format!("{s:?} (call {n} of {ops:?}) on {old:?}: {e}"))?;
    }
    ctx.state(&c);
    Ok(())
}

/// All values of all setters (delays: corners)
fn all_sets() -> Vec<Set> {
    let mut v = vec![Set::User(false), Set::User(true), Set::Transparent(None)];
    for i in 0..=255 {
        v.push(Set::Flags(i));
        v.push(Set::Idx(i));
        v.push(Set::Transparent(Some(i)));
        v.push(Set::Disposal(i));
    }
    for k in 0..16 {
        v.push(Set::Delay(1 << k));
        v.push(Set::Delay(u16::MAX >> k));
    }
    v.push(Set::Delay(0));
    v
}

/// Few values of all setters
const FEW: &[Set] = &[
    Set::Flags(0),
    Set::Flags(0xFF),
    Set::Flags(0xA9),
    Set::Disposal(0),
    Set::Disposal(1),
    Set::Disposal(2),
    Set::Disposal(3),
    Set::Disposal(7),
    Set::User(false),
    Set::User(true),
    Set::Transparent(None),
    Set::Transparent(Some(0)),
    Set::Transparent(Some(0x55)),
    Set::Idx(0),
    Set::Idx(0xAA),
    Set::Delay(0),
    Set::Delay(0xFF),
    Set::Delay(0xFF00),
];

/// What a step can be told
const STEP: &[Set] = &[
    Set::Disposal(0),
    Set::Disposal(1),
    Set::Disposal(2),
    Set::Disposal(3),
    Set::Disposal(6),
    Set::Transparent(None),
    Set::Transparent(Some(0)),
    Set::Transparent(Some(3)),
    Set::Transparent(Some(255)),
    Set::Delay(0),
    Set::Delay(1),
    Set::Delay(256),
    Set::Delay(65535),
];

fn with(s: Step, op: Set, none: bool) -> Step {
    match op {
        Set::Disposal(d) => s.with_disposal_method(method(d)),
        Set::Transparent(t) => s.with_transparent_color(t),
        Set::Delay(0) if none => s.with_delay_time_cs(None),
        Set::Delay(d) => s.with_delay_time_cs(Some(d)),
        _ => s,
    }
}

fn tiny() -> Step {
    Step::with_indexed(raster8(1, 1, &[1]), gray_palette(2))
}

/// What the step encoder writes as control (default when it writes none)
fn writes(s: &Step) -> Result<(u8, u16, u8), String> {
    let mut o = vec![];
    let mut e = Encoder::new(&mut o).into_step_enc();
    e.encode_step(s).map_err(|e| format!("encoding fails: {e:?}"))?;
    drop(e);
    let g = group(&parse(&o, None));
    match &g.frames[..] {
        [f] => Ok(f.gce.unwrap_or((0, 0, 0))),
        _ => Err(format!("{} frames written", g.frames.len())),
    }
}

fn step_reads(s: &Step, c: &Ctl) -> Check {
    let t = c.transp.then_some(c.idx);
    if s.delay_time_cs().unwrap_or(0) != c.delay || s.transparent_color() != t {
        return Err(format!(
            "step reads back as delay {:?}, transparent {:?}, want {c:?}",
            s.delay_time_cs(),
            s.transparent_color()
        ));
    }
    Ok(())
}

/// Make a step, set, read back and write
fn step_sets(ctx: &mut Ctx, ops: &[Set], none: bool) -> Check {
    ctx.trace();
    let mut c = Ctl::new(0, 0, 0);
    let mut s = tiny();
    for op in ops {
        ctx.steps(1);
        s = with(s, *op, none);
        c = c.set(*op);
        step_reads(&s, &c).map_err(|e| format!("{op:?} of {ops:?}: {e}"))?;
    }
    ctx.state(&c);
    ctx.outcome(&c);
    for s in [&s, &s.clone()] {
        let w = writes(s)?;
        if w != c.triple() {
            return Err(format!("step set by {ops:?} is written as {w:?}, want {c:?}"));
        }
    }
    Ok(())
}

pub fn c20(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ns = all_sets().len() as u64;
    v.push(family(
        "setters",
        format!("all flag bytes, transparent indices 0, 5, 255, delays 0, 1, 0x1234, 65535, times {ns} setter calls (all values of each setter, delays by corners)"),
        256 * 12,
        {
            let all = all_sets();
            move |i, ctx| {
                let d = digits(i, &[256, 3, 4]);
                let c = Ctl::new(
                    d[0] as u8,
                    [0, 1, 0x1234, 65535][d[2] as usize],
                    [0, 5, 255][d[1] as usize],
                );
                for s in &all {
                    ctx.trace();
                    sets(ctx, c, &[*s])?;
                }
                Ok(())
            }
        },
    ));
    v.push(family(
        "delays",
        "all delays set on 16 states, and written",
        65536,
        |i, ctx| {
            for k in 0..16 {
                ctx.trace();
                let f = k * 17;
                let c = Ctl::new(f, !(i as u16), !f);
                sets(ctx, c, &[Set::Delay(i as u16)])?;
            }
            ctx.outcome(&i);
            Ok(())
        },
    ));
    let depth = tier.pick(5, 5);
    let corners: [(u8, u16, u8); 8] = [
        (0, 0, 0),
        (0xFF, 65535, 255),
        (0xE0, 0, 0),
        (0x1C, 1, 0),
        (0x02, 256, 1),
        (0x01, 0, 7),
        (0x00, 0, 9),
        (0xA5, 0x0F0F, 128),
    ];
    let n = FEW.len() as u64;
    v.push(family(
        "sequences",
        format!("all sequences of up to {depth} of {n} setter calls from 8 corner states"),
        seq_count(n, depth) * 8,
        move |i, ctx| {
            ctx.trace();
            let (f, dl, x) = corners[(i % 8) as usize];
            let ops: Vec<Set> = seq_of(i / 8, n).iter().map(|k| FEW[*k as usize]).collect();
            ctx.sample(|| format!("{ops:?}"));
            sets(ctx, Ctl::new(f, dl, x), &ops)
        },
    ));
    v.push(family(
        "written",
        format!("all sequences of up to 3 of {n} setter calls: block and frame encoders write the result, and it decodes to the same"),
        seq_count(n, 3) * 2,
        move |i, ctx| {
            ctx.trace();
            let ops: Vec<Set> = seq_of(i / 2, n).iter().map(|k| FEW[*k as usize]).collect();
            let (f, dl, x) = corners[(i % 2) as usize * 7];
            let mut c = Ctl::new(f, dl, x);
            let mut g = mk_gce(f, dl, x);
            for s in &ops {
                ctx.steps(1);
                apply(&mut g, *s);
                c = c.set(*s);
            }
            let mut o = vec![];
            let _ = Encoder::new(&mut o).into_block_enc().encode(g);
            let mut want = vec![];
            put(&mut want, &gce(c.flags(), c.delay, c.idx));
            if o != want {
                return Err(format!("set by {ops:?}, written as {}, want {}", hex(&o), hex(&want)));
            }
            let fr = gb::Frame::new(Some(g), desc(0, 0, 1, 1, 0), None, image_data(&[1]));
            let d: u8 = fr.disposal_method().into();
            if d != c.disposal || fr.transparent_color() != c.transp.then_some(c.idx) {
                return Err(format!("frame with {c:?}: disposal {d}, transparent {:?}", fr.transparent_color()));
            }
            let mut o = vec![];
            let mut e = Encoder::new(&mut o).into_frame_enc();
            let _ = e.encode_preamble(&gb::Preamble::default());
            let _ = e.encode_frame(&fr);
            let _ = e.encode_trailer();
            drop(e);
            for f in decoder(&o[..], None).into_frames() {
                let f = f.map_err(|e| format!("decoding fails: {e:?}"))?;
                let Some(g) = f.graphic_control_ext else {
                    return Err("control is lost".into());
                };
                reads(g, &c).map_err(|e| format!("decoded, after {ops:?}: {e}"))?;
            }
            ctx.outcome(&o);
            Ok(())
        },
    ));
    let ks = STEP.len() as u64;
    let depth = tier.pick(5, 6);
    v.push(family(
        "step-sequences",
        format!("all sequences of up to {depth} of {ks} step settings, read back after each and written; delay none or zero"),
        seq_count(ks, depth) * 2,
        move |i, ctx| {
            let ops: Vec<Set> = seq_of(i / 2, ks).iter().map(|k| STEP[*k as usize]).collect();
            ctx.sample(|| format!("{ops:?}"));
            step_sets(ctx, &ops, i % 2 == 1)
        },
    ));
    v.push(family(
        "step-values",
        "all delays; all transparent indices and disposals; in all six orders",
        (65536 + 256 * 8) * 6,
        |i, ctx| {
            let (k, o) = (i / 6, i % 6);
            let (d, t, p) = if k < 65536 {
                (k as u16, Some(k as u8 ^ 0x3C), (k % 4) as u8)
            } else {
                let k = k - 65536;
                (k as u16 + 1, Some((k / 8) as u8), (k % 8) as u8)
            };
            let (a, b, c) = (Set::Delay(d), Set::Transparent(t), Set::Disposal(p));
            let ops = [[a, b, c], [a, c, b], [b, a, c], [b, c, a], [c, a, b], [c, b, a]][o as usize];
            step_sets(ctx, &ops, false)
        },
    ));
    let depth = 3;
    v.push(family(
        "decoded-steps",
        format!("steps decoded from files with all control flags (or none), then all sequences of up to {depth} of {ks} settings, read back; raster untouched"),
        257 * seq_count(ks, depth),
        move |i, ctx| {
            ctx.trace();
            let k = i % 257;
            let mut bs = screen(1, 1, Some(0));
            let mut c = Ctl::new(0, 0, 0);
            if k < 256 {
                bs.push(gce(k as u8, 0x0203, 9));
                c = Ctl::new(k as u8, 0x0203, 9);
            }
            bs.extend(image(0, 0, 1, 1, vec![1]));
            bs.push(B::Trailer);
            let m = put_all(&bs);
            let Some(Ok(mut s)) = decoder(&m[..], None).into_steps().next() else {
                return Err("no step".into());
            };
            let before = s.raster().as_u8_slice().to_vec();
            step_reads(&s, &c)?;
            for (n, o) in seq_of(i / 257, ks).iter().enumerate() {
                ctx.steps(1);
                let op = STEP[*o as usize];
                s = with(s, op, false);
                c = c.set(op);
                step_reads(&s, &c).map_err(|e| format!("setting {n} {op:?} on flags {k:02x}: {e}"))?;
            }
            ctx.state(&c);
            if s.raster().as_u8_slice() != before {
                return Err("settings change the raster".into());
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C21

/// Smallest power of two from 2 to 256 which holds n
fn entries(n: u16) -> usize {
    let mut k = 2;
    while k < n as usize && k < 256 {
        k *= 2;
    }
    k
}

type Cfg = (bool, bool, u16);

fn config(c: Cfg) -> gb::ColorTableConfig {
    use gb::{ColorTableExistence::*, ColorTableOrdering::*};
    gb::ColorTableConfig::new(
        if c.0 { Present } else { Absent },
        if c.1 { Sorted } else { NotSorted },
        c.2,
    )
}

/// Compare a configuration with what was asked for
fn is_config(what: &str, g: gb::ColorTableConfig, c: Cfg) -> Check {
    use gb::{ColorTableExistence::*, ColorTableOrdering::*};
    let n = if c.0 { entries(c.2) } else { 0 };
    if g.len() != n
        || g.size_bytes() != 3 * n
        || g.is_empty() != (n == 0)
        || (g.existence() == Present) != c.0
        || (g.ordering() == Sorted) != c.1
    {
        return Err(format!("{what}: table of (present, sorted, entries) {c:?} is {g:?}"));
    }
    Ok(())
}

/// Bits for presence, order and size
fn bits(c: Cfg, sort: u8) -> u8 {
    let k = entries(c.2).trailing_zeros() as u8 - 1;
    (c.0 as u8) << 7 | if c.1 { sort } else { 0 } | k
}

/// Setter of a descriptor
#[derive(Clone, Copy, Debug)]
enum D {
    A(u16),
    B(u16),
    C(u16),
    D(u16),
    Inter(bool),
    Table(Cfg),
    Flags(u8),
}

/// Set an image descriptor from a state; compare everything
fn image_sets(ctx: &mut Ctx, flags: u8, ops: &[D]) -> Check {
    ctx.trace();
    let mut d = desc(1, 2, 3, 4, flags);
    let (mut l, mut t, mut w, mut h, mut f) = (1, 2, 3, 4, flags);
    for op in ops {
        ctx.steps(1);
        match *op {
            D::A(v) => (d, l) = (d.with_left(v), v),
            D::B(v) => (d, t) = (d.with_top(v), v),
            D::C(v) => (d, w) = (d.with_width(v), v),
            D::D(v) => (d, h) = (d.with_height(v), v),
            D::Inter(v) => (d, f) = (d.with_interlaced(v), f & !0x40 | (v as u8) << 6),
            D::Table(c) => (d, f) = (d.with_color_table_config(config(c)), f & 0x58 | bits(c, 0x20)),
            D::Flags(v) => (d, f) = (d.with_flags(v), v),
        }
    }
    ctx.state(&(l, t, w, h, f));
    ctx.outcome(&f);
    // the two reserved bits are nobody's setting
    let ok = d.flags() & !0x18 == f & !0x18
        && (d.left(), d.top(), d.width(), d.height()) == (l, t, w, h)
        && d.interlaced() == (f & 0x40 != 0);
    if !ok {
        return Err(format!("image descriptor of flags {flags:02x} after {ops:?} is {d:?}, want flags {f:02x}, {:?}", (l, t, w, h)));
    }
    let c = (f & 0x80 != 0, f & 0x20 != 0, 2 << (f & 7));
    is_config("image descriptor", d.color_table_config(), c)
}

/// The same for a screen descriptor
fn screen_sets(ctx: &mut Ctx, flags: u8, ops: &[D]) -> Check {
    ctx.trace();
    let mut d = lsd(1, 2, flags, 3, 4);
    let (mut w, mut h, mut bg, mut a, mut f) = (1, 2, 3, 4, flags);
    // color resolution is nobody's setting once a table was configured
    let mut mask = 0xFF;
    for op in ops {
        ctx.steps(1);
        match *op {
            D::A(v) => (d, w) = (d.with_screen_width(v), v),
            D::B(v) => (d, h) = (d.with_screen_height(v), v),
            D::C(v) => (d, bg) = (d.with_background_color_idx(v as u8), v as u8),
            D::D(v) => (d, a) = (d.with_pixel_aspect_ratio(v as u8), v as u8),
            D::Table(c) => {
                (d, f) = (d.with_color_table_config(config(c)), f & 0x70 | bits(c, 0x08));
                mask = 0x8F;
            }
            D::Flags(v) => {
                (d, f) = (d.with_flags(v), v);
                mask = 0xFF;
            }
            D::Inter(_) => (),
        }
    }
    ctx.state(&(w, h, bg, a, f));
    ctx.outcome(&f);
    let got = (d.screen_width(), d.screen_height(), d.background_color_idx(), d.pixel_aspect_ratio());
    if d.flags() & mask != f & mask || got != (w, h, bg, a) {
        return Err(format!("screen descriptor of flags {flags:02x} after {ops:?} is {d:?}, want flags {f:02x}, {:?}", (w, h, bg, a)));
    }
    if d.color_resolution() != 2 << ((d.flags() >> 4) & 7) {
        return Err(format!("flags {:02x}: color resolution {}", d.flags(), d.color_resolution()));
    }
    let c = (f & 0x80 != 0, f & 0x08 != 0, 2 << (f & 7));
    is_config("screen descriptor", d.color_table_config(), c)
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for k in 0..=p.len() {
            let mut q = p.clone();
            q.insert(k, n - 1);
            v.push(q);
        }
    }
    v
}

pub fn c21(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let cfg = |i: u64| -> Cfg { (i & 1 != 0, i & 2 != 0, (i >> 2) as u16) };
    v.push(family(
        "lengths",
        "all 65536 requested lengths, present or absent, sorted or not: configuration, both descriptors from 6 flag bytes, read back as equal configuration",
        65536 * 4,
        move |i, ctx| {
            let c = cfg(i);
            let g = config(c);
            is_config("configuration", g, c)?;
            for f in [0, 0xFF, 0x40, 0xA7, 0x18, 0x70] {
                let d = gb::ImageDesc::default().with_flags(f).with_color_table_config(g);
                let s = gb::LogicalScreenDesc::default().with_flags(f).with_color_table_config(g);
                if d.color_table_config() != g || s.color_table_config() != g {
                    return Err(format!(
                        "{g:?} on flags {f:02x} is read back as {:?} (image), {:?} (screen)",
                        d.color_table_config(),
                        s.color_table_config()
                    ));
                }
                image_sets(ctx, f, &[D::Table(c)])?;
                screen_sets(ctx, f, &[D::Table(c)])?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "flags",
        "all 256 flag bytes times each setter (geometry corners, interlacing, 8 table sizes times presence times order, all raw flags), both descriptors",
        256 * (4 * 6 + 2 + 32 + 256),
        move |i, ctx| {
            let f = i as u8;
            let k = i >> 8;
            let val = [0, 1, 255, 256, 32768, 65535][(k % 6) as usize];
            let op = match k {
                0..=5 => D::A(val),
                6..=11 => D::B(val),
                12..=17 => D::C(val),
                18..=23 => D::D(val),
                24 => D::Inter(false),
                25 => D::Inter(true),
                26..=57 => D::Table(((k - 26) & 1 != 0, (k - 26) & 2 != 0, 2 << ((k - 26) >> 2))),
                _ => D::Flags((k - 58) as u8),
            };
            image_sets(ctx, f, &[op])?;
            screen_sets(ctx, f, &[op])
        },
    ));
    v.push(family(
        "geometry",
        "all 65536 values of each geometry setter on 4 flag bytes, both descriptors",
        65536 * 4 * 4,
        |i, ctx| {
            let d = digits(i, &[65536, 4, 4]);
            let x = d[0] as u16;
            let op = [D::A(x), D::B(x), D::C(x), D::D(x)][d[1] as usize];
            let f = [0, 0xFF, 0x5A, 0xA5][d[2] as usize];
            image_sets(ctx, f, &[op])?;
            screen_sets(ctx, f, &[op])
        },
    ));
    let perms = permutations(6);
    v.push(family(
        "orders",
        "all 720 orders of six setters times interlacing times 8 sizes, presence and order, from 4 flag bytes",
        720 * 2 * 32 * 4,
        move |i, ctx| {
            let d = digits(i, &[2, 32, 4, 720]);
            let c = (d[1] & 1 != 0, d[1] & 2 != 0, 2 << (d[1] >> 2));
            let ops = [D::A(300), D::B(400), D::C(500), D::D(65535), D::Inter(d[0] == 1), D::Table(c)];
            let s: Vec<D> = perms[d[3] as usize].iter().map(|k| ops[*k]).collect();
            let f = [0, 0xFF, 0x40, 0x87][d[2] as usize];
            image_sets(ctx, f, &s)?;
            screen_sets(ctx, f, &s)
        },
    ));
    let few = [
        D::A(65535),
        D::B(256),
        D::C(255),
        D::D(1),
        D::Inter(false),
        D::Inter(true),
        D::Table((true, false, 2)),
        D::Table((true, true, 256)),
        D::Table((false, false, 16)),
        D::Table((false, true, 3)),
        D::Flags(0x67),
        D::Flags(0x98),
    ];
    let depth = tier.pick(5, 6);
    v.push(family(
        "sequences",
        format!("all sequences of up to {depth} of 12 setter calls, both descriptors"),
        seq_count(12, depth),
        move |i, ctx| {
            let s: Vec<D> = seq_of(i, 12).iter().map(|k| few[*k as usize]).collect();
            ctx.sample(|| format!("{s:?}"));
            image_sets(ctx, 0, &s)?;
            screen_sets(ctx, 0, &s)
        },
    ));
    v.push(family(
        "decoded",
        "all 65536 requested lengths, present or absent, sorted or not, for screen or image: a file written with that configuration and a table of that size decodes to exactly that table",
        65536 * 8,
        move |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            let c = cfg(i / 2);
            let g = config(c);
            let n = if c.0 { entries(c.2) } else { 0 };
            let none = config((false, false, 2));
            let (sc, ic) = if i % 2 == 0 { (g, none) } else { (none, g) };
            let mut o = vec![];
            let mut e = Encoder::new(&mut o).into_block_enc();
            let t = table(n, 33);
            let mut go = |b: gb::Block| e.encode(b).map_err(|e| format!("encoding fails: {e:?}"));
            go(gb::Header::default().into())?;
            go(lsd(1, 1, 0, 0, 0).with_color_table_config(sc).into())?;
            if n > 0 && i % 2 == 0 {
                go(gb::GlobalColorTable::with_colors(&t).into())?;
            }
            go(desc(0, 0, 1, 1, 0).with_interlaced(i % 3 == 0).with_color_table_config(ic).into())?;
            if n > 0 && i % 2 == 1 {
                go(gb::LocalColorTable::with_colors(&t).into())?;
            }
            go(image_data(&[1]).into())?;
            go(gb::Trailer::default().into())?;
            drop(e);
            let p = parse(&o, None);
            let mut k = 0;
            let mut have = 0;
            for b in decoder(&o[..], None).into_blocks() {
                let b = b.map_err(|e| format!("length {c:?}: decoding fails: {e:?}\n {}", short(&o)))?;
                match &b {
                    gb::Block::GlobalColorTable(x) if i % 2 == 0 && x.colors() == t => have = x.len(),
                    gb::Block::LocalColorTable(x) if i % 2 == 1 && x.colors() == t => have = x.len(),
                    gb::Block::GlobalColorTable(_) | gb::Block::LocalColorTable(_) => {
                        return Err(format!("length {c:?}: another table\n {}", short(&o)));
                    }
                    _ => (),
                }
                if p.blocks.get(k) != Some(&bk(&b)) {
                    return Err(format!("length {c:?}: block {k} is {b:?}\n {}", short(&o)));
                }
                k += 1;
            }
            if have != n || k != p.blocks.len() {
                return Err(format!("length {c:?}: {have} entries, {k} blocks\n {}", short(&o)));
            }
            ctx.outcome(&(n, i % 2));
            Ok(())
        },
    ));
    v.push(family(
        "raw-flags",
        "all pairs of screen and image flags: a decoder reads exactly the entries which the descriptors' configurations announce",
        65536,
        |i, ctx| {
            ctx.trace();
            ctx.steps(1);
            let (a, b) = (i as u8, (i >> 8) as u8);
            let (s, d) = (lsd(1, 1, a, 0, 0), desc(0, 0, 1, 1, b));
            let (x, y) = (s.color_table_config(), d.color_table_config());
            if x.size_bytes() != table_bytes(a) || y.size_bytes() != table_bytes(b) {
                return Err(format!("flags {a:02x} {b:02x} are {x:?}, {y:?}"));
            }
            let mut bs = vec![header(), B::Lsd { w: 1, h: 1, flags: a, bg: 0, aspect: 0 }];
            if table_bytes(a) > 0 {
                bs.push(B::Gct(table(table_bytes(a) / 3, b)));
            }
            bs.push(B::Desc { l: 0, t: 0, w: 1, h: 1, flags: b });
            if table_bytes(b) > 0 {
                bs.push(B::Lct(table(table_bytes(b) / 3, a)));
            }
            bs.push(B::Data(vec![0]));
            bs.push(B::Trailer);
            let m = put_all(&bs);
            ctx.outcome(&(a & 0x87, b & 0x87));
            same("blocks", &m, &obs_blocks(&m[..], None, 20), &bs, &None, false)
        },
    ));
    v
}
