//! One module per group of properties
pub mod codec;
pub mod enc;
pub mod fault;
pub mod inter;
pub mod logging;
pub mod more;
pub mod robust;
pub mod setters;
pub mod steps;
pub mod stream;
pub mod taking;
pub mod cli;

use crate::drive::*;
use crate::engine::{Check, Ctx};
use crate::refm::*;

/// Which iterators to compare
#[derive(Clone, Copy)]
pub struct Lv {
    pub blocks: bool,
    pub frames: bool,
    pub steps: bool,
    pub looping: bool,
}

pub const ALL: Lv = Lv { blocks: true, frames: true, steps: true, looping: true };
pub const NO_LOOP: Lv =
    Lv { blocks: true, frames: true, steps: true, looping: false };

pub fn short(b: &[u8]) -> String {
    if b.len() <= 400 {
        hex(b)
    } else {
        format!("{}...({} bytes)", hex(&b[..400]), b.len())
    }
}

fn clipd<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() <= 1500 {
        s
    } else {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

/// Compare an observation with what is expected
pub fn same<T: PartialEq + std::fmt::Debug>(
    what: &str,
    bytes: &[u8],
    got: &Obs<T>,
    items: &[T],
    err: &Option<E>,
    loose: bool,
) -> Check {
    if got.items.len() != items.len() || got.items != items {
        let n = got
            .items
            .iter()
            .zip(items)
            .take_while(|(a, b)| a == b)
            .count();
        return Err(format!(
            "{what}: item {n} differs: got {} items, expected {}\n got: {}\n \
             want: {}\n got error {:?}, expected error {err:?}\n input: {}",
            got.items.len(),
            items.len(),
            clipd(&got.items.get(n)),
            clipd(&items.get(n)),
            got.err,
            short(bytes)
        ));
    }
    let ok = if loose {
        got.err.is_some() == err.is_some()
    } else {
        &got.err == err
    };
    if !ok {
        return Err(format!(
            "{what}: after {} items got error {:?}, expected {err:?}\n input: {}",
            items.len(),
            got.err,
            short(bytes)
        ));
    }
    if !got.ended {
        return Err(format!(
            "{what}: does not end with None after {} items, error {:?}\n input: {}",
            items.len(),
            got.err,
            short(bytes)
        ));
    }
    Ok(())
}

pub fn end_err(e: &End) -> Option<E> {
    match e {
        End::Trailer => None,
        End::Err(e) => Some(e.clone()),
    }
}

/// What the looping iterator must deliver (None: more than cap steps)
pub fn loop_passes(c: &Composed) -> Option<usize> {
    if c.err.is_some() {
        return Some(1);
    }
    match c.loops {
        None => Some(1),
        Some(0) => {
            if c.steps.is_empty() {
                Some(1)
            } else {
                None
            }
        }
        Some(n) => Some(n as usize + 1),
    }
}

/// Compare the looping iterator; looks at no more than `cap` steps
pub fn check_loop(
    ctx: &mut Ctx,
    bytes: &[u8],
    lim: Lim,
    c: &Composed,
    loose: bool,
    cap: usize,
) -> Check {
    ctx.trace();
    let total = loop_passes(c).map(|p| p.saturating_mul(c.steps.len()));
    let mut it = decoder(bytes, lim).into_iter();
    match total {
        Some(t) if t <= cap => {
            let got = drain(&mut it, t + 3, st);
            let mut want = vec![];
            for _ in 0..loop_passes(c).unwrap().min(t.max(1)) {
                want.extend(c.steps.iter().cloned());
            }
            ctx.steps(want.len());
            same("looping steps", bytes, &got, &want, &c.err, loose)
        }
        _ => {
            for i in 0..cap {
                let want = &c.steps[i % c.steps.len()];
                match it.next() {
                    Some(Ok(s)) => {
                        let s = st(&s);
                        if &s != want {
                            return Err(format!(
                                "looping step {i} differs: {s:?} want {want:?}"
                            ));
                        }
                    }
                    r => {
                        return Err(format!(
                            "looping iterator stops at step {i}: {:?}\n input: {}",
                            r.map(|r| r.map(|_| ()).map_err(|e| ek(&e))),
                            short(bytes)
                        ));
                    }
                }
            }
            ctx.steps(cap);
            Ok(())
        }
    }
}

/// Compare everything the implementation makes of `bytes` with the model.
pub fn check_file(ctx: &mut Ctx, bytes: &[u8], lim: Lim, lv: Lv) -> Check {
    let p = parse(bytes, lim_value(lim));
    check_parsed(ctx, bytes, lim, lv, &p)
}

pub fn check_parsed(
    ctx: &mut Ctx,
    bytes: &[u8],
    lim: Lim,
    lv: Lv,
    p: &Parsed,
) -> Check {
    if p.odd {
        return Ok(());
    }
    let max = bytes.len() + 8;
    ctx.outcome(&(&p.end, p.blocks.len()));
    ctx.say(|| format!("input: {}\nmodel: {}", hex(bytes), clipd(p)));
    if lv.blocks {
        ctx.trace();
        ctx.steps(p.blocks.len() + 1);
        let got = obs_blocks(bytes, lim, max);
        same("blocks", bytes, &got, &p.blocks, &end_err(&p.end), p.loose)?;
    }
    if !(lv.frames || lv.steps || lv.looping) {
        return Ok(());
    }
    let g = group(p);
    if lv.frames {
        ctx.trace();
        ctx.trace();
        ctx.steps(g.frames.len() * 2 + 2);
        let got = obs_frames(bytes, lim, max);
        same("frames", bytes, &got, &g.frames, &end_err(&g.end), p.loose)?;
        let (pr, got) = obs_pre_frames(bytes, lim, max);
        match (&pr, &g.preamble) {
            (Ok(Some(a)), Ok(b)) if a == b => {
                same(
                    "frames after preamble",
                    bytes,
                    &got,
                    &g.frames,
                    &end_err(&g.end),
                    p.loose,
                )?;
            }
            (Err(a), Err(b)) if a == b || p.loose => (),
            (a, b) => {
                return Err(format!(
                    "preamble differs: {}\n want {}\n input: {}",
                    clipd(a),
                    clipd(b),
                    short(bytes)
                ));
            }
        }
    }
    if !(lv.steps || lv.looping) {
        return Ok(());
    }
    let c = compose(&g, lim_value(lim), true);
    for cv in &c.canvas {
        ctx.state(cv);
    }
    if lv.steps {
        ctx.trace();
        ctx.steps(c.steps.len() + 1);
        let got = obs_steps(bytes, lim, max);
        same("steps", bytes, &got, &c.steps, &c.err, p.loose)?;
    }
    if lv.looping {
        check_loop(ctx, bytes, lim, &c, p.loose, 3 * c.steps.len() + 20)?;
    }
    Ok(())
}

/// Replace one base-k digit string by an index
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<u64> {
    radices
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}

/// Family over the special files, long ones first
pub fn special_family(
    name: &str,
    what: &str,
    f: impl Fn(&mut Ctx, &[u8]) -> Check + Send + Sync + 'static,
) -> crate::engine::Family {
    special_parts(name, what, 2, move |ctx, b, _| f(ctx, b))
}

/// The same, with the work on each file divided into parts, every other of
/// them without image size limit
pub fn special_parts(
    name: &str,
    what: &str,
    parts: usize,
    f: impl Fn(&mut Ctx, &[u8], usize) -> Check + Send + Sync + 'static,
) -> crate::engine::Family {
    use crate::corpus::{SPECIAL_TEXT, special};
    let n = special().len();
    let desc = format!("{what}: {n} {SPECIAL_TEXT}");
    crate::engine::family(name, desc, (n * parts) as u64, move |i, ctx| {
        let (name, b) = &special()[n - 1 - i as usize / parts];
        ctx.sample(|| name.clone());
        let part = i as usize % parts;
        crate::drive::set_unlimited(part % 2 == 1);
        let r = f(ctx, b, part).map_err(|e| format!("{name}: {e}"));
        crate::drive::set_unlimited(false);
        r
    })
}

/// Family over everything which may be around a frame
pub fn around_family(
    what: &str,
    f: impl Fn(&mut Ctx, &crate::corpus::Around) -> Check + Send + Sync + 'static,
) -> crate::engine::Family {
    use crate::corpus::{AROUND, AROUND_TEXT, Around};
    crate::engine::family("around", format!("{what}: {AROUND_TEXT}"), AROUND, move |i, ctx| {
        let a = Around::new(i);
        ctx.sample(|| format!("{a:?}"));
        ctx.state(&i);
        f(ctx, &a)
    })
}
