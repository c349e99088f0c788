//! C31: items are the same however they are taken
use super::stream::streams;
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use std::fmt::Debug;
use std::sync::Arc;

/// Ways to take some items
const WAYS: u64 = 10;
/// Ways to take all the rest
const ENDS: u64 = 9;
/// Calls recorded of an iterator which does not end
const CALLS: usize = 120;

/// What a sequence of next() calls gives
#[derive(Clone)]
struct Record<U> {
    calls: Vec<Option<Result<U, E>>>,
    /// None was seen
    ends: bool,
}

/// Items as recorded
struct Model<'a, U> {
    rec: &'a Record<U>,
    pos: usize,
    /// More was asked for than was recorded
    over: bool,
}

impl<U: Clone> Iterator for Model<'_, U> {
    type Item = Result<U, E>;
    fn next(&mut self) -> Option<Self::Item> {
        let r = self.rec.calls.get(self.pos).cloned();
        self.pos += 1;
        self.over |= r.is_none();
        r.flatten()
    }
}

fn record<I, T, U>(mut it: I, f: fn(&T) -> U, after: usize) -> Record<U>
where
    I: Iterator<Item = gift::Result<T>>,
{
    let mut r = Record { calls: vec![], ends: false };
    let mut rest = CALLS;
    while rest > 0 {
        let n = it.next().map(|r| r.as_ref().map(f).map_err(ek));
        if n.is_none() && !r.ends {
            r.ends = true;
            rest = after + 1;
        }
        r.calls.push(n);
        rest -= 1;
        if r.calls.len() > 5000 {
            break;
        }
    }
    r
}

/// Take items from a real iterator and from the recorded ones
fn take<I, T, U>(it: I, rec: &Record<U>, f: fn(&T) -> U, ways: &[u64], end: u64) -> Check
where
    I: Iterator<Item = gift::Result<T>>,
    U: Clone + Debug + PartialEq,
{
    let mut it = it;
    let mut m = Model { rec, pos: 0, over: false };
    let map = |r: gift::Result<T>| r.as_ref().map(f).map_err(ek);
    let bad = |what: &str, a: String, b: String| {
        Err(format!("{what} after ways {ways:?} gives {}, next() alone {}", clipd(&a), clipd(&b)))
    };
    for (n, way) in ways.iter().enumerate() {
        // the number of items left must be within the bounds
        let left = rec.calls.iter().skip(m.pos).position(|r| r.is_none());
        let (lo, hi) = it.size_hint();
        if left.is_some_and(|k| k < lo || hi.is_some_and(|h| h < k)) || (!rec.ends && hi.is_some_and(|h| h < CALLS - m.pos.min(CALLS))) {
            return bad("size_hint()", format!("{lo}, {hi:?}"), format!("{left:?}"));
        }
        let (a, b): (Vec<_>, Vec<_>) = match *way {
            0 => (it.next().map(map).into_iter().collect(), m.next().into_iter().collect()),
            k @ 1..=4 => {
                // as the standard library defines it: up to the first None
                let k = [0, 1, 2, 9][k as usize - 1];
                let a = it.nth(k).map(map).into_iter().collect();
                let mut b = m.next();
                for _ in 0..k {
                    if b.is_none() {
                        break;
                    }
                    b = m.next();
                }
                (a, b.into_iter().collect())
            }
            5 => (it.by_ref().take(2).map(map).collect(), m.by_ref().take(2).collect()),
            6 => (it.by_ref().skip(1).next().map(map).into_iter().collect(), m.by_ref().skip(1).next().into_iter().collect()),
            7 => (it.by_ref().step_by(2).take(2).map(map).collect(), m.by_ref().step_by(2).take(2).collect()),
            8 => {
                let a = it.by_ref().position(|r| r.is_ok());
                let b = m.by_ref().position(|r| r.is_ok());
                if a != b && !m.over {
                    return bad(&format!("position() as way {n}"), format!("{a:?}"), format!("{b:?}"));
                }
                (vec![], vec![])
            }
            _ => (it.by_ref().take_while(|r| r.is_err()).map(map).collect(), m.by_ref().take_while(|r| r.is_err()).collect()),
        };
        if m.over {
            return Ok(());
        }
        if a != b {
            return bad(&format!("way {n}"), format!("{a:?}"), format!("{b:?}"));
        }
    }
    if !rec.ends {
        return Ok(());
    }
    let (a, b) = match end {
        0 => return Ok(()),
        1 => (format!("{}", it.count()), format!("{}", m.by_ref().count())),
        2 => (format!("{:?}", it.last().map(map)), format!("{:?}", m.by_ref().last())),
        3 => (format!("{:?}", it.map(map).collect::<Vec<_>>()), format!("{:?}", m.by_ref().collect::<Vec<_>>())),
        4 => {
            let (mut a, mut b) = (vec![], vec![]);
            it.for_each(|r| a.push(map(r)));
            m.by_ref().for_each(|r| b.push(r));
            (format!("{a:?}"), format!("{b:?}"))
        }
        5 => (
            format!("{:?}", it.fold(0u64, |n, r| (n * 3 + 1 + r.is_ok() as u64) % 1_000_003)),
            format!("{:?}", m.by_ref().fold(0u64, |n, r| (n * 3 + 1 + r.is_ok() as u64) % 1_000_003)),
        ),
        6 => (
            format!("{:?}", it.map(map).collect::<Result<Vec<_>, _>>()),
            format!("{:?}", m.by_ref().collect::<Result<Vec<_>, _>>()),
        ),
        7 => (
            format!("{:?}", it.map(map).find(|r| r.is_err())),
            format!("{:?}", m.by_ref().find(|r| r.is_err())),
        ),
        _ => (
            format!("{:?}", it.map(map).reduce(|a, b| if a.is_err() { a } else { b })),
            format!("{:?}", m.by_ref().reduce(|a, b| if a.is_err() { a } else { b })),
        ),
    };
    if !m.over && a != b {
        return bad(&format!("taking the rest in way {end}"), a, b);
    }
    Ok(())
}

/// All ways to take items from each kind of iterator
fn all_ways(ctx: &mut Ctx, b: &[u8], depth: u32) -> Check {
    let n = seq_count(WAYS, depth);
    macro_rules! each {
        ($what:literal, $make:expr, $f:expr, $after:expr) => {{
            let rec = record($make, $f, $after);
            ctx.outcome(&($what, rec.calls.len(), rec.ends));
            ctx.state(&($what, b));
            for i in 0..n {
                let ways = seq_of(i, WAYS);
                for end in 0..if rec.ends { ENDS } else { 1 } {
                    ctx.trace();
                    ctx.steps(ways.len() + 1);
                    take($make, &rec, $f, &ways, end)
                        .map_err(|e| format!("{}: {e}\n input: {}", $what, short(b)))?;
                }
            }
        }};
    }
    each!("blocks", decoder(b, None).into_blocks(), bk, 30);
    each!("frames", decoder(b, None).into_frames(), fr, 30);
    let asked = || {
        let mut it = decoder(b, None).into_frames();
        let _ = it.preamble();
        it
    };
    each!("frames after the preamble", asked(), fr, 30);
    each!("steps", decoder(b, None).into_steps(), st, 30);
    each!("looping steps", decoder(b, None).into_iter(), st, 30);
    Ok(())
}

pub fn c31(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut files: Vec<Vec<u8>> = streams(1);
    // with loop counts, faults, one after another, cut
    for n in [0, 1, 2, 7] {
        for k in 0..4u16 {
            let mut bs = screen(2, 1, Some(2));
            bs.push(loop_ext(n));
            for k in 0..k {
                bs.push(gce(0x04, k, 7));
                bs.extend(image(k % 2, 0, 1, 1, vec![k as u8]));
            }
            bs.push(B::Trailer);
            files.push(put_all(&bs));
            bs.pop();
            bs.extend(image(2, 0, 1, 1, vec![0]));
            bs.extend(image(0, 0, 1, 1, vec![0]));
            bs.push(B::Trailer);
            files.push(put_all(&bs));
        }
    }
    for k in 0..8 {
        files.push([&files[k][..], &files[(k * 5 + 3) % 20]].concat());
        files.push([&files[k + 8][..], &files[k + 8][..40.min(files[k + 8].len() - 1)]].concat());
        let cut = files[k].len() - 1 - k;
        files.push(files[k][..cut].to_vec());
    }
    let depth = tier.pick(3, 4);
    let n = files.len() as u64;
    let files = Arc::new(files);
    v.push(family(
        "ways",
        format!("{n} streams (all kinds of blocks, loop counts, faults, several GIFs, cut), every kind of iterator: all sequences of up to {depth} of {WAYS} ways to take items (next, nth, take, skip, step_by, position, take_while), then the rest in {ENDS} ways (not, count, last, collect, for_each, fold, collect of results, find, reduce); size_hint before each"),
        n,
        {
            let files = files.clone();
            move |i, ctx| {
                let b = &files[i as usize];
                ctx.sample(|| short(b));
                all_ways(ctx, b, depth)
            }
        },
    ));
    let depth = tier.pick(4, 5);
    v.push(family(
        "sequences",
        format!("all sequences of up to {depth} of {ITEMS} block groups, each taken in one or two of the ways"),
        seq_count(ITEMS, depth),
        |i, ctx| {
            let bs = seq_file(&seq_of(i, ITEMS), i % 3 != 2, i % 5 != 4);
            all_ways(ctx, &put_all(&bs), 1)
        },
    ));
    v.push(family(
        "far",
        "looping iterators with 65 loop counts and 1, 2, 3, 5 steps: nth() of every position around each pass and of the last one, count, last",
        65 * 4,
        |i, ctx| {
            let d = digits(i, &[65, 4]);
            let n = match d[0] {
                k @ 0..=40 => k as u16,
                k => [50, 64, 99, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 9999, 10_000, 32_767, 32_768, 65_535][k as usize - 41],
            };
            let k = [1u16, 2, 3, 5][d[1] as usize];
            let mut bs = screen(2, 1, Some(2));
            bs.push(loop_ext(n));
            for k in 0..k {
                bs.push(gce(0x04, k, 7));
                bs.extend(image(k % 2, 0, 1, 1, vec![k as u8]));
            }
            bs.push(B::Trailer);
            let b = put_all(&bs);
            let total = (n > 0).then_some((n as usize + 1) * k as usize);
            let make = || decoder(&b[..], None).into_iter();
            ctx.state(&(n, k));
            let mut at: Vec<usize> = (0..3 * k as usize + 2).collect();
            let last = total.unwrap_or(150_000);
            at.extend((1..9).map(|e| last * e / 9));
            at.extend(last.saturating_sub(k as usize + 2)..last + 3);
            for p in at {
                ctx.trace();
                ctx.steps(1);
                let mut it = make();
                let a = it.nth(p).and_then(|s| s.ok()).and_then(|s| s.delay_time_cs());
                let next = it.next().and_then(|s| s.ok()).and_then(|s| s.delay_time_cs());
                let want = |p: usize| total.is_none_or(|t| p < t).then_some((p % k as usize) as u16);
                // the first step has no control, as its delay is zero and nothing else is set
                let norm = |p: usize, got: Option<u16>| want(p).map(|w| if w == 0 { got.unwrap_or(0) } else { got.unwrap_or(u16::MAX) });
                let ok = |p: usize, got: Option<u16>| match want(p) {
                    None => got.is_none(),
                    w => norm(p, got) == w,
                };
                ctx.outcome(&a);
                if !ok(p, a) || !ok(p + 1, next) {
                    return Err(format!("loop count {n}, {k} steps: nth({p}) has delay {a:?}, the next one {next:?}"));
                }
            }
            if let Some(t) = total {
                let c = make().count();
                let l = make().last().and_then(|s| s.ok()).and_then(|s| s.delay_time_cs()).unwrap_or(0);
                if c != t || l != k - 1 {
                    return Err(format!("loop count {n}, {k} steps: count() gives {c}, last() delay {l}"));
                }
            }
            Ok(())
        },
    ));
    v.push(special_family("special", "one of the ways", |ctx, b| {
        if b.len() > 4_000 {
            return Ok(());
        }
        all_ways(ctx, b, 1)
    }));
    v.push(family(
        "around",
        format!("one of the ways, every 19th of: {AROUND_TEXT}"),
        AROUND / 19,
        |i, ctx| {
            let a = Around::new(i * 19);
            if a.small() {
                all_ways(ctx, &a.file(), 1)?;
            }
            Ok(())
        },
    ));
    v
}
