//! C30: logging changes nothing
use super::more::copying;
use super::robust::{MUT, mutate};
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family};
use crate::refm::CodeWriter;
use log::{LevelFilter, Log, Metadata, Record};
use std::cell::Cell;
use std::fmt::Write as _;
use std::sync::{Arc, Once, RwLock};

/// How the logger behaves on this thread
#[derive(Clone, Copy, Debug, PartialEq)]
struct How {
    /// Most detailed level taken
    level: LevelFilter,
    /// Use the library inside of the logger
    nested: bool,
}

const OFF: How = How { level: LevelFilter::Off, nested: false };

thread_local! {
    static HOW: Cell<How> = const { Cell::new(OFF) };
    /// Does this thread run alone?
    static ALONE: Cell<bool> = const { Cell::new(false) };
    static RECORDS: Cell<u64> = const { Cell::new(0) };
}

/// Takes a bounded part of each message
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

struct Logger;
impl Log for Logger {
    fn enabled(&self, m: &Metadata) -> bool {
        m.level() <= HOW.get().level
    }
    fn log(&self, r: &Record) {
        let how = HOW.get();
        if r.level() > how.level {
            return;
        }
        RECORDS.set(RECORDS.get() + 1);
        let _ = write!(Sink(50_000), "{} {} {}", r.level(), r.target(), r.args());
        if how.nested {
            // what is logged by this is not of interest
            HOW.set(OFF);
            let f = small();
            let n = decoder(&f[..], None).into_steps().filter(|s| s.is_ok()).count();
            let mut o = vec![];
            let mut e = gift::Encoder::new(&mut o).into_block_enc();
            for b in decoder(&f[..], None).into_blocks().flatten() {
                let _ = e.encode(b);
            }
            drop(e);
            HOW.set(how);
            assert!(n == 2 && o == f, "use inside of the logger fails");
        }
    }
    fn flush(&self) {}
}

/// A file which the encoder writes the same
fn small() -> Vec<u8> {
    let mut b = screen(2, 2, Some(1));
    b.extend(image(0, 0, 2, 2, vec![0, 1, 2, 3]));
    b.push(gce(9, 1, 3));
    b.extend(image_lct((1, 0, 1, 2), 2, 50, 0, vec![3, 1]));
    b.push(B::Trailer);
    let mut o = vec![];
    let mut e = gift::Encoder::new(&mut o).into_block_enc();
    for b in &b {
        let _ = e.encode(to_block(b));
    }
    drop(e);
    o
}

/// The process has one most detailed level, which some cases change
static GATE: RwLock<()> = RwLock::new(());

const LEVELS: [LevelFilter; 6] = [
    LevelFilter::Off,
    LevelFilter::Error,
    LevelFilter::Warn,
    LevelFilter::Info,
    LevelFilter::Debug,
    LevelFilter::Trace,
];

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Logger);
        log::set_max_level(LevelFilter::Trace);
    });
}

/// Restores the logger of the thread even if the case panics
struct Quiet;
impl Drop for Quiet {
    fn drop(&mut self) {
        HOW.set(OFF);
        ALONE.set(false);
        log::set_max_level(LevelFilter::Trace);
    }
}

/// Run with a logger
fn logged(ctx: &mut Ctx, how: How, f: impl FnOnce(&mut Ctx) -> Check) -> Check {
    install();
    let _g = GATE.read().unwrap_or_else(|e| e.into_inner());
    let _q = Quiet;
    RECORDS.set(0);
    HOW.set(how);
    let r = f(ctx);
    ctx.state(&(how.level, how.nested, RECORDS.get().min(50)));
    r.map_err(|e| format!("with a logger of level {} (nested: {}): {e}", how.level, how.nested))
}

const NESTED: How = How { level: LevelFilter::Trace, nested: true };
const TRACE: How = How { level: LevelFilter::Trace, nested: false };
const WARN: How = How { level: LevelFilter::Warn, nested: false };

/// What all iterators give
fn seen(f: &[u8], lim: Lim) -> impl PartialEq {
    let max = f.len() + 8;
    (
        obs_blocks(f, lim, max),
        obs_frames(f, lim, max),
        obs_pre_frames(f, lim, max),
        obs_steps(f, lim, max),
    )
}

/// Reading a file
fn reading(ctx: &mut Ctx, f: &[u8], lim: Lim, lv: Lv) -> Check {
    let p = parse(f, lim_value(lim));
    if p.odd || p.loose {
        // left open by the model: compare with a run without logging
        let (how, level) = (HOW.replace(OFF), log::max_level());
        if ALONE.get() {
            log::set_max_level(LevelFilter::Off);
        }
        let want = seen(f, lim);
        HOW.set(how);
        log::set_max_level(level);
        for _ in 0..4 {
            ctx.trace();
        }
        if seen(f, lim) != want {
            return Err(format!("results differ\n input: {}", short(f)));
        }
    }
    check_parsed(ctx, f, lim, lv, &p)
}

/// Everything done with a file
fn all(ctx: &mut Ctx, f: &[u8]) -> Check {
    reading(ctx, f, None, ALL)?;
    copying(ctx, f)
}

/// Calls of the frame and step encoder, wrong ones too
fn encoding(k: u64) -> (Vec<bool>, Vec<u8>) {
    let f = &base_files()[k as usize % base_files().len()].1;
    let mut results = vec![];
    let mut o = vec![];
    {
        let mut e = gift::Encoder::new(&mut o).into_frame_enc();
        let mut it = decoder(&f[..], None).into_frames();
        results.push(e.encode_trailer().is_ok());
        if let Ok(Some(p)) = it.preamble() {
            results.push(e.encode_preamble(&p).is_ok());
            results.push(e.encode_preamble(&p).is_ok());
        }
        for f in it.flatten() {
            results.push(e.encode_frame(&f).is_ok());
        }
        results.push(e.encode_trailer().is_ok());
        results.push(e.encode_trailer().is_ok());
    }
    let mut e = gift::Encoder::new(&mut o).into_step_enc().with_loop_count(k as u16);
    for n in 0..5u8 {
        let mut pal = pix::Palette::new(4 + n as usize);
        for j in 0..3 + n {
            pal.set_entry(pix::rgb::SRgb8::new(j, 9 * (n / 2), k as u8));
        }
        // one of them of another size
        let w = 3 + (n == 3) as u32;
        let r = pix::Raster::with_u8_buffer(w, 2, vec![n % 3; 2 * w as usize]);
        let s = gift::Step::with_indexed(r, pal).with_delay_time_cs(Some(n.into()));
        results.push(e.encode_step(&s).is_ok());
    }
    drop(e);
    (results, o)
}

pub fn c30(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(special_parts(
        "special",
        "read and copied with loggers of all levels, and one which uses the library itself",
        7,
        |ctx, b, k| {
            let how = LEVELS.get(k).map_or(NESTED, |l| How { level: *l, nested: false });
            logged(ctx, how, |ctx| all(ctx, b))
        },
    ));
    let depth = tier.pick(3, 4);
    v.push(family(
        "sequences",
        format!("all files of up to {depth} of {ITEMS} block groups, with and without global table and trailer; levels off, warn, trace, and a logger which uses the library itself"),
        seq_count(ITEMS, depth) * 4 * 4,
        |i, ctx| {
            let d = digits(i, &[4, 4, u64::MAX]);
            let f = put_all(&seq_file(&seq_of(d[2], ITEMS), d[0] & 1 == 1, d[0] & 2 == 0));
            logged(ctx, [OFF, WARN, TRACE, NESTED][d[1] as usize], |ctx| all(ctx, &f))
        },
    ));
    for (name, b) in base_files() {
        if b.len() > 400 {
            continue;
        }
        let b = Arc::new(b);
        v.push(family(
            format!("mutate-{name}"),
            "every single-byte substitution, insertion, deletion, truncation, duplication; level trace (and warn for every 7th)",
            b.len() as u64 * MUT,
            move |i, ctx| {
                let m = mutate(&b, (i / MUT) as usize, i % MUT);
                logged(ctx, TRACE, |ctx| reading(ctx, &m, Some(Some(1 << 16)), NO_LOOP))?;
                if i % 7 == 0 {
                    logged(ctx, WARN, |ctx| reading(ctx, &m, Some(Some(1 << 16)), NO_LOOP))?;
                }
                Ok(())
            },
        ));
    }
    v.push(family(
        "image-data",
        "minimum code sizes 0..=255 and all 2-byte payloads of 8 code sizes; 0 to 60 pixels of data for 0 to 20 of the image, in sub-blocks of 1, 3, 255 bytes, with and without end code; levels warn and trace",
        (256 + 8 * 65536 / 16 + 61 * 21 * 3 * 2) * 2,
        |i, ctx| {
            let how = [WARN, TRACE][(i % 2) as usize];
            let i = i / 2;
            let lv = Lv { blocks: true, frames: true, steps: true, looping: false };
            if i < 256 {
                let m = raw_image(3, 2, 1, i as u8, &[0x44, 0x12, 0x05], 255, true);
                return logged(ctx, how, |ctx| reading(ctx, &m, None, lv));
            }
            let i = i - 256;
            if i < 8 * 4096 {
                for k in 0..16 {
                    let x = (i as u16 % 4096) * 16 + k;
                    let m = raw_image(3, 2, 1, (i / 4096) as u8 + 2, &x.to_le_bytes(), 255, true);
                    logged(ctx, how, |ctx| reading(ctx, &m, None, lv))?;
                }
                return Ok(());
            }
            let d = digits(i - 8 * 4096, &[61, 21, 3, 2]);
            let mut w = CodeWriter::new(2);
            for k in 0..d[0] {
                w.code(k as usize % 3);
            }
            if d[3] == 1 {
                let e = w.end_code();
                w.code(e);
            }
            let m = raw_image(d[1] as u16, 1, 1, 2, &w.finish(), [1, 3, 255][d[2] as usize], true);
            logged(ctx, how, |ctx| reading(ctx, &m, None, lv))
        },
    ));
    let n = base_files().len() as u64;
    let files: Arc<Vec<Vec<u8>>> = Arc::new(
        (base_files().into_iter().map(|(_, f)| f))
            .chain((0..20).map(|k| raw_image(3, 2, 1, k, &[0x44, 0x12, 0x05], 255, true)))
            .chain(special().iter().map(|(_, f)| f.clone()).filter(|f| f.len() < 1500))
            .collect(),
    );
    v.push(family(
        "process-level",
        "the most detailed level of the whole process set to each of the 6: base files, all special files of up to 1500 bytes and minimum code sizes 0..20, read and copied",
        files.len() as u64 * 6,
        move |i, ctx| {
            install();
            let _g = GATE.write().unwrap_or_else(|e| e.into_inner());
            let _q = Quiet;
            HOW.set(TRACE);
            ALONE.set(true);
            let level = LEVELS[(i % 6) as usize];
            log::set_max_level(level);
            ctx.state(&(i, level));
            all(ctx, &files[i as usize / 6]).map_err(|e| format!("process of level {level}: {e}"))
        },
    ));
    v.push(family(
        "encoding",
        "calls of the frame encoder (base files, with wrong calls) and the step encoder (5 palettes, one other size), all levels and a logger which uses the library itself",
        n * 7,
        |i, ctx| {
            let how = LEVELS.get(i as usize % 7).map_or(NESTED, |l| How { level: *l, nested: false });
            ctx.trace();
            let want = encoding(i / 7);
            logged(ctx, how, |ctx| {
                ctx.trace();
                ctx.steps(want.0.len());
                let got = encoding(i / 7);
                ctx.outcome(&got);
                if got != want {
                    return Err(format!(
                        "results {:?} and {}, without {:?} and {}",
                        got.0,
                        short(&got.1),
                        want.0,
                        short(&want.1)
                    ));
                }
                Ok(())
            })
        },
    ));
    v
}
