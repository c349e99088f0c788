//! Exploration engine: enumerates indexed families of cases exhaustively,
//! counts what was covered, and turns a failing case into a replayable file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

/// Allocator which accounts live bytes per thread and stops a case which asks
/// for an absurd amount (an endless decode loop fills memory first).
pub struct Acct;

/// Live bytes a single case may hold before it counts as a runaway
const CASE_CAP: usize = 1 << 30;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
    static CUR: Cell<(u32, u64)> = const { Cell::new((0, 0)) };
}

fn acct(delta: isize) {
    if ON.with(|o| o.get()) {
        let live = LIVE.with(|l| {
            l.set(l.get() + delta);
            l.get()
        });
        PEAK.with(|p| {
            if live > p.get() {
                p.set(live)
            }
        });
        if live > CAP.with(|c| c.get()) {
            ON.with(|o| o.set(false));
            let (f, i) = CUR.with(|c| c.get());
            report_and_exit(
                f as usize,
                i,
                "memory use is unbounded: the case holds more memory than any \
                 valid result needs",
            );
        }
    }
}

unsafe impl GlobalAlloc for Acct {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        acct(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        acct(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        acct(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        acct(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Run `f`, returning its result and the peak of bytes allocated during it.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let t = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (t, peak.max(0) as usize)
}

// ---------------------------------------------------------------- hashing

/// Hasher which passes a u64 through
#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type Set = HashSet<u64, BuildHasherDefault<Ident>>;

/// FNV-1a with a final mix
pub struct Fp(u64);
impl Fp {
    pub fn new() -> Self {
        Fp(0xcbf29ce484222325)
    }
}
impl Hasher for Fp {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fp::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- families

/// Depth of exploration
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub type Check = Result<(), String>;
type RunFn = Box<dyn Fn(u64, &mut Ctx) -> Check + Sync + Send>;

/// A finite, indexed space of cases, explored completely
pub struct Family {
    pub name: String,
    pub bound: String,
    pub count: u64,
    pub run: RunFn,
}

pub fn family(
    name: impl Into<String>,
    bound: impl Into<String>,
    count: u64,
    run: impl Fn(u64, &mut Ctx) -> Check + Sync + Send + 'static,
) -> Family {
    Family {
        name: name.into(),
        bound: bound.into(),
        count,
        run: Box::new(run),
    }
}

/// Counters of one worker
pub struct Ctx {
    pub traces: u64,
    pub transitions: u64,
    states: Set,
    outcomes: Set,
    sample: Option<String>,
    want_sample: bool,
    /// Print what the case does (replay)
    pub verbose: bool,
}

impl Ctx {
    fn new(verbose: bool) -> Self {
        Ctx {
            traces: 0,
            transitions: 0,
            states: Set::default(),
            outcomes: Set::default(),
            sample: None,
            want_sample: false,
            verbose,
        }
    }

    /// One complete execution of the implementation was compared
    pub fn trace(&mut self) {
        self.traces += 1;
    }

    /// Model transitions taken
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }

    /// A model state was visited
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(fp(t));
        if self.states.len() > 1 << 20 {
            self.flush();
        }
    }

    /// An observed outcome
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 1 << 20 {
            self.outcomes.insert(fp(t));
        }
    }

    /// Offer a sample description
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.sample = Some(f());
        }
    }

    pub fn say(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("{}", f());
        }
    }

    fn flush(&mut self) {
        for h in self.states.drain() {
            SHARDS[(h >> 58) as usize].lock().unwrap().insert(h);
        }
    }
}

static SHARDS: [Mutex<HashSet<u64, BuildHasherDefault<Ident>>>; 64] =
    [const { Mutex::new(HashSet::with_hasher(BuildHasherDefault::new())) }; 64];

// ---------------------------------------------------------------- globals

struct Global {
    prop: String,
    tier: Tier,
    evid: PathBuf,
    profile: String,
    child: bool,
    names: Vec<String>,
}

static GLOBAL: std::sync::OnceLock<Global> = std::sync::OnceLock::new();
static REPORTED: AtomicBool = AtomicBool::new(false);
static STOP: AtomicBool = AtomicBool::new(false);

const MAX_WORKERS: usize = 64;
static PROGRESS: [AtomicU64; MAX_WORKERS] =
    [const { AtomicU64::new(0) }; MAX_WORKERS];
static CASE_FAM: [AtomicU64; MAX_WORKERS] =
    [const { AtomicU64::new(0) }; MAX_WORKERS];
static CASE_IDX: [AtomicU64; MAX_WORKERS] =
    [const { AtomicU64::new(0) }; MAX_WORKERS];
static CLOCKS: [AtomicI32; MAX_WORKERS] =
    [const { AtomicI32::new(i32::MIN) }; MAX_WORKERS];

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
}

fn cpu_secs(id: i32) -> Option<f64> {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    let r = unsafe { clock_gettime(id, &mut ts) };
    (r == 0).then_some(ts.sec as f64 + ts.nsec as f64 * 1e-9)
}

/// CPU seconds one case may take before it counts as a hang.  The slowest
/// legitimate case takes well under two seconds.
const HANG_SECS: f64 = 25.0;

/// Tenths of a second a case may wait, hardly using the CPU, before it counts
/// as a hang.
const BLOCKED_TICKS: u32 = 900;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

fn write_replay(fam: usize, idx: u64, msg: &str) -> PathBuf {
    let g = GLOBAL.get().unwrap();
    let dir = g.evid.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", g.prop));
    let tier = g.tier.pick("quick", "thorough");
    let name = &g.names[fam];
    let txt = format!(
        "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"profile\": {},\n \"family\": {},\n \
         \"index\": {idx},\n \"what\": {},\n \"replay\": {}\n}}\n",
        json_str(&g.prop),
        json_str(&g.profile),
        json_str(name),
        json_str(&clip(msg, 20000)),
        json_str(&format!(
            "/verif/check.sh {} {tier} --only {name}:{idx}",
            g.prop
        )),
    );
    let _ = fs::write(&path, txt);
    path
}

/// Report a violation from wherever it is noticed and end the process.
fn report_and_exit(fam: usize, idx: u64, msg: &str) -> ! {
    if REPORTED.swap(true, SeqCst) {
        // another thread is reporting
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let g = GLOBAL.get().unwrap();
    let path = write_replay(fam, idx, msg);
    println!("{}: family {} case {idx}: {}", g.prop, g.names[fam], clip(msg, 2000));
    println!("VIOLATION property={} replay={}", g.prop, path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if g.child { CHILD + 1 } else { 1 });
}

/// A child adds this to its exit status, so that its end is told from that of
/// code which ends the process
pub const CHILD: i32 = 110;
const CHILD_LAST: i32 = CHILD + 2;

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run one case, turning a panic into a violation
fn run_case(fam: &Family, fi: usize, idx: u64, ctx: &mut Ctx) -> Check {
    CUR.with(|c| c.set((fi as u32, idx)));
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    ON.with(|o| o.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (fam.run)(idx, ctx)));
    ON.with(|o| o.set(false));
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_text(p))),
    }
}

// ---------------------------------------------------------------- options

pub struct Opts {
    pub prop: String,
    pub tier: Tier,
    pub evid: PathBuf,
    pub profile: String,
    pub child: bool,
    pub only: Option<(String, u64)>,
    pub seed: u64,
}

fn journal_path(o: &Opts) -> PathBuf {
    o.evid.join(format!(".journal-{}", o.prop))
}

/// Parent: run the exploration in a child, so that a crash of the code under
/// test (abort, stack overflow) is attributed to its case and confirmed.
pub fn supervise(o: &Opts, args: &[String]) -> i32 {
    let _ = fs::create_dir_all(&o.evid);
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(&exe).args(args).arg("--child").status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start explorer: {e}");
            return 2;
        }
    };
    if let Some(c @ CHILD..=CHILD_LAST) = st.code() {
        let _ = fs::remove_file(journal_path(o));
        return c - CHILD;
    }
    eprintln!("explorer: {st}; confirming the case");
    let j = fs::read(journal_path(o)).unwrap_or_default();
    let _ = fs::remove_file(journal_path(o));
    for slot in j.chunks_exact(24) {
        let g = |i: usize| {
            u64::from_le_bytes(slot[i * 8..i * 8 + 8].try_into().unwrap())
        };
        if g(0) == 0 {
            continue;
        }
        let (fam, idx) = (g(1), g(2));
        let mut a: Vec<String> = args.to_vec();
        a.push("--child".into());
        a.push("--only".into());
        a.push(format!("#{fam}:{idx}"));
        let Ok(s) = Command::new(&exe).args(&a).status() else {
            continue;
        };
        match (s.code(), s.signal()) {
            (Some(c @ CHILD..=CHILD_LAST), _) if c == CHILD + 1 => return 1,
            (Some(CHILD..=CHILD_LAST), _) => (),
            (Some(c), _) => {
                let msg = format!("the process is ended with status {c}");
                report_and_exit(fam as usize, idx, &msg);
            }
            (None, sig) => {
                let msg = format!(
                    "the process is killed by signal {} (abort or stack \
                     overflow), reproducibly",
                    sig.unwrap_or(0)
                );
                report_and_exit(fam as usize, idx, &msg);
            }
        }
    }
    eprintln!("explorer crashed and no single case reproduces it");
    2
}

pub fn init(o: &Opts, fams: &[Family]) {
    let _ = GLOBAL.set(Global {
        prop: o.prop.clone(),
        tier: o.tier,
        evid: o.evid.clone(),
        profile: o.profile.clone(),
        child: o.child,
        names: fams.iter().map(|f| f.name.clone()).collect(),
    });
}

/// Child: explore all families
pub fn explore(
    o: &Opts,
    fams: &[Family],
    assumptions: &[&str],
    rule: &str,
    level: &str,
) -> i32 {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|_| ()));
    if let Some((name, idx)) = &o.only {
        let fi = match name.strip_prefix('#') {
            Some(n) => n.parse().ok(),
            None => fams.iter().position(|f| &f.name == name),
        };
        let Some(fi) = fi else {
            eprintln!("no family {name}");
            return 2;
        };
        let mut ctx = Ctx::new(true);
        CAP.with(|c| c.set(CASE_CAP as isize));
        return match run_case(&fams[fi], fi, *idx, &mut ctx) {
            Ok(()) => {
                println!("{}: {name}:{idx} holds", o.prop);
                0
            }
            Err(m) => report_and_exit(fi, *idx, &m),
        };
    }
    let nw = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16);
    let journal = fs::File::options()
        .create(true)
        .write(true)
        .truncate(true)
        .open(journal_path(o));
    let journal = match journal {
        Ok(j) => j,
        Err(e) => {
            eprintln!("cannot write journal: {e}");
            return 2;
        }
    };
    // (family, start, end) chunks
    let mut chunks = vec![];
    for (fi, f) in fams.iter().enumerate() {
        let sz = (f.count / (nw as u64 * 32)).clamp(1, 4096);
        let mut s = 0;
        while s < f.count {
            let e = (s + sz).min(f.count);
            chunks.push((fi, s, e));
            s = e;
        }
    }
    let next = AtomicU64::new(0);
    let worst: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let done: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let finished = AtomicBool::new(false);
    let fam_done: Vec<AtomicU64> =
        fams.iter().map(|_| AtomicU64::new(0)).collect();
    let fam_ns: Vec<AtomicU64> =
        fams.iter().map(|_| AtomicU64::new(0)).collect();
    let samples: Mutex<Vec<Option<String>>> =
        Mutex::new(vec![None; fams.len()]);
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut last = [(u64::MAX, 0.0f64); MAX_WORKERS];
            let mut ticks = [0u32; MAX_WORKERS];
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for w in 0..nw {
                    let id = CLOCKS[w].load(SeqCst);
                    if id == i32::MIN {
                        continue;
                    }
                    let p = PROGRESS[w].load(SeqCst);
                    let Some(t) = cpu_secs(id) else { continue };
                    ticks[w] += 1;
                    if p != last[w].0 {
                        last[w] = (p, t);
                        ticks[w] = 0;
                    } else if ticks[w] > BLOCKED_TICKS && t - last[w].1 < 1.0 {
                        report_and_exit(
                            CASE_FAM[w].load(SeqCst) as usize,
                            CASE_IDX[w].load(SeqCst),
                            "does not terminate (waits for ever)",
                        );
                    } else if t - last[w].1 > HANG_SECS {
                        report_and_exit(
                            CASE_FAM[w].load(SeqCst) as usize,
                            CASE_IDX[w].load(SeqCst),
                            &format!("does not terminate (over {HANG_SECS} CPU seconds)"),
                        );
                    }
                }
            }
        });
        let mut hs = vec![];
        for w in 0..nw {
            let (next, worst, done, chunks, journal) =
                (&next, &worst, &done, &chunks, &journal);
            let (fam_done, samples, fam_ns) = (&fam_done, &samples, &fam_ns);
            let b = std::thread::Builder::new().stack_size(16 << 20);
            hs.push(b.spawn_scoped(s, move || {
                let mut id = 0;
                unsafe {
                    if pthread_getcpuclockid(pthread_self(), &mut id) == 0 {
                        CLOCKS[w].store(id, SeqCst);
                    }
                }
                CAP.with(|c| c.set(CASE_CAP as isize));
                let mut ctx = Ctx::new(false);
                let mut rec = [0u8; 24];
                'outer: loop {
                    let c = next.fetch_add(1, SeqCst) as usize;
                    if c >= chunks.len() || STOP.load(SeqCst) {
                        break;
                    }
                    let (fi, s, e) = chunks[c];
                    let t0 = Instant::now();
                    CASE_FAM[w].store(fi as u64, SeqCst);
                    // sample from the middle of the family
                    let mid = fams[fi].count / 2;
                    for idx in s..e {
                        CASE_IDX[w].store(idx, SeqCst);
                        PROGRESS[w].fetch_add(1, SeqCst);
                        rec[0] = 1;
                        rec[8..16].copy_from_slice(&(fi as u64).to_le_bytes());
                        rec[16..].copy_from_slice(&idx.to_le_bytes());
                        let _ = journal.write_at(&rec, w as u64 * 24);
                        ctx.want_sample = idx == mid;
                        let r = run_case(&fams[fi], fi, idx, &mut ctx);
                        if let Some(sm) = ctx.sample.take() {
                            samples.lock().unwrap()[fi] = Some(sm);
                        }
                        if let Err(m) = r {
                            STOP.store(true, SeqCst);
                            let mut g = worst.lock().unwrap();
                            if g.as_ref().is_none_or(|b| (b.0, b.1) > (fi, idx)) {
                                *g = Some((fi, idx, m));
                            }
                            break 'outer;
                        }
                        fam_done[fi].fetch_add(1, Relaxed);
                    }
                    fam_ns[fi]
                        .fetch_add(t0.elapsed().as_nanos() as u64, Relaxed);
                }
                let _ = journal.write_at(&[0; 24], w as u64 * 24);
                CLOCKS[w].store(i32::MIN, SeqCst);
                ctx.flush();
                done.lock().unwrap().push(ctx);
            }));
        }
        for h in hs {
            let _ = h.unwrap().join();
        }
        finished.store(true, SeqCst);
    });
    let wall = start.elapsed().as_secs_f64();
    let ctxs = done.into_inner().unwrap();
    let traces: u64 = ctxs.iter().map(|c| c.traces).sum();
    let trans: u64 = ctxs.iter().map(|c| c.transitions).sum();
    let states: usize = SHARDS.iter().map(|s| s.lock().unwrap().len()).sum();
    let mut outs = Set::default();
    for c in &ctxs {
        outs.extend(c.outcomes.iter());
    }
    let worst = worst.into_inner().unwrap();
    let samples = samples.into_inner().unwrap();
    let complete = fams
        .iter()
        .zip(&fam_done)
        .all(|(f, d)| f.count == d.load(SeqCst));
    let mut fam_js = vec![];
    for (i, f) in fams.iter().enumerate() {
        fam_js.push(format!(
            "{{\"family\": {}, \"bound\": {}, \"cases\": {}, \"explored\": {}, \"cpu_s\": {:.2}}}",
            json_str(&f.name),
            json_str(&f.bound),
            f.count,
            fam_done[i].load(SeqCst),
            fam_ns[i].load(SeqCst) as f64 * 1e-9
        ));
    }
    let mut sm: Vec<String> = samples
        .iter()
        .zip(fams)
        .filter_map(|(s, f)| {
            s.as_ref().map(|s| {
                json_str(&clip(&format!("{}: {}", f.name, s), 700))
            })
        })
        .collect();
    if sm.is_empty() {
        sm.push(json_str("none reached"));
    }
    let cover = match level {
        "fault_enumeration" => format!(
            "\"evaluations\": {traces}, \"distinct_nontrivial\": {}, \"rule\": {}, \"model_states\": {states}, \"model_transitions\": {trans}",
            outs.len(),
            json_str(rule)
        ),
        _ => format!(
            "\"states\": {states}, \"transitions\": {trans}, \
             \"traces_validated_against_impl\": {traces}, \"distinct_outcomes\": {}, \"rule\": {}",
            outs.len(),
            json_str(rule)
        ),
    };
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"{level}\",\n \
         \"coverage\": {{{cover}, \"exhaustive\": {complete}, \"build_profile\": {},\n  \
         \"families\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]}},\n \
         \"assumptions\": [{}],\n \"wall_s\": {wall:.2}, \"violations\": {}\n}}\n",
        json_str(&o.prop),
        o.tier.pick("quick", "thorough"),
        o.seed,
        json_str(&o.profile),
        fam_js.join(",\n   "),
        sm.join(",\n   "),
        assumptions
            .iter()
            .map(|a| json_str(a))
            .collect::<Vec<_>>()
            .join(", "),
        worst.is_some() as u32
    );
    if let Err(e) = write_evidence(&o.evid, &o.prop, &ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{} [{}]: {} families, {traces} traces on the implementation, {states} \
         model states, {trans} transitions, {} outcomes, {wall:.1} s",
        o.prop,
        o.profile,
        fams.len(),
        outs.len()
    );
    if let Some((fi, idx, m)) = worst {
        report_and_exit(fi, idx, &m);
    }
    if !complete {
        eprintln!("exploration incomplete");
        return 2;
    }
    0
}

fn write_evidence(dir: &Path, prop: &str, txt: &str) -> std::io::Result<()> {
    fs::create_dir_all(dir)?;
    fs::write(dir.join(format!("{prop}.json")), txt)
}
