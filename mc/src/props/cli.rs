//! C23: the gift command
use super::*;
use crate::corpus::*;
use crate::engine::{Family, Tier, family, fp};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn binary() -> PathBuf {
    std::env::var_os("GIFT_BIN").expect("GIFT_BIN is not set").into()
}

/// Scratch directory, removed when done
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let up = binary().parent().and_then(Path::parent).unwrap().to_path_buf();
        let d = up.join(format!("scratch-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A file given to the command
#[derive(Clone)]
enum Given {
    Bytes(Vec<u8>),
    Missing,
    Dir,
}

/// Remove escape sequences
fn bare(s: &[u8]) -> String {
    let mut o = vec![];
    let mut k = 0;
    while k < s.len() {
        if s[k] == 0x1B && s.get(k + 1) == Some(&b'[') {
            k += 2;
            while k < s.len() && !s[k].is_ascii_alphabetic() {
                k += 1;
            }
            k += 1;
        } else {
            o.push(s[k]);
            k += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

/// Split in words; a mark glued to the number becomes a word of its own
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    for l in s.lines() {
        let mut w: Vec<&str> = l.split_whitespace().collect();
        // a frame: number, delay, disposal, size, position, colors, index
        let sized = w.iter().any(|x| x.contains('x')) && w.iter().any(|x| x.contains(','));
        if sized && w.len() >= 7 && w[0].len() > 1 && w[0].starts_with('i') {
            v.push("i".to_string());
            w[0] = &w[0][1..];
        }
        v.extend(w.iter().map(|s| s.to_string()));
    }
    v
}

/// What is to be listed for a file, if it can be decoded
fn listing(path: &str, bytes: &[u8]) -> Option<Vec<String>> {
    let g = group(&parse(bytes, Some(DEFAULT_LIMIT)));
    let (Ok(p), End::Trailer) = (&g.preamble, &g.end) else {
        return None;
    };
    let mut s = format!("{path:?}\nGIF{}, frames: {}", String::from_utf8_lossy(&p.version), g.frames.len());
    if let Some(n) = p.loop_ext.as_ref().and_then(|l| loop_count(l)) {
        s += &match n {
            0 => ", repeat: ∞".to_string(),
            n => format!(", repeat: {n}"),
        };
    }
    for c in p.comments.iter().flatten() {
        for l in String::from_utf8_lossy(c).split('\n') {
            if !l.trim().is_empty() {
                s += &format!(" # {}", l.trim());
            }
        }
    }
    s += "\nFr# Delay Disp Size X,Y Clrs Trn\n";
    let entries = |f: u8| if f & 0x80 != 0 { 2u32 << (f & 7) } else { 0 };
    for (n, f) in g.frames.iter().enumerate() {
        let i = if f.flags & 0x40 != 0 { "i" } else { "" };
        let (fl, delay, t) = f.gce.unwrap_or((0, 0, 0));
        let disp = match (f.gce, fl >> 2 & 7) {
            (None, _) => "-",
            (_, 0) => "none",
            (_, 1) => "keep",
            (_, 2) => "bg",
            (_, 3) => "prev",
            _ => "res",
        };
        let clr = match entries(f.flags) {
            0 => format!("{}g", entries(p.flags)),
            n => format!("{n}"),
        };
        let tc = if fl & 1 != 0 { t.to_string() } else { "-".into() };
        s += &format!(
            "{i}{n} {}.{:02} {disp} {}x{} {},{} {clr} {tc}\n",
            delay / 100,
            delay % 100,
            f.w,
            f.h,
            f.l,
            f.t
        );
    }
    Some(words(&s))
}

/// Run the command on files and compare
fn run(ctx: &mut Ctx, files: &[(&str, Given)]) -> Check {
    run_env(ctx, files, &[])
}

/// Same, with environment variables
fn run_env(ctx: &mut Ctx, files: &[(&str, Given)], env: &[(&str, &str)]) -> Check {
    ctx.trace();
    ctx.steps(files.len());
    let dir = Scratch::new();
    let mut want: Vec<Option<Vec<String>>> = vec![];
    for (name, g) in files {
        let path = dir.0.join(name);
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        match g {
            Given::Bytes(b) => {
                std::fs::write(&path, b).expect("scratch file");
                want.push(listing(name, b));
            }
            Given::Missing => want.push(None),
            Given::Dir => {
                let _ = std::fs::create_dir(&path);
                want.push(None);
            }
        }
    }
    let (so, se) = (dir.0.join(".out"), dir.0.join(".err"));
    let mut child = Command::new(binary())
        .args(files.iter().map(|f| f.0))
        .current_dir(&dir.0)
        .env_remove("RUST_LOG")
        .envs(env.iter().copied())
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).expect("scratch file"))
        .stderr(std::fs::File::create(&se).expect("scratch file"))
        .spawn()
        .expect("gift command");
    let start = Instant::now();
    let mut nap = 200;
    let status = loop {
        match child.try_wait().expect("gift command") {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("the command does not end within 60 seconds".into());
            }
            None => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(10_000);
            }
        }
    };
    let out = std::fs::read(&so).expect("scratch file");
    let got = words(&bare(&out));
    let first_bad = want.iter().position(|w| w.is_none());
    let pre: Vec<String> = want[..first_bad.unwrap_or(want.len())].iter().flatten().flatten().cloned().collect();
    // whether the command goes on after a bad file is left open
    let all: Vec<String> = want.iter().flatten().flatten().cloned().collect();
    ctx.state(&want.iter().map(|w| w.is_some()).collect::<Vec<_>>());
    ctx.outcome(&(status.code(), fp(&got[..])));
    ctx.sample(|| got.join(" ").chars().take(300).collect());
    if got != pre && got != all {
        let n = got.iter().zip(&pre).take_while(|(a, b)| a == b).count();
        let near = |v: &[String]| v[n.saturating_sub(4)..(n + 12).min(v.len())].join(" ");
        return Err(format!(
            "listing differs at word {n}: ... {} ...\n want ... {} ...\n status {:?}, files {:?}",
            near(&got),
            near(&pre),
            status.code(),
            files.iter().map(|f| (f.0, matches!(f.1, Given::Bytes(_)))).collect::<Vec<_>>()
        ));
    }
    match (first_bad, status.code()) {
        (None, Some(0)) => Ok(()),
        (Some(_), Some(c)) if c != 0 => Ok(()),
        (b, c) => Err(format!(
            "exit status {c:?}, files which cannot be read: {}\n stderr: {}",
            b.is_some(),
            String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default())
        )),
    }
}

fn one(ctx: &mut Ctx, bs: &[B]) -> Check {
    run(ctx, &[("a.gif", Given::Bytes(put_all(bs)))])
}

/// One file, as blocks between screen and trailer
fn file(mid: Vec<B>) -> Vec<B> {
    let mut bs = screen(40, 30, Some(2));
    bs.extend(mid);
    bs.push(B::Trailer);
    bs
}

fn kinds() -> Vec<Given> {
    let good = |n: u16| {
        let mut mid = vec![loop_ext(n), B::Comment(vec![format!("file {n}").into_bytes()])];
        for k in 0..n {
            mid.push(gce(5, 10 * k, 1));
            mid.extend(image(k, 2 * k, 1, 1, vec![1]));
        }
        put_all(&file(mid))
    };
    let a = good(2);
    let mut v = vec![Given::Bytes(a.clone()), Given::Bytes(good(3)), Given::Missing];
    v.push(Given::Bytes(vec![]));
    v.push(Given::Bytes(a[..a.len() - 1].to_vec()));
    let mut b = a.clone();
    b[0] = b'J';
    v.push(Given::Bytes(b));
    let mut b = a.clone();
    b[4] = b'8';
    v.push(Given::Bytes(b));
    // corrupt data in the second frame
    let mut b = put_all(&screen(2, 2, Some(1))).to_vec();
    put(&mut b, &B::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
    put_image_data(&mut b, 2, &lzw_plain(2, &[1]), 255);
    put(&mut b, &B::Desc { l: 0, t: 0, w: 2, h: 2, flags: 0 });
    put_image_data(&mut b, 2, &[0xFC, 0xFF, 0xFF], 255);
    b.push(0x3B);
    v.push(Given::Bytes(b));
    // block code, large image, two controls, too little data
    let mut b = a.clone();
    let n = b.len() - 1;
    b[n] = 0x7F;
    v.push(Given::Bytes(b));
    v.push(Given::Bytes(put_all(&file(vec![B::Desc { l: 0, t: 0, w: 65535, h: 65535, flags: 0 }, B::Data(vec![0])]))));
    v.push(Given::Bytes(put_all(&file([vec![gce(0, 1, 0), gce(0, 2, 0)], image(0, 0, 1, 1, vec![0])].concat()))));
    v.push(Given::Bytes(put_all(&file(vec![B::Desc { l: 0, t: 0, w: 3, h: 3, flags: 0 }, B::Data(vec![0; 8])]))));
    v.push(Given::Dir);
    v
}

pub fn c23(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family("delays", "all delays, in files of 4096 frames", 16, |i, ctx| {
        let mut mid = vec![];
        for k in 0..4096 {
            mid.push(gce(4, (i * 4096 + k) as u16, 0));
            mid.extend(image(0, 0, 1, 1, vec![1]));
        }
        one(ctx, &file(mid))
    }));
    v.push(family(
        "control",
        "all pairs of control flags and transparent index, in files of 256 frames, and frames without control",
        256,
        |i, ctx| {
            let mut mid = vec![];
            for k in 0..256 {
                mid.push(gce(i as u8, 5, k as u8));
                mid.extend(image(0, 0, 1, 1, vec![1]));
                if k % 64 == 9 {
                    mid.extend(image(0, 0, 1, 1, vec![1]));
                }
            }
            one(ctx, &file(mid))
        },
    ));
    v.push(family(
        "geometry",
        "all lefts and tops; all widths (height 0) and heights (width 0), in files of 4096 frames; sizes 1..=300 by 1 and 1 by 1..=300",
        16 * 3 + 1,
        |i, ctx| {
            let mut mid = vec![];
            if i == 48 {
                for k in 1..=300 {
                    mid.extend(image(k, 301 - k, k, 1, vec![1; k as usize]));
                    mid.extend(image(0, 0, 1, k, vec![1; k as usize]));
                }
            } else {
                for k in 0..4096 {
                    let x = (i / 3 * 4096 + k) as u16;
                    match i % 3 {
                        0 => mid.extend(image(x, !x, 1, 1, vec![1])),
                        1 => mid.extend(image(1, 2, x, 0, vec![])),
                        _ => mid.extend(image(3, 4, 0, x, vec![])),
                    }
                }
            }
            one(ctx, &file(mid))
        },
    ));
    v.push(family(
        "tables",
        "all pairs of screen flags and image flags with their tables (local tables of 32 or fewer entries, or every 4th larger)",
        256,
        |i, ctx| {
            let a = i as u8;
            let mut bs = vec![header(), B::Lsd { w: 9, h: 9, flags: a, bg: 0, aspect: 0 }];
            if table_bytes(a) > 0 {
                bs.push(B::Gct(table(table_bytes(a) / 3, 1)));
            }
            for f in 0..=255u8 {
                if f & 7 > 4 && f & 0x80 != 0 && (f >> 3 ^ a) % 4 != 0 {
                    continue;
                }
                bs.push(B::Desc { l: 0, t: 0, w: 1, h: 1, flags: f });
                if table_bytes(f) > 0 {
                    bs.push(B::Lct(table(table_bytes(f) / 3, 2)));
                }
                bs.push(B::Data(vec![1]));
            }
            bs.push(B::Trailer);
            one(ctx, &bs)
        },
    ));
    v.push(family(
        "screens",
        "screen widths and heights over 0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535; both versions",
        200,
        |i, ctx| {
            let d = digits(i, &[10, 10, 2]);
            let s = [0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535];
            let (w, h) = (s[d[0] as usize], s[d[1] as usize]);
            let mut bs = vec![
                B::Header(if d[2] == 0 { *b"87a" } else { *b"89a" }),
                B::Lsd { w, h, flags: 0, bg: 0, aspect: 0 },
            ];
            bs.extend(image(0, 0, w, 0, vec![]));
            bs.extend(image(65535, 65535, w, h.min(if w > 1000 { 1 } else { 90 }), vec![0; w as usize * h.min(if w > 1000 { 1 } else { 90 }) as usize]));
            bs.push(B::Trailer);
            one(ctx, &bs)
        },
    ));
    let mut cs: Vec<u16> = (0..=tier.pick(120u16, 65535)).collect();
    for k in 7..=16 {
        cs.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1].iter().filter(|x| **x < 65536).map(|x| *x as u16));
    }
    cs.extend((1..=25).map(|k| k * 2570));
    cs.dedup();
    let n = cs.len() as u64;
    v.push(family(
        "repeat",
        format!("{n} repeat counts, both identifiers, and none"),
        n + 1,
        move |i, ctx| {
            let mut mid = vec![];
            if i < n {
                let [a, b] = le(cs[i as usize]);
                let id = if i % 2 == 0 { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" };
                mid.push(B::App(vec![id.to_vec(), vec![1, a, b]]));
            }
            mid.extend(image(0, 0, 1, 1, vec![1]));
            one(ctx, &file(mid))
        },
    ));
    let texts: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![b"plain".to_vec()],
        vec![b"two words".to_vec(), b"next".to_vec()],
        vec![b"line one\nline two\r\n\nline four\n".to_vec()],
        vec![b"   ".to_vec(), b"\n".to_vec()],
        vec![b" padded ".to_vec()],
        vec![vec![0xFF, b'a', 0xC3]],
        vec!["é 中 ∞".as_bytes().to_vec()],
        vec![vec![b'x'; 255], vec![b'y'; 255]],
        vec![b"{} %s \\n \"quoted\" # hash".to_vec()],
        (0..80).map(|k| format!("line {k}\n{}", ["", "\n", "x\r\n"][k % 3]).into_bytes()).collect(),
        vec![(0..60).map(|k| format!("l{k}\n")).collect::<String>().into_bytes(), vec![b'\n'; 255]],
        (0..40).map(|k| format!("piece{k} ").into_bytes()).collect(),
    ];
    let nt = texts.len() as u64;
    let depth = tier.pick(2, 3);
    v.push(family(
        "comments",
        format!("all sequences of up to {depth} of {nt} comments before the first frame, with repeat count before, after or none, and comments after the first frame"),
        seq_count(nt, depth) * 3,
        move |i, ctx| {
            let mut mid = vec![];
            for k in seq_of(i / 3, nt) {
                mid.push(B::Comment(texts[k as usize].clone()));
            }
            match i % 3 {
                0 => (),
                1 => mid.insert(0, loop_ext(3)),
                _ => mid.push(loop_ext(0)),
            }
            mid.extend(image(0, 0, 1, 1, vec![1]));
            mid.push(B::Comment(vec![b"not listed".to_vec()]));
            mid.extend(image(0, 0, 1, 1, vec![1]));
            one(ctx, &file(mid))
        },
    ));
    v.push(family(
        "comment-bytes",
        "comments beginning with, ending with, around, between letters or only of each byte (but the escape character), 32 bytes in a file",
        8 * 5,
        |i, ctx| {
            let mut mid = vec![];
            for c in (i / 5 * 32) as u8..=(i / 5 * 32 + 31) as u8 {
                if c == 0x1B {
                    continue;
                }
                mid.push(B::Comment(vec![match i % 5 {
                    0 => vec![c, b'a', b'b'],
                    1 => vec![b'a', b'b', c],
                    2 => vec![c, c, b'a', c],
                    3 => vec![b'a', c, b'b', c, c, b'c'],
                    _ => vec![c],
                }]));
            }
            mid.extend(image(0, 0, 1, 1, vec![1]));
            one(ctx, &file(mid))
        },
    ));
    v.push(family(
        "frame-counts",
        "1..=130, 999, 1000, 1001, 9999..=10001, 70000, 100001 frames, some interlaced",
        138,
        |i, ctx| {
            let n = match i {
                0..=129 => i + 1,
                k => [999, 1000, 1001, 9999, 10000, 10001, 70_000, 100_001][(k - 130) as usize],
            };
            let mut mid = vec![];
            for k in 0..n {
                mid.push(B::Desc { l: 0, t: 0, w: 1, h: 1, flags: if k % 3 == 0 { 0x40 } else { 0 } });
                mid.push(B::Data(vec![0]));
            }
            one(ctx, &file(mid))
        },
    ));
    let ks = Arc::new(kinds());
    let nk = ks.len() as u64;
    let depth = tier.pick(3, 4);
    v.push(family(
        "several",
        format!("all sequences of up to {depth} files over {nk} kinds (two good ones; missing, empty, cut, other signature, other version, corrupt data, bad block, too large, two controls, too few pixels, a directory)"),
        seq_count(nk, depth),
        {
            let ks = ks.clone();
            move |i, ctx| {
                let s = seq_of(i, nk);
                if s.is_empty() {
                    return Ok(());
                }
                let names = ["a.gif", "second file.gif", "c", "d.x.gif"];
                let f: Vec<(&str, Given)> = s.iter().enumerate().map(|(p, k)| (names[p], ks[*k as usize].clone())).collect();
                run(ctx, &f)
            }
        },
    ));
    v.push(family(
        "long-lists",
        "5..=40, 64..=66, 100, 128, 129, 256, 257, 300 and 1000 good files, and the same with a bad one last",
        46 * 2,
        move |i, ctx| {
            let n = match i as usize / 2 {
                k @ 0..36 => k + 5,
                k => [64, 65, 66, 100, 128, 129, 256, 257, 300, 1000][k - 36],
            };
            let names: Vec<String> = (0..n).map(|k| format!("f{k}.gif")).collect();
            let mut f: Vec<(&str, Given)> = names.iter().enumerate().map(|(p, n)| (&n[..], ks[p % 2].clone())).collect();
            if i % 2 == 1 {
                f.last_mut().unwrap().1 = ks[2 + n % (ks.len() - 2)].clone();
            }
            run(ctx, &f)
        },
    ));
    let levels = ["off", "error", "warn", "info", "debug", "trace", "gift=trace", "x"];
    v.push(family(
        "environment",
        "8 log levels, with and without NO_COLOR, TERM none, dumb or xterm; an animation with all kinds of blocks, and one with extra image data and a bad one",
        8 * 2 * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[8, 2, 3, 2]);
            let mut env = vec![("RUST_LOG", levels[d[0] as usize]), ("TERM", ["", "dumb", "xterm"][d[2] as usize])];
            if d[1] == 1 {
                env.push(("NO_COLOR", "1"));
            }
            let f = if d[3] == 0 {
                vec![("all.gif", Given::Bytes(long_file()))]
            } else {
                let mut b = put_all(&screen(2, 2, Some(1)));
                put(&mut b, &B::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
                put_image_data(&mut b, 2, &lzw_plain(2, &[1; 600]), 7);
                let bad = b.clone();
                b.push(0x3B);
                vec![("extra.gif", Given::Bytes(b)), ("bad.gif", Given::Bytes(bad))]
            };
            run_env(ctx, &f, &env)
        },
    ));
    let long = "n".repeat(200);
    let paths = ["a", "two words.gif", "quo\"te'.gif", "back\\slash", "é∞中.gif", "./dot.gif", "sub/dir/x.gif", ".hidden", "a.GIF", "tab\tnew\nline", "%s{}", &long];
    let paths: Vec<String> = paths.iter().map(|s| s.to_string()).collect();
    let np = paths.len() as u64;
    v.push(family(
        "paths",
        format!("all pairs of {np} paths (blanks, quotes, control characters, other scripts, folders, long; the same one twice)"),
        np * np,
        move |i, ctx| {
            let (a, b) = (&paths[(i / np) as usize], &paths[(i % np) as usize]);
            let m = |n: u16| put_all(&file(image(n, 0, 1, 1, vec![1])));
            run(ctx, &[(a, Given::Bytes(m(1))), (b, Given::Bytes(m(if a == b { 1 } else { 2 })))])
        },
    ));
    let depth = tier.pick(3, 4);
    v.push(family(
        "layouts",
        format!("all sequences of up to {depth} of {ITEMS} block groups, in one file with or without trailer; up to {} also variants", depth - 1),
        (seq_count(ITEMS, depth) + seq_count(ITEMS, depth - 1)) * 2,
        move |i, ctx| {
            let all = seq_count(ITEMS, depth);
            let s = seq_of(i / 2 % all, ITEMS);
            let bs = if i / 2 < all {
                seq_file(&s, true, i % 2 == 0)
            } else {
                variant_file(&s, i / 2 % VARIANTS, true, i % 2 == 0)
            };
            let m = put_all(&bs);
            // a file without any frame is no animation for the library
            if i % 2 == 0 && !bs.iter().any(|b| matches!(b, B::Data(_))) {
                return Ok(());
            }
            run(ctx, &[("layout.gif", Given::Bytes(m))])
        },
    ));
    const EACH: u64 = 40;
    v.push(family(
        "around",
        format!("{EACH} files at a time: {AROUND_TEXT}"),
        AROUND.div_ceil(EACH),
        |i, ctx| {
            let names: Vec<String> = (0..EACH).map(|k| format!("{k}.gif")).collect();
            let mut f = vec![];
            for (k, n) in (i * EACH..AROUND.min((i + 1) * EACH)).zip(&names) {
                f.push((&n[..], Given::Bytes(Around::new(k).file())));
            }
            run(ctx, &f)
        },
    ));
    v.push(family(
        "around-faults",
        format!("faults of 12 kinds in every 601st of: {AROUND_TEXT}"),
        AROUND / 601 * 12,
        |i, ctx| {
            let k = i % 12;
            let m = Around::new(i / 12 * 601).fault(if k == 11 { 13 } else { k });
            run(ctx, &[("fault.gif", Given::Bytes(m))])
        },
    ));
    v.push(family(
        "cuts",
        "every proper prefix of a file with all kinds of blocks, after a good file",
        seq_len() as u64,
        |i, ctx| {
            let m = long_file();
            let good = put_all(&file(image(0, 0, 1, 1, vec![1])));
            run(ctx, &[("good.gif", Given::Bytes(good)), ("cut.gif", Given::Bytes(m[..i as usize].to_vec()))])
        },
    ));
    v
}

fn long_file() -> Vec<u8> {
    let mut bs = screen(4, 4, Some(1));
    bs.push(loop_ext(5));
    bs.push(B::Comment(vec![b"hello".to_vec(), b"x".to_vec()]));
    bs.push(gce(9, 20, 1));
    bs.extend(image_lct((0, 0, 2, 2), 1, 3, 0x40, vec![0, 1, 2, 3]));
    bs.push(B::Text(vec![vec![1; 12], b"t".to_vec()]));
    bs.push(B::Unknown(0x33, vec![vec![2; 3]]));
    bs.push(gce(0, 0, 0));
    bs.extend(image(1, 1, 2, 2, vec![3, 2, 1, 0]));
    bs.push(B::Trailer);
    put_all(&bs)
}

fn seq_len() -> usize {
    long_file().len()
}
