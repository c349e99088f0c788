//! Bounded exhaustive exploration of the gift library against a reference
//! model.
//!
//!     mc PROPERTY TIER --evidence DIR [--profile NAME] [--only FAMILY:INDEX]
mod corpus;
mod drive;
mod engine;
mod props;
mod refm;

use engine::{Family, Opts, Tier};
use props::*;

#[global_allocator]
static A: engine::Acct = engine::Acct;

struct Plan {
    families: Vec<Family>,
    level: &'static str,
    rule: &'static str,
}

fn plan(prop: &str, tier: Tier) -> Option<Plan> {
    let m = "model_checking";
    let f = "fault_enumeration";
    let (families, level) = match prop {
        "C01" => (codec::c01(tier), m),
        "C02" => (codec::c02(tier), m),
        "C03" => (codec::c03(tier), m),
        "C04" => (robust::c04(tier), m),
        "C05" => (robust::c05(tier), f),
        "C06" => (robust::c06(tier), m),
        "C07" => (fault::c07(tier), f),
        "C08" => (stream::c08(tier), m),
        "C09" => (stream::c09(tier), m),
        "C11" => (stream::c11(tier), m),
        "C19" => (fault::c19(tier), f),
        "C22" => (inter::c22(tier), m),
        "C10" => (enc::c10(tier), m),
        "C17" => (enc::c17(tier), m),
        "C18" => (enc::c18(tier), m),
        "C20" => (setters::c20(tier), m),
        "C21" => (setters::c21(tier), m),
        "C23" => (cli::c23(tier), m),
        "C12" => (steps::c12(tier), m),
        "C13" => (steps::c13(tier), m),
        "C15" => (steps::c15(tier), m),
        "C14" => (robust::c14(tier), m),
        "C16" => (robust::c16(tier), m),
        "C24" => (more::c24(tier), m),
        "C25" => (more::c25(tier), m),
        "C26" => (more::c26(tier), f),
        "C27" => (more::c27(tier), m),
        "C28" => (more::c28(tier), m),
        "C29" => (codec::c29(tier), m),
        "C30" => (logging::c30(tier), m),
        "C31" => (taking::c31(tier), m),
        _ => return None,
    };
    let rule = match prop {
        "C05" => {
            "one evaluation is one iteration over a cut file compared with the model; distinct are the different (ending, items delivered) outcomes"
        }
        "C07" => {
            "one evaluation is one iteration over a scripted reader compared with the model; distinct are the different (deviation kind, items, error) outcomes"
        }
        "C26" => {
            "one evaluation is one run with an I/O error at one place (or one error value) compared with the error injected; distinct are the different (error, level) outcomes"
        }
        "C19" => {
            "one evaluation is one encoder run over a scripted writer compared with the fault-free run; distinct are the different (deviation, bytes accepted, result) outcomes"
        }
        _ => {
            "a state is a distinct model state (fingerprint) visited; a transition is one model step taken together with the implementation; a trace is one complete run of the implementation compared item by item with the model; distinct_outcomes counts different end results"
        }
    };
    Some(Plan { families, level, rule })
}

const ASSUMPTIONS: &[&str] = &[
    "exploration is complete within the bound given for each family, and says nothing beyond it",
    "the reference model (mc/src/refm.rs) states GIF89a correctly; it shares no code with the library",
    "pix renders rasters and palettes faithfully; the Rust standard library behaves as documented",
];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |n: &str| {
        args.iter()
            .rposition(|a| a == n)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let (Some(prop), Some(tier)) = (args.first(), args.get(1)) else {
        eprintln!("usage: mc PROPERTY quick|thorough --evidence DIR");
        std::process::exit(2);
    };
    let tier = match tier.as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        t => {
            eprintln!("unknown tier {t}");
            std::process::exit(2);
        }
    };
    let Some(evid) = get("--evidence") else {
        eprintln!("--evidence DIR is missing");
        std::process::exit(2);
    };
    let only = get("--only").and_then(|s| {
        let (f, i) = s.rsplit_once(':')?;
        Some((f.to_string(), i.parse().ok()?))
    });
    let o = Opts {
        prop: prop.clone(),
        tier,
        evid: evid.into(),
        profile: get("--profile").unwrap_or("checked".into()),
        child: args.iter().any(|a| a == "--child"),
        only,
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(0),
    };
    // Some families run the library for a reference result first
    let p = std::panic::catch_unwind(|| plan(prop, tier)).unwrap_or_else(|_| {
        let f = engine::family("setup", "fault-free reference runs", 1, |_, _| {
            Err("a fault-free run of the library alone fails".into())
        });
        Some(Plan { families: vec![f], level: "model_checking", rule: "" })
    });
    let Some(p) = p else {
        eprintln!("no check for property {prop}");
        std::process::exit(2);
    };
    // a family is named in replays
    let mut names: Vec<&str> = p.families.iter().map(|f| &f.name[..]).collect();
    names.sort();
    if let Some(n) = names.windows(2).find(|n| n[0] == n[1]) {
        eprintln!("two families are called {}", n[0]);
        std::process::exit(2);
    }
    engine::init(&o, &p.families);
    let code = if o.child {
        engine::CHILD + engine::explore(&o, &p.families, ASSUMPTIONS, p.rule, p.level)
    } else {
        engine::supervise(&o, &args)
    };
    std::process::exit(code);
}
