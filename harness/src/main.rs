#![cfg_attr(feature = "guided", allow(dead_code, unused_imports))]
mod edit;
mod engine;
mod fast;
mod gen;
#[cfg(feature = "guided")]
mod guided;
mod num;
mod props;
mod real;
mod spec;

use std::path::{Path, PathBuf};

fn usage() -> i32 {
    eprintln!("usage: fxdcheck run ID [--tier T] [--seed N] --evidence F [--replay-dir D] [--regress-dir D] [--part] [--merge F] [--merge-guided D] [--scale X]");
    eprintln!("       fxdcheck replay FILE\n       fxdcheck seeds ID COUNT SEED\n       fxdcheck serve\n       fxdcheck list");
    eprintln!("instrumented build only: fxdcheck guided ID SEED WORKER quick|thorough|COUNT SEEDS REPLAY_DIR OUT");
    2
}

macro_rules! all {
    ($m:ident) => {
        $m! {
            "C01" props::text::C01, "C02" props::text::C02, "C03" props::text::C03, "C04" props::text::C04, "C05" props::text::C05,
            "C06" props::arith::C06, "C07" props::arith::C07, "C08" props::arith::C08, "C09" props::arith::C09, "C10" props::arith::C10,
            "C11" props::round::C11, "C12" props::order::C12, "C13" props::order::C13, "C14" props::order::C14,
            "C15" props::value::C15, "C16" props::value::C16, "C17" props::value::C17, "C18" props::value::C18,
            "C19" props::machine::C19, "C20" props::laws::C20, "C21" props::diff::C21,
            "C22" props::more::C22, "C23" props::more::C23, "C24" props::more::C24, "C25" props::more::C25,
            "C26" props::more::C26, "C27" props::more::C27, "C28" props::more::C28
        }
    };
}

fn unknown(id: &str) -> i32 {
    eprintln!("unknown property {}", id);
    2
}

#[cfg(not(feature = "guided"))]
mod entry {
    use super::*;
    use crate::engine::{replay, run, seeds, Opts, Tier};

    pub fn dispatch_run(id: &str, o: &Opts) -> i32 {
        macro_rules! go {
            ($($n:literal $t:ty),*) => { match id { $($n => run::<$t>(o),)* _ => unknown(id) } };
        }
        all!(go)
    }

    pub fn dispatch_replay(id: &str, f: &Path) -> i32 {
        macro_rules! go {
            ($($n:literal $t:ty),*) => { match id { $($n => replay::<$t>(f),)* _ => unknown(id) } };
        }
        all!(go)
    }

    pub fn dispatch_seeds(id: &str, n: usize, seed: u64) -> i32 {
        macro_rules! go {
            ($($n:literal $t:ty),*) => { match id { $($n => seeds::<$t>(n, seed),)* _ => unknown(id) } };
        }
        all!(go)
    }

    pub fn main(args: &[String]) -> i32 {
        match args.first().map(|s| s.as_str()) {
            Some("replay") if args.len() == 2 => {
                let f = PathBuf::from(&args[1]);
                let id = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()).and_then(|v| v["property"].as_str().map(|s| s.to_string()));
                match id {
                    Some(id) => dispatch_replay(&id, &f),
                    None => usage(),
                }
            }
            Some("seeds") if args.len() == 4 => match (args[2].parse(), args[3].parse()) {
                (Ok(n), Ok(s)) => dispatch_seeds(&args[1], n, s),
                _ => usage(),
            },
            Some("run") if args.len() >= 2 => {
                let id = args[1].clone();
                let mut o = Opts {
                    tier: Tier::Quick,
                    seed: 1,
                    evidence: PathBuf::from(format!("evidence/{}.json", id)),
                    replay_dir: PathBuf::from("replays"),
                    regress_dir: PathBuf::from("regressions"),
                    merge: None,
                    merge_guided: None,
                    part: false,
                    scale: 1.0,
                };
                let mut i = 2;
                let mut bad = false;
                while i < args.len() {
                    let val = args.get(i + 1).cloned();
                    match (args[i].as_str(), val) {
                        ("--part", _) => {
                            o.part = true;
                            i += 1;
                            continue;
                        }
                        ("--tier", Some(v)) => o.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
                        ("--seed", Some(v)) => o.seed = v.parse().unwrap_or(1),
                        ("--evidence", Some(v)) => o.evidence = v.into(),
                        ("--replay-dir", Some(v)) => o.replay_dir = v.into(),
                        ("--regress-dir", Some(v)) => o.regress_dir = v.into(),
                        ("--merge", Some(v)) => o.merge = Some(v.into()),
                        ("--merge-guided", Some(v)) => o.merge_guided = Some(v.into()),
                        ("--scale", Some(v)) => o.scale = v.parse().unwrap_or(1.0),
                        _ => bad = true,
                    }
                    i += 2;
                }
                if bad {
                    usage()
                } else {
                    dispatch_run(&id, &o)
                }
            }
            _ => usage(),
        }
    }
}

#[cfg(feature = "guided")]
mod entry {
    use super::*;
    use crate::guided::{guided, Amount, GOpts};

    fn dispatch(id: &str, o: &GOpts) -> i32 {
        macro_rules! go {
            ($($n:literal $t:ty),*) => { match id { $($n => guided::<$t>(o),)* _ => unknown(id) } };
        }
        all!(go)
    }

    pub fn main(args: &[String]) -> i32 {
        let [cmd, id, seed, worker, execs, seeds, replay_dir, out] = args else { return usage() };
        let (Ok(seed), Ok(worker), Ok(execs)) = (seed.parse(), worker.parse(), Amount::parse(execs)) else { return usage() };
        if cmd != "guided" {
            return usage();
        }
        let f = |s: &String| Path::new(s).to_path_buf();
        dispatch(id, &GOpts { seed, worker, execs, seeds: f(seeds), replay_dir: f(replay_dir), out: f(out) })
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("serve") => props::diff::serve(props::diff::transcript),
        Some("serve-alone") => props::diff::serve(props::more::alone),
        Some("list") => {
            macro_rules! go { ($($n:literal $t:ty),*) => { $(println!("{}", $n);)* } }
            all!(go);
            0
        }
        _ => entry::main(&args),
    };
    std::process::exit(code);
}
