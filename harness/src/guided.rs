//! Coverage-guided search: cases are mutated as JSON trees, kept when they reach new code, new loop counts
//! or new comparison distances in the instrumented build, and judged by the same `Prop::check`.
use crate::edit::*;
use crate::engine::{exec, profile_name, watchdog, write_replay, Cx, Outcome, Prop, Slot, Slots, Stats};
use crate::real::install_hook;
use serde_json::{Map, Number, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::AtomicU64;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- mutation

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.next() % n == 0
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Constants the code compares with.
struct Dict {
    consts: Vec<u64>,
    /// those no small count or digit would equal by chance
    big: Vec<u64>,
    known: std::collections::HashSet<u64>,
}
impl Dict {
    fn pick(&self, r: &mut Rng) -> Option<u64> {
        let from = if r.one_in(2) && !self.big.is_empty() { &self.big } else { &self.consts };
        if from.is_empty() {
            return None;
        }
        let c = *r.pick(from);
        Some(match r.below(4) {
            0 => c.wrapping_add(1),
            1 => c.wrapping_sub(1),
            _ => c,
        })
    }
    fn learn(&mut self, c: u64) {
        if c > 1 && self.consts.len() < 4096 && self.known.insert(c) {
            self.consts.push(c);
            let low = c as u32 as i32 as i64;
            if (c as i64 >= 10_000 || c as i64 <= -10_000) && low.abs() >= 10_000 {
                self.big.push(c);
            }
        }
    }
}

/// rough cost of a case: characters of text plus a few per node
fn weight(v: &Value) -> usize {
    match v {
        Value::String(s) => s.len() + 2,
        Value::Array(a) => 4 + a.iter().map(weight).sum::<usize>(),
        Value::Object(o) => 4 + o.values().map(|x| 4 + weight(x)).sum::<usize>(),
        _ => 4,
    }
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn is_name(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphabetic())
}

const GROUPS: [u32; 10] = [0, 999_999_999, 1, 500_000_000, 499_999_999, 999_999_998, 100_000_000, 99_999_999, 999_000_000, 2];

fn group(r: &mut Rng, d: &Dict) -> String {
    let g = match r.below(4) {
        0 | 1 => *r.pick(&GROUPS) as u64,
        2 => match d.pick(r) {
            Some(c) => (c as i64).unsigned_abs() % 1_000_000_000,
            None => 0,
        },
        _ => r.next() % 1_000_000_000,
    };
    format!("{:09}", g)
}

fn mutate_text(s: &str, other: Option<&str>, r: &mut Rng, d: &Dict) -> String {
    let mut b: Vec<char> = s.chars().collect();
    let digits: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
    let point = b.iter().position(|c| *c == '.');
    let end = b.iter().position(|c| *c == 'e' || *c == 'E').unwrap_or(b.len());
    match r.below(14) {
        0 | 1 if !digits.is_empty() => {
            let i = *r.pick(&digits);
            b[i] = match r.below(4) {
                0 => '0',
                1 => '9',
                2 => '5',
                _ => (b'0' + r.below(10) as u8) as char,
            };
        }
        2 | 3 | 12 | 13 if !digits.is_empty() => {
            // a whole group as the library cuts them, counted from the point
            let p = point.unwrap_or(end);
            let g = group(r, d);
            let sign = usize::from(matches!(b.first(), Some('-') | Some('+')));
            let (whole, part) = (p.saturating_sub(sign).div_ceil(9), (end.max(p + 1) - p - 1).div_ceil(9));
            let k = r.below(whole + part);
            if k < whole {
                // integral group k
                let hi = p.saturating_sub(9 * k);
                let lo = hi.saturating_sub(9);
                for (n, i) in (lo..hi).rev().enumerate() {
                    if b[i].is_ascii_digit() {
                        b[i] = g.as_bytes()[8 - n] as char;
                    }
                }
            } else {
                let lo = p + 1 + 9 * (k - whole);
                for (n, i) in (lo..(lo + 9).min(end)).enumerate() {
                    if b[i].is_ascii_digit() {
                        b[i] = g.as_bytes()[n] as char;
                    }
                }
            }
        }
        4 => {
            // more digits
            let at = if digits.is_empty() { b.len() } else { *r.pick(&digits) };
            let ins: String = match r.below(4) {
                0 => "0".repeat(1 + r.below(9)),
                1 => "9".repeat(1 + r.below(9)),
                2 => group(r, d),
                _ => format!("{}", r.below(10)),
            };
            for c in ins.chars().rev() {
                b.insert(at, c);
            }
        }
        5 if b.len() > 1 => {
            let i = r.below(b.len());
            let n = if r.one_in(2) { 1 } else { 1 + r.below(9) };
            b.drain(i..(i + n).min(b.len()));
        }
        6 => {
            // move, add or drop the point
            if let Some(p) = point {
                b.remove(p);
            }
            if point.is_none() || !r.one_in(4) {
                let e = b.iter().position(|c| *c == 'e' || *c == 'E').unwrap_or(b.len());
                b.insert(r.below(e + 1), '.');
            }
        }
        7 => match b.first() {
            Some('-') | Some('+') => {
                b.remove(0);
            }
            _ => b.insert(0, if r.one_in(4) { '+' } else { '-' }),
        },
        8 => {
            if end < b.len() {
                b.truncate(end);
            } else if r.one_in(2) {
                b.extend(format!("e{}", r.below(100) as i64 - 33).chars());
            }
        }
        9 => {
            // step the last digit, with carry
            let up = r.one_in(2);
            for i in digits.iter().rev() {
                let (c, wrap) = (b[*i], if up { '9' } else { '0' });
                if c == wrap {
                    b[*i] = if up { '0' } else { '9' };
                    continue;
                }
                b[*i] = if up { (c as u8 + 1) as char } else { (c as u8 - 1) as char };
                break;
            }
        }
        10 if other.is_some() => {
            let o: Vec<char> = other.unwrap().chars().collect();
            if !o.is_empty() {
                let i = r.below(o.len());
                let j = (i + 1 + r.below(20)).min(o.len());
                let at = r.below(b.len() + 1);
                if r.one_in(2) {
                    let till = (at + j - i).min(b.len());
                    b.drain(at..till);
                }
                for (n, c) in o[i..j].iter().enumerate() {
                    b.insert((at + n).min(b.len()), *c);
                }
            }
        }
        _ => {
            // trailing or leading zeros
            let z = 1 + r.below(18);
            if r.one_in(2) {
                let at = usize::from(matches!(b.first(), Some('-') | Some('+')));
                for _ in 0..z {
                    b.insert(at, '0');
                }
            } else {
                if point.is_none() {
                    b.insert(end, '.');
                }
                let e = b.iter().position(|c| *c == 'e' || *c == 'E').unwrap_or(b.len());
                for _ in 0..z {
                    b.insert(e, '0');
                }
            }
        }
    }
    b.into_iter().take(1500).collect()
}

fn mutate_number(n: &Number, range: Option<&(i128, i128)>, pool: Option<&Vec<Value>>, r: &mut Rng, d: &Dict) -> Value {
    let Some(v) = int_of(n) else {
        return Value::Number(n.clone());
    };
    let w = match r.below(8) {
        0 => v + 1,
        1 => v - 1,
        2 => v + 9,
        3 => v - 9,
        4 => -v,
        5 => {
            let c = d.pick(r).unwrap_or(2) as i64 as i128;
            if r.one_in(2) {
                c
            } else {
                -c
            }
        }
        6 => v ^ (1i128 << r.below(63)),
        _ => match pool {
            Some(p) => return r.pick(p).clone(),
            None => v,
        },
    };
    let (lo, hi) = *range.unwrap_or(&(v, v));
    let w = w.clamp(lo, hi);
    if let Ok(x) = i64::try_from(w) {
        Value::from(x)
    } else if let Ok(x) = u64::try_from(w) {
        Value::from(x)
    } else {
        Value::Number(n.clone())
    }
}

fn mutate(case: &mut Value, donor: &Value, shape: &Shape, r: &mut Rng, d: &Dict) {
    let mut all = Vec::new();
    nodes(case, "", &mut Vec::new(), shape, &mut all);
    let (path, at) = r.pick(&all).clone();
    // relate two places: copy what stands at a like place of this case or of another one
    if r.one_in(5) {
        let mut from = Vec::new();
        let own = r.one_in(2);
        nodes(if own { case } else { donor }, "", &mut Vec::new(), shape, &mut from);
        let kind = |v: &Value| match v {
            Value::Null => 0,
            Value::Bool(_) => 1,
            Value::Number(_) => 2,
            Value::String(_) => 3,
            Value::Array(_) => 4,
            Value::Object(_) => 5,
        };
        let mut src = if own { case.clone() } else { donor.clone() };
        let k = kind(at_mut(case, &path));
        let like: Vec<&(Vec<Step>, String)> = from.iter().filter(|(p, a)| (*a == at || own) && *p != path).collect();
        for _ in 0..8 {
            if like.is_empty() {
                break;
            }
            let (p, _) = *r.pick(&like);
            let v = at_mut(&mut src, p).clone();
            // names of operations and the like stay where the generator puts them
            let name = matches!(&v, Value::String(t) if is_name(t)) || matches!(at_mut(case, &path), Value::String(t) if is_name(t));
            if kind(&v) == k && (!own || k == 5 || k == 3 && !name) {
                *at_mut(case, &path) = v;
                return;
            }
        }
    }
    let pool = shape.pool.get(&at);
    let node = at_mut(case, &path);
    match node {
        Value::Null => {
            if let Some(p) = pool {
                *node = r.pick(p).clone();
            }
        }
        Value::Bool(b) => *b = !*b,
        Value::Number(n) => *node = mutate_number(n, shape.range.get(&at), pool, r, d),
        Value::String(s) => {
            let other = pool.map(|p| r.pick(p).clone());
            if is_name(s) || r.one_in(12) {
                if let Some(o) = other {
                    *node = o;
                }
            } else {
                let o = other.as_ref().and_then(|o| o.as_str());
                *s = mutate_text(s, o, r, d);
            }
        }
        Value::Array(a) => {
            let fixed = matches!(shape.lens.get(&at), Some((lo, hi)) if lo == hi);
            let (lo, hi) = shape.lens.get(&at).copied().unwrap_or((a.len(), a.len()));
            if fixed || r.one_in(8) {
                if let Some(p) = pool {
                    *node = r.pick(p).clone();
                }
                return;
            }
            match r.below(4) {
                0 if a.len() > lo => {
                    a.remove(r.below(a.len()));
                }
                1 if !a.is_empty() && a.len() < hi => {
                    let x = r.pick(a).clone();
                    a.insert(r.below(a.len() + 1), x);
                }
                2 if a.len() > 1 => {
                    let (i, j) = (r.below(a.len()), r.below(a.len()));
                    a.swap(i, j);
                }
                _ => {
                    let p = place(&at, &Step::Idx(0), shape);
                    if let (Some(p), true) = (shape.pool.get(&p), a.len() < hi) {
                        a.insert(r.below(a.len() + 1), r.pick(p).clone());
                    }
                }
            }
        }
        Value::Object(_) => {
            if let Some(p) = pool {
                *node = r.pick(p).clone();
            }
        }
    }
}

// ---------------------------------------------------------------- driver

/// How many cases one worker runs.
pub enum Amount {
    Quick,
    Thorough,
    Count(u64),
}
impl Amount {
    pub fn parse(s: &str) -> Result<Amount, std::num::ParseIntError> {
        Ok(match s {
            "quick" => Amount::Quick,
            "thorough" => Amount::Thorough,
            n => Amount::Count(n.parse()?),
        })
    }
}

pub struct GOpts {
    pub seed: u64,
    pub worker: u64,
    pub execs: Amount,
    pub seeds: PathBuf,
    pub replay_dir: PathBuf,
    pub out: PathBuf,
}

fn read_seeds(f: &Path) -> Vec<Value> {
    let t = std::fs::read_to_string(f).unwrap_or_default();
    t.lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}

pub fn guided<P: Prop>(o: &GOpts) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let slots: Slots<P::Case> = Arc::new(vec![Slot { beat: AtomicU64::new(0), case: Mutex::new(None) }]);
    watchdog::<P>(slots.clone(), o.replay_dir.clone(), o.seed);
    let seeds = read_seeds(&o.seeds);
    if seeds.is_empty() {
        eprintln!("ERROR: {}: no seeds in {}", P::ID, o.seeds.display());
        return 2;
    }
    let shape = Shape::of(seeds.iter());
    let most = seeds.iter().map(weight).max().unwrap_or(0) * 5 / 4 + 40;
    let deep = seeds.iter().map(depth).max().unwrap_or(0) + 6;
    let mut r = Rng(o.seed.wrapping_mul(1_000_003).wrapping_add(o.worker).wrapping_mul(0x2545f4914f6cdd1d));
    let mut dict = Dict { consts: Vec::new(), big: Vec::new(), known: Default::default() };
    let mut cov = fxdhooks::Coverage::new();
    let mut corpus: Vec<Value> = Vec::new();
    let mut stats = Stats::default();
    let (mut tried, mut unreadable, mut harness, mut seeded) = (0u64, 0u64, 0u64, 0u64);
    let mut rc = 0;
    let execs = match o.execs {
        Amount::Quick => P::quick_cases() / 24,
        Amount::Thorough => P::quick_cases() * P::thorough_factor() / 12,
        Amount::Count(n) => n,
    };
    while tried < execs {
        tried += 1;
        // every worker starts from its own slice of the seeds
        let next = (seeded * 8 + o.worker % 8) as usize;
        let v = if next < seeds.len() && (seeded < 64 || r.one_in(8)) {
            seeded += 1;
            seeds[next].clone()
        } else {
            let n = corpus.len();
            if n == 0 {
                seeds[r.below(seeds.len())].clone()
            } else {
                let i = if r.one_in(2) { n - 1 - r.below(n.min(48)) } else { r.below(n) };
                let mut v = corpus[i].clone();
                let donor = if r.one_in(2) { r.pick(&corpus).clone() } else { r.pick(&seeds).clone() };
                let times = 1 + if r.one_in(2) { 0 } else { r.below(4) };
                for _ in 0..times {
                    let before = v.clone();
                    mutate(&mut v, &donor, &shape, &mut r, &dict);
                    if weight(&v) > most || depth(&v) > deep {
                        v = before;
                    }
                }
                v
            }
        };
        let Ok(case) = serde_json::from_value::<P::Case>(v.clone()) else {
            unreadable += 1;
            continue;
        };
        let mut cx = Cx::default();
        cov.clear();
        fxdhooks::on(true);
        let out = exec::<P>(&slots[0], &case, &mut cx);
        fxdhooks::on(false);
        match out {
            Outcome::Pass => {
                let new = cov.fresh(&mut |c| dict.learn(c));
                stats.record(&case, &cx, false);
                if new > 0 && !cx.discarded {
                    corpus.push(v);
                }
            }
            // a mutated case outside what the check is written for
            Outcome::HarnessError(_) => harness += 1,
            Outcome::Fail(m) => {
                let (v, m) = shrink::<P>(&slots[0], v, m, &shape);
                let case: P::Case = serde_json::from_value(v).unwrap();
                let path = write_replay(&o.replay_dir, P::ID, &case, &m, "guided", o.seed);
                println!("{}: {}", P::ID, m);
                println!("{}: case {}", P::ID, serde_json::to_string(&case).unwrap());
                println!("VIOLATION property={} replay={}", P::ID, path.display());
                rc = 1;
                break;
            }
        }
    }
    let part = serde_json::json!({
        "profile": profile_name(), "worker": o.worker, "mutants": tried, "evaluations": stats.evaluations, "unreadable": unreadable,
        "outside_domain": harness, "discarded": stats.discarded, "nontrivial_total": stats.nontrivial_total,
        "distinct_nontrivial": stats.nontrivial.len(), "corpus": corpus.len(), "features": cov.features,
        "constants_learned": dict.consts.len(), "wall_s": t0.elapsed().as_secs_f64(), "violations": rc,
    });
    let _ = std::fs::write(&o.out, serde_json::to_string(&part).unwrap());
    let bytes: Vec<u8> = stats.nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(o.out.with_extension("hashes"), bytes);
    if std::env::var_os("FXDCHECK_SHOW").is_some() {
        eprintln!("{:?}", dict.big);
    }
    rc
}

