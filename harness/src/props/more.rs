//! C22 totality of observers and rounding, C23 failed operations, C24 collections and sums,
//! C25 more digits extend, C26 decimal point shifts, C27 machine integers, C28 purity.
use super::machine::{Program, Step};
use super::diff::Peer;
use super::order::{hash_bytes, shape, trio, Trio};
use super::{operand, text_digits};
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::num::Num;
use crate::real::*;
use crate::spec;
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BinaryHeap, BTreeMap, BTreeSet, HashMap, HashSet};

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ObsCase {
    pub v: Src,
    pub w: Src,
    pub shows: Vec<i64>,
    pub rounds: Vec<i64>,
}

pub struct C22;
impl Prop for C22 {
    type Case = ObsCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "decimals of every origin, all observers called in a row and repeated, formatted with 1-4 digit counts (negative extremes to 3000), rounded at 1-3 positions over the whole isize range (results of more than 81 integral digits excluded) and the results computed with; non-trivial: the value has three or more groups, or was computed, or a requested digit count or position is outside its digits";
    fn strategy(_: Tier) -> BoxedStrategy<ObsCase> {
        let shows = prop_oneof![
            4 => -2i64..45,
            3 => (0i64..=9, -1i64..=1).prop_map(|(a, d)| 9 * a + d),
            2 => 0i64..300,
            1 => 300i64..3000,
            1 => prop::sample::select(vec![i64::MIN, i64::MIN + 1, -1000, -256, -129, -128, -127, 126, 127, 128, 129, 255, 256, 257, 65535, 65536]),
        ];
        let rounds = prop_oneof![
            6 => super::round::positions(),
            2 => any::<i64>(),
            1 => (0u32..63, any::<bool>(), -1i64..=1).prop_map(|(k, n, d)| { let v = (1i64 << k) + d; if n { -v } else { v } }),
        ];
        (
            prop_oneof![3 => src(), 1 => wide_src()],
            src(),
            prop::collection::vec(shows, 1..5),
            prop::collection::vec(rounds, 1..4),
        )
            .prop_map(|(v, w, shows, rounds)| ObsCase { v, w, shows, rounds })
            .boxed()
    }
    fn enumerate() -> Vec<ObsCase> {
        let mut v = Vec::new();
        for (i, f) in super::arith::shapes() {
            for d in ['9', '1', '0'] {
                let all: Vec<i64> = (-(i as i64) - 12..=140).collect();
                v.push(ObsCase { v: Src::Lit(super::arith::rep(d, i, f)), w: Src::One, shows: all.clone(), rounds: all });
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<ObsCase> {
        let (t, k) = fast::cut(r);
        let v = if r.one_in(3) { fast::src(r) } else { Src::Lit(t) };
        let shows = (0..1 + r.below(3)).map(|_| r.int(-1, 90)).collect();
        Some(ObsCase { v, w: fast::src(r), shows, rounds: vec![k, r.int(-60, 60)] })
    }
    fn quick_cases() -> u64 {
        600_000
    }
    fn check(c: &ObsCase, cx: &mut Cx) -> Result<(), String> {
        let (Some(f), Some(g)) = (c.v.build(), c.w.build()) else {
            return cx.discard();
        };
        let at = |what: String| move |p: Panicked| format!("{}: {}", what, p);
        let before = guard(|| shape(&f)).map_err(at(format!("observing {:?}", c.v)))?;
        let n = observe(&f)?;
        let ng = guard(|| observe(&g)).ok().and_then(|r| r.ok());
        let all = || {
            (
                shape(&f),
                f.cmp(&g),
                g.cmp(&f),
                f == g,
                f.as_i64().map_err(|e| err_kind(&e)),
                f.as_u64().map_err(|e| err_kind(&e)),
                (f.intg_units(), f.frac_units()),
                format!("{:?}", f).len() > 0,
            )
        };
        let first = guard(all).map_err(at(format!("observing {}", before.0)))?;
        for k in &c.shows {
            let t = guard(|| f.to_string(*k as isize)).map_err(at(format!("{} with {} digits", before.0, k)))?;
            let want = if *k < 0 { n.text() } else { n.text_k(*k as usize) };
            if t != want {
                return Err(format!("{} with {} digits gives {}", before.0, k, t));
            }
            let mut buf = vec![b'x'];
            guard(|| f.append_str_buf(&mut buf, *k as isize)).map_err(at(format!("{} with {} digits, appended", before.0, k)))?;
            if &buf[1..] != t.as_bytes() {
                return Err(format!("{} with {} digits gives {} and then {}", before.0, k, t, String::from_utf8_lossy(&buf[1..])));
            }
        }
        let mut outside = c.shows.iter().any(|k| *k > n.scale as i64);
        for k in &c.rounds {
            if spec::round(&n, *k).is_none() {
                cx.label("excluded_rounding");
                continue;
            }
            outside |= *k > n.scale as i64 || *k < -(n.int_digits() as i64);
            let mut x = f.clone();
            guard(|| x.round(*k as isize)).map_err(at(format!("{} rounded to {}", before.0, k)))?;
            let mut y = g.clone();
            guard(|| f.round_to(&mut y, *k as isize)).map_err(at(format!("{} rounded to {}", before.0, k)))?;
            let mut used = Vec::new();
            for r in [&x, &y] {
                let m = guard(|| observe(r)).map_err(at(format!("{} rounded to {} cannot be printed", before.0, k)))?.map_err(|e| format!("{} rounded to {}: {}", before.0, k, e))?;
                // the result is an ordinary decimal
                let z = guard(|| Op::Sub.compute(r, r, 0)).map_err(at(format!("{} rounded to {}, minus itself", before.0, k)))?;
                if !z.map(|z| z.is_zero()).unwrap_or(false) {
                    return Err(format!("{} rounded to {} gives {}, which minus itself is not zero", before.0, k, m.text()));
                }
                used.push((r.clone(), m));
            }
            // and computes as one
            let op = OPS[(k.unsigned_abs() % 5) as usize];
            if let Some(ng) = &ng {
                for (r, m) in &used {
                    let a = guard(|| op.compute(r, &g, 4));
                    check_outcome(&format!("{} rounded to {} is {}, {} {}", before.0, k, m.text(), op.name(), ng.text()), &a, &op.spec(m, ng, 4), true)?;
                    let a = guard(|| op.compute(&g, r, 4));
                    check_outcome(&format!("{} {} {} (which is {} rounded to {})", ng.text(), op.name(), m.text(), before.0, k), &a, &op.spec(ng, m, 4), true)?;
                }
            }
            if guard(|| shape(&x)).map_err(at("observing a rounded value".into()))? != guard(|| shape(&y)).map_err(at("observing a rounded value".into()))? {
                return Err(format!("{} rounded to {}: {} and {}", before.0, k, x.to_string(-1), y.to_string(-1)));
            }
        }
        let second = guard(all).map_err(at(format!("observing {} again", before.0)))?;
        if first != second || shape(&f) != before {
            return Err(format!("observing {} changed it or gave another answer: {:?} then {:?}", before.0, first, second));
        }
        let clone = f.clone();
        if shape(&clone) != before || clone != f {
            return Err(format!("the clone of {} differs: {}", before.0, clone.to_string(-1)));
        }
        cx.label_if(c.v.is_computed(), "computed");
        cx.label_if(outside, "digits_or_position_outside_the_value");
        cx.nontrivial_if(outside || c.v.is_computed() || n.int_units() + n.frac_units() >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Failing {
    Arith(Src, Op, Src, usize),
    Parse(Vec<u8>, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase {
    pub prev: Src,
    pub fails: Vec<Failing>,
    /// used with the destination afterwards
    pub then: Src,
    pub k: i64,
}

/// operand pairs that mostly overflow, or divide by zero
fn overflowing() -> BoxedStrategy<(Src, Op, Src)> {
    let zero = prop::sample::select(vec!["0", "-0", "0.0", ".000000000000000000000000000000", "0000000000", "0e20"]).prop_map(Src::lit);
    let zero2 = prop_oneof![3 => zero, 1 => lit().prop_map(|l| Src::op(Src::Lit(l.clone()), Op::Sub, Src::Lit(l)))];
    let by_zero = (src(), prop::sample::select(vec![Op::Div, Op::Rem]), zero2);
    let addsub = (lit_of(65, 4, 65), 46usize..65, prop::sample::select(vec![Op::Add, Op::Sub]), wide_src(), any::<bool>(), lit_of(0, 65, 65)).prop_map(|(a, k, op, w, sw, tiny)| {
        let _ = k;
        let b = Src::Lit(tiny);
        let a = if sw { w } else { Src::Lit(a) };
        (a, op, b)
    });
    let big = (wide_src(), prop::sample::select(vec![Op::Add, Op::Sub, Op::Mul]), wide_src());
    let mul = (lit_of(65, 10, 65), lit_of(65, 10, 65)).prop_map(|(a, b)| (Src::Lit(a), Op::Mul, Src::Lit(b)));
    let div = (wide_src(), 0usize..65).prop_map(|(a, k)| (a, Op::Div, Src::Lit(ulp_lit(k))));
    let full = (0usize..=36, 0u8..3, any::<bool>()).prop_map(|(k, m, neg)| {
        // 81 nines plus a step
        let nine = |n: usize| "9".repeat(n);
        let hi = Src::op(Src::Lit(nine(45)), Op::Mul, Src::lit("1e36"));
        let all = Src::op(hi, Op::Add, Src::Lit(nine(36)));
        let all = if neg { Src::Neg(Box::new(all)) } else { all };
        let step = Src::Lit(match m {
            0 => "1".to_string(),
            1 => format!("1e{}", k),
            _ => ulp_lit(k),
        });
        (all, if neg { Op::Sub } else { Op::Add }, step)
    });
    prop_oneof![3 => by_zero, 3 => addsub, 2 => big, 3 => mul, 2 => div, 2 => full].boxed()
}

pub struct C23;
impl Prop for C23 {
    type Case = FailCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "one to three operations, mostly failing (division by zero in every spelling of zero, overflow by size and by alignment, rejected text with and without reset), into one destination of any previous content, followed by a full set of later uses of that destination compared with a fresh decimal of the same value; non-trivial: at least one operation failed with an error and the destination was not zero before";
    fn strategy(t: Tier) -> BoxedStrategy<FailCase> {
        let f = prop_oneof![
            6 => (overflowing(), super::arith::incrs()).prop_map(|((a, o, b), i)| Failing::Arith(a, o, b, i)),
            1 => (pair(), ops(), super::arith::incrs()).prop_map(|(p, o, i)| Failing::Arith(p.a, o, p.b, i)),
            3 => super::text::C02::strategy(t).prop_map(|c| Failing::Parse(c.bytes, c.reset)),
        ];
        (dirty(), prop::collection::vec(f, 1..4), src(), -20i64..50).prop_map(|(prev, fails, then, k)| FailCase { prev, fails, then, k }).boxed()
    }
    fn enumerate() -> Vec<FailCase> {
        let mut v = Vec::new();
        let prevs = ["7", "-0.5", "-99999999999999999999999999999999999.999999999999999999999999999999", "123456789012345678901234567890.123456789"];
        for p in prevs {
            for (i, f) in super::arith::shapes() {
                for z in ["0", "-0.0", "0.000000000000000000000000000001"] {
                    for op in [Op::Div, Op::Rem] {
                        v.push(FailCase { prev: Src::lit(p), fails: vec![Failing::Arith(Src::Lit(super::arith::rep('7', i, f)), op, Src::lit(z), 4)], then: Src::lit("-1.5"), k: 1 });
                    }
                }
                for (j, g) in [(65, 0), (0, 65), (35, 30), (64, 1), (1, 64)] {
                    for op in [Op::Add, Op::Sub, Op::Mul] {
                        v.push(FailCase {
                            prev: Src::lit(p),
                            fails: vec![Failing::Arith(Src::Lit(super::arith::rep('9', i, f)), op, Src::Lit(super::arith::rep('9', j, g)), 4)],
                            then: Src::lit("-1.5"),
                            k: 1,
                        });
                    }
                }
            }
            for t in ["", "-", ".", "1x", "1e", "1e99", "--1", "99999999999999999999999999999999999999999999999999999999999999999999", "12345678901234567890.5z", "1.2.3", "5e-31"] {
                for r in [true, false] {
                    v.push(FailCase { prev: Src::lit(p), fails: vec![Failing::Parse(t.as_bytes().to_vec(), r)], then: Src::lit("2"), k: 0 });
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<FailCase> {
        let prev = fast::used(r);
        let fails = (0..=r.below(3))
            .map(|_| {
                if r.one_in(4) {
                    Failing::Parse(fast::edited(r), r.one_in(2))
                } else {
                    let (a, o, b) = fast::failing(r);
                    Failing::Arith(a, o, b, fast::incr(r))
                }
            })
            .collect();
        let then = fast::src(r);
        Some(FailCase { prev, fails, then, k: r.int(-20, 50) })
    }
    fn fast_factor() -> u64 {
        4
    }
    fn quick_cases() -> u64 {
        400_000
    }
    fn check(c: &FailCase, cx: &mut Cx) -> Result<(), String> {
        let (Some((mut d, mut cur)), Some((t, nt))) = (operand(&c.prev), operand(&c.then)) else {
            return cx.discard();
        };
        let mut failed = 0;
        let was = !cur.is_zero();
        for f in &c.fails {
            let (what, r) = match f {
                Failing::Arith(a, op, b, incr) => {
                    let (Some((a, na)), Some((b, nb))) = (operand(a), operand(b)) else {
                        return cx.discard();
                    };
                    let what = format!("{} {} {} into {}", na.text(), op.name(), nb.text(), cur.text());
                    let r = guard(|| op.apply_to(&a, &b, &mut d, *incr)).map_err(|p| format!("{}: {}", what, p))?;
                    expect_is("left operand afterwards", &a, &na)?;
                    expect_is("right operand afterwards", &b, &nb)?;
                    (what, r)
                }
                Failing::Parse(bytes, reset) => {
                    let mut e = d.clone();
                    let what = format!("parsing {:?} (reset {}) into {}", String::from_utf8_lossy(bytes), reset, cur.text());
                    let r = guard(|| e.from_bytes_str(bytes, *reset)).map_err(|p| format!("{}: {}", what, p))?;
                    if r.is_ok() && !reset {
                        // only specified on a fresh zero
                        continue;
                    }
                    if let Ok(t) = std::str::from_utf8(bytes) {
                        let mut e2 = d.clone();
                        let r2 = guard(|| e2.from_ascii_str(t, *reset)).map_err(|p| format!("{}: {}", what, p))?;
                        if r2.is_ok() != r.is_ok() || guard(|| shape(&e) != shape(&e2)).unwrap_or(true) {
                            return Err(format!("{}: leaves {} as bytes and {} as text", what, e.to_string(-1), e2.to_string(-1)));
                        }
                    }
                    d = e;
                    (what, r)
                }
            };
            let n = guard(|| observe(&d)).map_err(|p| format!("{}: the destination cannot be printed: {}", what, p))?.map_err(|e| format!("{}: destination: {}", what, e))?;
            if let Err(e) = &r {
                failed += 1;
                cx.label(err_kind(e));
                let zero = n.is_zero() && n.scale == 0 && !n.neg;
                let same = n.text() == cur.text();
                if !zero && !same {
                    return Err(format!("{}: failed ({}) but left {} in the destination", what, err_kind(e), n.text()));
                }
                if let (Failing::Parse(_, reset), false) = (f, zero && same) {
                    if *reset != zero {
                        return Err(format!("{}: failed and left {}", what, n.text()));
                    }
                }
            }
            cur = n;
        }
        if failed == 0 {
            cx.label("nothing_failed");
            return Ok(());
        }
        // the destination against a decimal of the same text made afresh
        let text = cur.text();
        if text_digits(&cur) > spec::MAX_DIGITS {
            return Ok(());
        }
        let fresh: FixedDecimal = text.parse().map_err(|_| format!("{:?} left in the destination is not a literal", text))?;
        let p = |what: &str, p: Panicked| format!("{} on {} left by a failed operation: {}", what, text, p);
        if d != fresh || d.cmp(&fresh) != Ordering::Equal || d.is_neg() != fresh.is_neg() || d.is_zero() != fresh.is_zero() || d.frac() != fresh.frac() {
            return Err(format!("{} left by a failed operation is not equal to the decimal {}", text, fresh.to_string(-1)));
        }
        if d.intg() as usize + (9 - d.intg() as usize % 9) % 9 + 9 * d.frac_units() > 81 {
            return Err(format!("{} left by a failed operation reports {} integral digits", text, d.intg()));
        }
        let ints = |f: &FixedDecimal| (f.as_i64().ok(), f.as_u64().ok(), f.cmp(&t), t.cmp(f));
        if guard(|| ints(&d)).map_err(|e| p("conversion", e))? != ints(&fresh) {
            return Err(format!("{} left by a failed operation converts or compares differently", text));
        }
        for op in OPS {
            for sw in [false, true] {
                let run = |x: &FixedDecimal| {
                    let (l, r) = if sw { (&t, x) } else { (x, &t) };
                    op.compute(l, r, 4).map(|v| v.to_string(-1)).map_err(|e| err_kind(&e))
                };
                let a = guard(|| run(&d)).map_err(|e| p(op.name(), e))?;
                let b = guard(|| run(&fresh)).map_err(|e| p(op.name(), e))?;
                if a != b {
                    return Err(format!("{} left by a failed operation, {} with {}: {:?}, a fresh one: {:?}", text, op.name(), nt.text(), a, b));
                }
                // and once more as a destination
                let mut e = d.clone();
                let (l, r) = if sw { (&t, &fresh) } else { (&fresh, &t) };
                let a = guard(|| op.apply_to(l, r, &mut e, 4).map(|_| e.to_string(-1)).map_err(|e| err_kind(&e))).map_err(|e| p("writing", e))?;
                if a != b {
                    return Err(format!("writing {} {} {} into a destination left by a failed operation gives {:?}, elsewhere {:?}", text, op.name(), nt.text(), a, b));
                }
            }
        }
        let mut x = d.clone();
        let mut y = fresh.clone();
        guard(|| x.round(c.k as isize)).map_err(|e| p("rounding", e))?;
        guard(|| y.round(c.k as isize)).map_err(|e| p("rounding", e))?;
        if x != y || x.to_string(-1) != y.to_string(-1) {
            return Err(format!("{} left by a failed operation rounds to {} at {}, a fresh one to {}", text, x.to_string(-1), c.k, y.to_string(-1)));
        }
        let mut x = d.clone();
        let nt_text = nt.text();
        if text_digits(&nt) <= spec::MAX_DIGITS {
            let r = guard(|| x.from_ascii_str(&nt_text, true)).map_err(|e| p("parsing", e))?;
            if r.is_err() || x.to_string(-1) != nt_text {
                return Err(format!("parsing {} into a destination left by a failed operation gives {}", nt_text, x.to_string(-1)));
            }
        }
        let mut x = d.clone();
        x.set_neg();
        let mut y = fresh.clone();
        y.set_neg();
        if x != y || x.is_neg() != y.is_neg() || x.to_string(-1) != y.to_string(-1) {
            return Err(format!("{} left by a failed operation, made negative: {}", text, x.to_string(-1)));
        }
        x.set_one();
        if shape(&x) != shape(&FixedDecimal::one()) {
            return Err("set_one on a destination left by a failed operation does not give one".into());
        }
        cx.label_if(failed >= 2, "two_or_more_failures");
        cx.nontrivial_if(was);
        Ok(())
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Coll {
    pub xs: Vec<Src>,
    /// seed of the permutation and of the grouping
    pub perm: u64,
    /// (index, how, k): another representation of an element, used for look-ups
    pub probes: Vec<(usize, u8, usize)>,
}

pub struct C24;

fn next(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

fn sum_in(order: &[usize], v: &[FixedDecimal]) -> Result<Option<FixedDecimal>, String> {
    let mut acc = FixedDecimal::zero();
    for i in order {
        // running total, the way an aggregate does it: two alternating destinations
        let mut res = FixedDecimal::zero();
        match guard(|| FixedDecimal::add_to(&acc, &v[*i], &mut res)) {
            Ok(Ok(())) => acc = res,
            Ok(Err(_)) => return Ok(None),
            Err(p) => return Err(format!("{} + {}: {}", acc.to_string(-1), v[*i].to_string(-1), p)),
        }
    }
    Ok(Some(acc))
}

fn sum_tree(ix: &[usize], v: &[FixedDecimal], s: &mut u64) -> Result<Option<FixedDecimal>, String> {
    match ix.len() {
        0 => Ok(Some(FixedDecimal::zero())),
        1 => Ok(Some(v[ix[0]].clone())),
        n => {
            let cut = 1 + (next(s) % (n as u64 - 1)) as usize;
            let (Some(a), Some(b)) = (sum_tree(&ix[..cut], v, s)?, sum_tree(&ix[cut..], v, s)?) else {
                return Ok(None);
            };
            guard(|| Op::Add.compute(&a, &b, 0)).map(|r| r.ok()).map_err(|p| format!("{} + {}: {}", a.to_string(-1), b.to_string(-1), p))
        }
    }
}

impl Prop for C24 {
    type Case = Coll;
    const ID: &'static str = "C24";
    const RULE: &'static str = "lists of 2 to 12 decimals (independent, or related: equal values in other representations, one step apart, shared leading digits), summed in several orders and groupings, sorted, deduplicated and used as keys of ordered and hashed maps with look-ups through other representations; lists of 100 to 1000 decimals enumerated; non-trivial: at least four elements with at least two distinct values, and two elements equal or sharing sign and leading group";
    fn strategy(_: Tier) -> BoxedStrategy<Coll> {
        let small = prop::collection::vec(lit_of(12, 9, 20).prop_map(Src::Lit), 2..12);
        let indep = prop::collection::vec(src(), 2..8);
        let rel = prop::collection::vec(trio(), 1..4).prop_map(|v| v.into_iter().flat_map(|Trio { a, b, c }| [a, b, c]).collect::<Vec<_>>());
        let alpha = (units16(), prop::collection::vec((0usize..=16, 0usize..=9, prop_oneof![2 => Just(None), 1 => (0usize..16, unit()).prop_map(Some)], any::<bool>()), 3..12)).prop_map(|(u, v)| {
            v.into_iter()
                .map(|(i, f, dev, neg)| {
                    let mut w = u.clone();
                    if let Some((p, x)) = dev {
                        w[p] = x;
                    }
                    let t = format!("{}{}.{}", if neg { "-" } else { "" }, int_string(&w[..8], (2 * i).max(1)), frac_string(&w[8..], 3 * f + 1));
                    Src::Lit(t)
                })
                .collect::<Vec<_>>()
        });
        let dup = (prop::collection::vec(src(), 1..4), prop::collection::vec((0usize..4, 0u8..10, 0usize..30), 2..8)).prop_map(|(b, d)| {
            let mut v = b.clone();
            for (i, how, k) in d {
                v.push(relayout(b[i % b.len()].clone(), how, k));
            }
            v
        });
        (prop_oneof![3 => small, 2 => indep, 3 => rel, 2 => alpha, 2 => dup], any::<u64>(), prop::collection::vec((0usize..12, 0u8..10, 0usize..30), 1..4))
            .prop_map(|(xs, perm, probes)| Coll { xs, perm: perm | 1, probes })
            .boxed()
    }
    fn enumerate() -> Vec<Coll> {
        let mut v = Vec::new();
        // long lists: carries and borrows that need many steps, many equal keys, many neighbours
        for n in [100usize, 257, 1000] {
            for t in ["0.999999999", "999999999", "-999999999999999999.999999999999999999999999999999", "0.000000000000000000000000000001", "1", "-0.5", "99999999999999999999999999999999999.999999999999999999"] {
                let xs = vec![Src::lit(t); n];
                v.push(Coll { xs, perm: n as u64, probes: vec![(0, 3, 5)] });
            }
            let mix = |f: &dyn Fn(usize) -> String| (0..n).map(|i| Src::Lit(f(i))).collect::<Vec<_>>();
            for xs in [
                mix(&|i| format!("{}{}.{:03}", if i % 3 == 0 { "-" } else { "" }, i * 7919 % n, i % 10 * 100)),
                mix(&|i| format!("999999999{:09}.{:09}", i * 31 % n, 999999999 - i)),
                mix(&|i| format!("{}e{}", if i % 2 == 0 { 1 } else { -1 }, i % 60)),
                mix(&|i| format!("{}1e-{}", if i % 2 == 0 { "" } else { "-" }, i % 30)),
                mix(&|i| format!("{}0.{:027}", if i % 5 == 0 { "-" } else { "" }, i * 1_000_000_007)),
            ] {
                v.push(Coll { xs, perm: 2 * n as u64 + 1, probes: vec![(1, 2, 3), (5, 7, 9)] });
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Coll> {
        let n = r.below(11) + 2;
        let g = fast::groups(r);
        let (mi, mf) = r.pick(&[(28, 19), (10, 10), (19, 30), (36, 10)]);
        let (i, f) = (r.below(mi), r.below(mf));
        let mut xs: Vec<Src> = Vec::new();
        for _ in 0..n {
            let x = match r.below(8) {
                0 => fast::src(r),
                1 | 2 if !xs.is_empty() => {
                    let k = r.below(xs.len());
                    let s = xs[k].clone();
                    fast::other_layout(r, s)
                }
                c => {
                    // the same groups but for one, in the same or another shape
                    let mut w = g;
                    if c > 3 {
                        w[r.below(16)] = fast::group(r);
                    }
                    let (i, f) = if r.one_in(2) { (i, f) } else { (r.below(mi), r.below(mf)) };
                    let neg = r.one_in(3);
                    Src::Lit(fast::literal(&w, if i + f == 0 { 1 } else { i }, f, neg))
                }
            };
            xs.push(x);
        }
        let probes = (0..=r.below(3)).map(|_| (r.below(12), r.below(10) as u8, r.below(30))).collect();
        Some(Coll { xs, perm: r.next() | 1, probes })
    }
    fn fast_factor() -> u64 {
        2
    }
    fn quick_cases() -> u64 {
        300_000
    }
    fn check(c: &Coll, cx: &mut Cx) -> Result<(), String> {
        let mut v = Vec::new();
        let mut m = Vec::new();
        for s in &c.xs {
            if let Some((f, n)) = operand(s) {
                v.push(f);
                m.push(n);
            }
        }
        if v.len() < 2 {
            return cx.discard();
        }
        let show = |v: &[FixedDecimal]| v.iter().map(|f| f.to_string(-1)).collect::<Vec<_>>().join(", ");
        let n = v.len();
        let mut seed = c.perm;
        // sums
        let fwd: Vec<usize> = (0..n).collect();
        let mut shuffled = fwd.clone();
        for i in (1..n).rev() {
            shuffled.swap(i, (next(&mut seed) % (i as u64 + 1)) as usize);
        }
        let rev: Vec<usize> = fwd.iter().rev().copied().collect();
        let mut asc = fwd.clone();
        asc.sort_by(|i, j| m[*i].cmp_value(&m[*j]));
        let mut exact = Num::zero();
        for x in &m {
            exact = exact.add(x);
        }
        let sums = [("in order", sum_in(&fwd, &v)?), ("reversed", sum_in(&rev, &v)?), ("shuffled", sum_in(&shuffled, &v)?), ("ascending", sum_in(&asc, &v)?), ("grouped", sum_tree(&shuffled, &v, &mut seed)?)];
        let mut got = 0;
        for (how, s) in &sums {
            if let Some(s) = s {
                got += 1;
                let o = observe(s)?;
                if !o.eq_value(&exact) {
                    return Err(format!("sum of [{}] {} is {}, exactly {}", show(&v), how, o.text(), exact.text()));
                }
            }
        }
        for (h1, a) in &sums {
            for (h2, b) in &sums {
                if let (Some(a), Some(b)) = (a, b) {
                    if a != b {
                        return Err(format!("sum of [{}]: {} {} but {} {}", show(&v), h1, a.to_string(-1), h2, b.to_string(-1)));
                    }
                }
            }
        }
        cx.label_if(got == sums.len(), "all_sums_without_overflow");
        // taking the elements away again
        if let Some(mut acc) = sums[0].1.clone() {
            let mut ok = true;
            for i in &shuffled {
                match guard(|| Op::Sub.compute(&acc, &v[*i], 0)) {
                    Ok(Ok(r)) => acc = r,
                    Ok(Err(_)) => {
                        ok = false;
                        break;
                    }
                    Err(p) => return Err(format!("{} - {}: {}", acc.to_string(-1), v[*i].to_string(-1), p)),
                }
            }
            if ok && (!acc.is_zero() || acc.is_neg() || acc != FixedDecimal::zero()) {
                return Err(format!("sum of [{}] minus all its elements is {}", show(&v), acc.to_string(-1)));
            }
        }
        // sorting
        let want: Vec<&Num> = asc.iter().map(|i| &m[*i]).collect();
        let same = |got: &[FixedDecimal], want: &[&Num]| got.len() == want.len() && got.iter().zip(want).all(|(g, w)| observe(g).is_ok_and(|o| o.eq_value(w)));
        let mut s1 = v.clone();
        guard(|| s1.sort()).map_err(|p| p.to_string())?;
        let mut s2: Vec<FixedDecimal> = shuffled.iter().map(|i| v[*i].clone()).collect();
        guard(|| s2.sort_unstable()).map_err(|p| p.to_string())?;
        let mut s3 = v.clone();
        guard(|| s3.sort_by(|a, b| a.partial_cmp(b).unwrap())).map_err(|p| p.to_string())?;
        for s in [&s1, &s2, &s3] {
            if !same(s, &want) {
                return Err(format!("[{}] sorts to [{}]", show(&v), show(s)));
            }
        }
        let mut distinct: Vec<&Num> = Vec::new();
        for w in &want {
            if !distinct.last().is_some_and(|l| l.eq_value(w)) {
                distinct.push(w);
            }
        }
        s1.dedup();
        if !same(&s1, &distinct) {
            return Err(format!("[{}] sorted and deduplicated is [{}]", show(&v), show(&s1)));
        }
        // ordered collections
        let set: BTreeSet<FixedDecimal> = v.iter().cloned().collect();
        if !same(&set.iter().cloned().collect::<Vec<_>>(), &distinct) {
            return Err(format!("ordered set of [{}] holds [{}]", show(&v), show(&set.iter().cloned().collect::<Vec<_>>())));
        }
        let mut map: BTreeMap<FixedDecimal, usize> = BTreeMap::new();
        for (i, x) in v.iter().enumerate() {
            map.insert(x.clone(), i);
        }
        if map.len() != distinct.len() {
            return Err(format!("ordered map over [{}] has {} entries", show(&v), map.len()));
        }
        let hashed: HashMap<FixedDecimal, usize> = v.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
        let hset: HashSet<FixedDecimal> = v.iter().cloned().collect();
        // equal keys with other group counts may or may not coincide
        if hset.len() < distinct.len() || hset.len() > n || hashed.len() < distinct.len() {
            return Err(format!("hash set of [{}] has {} elements, {} values are distinct", show(&v), hset.len(), distinct.len()));
        }
        let mut probes: Vec<(usize, FixedDecimal)> = v.iter().cloned().enumerate().collect();
        for (i, how, k) in &c.probes {
            let i = i % n;
            let s = relayout(c.xs[i % c.xs.len()].clone(), *how, *k);
            if let Some((f, nf)) = operand(&s) {
                if let Some(j) = m.iter().position(|x| x.eq_value(&nf)) {
                    cx.label("lookup_by_other_representation");
                    probes.push((j, f));
                }
            }
        }
        for (i, f) in &probes {
            let w = &m[*i];
            let last = (0..n).rev().find(|j| m[*j].eq_value(w)).unwrap();
            if map.get(f) != Some(&last) {
                return Err(format!("ordered map over [{}]: look-up of {} gives {:?}, the last equal element is {}", show(&v), f.to_string(-1), map.get(f), last));
            }
            if !set.contains(f) {
                return Err(format!("ordered set of [{}] does not contain {}", show(&v), f.to_string(-1)));
            }
            match s1.binary_search(f) {
                Ok(p) if distinct[p].eq_value(w) => {}
                o => return Err(format!("binary search for {} in [{}] gives {:?}", f.to_string(-1), show(&s1), o)),
            }
            let below = s1.partition_point(|x| x < f);
            let wb = distinct.iter().filter(|x| x.cmp_value(w) == Ordering::Less).count();
            if below != wb || set.range(..f.clone()).count() != wb {
                return Err(format!("{} elements of [{}] found below {}", below, show(&s1), f.to_string(-1)));
            }
            // hashed look-up: guaranteed for the same group counts
            let same_units = |j: &usize| v[*j].intg_units() == f.intg_units() && v[*j].frac_units() == f.frac_units() && m[*j].eq_value(w);
            if (0..n).any(|j| same_units(&j)) {
                match hashed.get(f) {
                    Some(j) if m[*j].eq_value(w) => {}
                    o => return Err(format!("hash map over [{}]: look-up of {} (same group counts as its key) gives {:?}", show(&v), f.to_string(-1), o)),
                }
            } else if hashed.get(f).is_some_and(|j| !m[*j].eq_value(w)) {
                return Err(format!("hash map over [{}]: look-up of {} finds another value", show(&v), f.to_string(-1)));
            }
        }
        let (mx, mn) = (v.iter().max().unwrap(), v.iter().min().unwrap());
        if !observe(mx)?.eq_value(want[n - 1]) || !observe(mn)?.eq_value(want[0]) {
            return Err(format!("[{}] has maximum {} and minimum {}", show(&v), mx.to_string(-1), mn.to_string(-1)));
        }
        // the same through the provided methods, folded in the given and in the shuffled order
        for ix in [&fwd, &shuffled] {
            let (fx, fm) = guard(|| {
                let items = || ix.iter().map(|i| v[*i].clone());
                (items().reduce(Ord::max).unwrap(), items().reduce(Ord::min).unwrap())
            })
            .map_err(|p| p.to_string())?;
            if !observe(&fx)?.eq_value(want[n - 1]) || !observe(&fm)?.eq_value(want[0]) {
                return Err(format!("[{}] folded with max gives {} and with min {}", show(&v), fx.to_string(-1), fm.to_string(-1)));
            }
        }
        let (lo, hi) = ((next(&mut seed) % n as u64) as usize, (next(&mut seed) % n as u64) as usize);
        let (lo, hi) = (lo.min(hi), lo.max(hi));
        for i in 0..n {
            let got = guard(|| v[i].clone().clamp(v[asc[lo]].clone(), v[asc[hi]].clone())).map_err(|p| p.to_string())?;
            let expect = if m[i].cmp_value(want[lo]).is_lt() {
                want[lo]
            } else if m[i].cmp_value(want[hi]).is_gt() {
                want[hi]
            } else {
                &m[i]
            };
            if !observe(&got)?.eq_value(expect) {
                return Err(format!("{} clamped to {}..{} is {}", m[i].text(), want[lo].text(), want[hi].text(), got.to_string(-1)));
            }
        }
        // other order-based containers
        let heap: BinaryHeap<FixedDecimal> = shuffled.iter().map(|i| v[*i].clone()).collect();
        let s4 = guard(|| heap.into_sorted_vec()).map_err(|p| p.to_string())?;
        if !same(&s4, &want) {
            return Err(format!("[{}] leaves a heap as [{}]", show(&v), show(&s4)));
        }
        let mut s5: Vec<std::cmp::Reverse<FixedDecimal>> = v.iter().cloned().map(std::cmp::Reverse).collect();
        s5.sort();
        let s5: Vec<FixedDecimal> = s5.into_iter().rev().map(|r| r.0).collect();
        if !same(&s5, &want) {
            return Err(format!("[{}] sorted in reverse and turned is [{}]", show(&v), show(&s5)));
        }
        // lists compare lexicographically
        let (la, lb) = (&v[..n / 2], &v[n - n / 2..]);
        let lw = m[..n / 2].iter().zip(&m[n - n / 2..]).map(|(a, b)| a.cmp_value(b)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal);
        if la.cmp(lb) != lw || la.partial_cmp(lb) != Some(lw) || (la == lb) != lw.is_eq() {
            return Err(format!("[{}] and [{}] compare as {:?}, element by element {:?}", show(la), show(lb), la.cmp(lb), lw));
        }
        let rel = (1..n).any(|i| {
            let (a, b) = (want[i - 1], want[i]);
            a.eq_value(b) || a.neg == b.neg && a.int_units() == b.int_units() && !a.is_zero() && a.mag.len() > 2 && b.mag.len() > 2 && a.mag.0[a.mag.len() - 1] == b.mag.0[b.mag.len() - 1]
        });
        cx.label_if(distinct.len() < n, "equal_elements");
        cx.nontrivial_if(n >= 4 && distinct.len() >= 2 && rel);
        Ok(())
    }
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Extend {
    pub p: Pair,
    pub k: i64,
    pub j: i64,
    pub i1: usize,
    pub i2: usize,
}

pub struct C25;
impl Prop for C25 {
    type Case = Extend;
    const ID: &'static str = "C25";
    const RULE: &'static str = "decimals of every origin formatted with k and k+j digits, rounded to more digits than they have, and pairs divided with two extra-precision arguments; the longer answer must start with the shorter; non-trivial: the quotients differ in scale, or the longer text reveals a further non-zero digit";
    fn strategy(_: Tier) -> BoxedStrategy<Extend> {
        let p = prop_oneof![4 => super::arith::div_pairs(), 3 => pair(), 2 => (lit_of(20, 20, 30), lit_of(12, 9, 15)).prop_map(|(a, b)| Pair { a: Src::Lit(a), b: Src::Lit(b) })];
        (p, prop_oneof![3 => 0i64..40, 1 => 0i64..90], prop_oneof![2 => 1i64..12, 1 => 1i64..90], prop_oneof![2 => 0usize..12, 1 => 0usize..40], prop_oneof![3 => 0usize..40, 1 => super::arith::incrs()])
            .prop_map(|(p, k, j, i1, d)| Extend { p, k, j, i1, i2: i1.saturating_add(d) })
            .boxed()
    }
    fn enumerate() -> Vec<Extend> {
        let mut v = Vec::new();
        for (i, f) in super::arith::shapes() {
            for k in 0..=(f as i64 + 10) {
                for j in [1, 2, 3, 9] {
                    v.push(Extend { p: Pair { a: Src::Lit(super::arith::rep('7', i, f)), b: Src::lit("-3") }, k, j, i1: k as usize, i2: (k + j) as usize });
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Extend> {
        let (a, b) = if r.one_in(2) { fast::divided(r) } else { fast::pair(r) };
        let i1 = fast::incr(r);
        Some(Extend { p: Pair { a, b }, k: r.int(0, 60), j: r.int(1, 30), i1, i2: i1 + r.below(30) })
    }
    fn quick_cases() -> u64 {
        1_200_000
    }
    fn check(c: &Extend, cx: &mut Cx) -> Result<(), String> {
        let c = &Extend { i1: c.i1.min(c.i2), i2: c.i1.max(c.i2), ..c.clone() };
        let (Some(a), Some(b)) = (c.p.a.build(), c.p.b.build()) else {
            return cx.discard();
        };
        let mut reveals = false;
        for f in [&a, &b] {
            let show = |k: i64| guard(|| f.to_string(k as isize)).map_err(|p| format!("{:?} with {} digits: {}", c.p, k, p));
            let (s, l, full) = (show(c.k)?, show(c.k + c.j)?, show(-1)?);
            let tail = extends(&s, &l).ok_or_else(|| format!("{}: with {} digits {}, with {} digits {}", full, c.k, s, c.k + c.j, l))?;
            if frac_len(&s) as i64 != c.k || frac_len(&l) as i64 != c.k + c.j {
                return Err(format!("{}: {} digits asked, got {}; {} digits asked, got {}", full, c.k, s, c.k + c.j, l));
            }
            reveals |= tail.bytes().any(|d| d != b'0');
            // against the complete text
            let (short, long) = if (c.k as usize) < frac_len(&full) { (&s, &full) } else { (&full, &s) };
            let t = extends(short, long).ok_or_else(|| format!("{} with {} digits is {}", full, c.k, s))?;
            if std::ptr::eq(short, &full) && t.bytes().any(|d| d != b'0') {
                return Err(format!("{} with {} digits is {}", full, c.k, s));
            }
            // rounding to more digits than there are is an extension too
            let k = f.frac() as i64 + c.j;
            let mut r = f.clone();
            guard(|| r.round(k as isize)).map_err(|p| format!("{} rounded to {}: {}", full, k, p))?;
            let rt = r.to_string(-1);
            match extends(&full, &rt) {
                Some(t) if t.bytes().all(|d| d == b'0') && r == *f => {}
                _ => return Err(format!("{} rounded to {} is {}", full, k, rt)),
            }
        }
        // quotients
        let div = |i: usize| guard(|| Op::Div.compute(&a, &b, i)).map_err(|p| format!("{} / {} (extra {}): {}", a.to_string(-1), b.to_string(-1), i, p));
        let (q1, q2) = (div(c.i1)?, div(c.i2)?);
        match (q1, q2) {
            (Ok(q1), Ok(q2)) => {
                let (s, l) = (q1.to_string(-1), q2.to_string(-1));
                let (s0, l0) = (s.trim_start_matches('-'), l.trim_start_matches('-'));
                let what = format!("{} / {}: {} extra digits {}, {} extra digits {}", a.to_string(-1), b.to_string(-1), c.i1, s, c.i2, l);
                let tail = extends(s0, l0).ok_or(what.clone())?;
                // the sign shows as soon as the value is not zero
                if !q1.is_zero() && q1.is_neg() != q2.is_neg() || !q2.is_zero() && q2.is_neg() != (a.is_neg() != b.is_neg()) {
                    return Err(what);
                }
                let lim = |i: usize| (a.frac() as usize + b.frac() as usize).saturating_add(i);
                if !a.is_zero() {
                    for (q, i) in [(&q1, c.i1), (&q2, c.i2)] {
                        let room = 36.min(9 * (9 - q.intg_units().min(9)));
                        if (q.frac() as usize) < lim(i).min(room) {
                            return Err(format!("{}: fewer digits than asked for", what));
                        }
                    }
                }
                cx.label_if(!tail.is_empty(), "quotient_extended");
                cx.nontrivial_if(!tail.is_empty());
            }
            (Err(e1), Err(e2)) if err_kind(&e1) == err_kind(&e2) => {}
            (r1, r2) => {
                let f = |r: fxd::Result<FixedDecimal>| r.map(|q| q.to_string(-1)).map_err(|e| err_kind(&e));
                return Err(format!("{} / {}: {} extra digits {:?}, {} extra digits {:?}", a.to_string(-1), b.to_string(-1), c.i1, f(r1), c.i2, f(r2)));
            }
        }
        cx.label_if(reveals, "further_digits_revealed");
        cx.nontrivial_if(reveals);
        Ok(())
    }
}

fn frac_len(t: &str) -> usize {
    t.find('.').map_or(0, |p| t.len() - p - 1)
}

/// what `long` adds to `short`, if it starts with it
fn extends<'a>(short: &str, long: &'a str) -> Option<&'a str> {
    let t = long.strip_prefix(short)?;
    if t.is_empty() || short.contains('.') {
        Some(t)
    } else {
        t.strip_prefix('.')
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shift {
    pub p: Pair,
    /// places a and b move together, and b moves alone
    pub e: i64,
    pub f: i64,
    pub k: i64,
    /// by exponent of the literal where possible, else by multiplying
    pub by_exponent: bool,
}

fn shifted(n: &Num, e: i64) -> Num {
    if e >= 0 {
        Num::new(n.neg, n.mag.shl10(e as usize), n.scale)
    } else {
        Num::new(n.neg, n.mag.clone(), n.scale + (-e) as usize)
    }
}

/// the operand with its decimal point moved by e places, only if nothing is lost
fn moved(s: &Src, f: &FixedDecimal, e: i64, by_exponent: bool) -> Result<Option<FixedDecimal>, String> {
    if let (Src::Lit(t), true) = (s, by_exponent) {
        if !t.contains(['e', 'E']) && (-30..=65).contains(&e) {
            return Ok(format!("{}e{}", t, e).parse().ok());
        }
    }
    let p: FixedDecimal = match (if e >= 0 { format!("1e{}", e) } else { ulp_lit((-e) as usize) }).parse() {
        Ok(p) => p,
        Err(_) => return Ok(None),
    };
    match guard(|| Op::Mul.compute(f, &p, 0)) {
        Ok(Ok(r)) => Ok((f.is_zero() || r.frac() as i64 == f.frac() as i64 + p.frac() as i64).then_some(r)),
        Ok(Err(_)) => Ok(None),
        Err(x) => Err(format!("{} * {}: {}", f.to_string(-1), p.to_string(-1), x)),
    }
}

pub struct C26;
impl Prop for C26 {
    type Case = Shift;
    const ID: &'static str = "C26";
    const RULE: &'static str = "operand pairs of any kind computed as they are and again after moving the decimal point of one or both by -36..36 places (by exponent or by multiplication, exact moves only); results must be the same digits with the point moved; non-trivial: the distance is not a multiple of nine (digits fall differently into groups), both operands non-zero and at least three relations compared";
    fn strategy(_: Tier) -> BoxedStrategy<Shift> {
        let e = prop_oneof![4 => -12i64..=12, 2 => -36i64..=36];
        let p = prop_oneof![
            3 => pair(),
            2 => super::arith::div_pairs(),
            4 => (lit_of(20, 12, 24), lit_of(20, 12, 24)).prop_map(|(a, b)| Pair { a: Src::Lit(a), b: Src::Lit(b) }),
            2 => (lit_of(40, 20, 40), lit_of(18, 9, 20)).prop_map(|(a, b)| Pair { a: Src::Lit(a), b: Src::Lit(b) }),
        ];
        (p, e.clone(), e, -20i64..30, any::<bool>()).prop_map(|(p, e, f, k, by_exponent)| Shift { p, e, f, k, by_exponent }).boxed()
    }
    fn enumerate() -> Vec<Shift> {
        // literals of every short shape, with and without a point, by every exponent
        let mut v = Vec::new();
        for i in [0, 1, 2, 4, 8, 9, 10, 11, 18, 19, 27, 28, 35] {
            for f in [0, 1, 2, 5, 8, 9, 10, 17, 18, 19, 27, 30] {
                if i + f == 0 {
                    continue;
                }
                let digits = |n: usize, from: usize| -> String { (0..n).map(|p| (b'1' + ((p * 7 + from) % 9) as u8) as char).collect() };
                for e in -30..=64 {
                    let t = if f == 0 && e % 2 == 0 { digits(i, 3) } else { format!("{}.{}", digits(i, 3), digits(f, 5)) };
                    let (e, f) = (e as i64, f as i64);
                    if i as i64 + e.max(f) <= 65 && f.max(f - e) <= 65 {
                        v.push(Shift { p: Pair { a: Src::Lit(t), b: Src::Lit("3".into()) }, e, f: -e / 2, k: e % 11, by_exponent: true });
                    }
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Shift> {
        let (a, b) = fast::pair(r);
        Some(Shift { p: Pair { a, b }, e: r.int(-20, 20), f: r.int(-20, 20), k: r.int(-20, 30), by_exponent: r.one_in(2) })
    }
    fn quick_cases() -> u64 {
        900_000
    }
    fn check(c: &Shift, cx: &mut Cx) -> Result<(), String> {
        let (Some((a, na)), Some((b, nb))) = (operand(&c.p.a), operand(&c.p.b)) else {
            return cx.discard();
        };
        let (Some(a1), Some(b1), b2) = (moved(&c.p.a, &a, c.e, c.by_exponent)?, moved(&c.p.b, &b, c.e, c.by_exponent)?, moved(&c.p.b, &b, c.f, c.by_exponent)?) else {
            return cx.discard();
        };
        let t = |f: &FixedDecimal| f.to_string(-1);
        for (n, x, e) in [(&na, Some(&a1), c.e), (&nb, Some(&b1), c.e), (&nb, b2.as_ref(), c.f)] {
            if let Some(x) = x {
                if !observe(x)?.eq_value(&shifted(n, e)) {
                    return Err(format!("{} with its point moved by {} is {}", n.text(), e, t(x)));
                }
            }
        }
        let ctx = format!("a={} b={}, points moved by {} (b alone by {})", na.text(), nb.text(), c.e, c.f);
        let go = |op: Op, x: &FixedDecimal, y: &FixedDecimal| guard(|| op.compute(x, y, 4)).map(|r| r.ok()).map_err(|p| format!("{} {} {}: {}", x.to_string(-1), op.name(), y.to_string(-1), p));
        let mut rel = 0;
        if a.cmp(&b) != a1.cmp(&b1) || b.cmp(&a) != b1.cmp(&a1) || (a == b) != (a1 == b1) {
            return Err(format!("{}: order {:?} becomes {:?}", ctx, a.cmp(&b), a1.cmp(&b1)));
        }
        for op in [Op::Add, Op::Sub, Op::Rem] {
            if let (Some(x), Some(y)) = (go(op, &a, &b)?, go(op, &a1, &b1)?) {
                rel += 1;
                if !observe(&y)?.eq_value(&shifted(&observe(&x)?, c.e)) {
                    return Err(format!("{}: a {} b = {} becomes {}", ctx, op.name(), t(&x), t(&y)));
                }
            }
        }
        if let Some(b2) = &b2 {
            if let (Some(x), Some(y)) = (go(Op::Mul, &a, &b)?, go(Op::Mul, &a1, b2)?) {
                let full = |p: &FixedDecimal, l: &FixedDecimal, r: &FixedDecimal| p.is_zero() && (l.is_zero() || r.is_zero()) || p.frac() as i64 == l.frac() as i64 + r.frac() as i64;
                if full(&x, &a, &b) && full(&y, &a1, b2) {
                    rel += 1;
                    if !observe(&y)?.eq_value(&shifted(&observe(&x)?, c.e + c.f)) {
                        return Err(format!("{}: a * b = {} becomes {}", ctx, t(&x), t(&y)));
                    }
                }
            }
            // quotients agree on the digits both have
            for (y, sh, d) in [(go(Op::Div, &a1, &b1)?, 0, "both"), (go(Op::Div, &a1, b2)?, c.e - c.f, "both differently"), (go(Op::Div, &a, b2)?, -c.f, "b only")] {
                if let (Some(x), Some(y)) = (go(Op::Div, &a, &b)?, y) {
                    let (x, y) = (observe(&x)?, observe(&y)?);
                    rel += 1;
                    // x is exact to x.scale digits, so its shift to x.scale - sh
                    let common = (x.scale as i64 - sh).min(y.scale as i64);
                    let cut = |n: &Num, at: i64| {
                        if at >= 0 {
                            n.trunc(at as usize)
                        } else {
                            let z = (-at) as usize;
                            let m = n.trunc(0);
                            Num::new(m.neg, m.mag.shr10(z).shl10(z), 0)
                        }
                    };
                    if !cut(&shifted(&x, sh), common).eq_value(&cut(&y, common)) {
                        return Err(format!("{}: a / b = {} becomes {} when {} move", ctx, x.text(), y.text(), d));
                    }
                }
            }
        }
        // rounding at the same digit
        let k1 = c.k - c.e;
        if spec::round(&na, c.k).is_some() && observe(&a1).is_ok_and(|n| spec::round(&n, k1).is_some()) {
            let (mut x, mut y) = (a.clone(), a1.clone());
            guard(|| x.round(c.k as isize)).map_err(|p| format!("{} rounded to {}: {}", t(&a), c.k, p))?;
            guard(|| y.round(k1 as isize)).map_err(|p| format!("{} rounded to {}: {}", t(&a1), k1, p))?;
            rel += 1;
            if !observe(&y)?.eq_value(&shifted(&observe(&x)?, c.e)) {
                return Err(format!("{} rounded to {} is {}, {} rounded to {} is {}", t(&a), c.k, t(&x), t(&a1), k1, t(&y)));
            }
        }
        // sign and zero
        if a.is_zero() != a1.is_zero() || a.is_neg() != a1.is_neg() {
            return Err(format!("{}: sign of {} and {}", ctx, t(&a), t(&a1)));
        }
        let realign = c.e.rem_euclid(9) != 0 || c.f.rem_euclid(9) != 0;
        cx.label_if(realign, "digits_regrouped");
        cx.label_if(c.by_exponent, "by_exponent");
        cx.nontrivial_if(realign && rel >= 3 && !na.is_zero() && !nb.is_zero());
        Ok(())
    }
}

// ---------------------------------------------------------------- C27

/// value = m / 10^s
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Small {
    pub m: i64,
    pub s: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ints2 {
    pub a: Small,
    pub b: Small,
    pub k: i64,
    /// how the operands are made: 0 literal, 1 exponent literal, 2 from integers where possible, 3 padded literal
    pub how: (u8, u8),
}

const LIM: i64 = 1_000_000_000_000_000_000;

fn pow(n: u32) -> i128 {
    10i128.pow(n)
}

/// text of m / 10^s by machine arithmetic
fn native_text(m: i128, s: u32) -> String {
    let (q, r) = (m.unsigned_abs() / pow(s) as u128, m.unsigned_abs() % pow(s) as u128);
    let sign = if m < 0 { "-" } else { "" };
    if s == 0 {
        format!("{}{}", sign, q)
    } else {
        format!("{}{}.{:0w$}", sign, q, r, w = s as usize)
    }
}

fn make_small(x: Small, how: u8) -> FixedDecimal {
    let t = match how {
        1 => format!("{}e-{}", x.m, x.s),
        2 if x.s == 0 => return FixedDecimal::from(x.m),
        3 => pad_literal(&native_text(x.m as i128, x.s), 12, 0),
        _ => native_text(x.m as i128, x.s),
    };
    t.parse().unwrap_or_else(|_| panic!("{} is a literal", t))
}

pub struct C27;
impl Prop for C27 {
    type Case = Ints2;
    const ID: &'static str = "C27";
    const RULE: &'static str = "pairs of decimals of at most 18 digits (scaled 64-bit integers, biased to group boundaries and related by multiples, neighbours and shared prefixes), every operation compared with 128-bit machine arithmetic on the scaled integers; non-trivial: both operands non-zero and one of them has more than nine digits or the scales differ";
    fn strategy(_: Tier) -> BoxedStrategy<Ints2> {
        let m = prop_oneof![
            3 => (unit(), unit()).prop_map(|(h, l)| h as i64 * 1_000_000_000 + l as i64),
            2 => (0i64..LIM, 0u32..18).prop_map(|(v, k)| v / 10i64.pow(k)),
            2 => (0u32..18, -2i64..=2).prop_map(|(k, d)| 10i64.pow(k) + d),
            1 => 0i64..100,
            1 => (1i64..10, 0u32..18).prop_map(|(d, k)| d * 10i64.pow(k)),
        ];
        let sm = (m, any::<bool>(), prop_oneof![3 => 0u32..=18, 1 => prop::sample::select(vec![0u32, 9, 18])]).prop_map(|(m, n, s)| {
            let m = m.clamp(0, LIM - 1);
            Small { m: if n { -m } else { m }, s }
        });
        let rel = (sm.clone(), 0i64..2_000_000, -2i64..=2, 0u32..=18).prop_map(|(b, q, d, s)| {
            let m = (b.m as i128 * q as i128 + d as i128).clamp(-(LIM as i128) + 1, LIM as i128 - 1) as i64;
            (Small { m, s: if q % 3 == 0 { s } else { b.s } }, b)
        });
        let half = (sm.clone(), 1u32..18, -1i64..=1).prop_map(|(a, k, d)| {
            let u = 10i64.pow(k);
            let m = (a.m / u * u + a.m.signum() * (u / 2 + d)).clamp(-LIM + 1, LIM - 1);
            (Small { m, s: a.s }, Small { m: 7, s: k })
        });
        (
            prop_oneof![3 => (sm.clone(), sm).boxed(), 3 => rel.boxed(), 2 => half.boxed()],
            prop_oneof![3 => -20i64..20, 1 => Just(0i64)],
            (0u8..4, 0u8..4),
        )
            .prop_map(|((a, b), k, how)| Ints2 { a, b, k, how })
            .boxed()
    }
    fn enumerate() -> Vec<Ints2> {
        let mut v = Vec::new();
        let ms = [0i64, 1, 2, 3, 5, 9, 10, 11, 99, 499_999_999, 500_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_499_999_999, LIM - 1, LIM / 2];
        for a in ms {
            for b in ms {
                for (s, t) in [(0u32, 0u32), (0, 9), (9, 0), (1, 10), (18, 18), (18, 0), (3, 5)] {
                    for n in [1i64, -1] {
                        v.push(Ints2 { a: Small { m: a * n, s }, b: Small { m: b, s: t }, k: t as i64 - 1, how: (0, 2) });
                    }
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Ints2> {
        let one = |r: &mut Fast| {
            let m = (fast::integer(r) % LIM as u64) as i64;
            let m = if r.one_in(4) { m / 10i64.pow(r.below(18) as u32) } else { m };
            let s = if r.one_in(4) { r.pick(&[0, 9, 18, 1, 8, 10, 17]) } else { r.below(19) as u32 };
            Small { m: if r.one_in(2) { m } else { -m }, s }
        };
        let clamp = |m: i128| m.clamp(-(LIM as i128) + 1, LIM as i128 - 1) as i64;
        let b = one(r);
        let a = match r.below(6) {
            0 | 1 => {
                // a multiple, or beside one
                let q = (fast::integer(r) % LIM as u64) >> r.below(60);
                let m = clamp(b.m as i128 * q as i128 + r.int(-2, 2) as i128);
                Small { m, s: if r.one_in(2) { b.s } else { r.below(19) as u32 } }
            }
            2 => {
                // the same digits up to some place, complemented or raised after it
                let u = 10i64.pow(r.below(18) as u32);
                let m = match r.below(3) {
                    0 => b.m / u * u + b.m.signum() * (u / 2 + r.int(-1, 1)),
                    1 => b.m / u * u + (u - 1),
                    _ => b.m + u,
                };
                Small { m: clamp(m as i128), s: b.s }
            }
            _ => one(r),
        };
        let (a, b) = if r.one_in(4) { (b, a) } else { (a, b) };
        Some(Ints2 { a, b, k: r.int(-20, 20), how: (r.below(4) as u8, r.below(4) as u8) })
    }
    fn fast_factor() -> u64 {
        3
    }
    fn quick_cases() -> u64 {
        3_000_000
    }
    fn check(c: &Ints2, cx: &mut Cx) -> Result<(), String> {
        let (a, b) = (c.a, c.b);
        let (fa, fb) = (make_small(a, c.how.0), make_small(b, c.how.1));
        let (ta, tb) = (native_text(a.m as i128, a.s), native_text(b.m as i128, b.s));
        if fa.to_string(-1) != ta || fb.to_string(-1) != tb {
            return Err(format!("{} and {} print as {} and {}", ta, tb, fa.to_string(-1), fb.to_string(-1)));
        }
        let s = a.s.max(b.s);
        let (x, y) = (a.m as i128 * pow(s - a.s), b.m as i128 * pow(s - b.s));
        if fa.cmp(&fb) != x.cmp(&y) || fb.cmp(&fa) != y.cmp(&x) || (fa == fb) != (x == y) {
            return Err(format!("{} and {} compare {:?}", ta, tb, fa.cmp(&fb)));
        }
        let go = |op: Op| guard(|| op.compute(&fa, &fb, 4).map_err(|e| err_kind(&e))).map_err(|p| format!("{} {} {}: {}", ta, op.name(), tb, p));
        let expect = |op: Op, want: i128, scale: u32| -> Result<(), String> {
            match go(op)? {
                Ok(r) => {
                    let o = observe(&r)?;
                    let w = native_text(want, scale);
                    // the scale of a sum or product with zero is the business of other properties
                    let ok = if a.m == 0 || b.m == 0 || want == 0 { o.eq_value(&Num::parse_canonical(&w).expect("native text")) } else { o.text() == w };
                    if !ok {
                        return Err(format!("{} {} {} = {}, machine integers give {}", ta, op.name(), tb, o.text(), w));
                    }
                    Ok(())
                }
                Err(e) => Err(format!("{} {} {} fails with {}", ta, op.name(), tb, e)),
            }
        };
        expect(Op::Add, x + y, s)?;
        expect(Op::Sub, x - y, s)?;
        expect(Op::Mul, a.m as i128 * b.m as i128, a.s + b.s)?;
        if b.m == 0 {
            for op in [Op::Div, Op::Rem] {
                if go(op)? .err() != Some("DivisionByZero") {
                    return Err(format!("{} {} {} does not fail with division by zero", ta, op.name(), tb));
                }
            }
        } else {
            expect(Op::Rem, x % y, s)?;
            match go(Op::Div)? {
                Ok(q) => {
                    let o = observe(&q)?;
                    let w = x / y;
                    let i = Num::new(o.neg, o.trunc(0).mag, 0);
                    if !i.eq_value(&Num::int(w)) {
                        return Err(format!("{} / {} = {}, machine integers give {}", ta, tb, o.text(), w));
                    }
                    // nine further digits
                    let r = (x % y).unsigned_abs();
                    let mut rest = r;
                    let mut digits = String::new();
                    for _ in 0..o.scale.min(27) {
                        // rest < |y| < 10^36, so ten times it fits
                        rest *= 10;
                        digits.push((b'0' + (rest / y.unsigned_abs()) as u8) as char);
                        rest %= y.unsigned_abs();
                    }
                    let t = o.text();
                    let got = t.split_once('.').map_or("", |p| p.1);
                    if o.scale < 9.min(a.s as usize + b.s as usize + 4) && a.m != 0 || !got.starts_with(&digits) {
                        return Err(format!("{} / {} = {}, machine integers give {}.{}", ta, tb, t, w, digits));
                    }
                    if (x < 0) != (y < 0) && !o.is_zero() && !o.neg || ((x < 0) == (y < 0) || x == 0) && o.neg {
                        return Err(format!("{} / {} = {} has the wrong sign", ta, tb, t));
                    }
                }
                Err(e) => return Err(format!("{} / {} fails with {}", ta, tb, e)),
            }
        }
        // rounding to k digits, ties away from zero
        if c.k < a.s as i64 {
            let drop = (a.s as i64 - c.k) as u32;
            let u = if drop <= 37 { pow(drop) } else { i128::MAX };
            let m = a.m as i128;
            let q = m / u + if m.unsigned_abs() % u as u128 >= (u as u128).div_ceil(2) { m.signum() } else { 0 };
            let w = if c.k >= 0 { native_text(q, c.k as u32) } else if q == 0 { "0".into() } else { native_text(q * pow((-c.k) as u32), 0) };
            let mut r = fa.clone();
            guard(|| r.round(c.k as isize)).map_err(|p| format!("{} rounded to {}: {}", ta, c.k, p))?;
            if r.to_string(-1) != w {
                return Err(format!("{} rounded to {} is {}, machine integers give {}", ta, c.k, r.to_string(-1), w));
            }
        }
        // integers
        {
            let u = pow(a.s);
            let m = a.m as i128;
            let near = m / u + if m.unsigned_abs() % u as u128 * 2 >= u as u128 { m.signum() } else { 0 };
            let (gi, gu) = (fa.as_i64().ok(), fa.as_u64().ok());
            if gi != Some(near as i64) || gu != (m >= 0).then_some(near as u64) {
                return Err(format!("{} converts to {:?} and {:?}, machine integers give {}", ta, gi, gu, near));
            }
        }
        // cut at k digits
        if c.k >= 0 {
            let t = fa.to_string(c.k as isize);
            let k = c.k as u32;
            let cut = if k <= a.s { a.m.unsigned_abs() as u128 / pow(a.s - k) as u128 } else { a.m.unsigned_abs() as u128 * pow(k - a.s) as u128 };
            let w = format!("{}{}", if a.m < 0 { "-" } else { "" }, native_text(cut as i128, k));
            if t != w {
                return Err(format!("{} with {} digits is {}, machine integers give {}", ta, c.k, t, w));
            }
        }
        cx.label_if(a.s != b.s, "scales_differ");
        cx.label_if(b.m != 0 && x % y == 0, "exact_multiple");
        cx.nontrivial_if(a.m != 0 && b.m != 0 && (a.m.unsigned_abs() > 999_999_999 || b.m.unsigned_abs() > 999_999_999 || a.s != b.s));
        Ok(())
    }
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Two {
    pub a: Program,
    pub b: Program,
    /// bit i: run a step of b after step i of a
    pub mix: u64,
    pub threads: bool,
}

fn change_digit(t: &str, p: usize, d: u8) -> String {
    let m = t.find(['e', 'E']).unwrap_or(t.len());
    let at: Vec<usize> = (0..m).filter(|i| t.as_bytes()[*i].is_ascii_digit()).collect();
    let mut b = t.as_bytes().to_vec();
    if !at.is_empty() {
        b[at[p % at.len()]] = d;
    }
    String::from_utf8(b).unwrap_or_default()
}

/// a text much like the given one
fn vary(t: &str, how: u8, p: usize, d: u8) -> String {
    let m = t.find(['e', 'E']).unwrap_or(t.len());
    let at: Vec<usize> = (0..m).filter(|i| t.as_bytes()[*i].is_ascii_digit()).collect();
    let mut b = t.as_bytes().to_vec();
    let n = at.len();
    if n == 0 {
        return t.into();
    }
    let (i, j) = (at[p % n], at[(p + 1 + d as usize % 9) % n]);
    match how {
        // two digits swapped, or changed by opposite steps
        0 => b.swap(i, j),
        1 if i != j && b[i] < b'9' && b[j] > b'0' => {
            b[i] += 1;
            b[j] -= 1;
        }
        2 => {
            // the point moved
            if let Some(q) = b.iter().position(|c| *c == b'.') {
                b.remove(q);
            }
            let first = at[0].min(b.len());
            b.insert(first + p % (n + 1).min(b.len() - first + 1), b'.');
        }
        3 => match b[0] {
            b'-' => drop(b.remove(0)),
            b'+' => b[0] = b'-',
            _ => b.insert(0, b'-'),
        },
        // another character that is no digit
        4 => b[i] = [b'x', b'.', b'e', b'-', b' ', b':'][d as usize % 6],
        5 => b[m.min(t.len())..].reverse(),
        6 => drop(b.remove(i)),
        _ => b[i] = b'0' + d % 10,
    }
    String::from_utf8(b).unwrap_or_default()
}

/// a few steps, and the same ones on texts much like the first
fn alike() -> BoxedStrategy<(Program, Program)> {
    let lits = prop_oneof![3 => lit_of(20, 12, 30), 2 => lit(), 1 => spelled()];
    let vars = || prop::collection::vec((0u8..8, 0usize..65, any::<u8>()), 0..3);
    let incr = || prop_oneof![3 => Just(4usize), 1 => 0usize..40];
    (lits.clone(), lits, ops(), (incr(), incr()), -20i64..40, (vars(), vars()), 0usize..3)
        .prop_map(|(x, y, op, (i1, i2), k, (vx, vy), tail)| {
            let go = |x: String, y: String, i: usize, k: i64| {
                let mut steps = vec![Step::Parse(0, x), Step::Parse(1, y), Step::Bin(2, op, 0, 1, i), Step::Oper(3, op, 0, 1)];
                match tail {
                    0 => steps.extend([Step::RoundTo(3, 0, k), Step::Round(1, k)]),
                    1 => steps.extend([Step::ToInt(0), Step::Bin(3, op, 2, 1, i), Step::Round(2, k)]),
                    _ => steps.extend([Step::Bin(3, op, 1, 0, i), Step::Reparse(0), Step::Reparse(3)]),
                }
                Program { steps }
            };
            let change = |t: &String, v: &[(u8, usize, u8)]| v.iter().fold(t.clone(), |t, (h, p, d)| vary(&t, *h, *p, *d));
            (go(x.clone(), y.clone(), i1, k), go(change(&x, &vx), change(&y, &vy), i2, if i1 == i2 { k } else { k + 1 }))
        })
        .boxed()
}

thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// the program run in another process, which never sees the first programs of a case
fn elsewhere(p: &Program) -> Vec<String> {
    PEER.with(|x| x.borrow_mut().get_or_insert_with(|| Peer::start(std::env::current_exe().expect("own path").as_os_str(), "serve-alone")).ask(p))
}

struct Vm {
    regs: Vec<FixedDecimal>,
}

impl Vm {
    fn new() -> Vm {
        Vm { regs: (0..super::machine::REGS).map(|_| FixedDecimal::zero()).collect() }
    }
    /// runs one step and says all that can be seen of it
    fn step(&mut self, s: &Step) -> String {
        let regs = self.regs.clone();
        let r2 = &mut self.regs;
        let r = guard(|| -> Result<String, &'static str> {
            let d = match s {
                Step::Parse(r, t) => {
                    match t.len() % 3 {
                        0 => r2[*r].from_ascii_str(t, true).map_err(|e| err_kind(&e))?,
                        1 => r2[*r].from_bytes_str(t.as_bytes(), true).map_err(|e| err_kind(&e))?,
                        _ => r2[*r] = t.parse().map_err(|e| err_kind(&e))?,
                    }
                    *r
                }
                Step::FromI(r, v) => {
                    r2[*r] = FixedDecimal::from(*v);
                    *r
                }
                Step::FromU(r, v) => {
                    r2[*r] = FixedDecimal::from(*v);
                    *r
                }
                Step::Bin(d, op, l, r, i) => {
                    op.apply_to(&regs[*l], &regs[*r], &mut r2[*d], *i).map_err(|e| err_kind(&e))?;
                    *d
                }
                Step::Oper(d, op, l, r) => {
                    // the operator has no error to give back
                    op.compute(&regs[*l], &regs[*r], DEFAULT_INCR).map_err(|e| err_kind(&e))?;
                    r2[*d] = op.operator(regs[*l].clone(), regs[*r].clone());
                    *d
                }
                Step::Round(r, k) => {
                    r2[*r].round(*k as isize);
                    *r
                }
                Step::RoundTo(d, r, k) => {
                    regs[*r].round_to(&mut r2[*d], *k as isize);
                    *d
                }
                Step::Flip(r) => {
                    if r2[*r].is_neg() {
                        r2[*r].set_pos()
                    } else {
                        r2[*r].set_neg()
                    }
                    *r
                }
                Step::SetPos(r) => {
                    r2[*r].set_pos();
                    *r
                }
                Step::SetNeg(r) => {
                    r2[*r].set_neg();
                    *r
                }
                Step::Zero(r) => {
                    r2[*r].set_zero();
                    *r
                }
                Step::One(r) => {
                    r2[*r].set_one();
                    *r
                }
                Step::Copy(d, r) => {
                    r2[*d] = regs[*r].clone();
                    *d
                }
                Step::ToInt(r) => return Ok(format!("{:?} {:?}", regs[*r].as_i64().ok(), regs[*r].as_u64().ok())),
                Step::Reparse(r) => {
                    let t = regs[*r].to_string(-1);
                    r2[*r].from_bytes_str(t.as_bytes(), true).map_err(|e| err_kind(&e))?;
                    *r
                }
            };
            let f = &r2[d];
            let o: Vec<Ordering> = r2.iter().map(|x| f.cmp(x)).collect();
            Ok(format!("{} {} {} {:?} {:?} {}", f.to_string(-1), f.to_string(3), f.intg(), o, hash_bytes(f), f.is_neg()))
        });
        match r {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => {
                // nothing is said here about the destination of a failed operation
                self.regs = regs;
                e.to_string()
            }
            Err(p) => {
                self.regs = regs;
                format!("PANIC {}", p)
            }
        }
    }
}

pub fn alone(p: &Program) -> Vec<String> {
    let mut vm = Vm::new();
    p.steps.iter().map(|s| vm.step(s)).collect()
}

pub struct C28;
impl Prop for C28 {
    type Case = Two;
    const ID: &'static str = "C28";
    const RULE: &'static str = "two programs over separate registers, many of them alike (the same steps on texts that differ in a digit, two swapped digits, the place of the point, the sign): one is run alone, then interleaved step by step with the other, then alone again, and in part of the cases on two threads at the same time; and in half of them the second one in another process that never sees the first; every step must show the same outcome each time; non-trivial: both programs compute, and the interleaving switches at least three times";
    fn strategy(t: Tier) -> BoxedStrategy<Two> {
        // related programs (same steps, other constants) make any memory of earlier operands show
        let rel = (super::machine::C19::strategy(t), prop::collection::vec((0usize..40, lit_of(12, 9, 20), prop_oneof![1 => Just(None), 2 => (0usize..65, b'0'..=b'9').prop_map(Some)]), 1..4)).prop_map(|(a, ch)| {
            let mut b = a.clone();
            for (i, l, digit) in ch {
                let n = b.steps.len();
                // mostly the constants at the start
                let ix = if i % 2 == 0 { (i / 2) % n.min(4) } else { i % n };
                if let Step::Parse(r, t) = b.steps[ix].clone() {
                    // another literal, or the same one with a single digit changed
                    b.steps[ix] = Step::Parse(r, digit.map_or(l, |(p, d)| change_digit(&t, p, d)));
                } else if let Step::Bin(d, o, l2, r, k) = b.steps[ix].clone() {
                    b.steps[ix] = Step::Bin(d, o, r, l2, k + 9);
                }
            }
            (a, b)
        });
        (prop_oneof![2 => (super::machine::C19::strategy(t), super::machine::C19::strategy(t)).boxed(), 3 => rel.boxed(), 10 => alike()], prop_oneof![3 => any::<u64>(), 1 => Just(u64::MAX)], prop_oneof![7 => Just(false), 1 => Just(true)])
            .prop_map(|((a, b), mix, threads)| Two { a, b, mix, threads })
            .boxed()
    }
    fn quick_cases() -> u64 {
        240_000
    }
    fn check(c: &Two, cx: &mut Cx) -> Result<(), String> {
        let first = alone(&c.a);
        let (mut va, mut vb) = (Vm::new(), Vm::new());
        let mut second = Vec::new();
        let mut other = Vec::new();
        let mut ib = 0;
        let mut switches = 0;
        for (i, s) in c.a.steps.iter().enumerate() {
            second.push(va.step(s));
            if c.mix >> (i % 64) & 1 == 1 && ib < c.b.steps.len() {
                other.push(vb.step(&c.b.steps[ib]));
                ib += 1;
                switches += 1;
            }
        }
        while ib < c.b.steps.len() {
            other.push(vb.step(&c.b.steps[ib]));
            ib += 1;
        }
        let diff = |what: &str, p: &Program, x: &[String], y: &[String]| -> Result<(), String> {
            match x.iter().zip(y).position(|(a, b)| a != b) {
                None => Ok(()),
                Some(i) => Err(format!("{}: step {} {:?} gives {} and {}", what, i, p.steps[i], x[i], y[i])),
            }
        };
        diff("alone and interleaved with another program", &c.a, &first, &second)?;
        diff("interleaved with another program and alone", &c.b, &other, &alone(&c.b))?;
        diff("once and again", &c.a, &first, &alone(&c.a))?;
        if c.mix % 4 < 2 {
            diff("after another program and in a process without it", &c.b, &other, &elsewhere(&c.b))?;
            cx.label("two_processes");
        }
        if c.threads {
            let (x, y) = std::thread::scope(|s| {
                let h = s.spawn(|| alone(&c.b));
                let x = alone(&c.a);
                (x, h.join().expect("thread ends"))
            });
            diff("alone and beside another thread", &c.a, &first, &x)?;
            diff("alone and on another thread", &c.b, &other, &y)?;
            cx.label("two_threads");
        }
        let computes = |p: &Program| p.steps.iter().any(|s| matches!(s, Step::Bin(..) | Step::Oper(..) | Step::Round(..) | Step::RoundTo(..)));
        cx.nontrivial_if(switches >= 3 && computes(&c.a) && computes(&c.b));
        Ok(())
    }
}
