//! C06 add/sub, C07 mul, C08 div, C09 rem, C10 totality.
use super::operand;
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::num::Num;
use crate::real::*;
use crate::spec;
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bin {
    pub a: Src,
    pub b: Src,
    pub op: Op,
    #[serde(default)]
    pub incr: usize,
    /// previous content of the destination
    #[serde(default)]
    pub prev: Option<Src>,
}

fn prevs() -> BoxedStrategy<Option<Src>> {
    prop_oneof![3 => Just(None), 1 => dirty().prop_map(Some)].boxed()
}

pub fn incrs() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => Just(4usize),
        2 => Just(0usize),
        4 => 0usize..40,
        1 => 40usize..200,
        1 => prop::sample::select(vec![127usize, 128, 255, 256, 1000, 1 << 31, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX]),
    ]
    .boxed()
}

pub fn bin(ops: Vec<Op>, pairs: BoxedStrategy<Pair>) -> BoxedStrategy<Bin> {
    (pairs, prop::sample::select(ops), incrs(), prevs())
        .prop_map(|(p, op, incr, prev)| Bin { a: p.a, b: p.b, op, incr, prev })
        .boxed()
}

/// Runs the operation and compares with the reference; returns operands' values.
fn judge(c: &Bin, cx: &mut Cx, zero_any_scale: bool) -> Result<Option<(Num, Num, Option<Num>)>, String> {
    let (Some((a, na)), Some((b, nb))) = (operand(&c.a), operand(&c.b)) else {
        cx.discarded = true;
        return Ok(None);
    };
    let mut res = match &c.prev {
        None => FixedDecimal::zero(),
        Some(s) => fd_or_zero(s),
    };
    let allowed = c.op.spec(&na, &nb, c.incr);
    let out = guard(|| c.op.apply_to(&a, &b, &mut res, c.incr));
    let what = format!("{} {} {} (incr {})", na.text(), c.op.name(), nb.text(), c.incr);
    let overflowed = matches!(out, Ok(Err(_)));
    let out = out.map(|r| r.map(|_| res.clone()));
    check_outcome(&what, &out, &allowed, zero_any_scale)?;
    // operands untouched
    expect_is("left operand afterwards", &a, &na)?;
    expect_is("right operand afterwards", &b, &nb)?;
    for l in pair_labels(&na, &nb) {
        cx.label(l);
    }
    cx.label_if(overflowed, "error_result");
    cx.label_if(c.a.is_computed() || c.b.is_computed(), "computed_operand");
    cx.label_if(c.prev.is_some(), "dirty_destination");
    Ok(Some((na, nb, allowed.ok)))
}

fn carry_or_borrow(a: &Num, b: &Num, sub: bool) -> bool {
    // some group produces a carry/borrow into the next when aligned
    let s = 9 * a.frac_units().max(b.frac_units());
    let (x, y) = (a.trunc(s).mag, b.trunc(s).mag);
    let eff_sub = sub != (a.neg != b.neg);
    let (x, y) = if eff_sub && x < y { (y, x) } else { (x, y) };
    let n = x.len().max(y.len());
    let g = |v: &[u8], i: usize| -> u32 { (0..9).rev().fold(0, |acc, k| acc * 10 + v.get(9 * i + k).copied().unwrap_or(0) as u32) };
    let mut c = 0i64;
    for i in 0..n.div_ceil(9) {
        let t = if eff_sub { g(&x.0, i) as i64 - g(&y.0, i) as i64 - c } else { g(&x.0, i) as i64 + g(&y.0, i) as i64 + c };
        c = if eff_sub { (t < 0) as i64 } else { (t >= 1_000_000_000) as i64 };
        if c > 0 {
            return true;
        }
    }
    false
}

/// every pair of operands of up to three groups over the boundary groups
fn grid_pairs(op: Op, v: &mut Vec<Bin>) {
    let g = grid(&GRID, 3);
    for (i, a) in g.iter().enumerate() {
        for (j, b) in g.iter().enumerate() {
            // sign combinations in turn
            let sign = |n: usize| if n & 1 == 1 { "-" } else { "" };
            let k = i * 7 + j;
            v.push(Bin { a: Src::Lit(format!("{}{}", sign(k), a)), b: Src::Lit(format!("{}{}", sign(k >> 1), b)), op, incr: k % 14, prev: None });
        }
    }
}

pub struct C06;
impl Prop for C06 {
    type Case = Bin;
    const ID: &'static str = "C06";
    const RULE: &'static str = "operand pairs (literals with group-aligned digits, integers, results of earlier operations, operands up to 81 digits, related pairs: shared prefixes, complements to powers of ten, one-step neighbours) with clean or dirty destinations; enumerated: all pairs of operands of up to three groups over the group values 0, 1, 500000000 and 999999999, all pairs of digit-count shapes in nines; non-trivial: both operands non-zero and a carry or borrow crosses a 9-digit group, or the operands differ in number of integral or fractional groups";
    fn strategy(_: Tier) -> BoxedStrategy<Bin> {
        bin(vec![Op::Add, Op::Sub], pair())
    }
    fn enumerate() -> Vec<Bin> {
        // every combination of operand shapes, with all-nines digits (maximal carries)
        let mut v = Vec::new();
        let shapes: Vec<(usize, usize)> = shapes();
        for (i1, f1) in &shapes {
            for (i2, f2) in &shapes {
                for (d1, d2) in [('9', '9'), ('9', '1'), ('1', '9')] {
                    for op in [Op::Add, Op::Sub] {
                        v.push(Bin { a: Src::Lit(rep(d1, *i1, *f1)), b: Src::Lit(rep(d2, *i2, *f2)), op, incr: 0, prev: None });
                    }
                }
            }
        }
        grid_pairs(Op::Add, &mut v);
        grid_pairs(Op::Sub, &mut v);
        v
    }
    fn fast(r: &mut Fast) -> Option<Bin> {
        Some(fast::bin(r, &[Op::Add, Op::Sub]))
    }
    fn quick_cases() -> u64 {
        900_000
    }
    fn check(c: &Bin, cx: &mut Cx) -> Result<(), String> {
        if let Some((a, b, _)) = judge(c, cx, false)? {
            let cb = carry_or_borrow(&a, &b, c.op == Op::Sub);
            cx.label_if(cb, "carry_or_borrow_across_groups");
            cx.nontrivial_if(!a.is_zero() && !b.is_zero() && (cb || a.int_units() != b.int_units() || a.frac_units() != b.frac_units()));
        }
        Ok(())
    }
}

/// representative (integral, fractional) digit counts
pub fn shapes() -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for i in [0usize, 1, 8, 9, 10, 18, 19, 27, 28, 36, 45, 54, 63, 64, 65] {
        for f in [0usize, 1, 8, 9, 10, 18, 19, 27, 30, 36, 45, 54, 63, 65] {
            if i + f <= 65 && i + f > 0 {
                v.push((i, f));
            }
        }
    }
    v
}

pub fn rep(d: char, i: usize, f: usize) -> String {
    let mut s: String = std::iter::repeat_n(d, i).collect();
    if f > 0 {
        s.push('.');
        s.extend(std::iter::repeat_n(d, f));
    }
    s
}

pub struct C07;
impl Prop for C07 {
    type Case = Bin;
    const ID: &'static str = "C07";
    const RULE: &'static str = "operand pairs as for C06 plus all pairs of representative digit-count shapes and all pairs of operands of up to three groups over the group values 0, 1, 500000000 and 999999999; non-trivial: both operands have at least two 9-digit groups, or the product is truncated, or an operand was itself computed, and the product is not zero";
    fn strategy(_: Tier) -> BoxedStrategy<Bin> {
        let near_full = (9usize..=73, 0usize..=40, lit_of(65, 36, 65), lit_of(65, 36, 65)).prop_map(|(_, _, a, b)| Pair { a: Src::Lit(a), b: Src::Lit(b) });
        bin(vec![Op::Mul], prop_oneof![6 => pair(), 1 => near_full.boxed()].boxed())
    }
    fn enumerate() -> Vec<Bin> {
        let mut v = Vec::new();
        let shapes = shapes();
        for (i1, f1) in &shapes {
            for (i2, f2) in &shapes {
                for (d1, d2) in [('9', '9'), ('1', '9')] {
                    v.push(Bin { a: Src::Lit(rep(d1, *i1, *f1)), b: Src::Lit(rep(d2, *i2, *f2)), op: Op::Mul, incr: 0, prev: None });
                }
            }
        }
        grid_pairs(Op::Mul, &mut v);
        v
    }
    fn fast(r: &mut Fast) -> Option<Bin> {
        Some(fast::bin(r, &[Op::Mul]))
    }
    fn quick_cases() -> u64 {
        1_000_000
    }
    fn check(c: &Bin, cx: &mut Cx) -> Result<(), String> {
        if let Some((a, b, _)) = judge(c, cx, false)? {
            let cut = !a.is_zero() && !b.is_zero() && !spec::mul_exact(&a, &b);
            cx.label_if(cut, "truncated_or_overflowing");
            let two = |n: &Num| n.int_units() + n.frac_units() >= 2;
            cx.nontrivial_if(!a.is_zero() && !b.is_zero() && (two(&a) && two(&b) || cut || c.a.is_computed() || c.b.is_computed()));
        }
        Ok(())
    }
}

/// divisors and dividends aimed at the trial-digit corrections of long division
fn knuth_pair() -> BoxedStrategy<Pair> {
    // divisor top group small or just above half, second group large; dividend = divisor * q - small
    let top = prop_oneof![
        Just(500_000_000u32),
        Just(499_999_999u32),
        Just(333_333_333u32),
        Just(1u32),
        Just(2u32),
        Just(999_999_999u32),
        unit()
    ];
    let low = prop_oneof![Just(0u32), Just(1u32), Just(999_999_999u32), Just(999_999_998u32), unit()];
    (
        top,
        prop::collection::vec(low, 1..5),
        prop::collection::vec(unit(), 1..6),
        -2i32..=2,
        0usize..37,
        0usize..37,
        any::<(bool, bool)>(),
        0u8..3,
    )
        .prop_map(|(t, l, q, d, s1, s2, (n1, n2), mode)| {
            let mut ds = String::new();
            ds.push_str(&t.max(1).to_string());
            for x in &l {
                ds.push_str(&format!("{:09}", x));
            }
            let mut qs = String::new();
            for x in &q {
                qs.push_str(&format!("{:09}", x));
            }
            use crate::num::Big;
            let dv = Big::from_ascii(ds.as_bytes());
            let qv = Big::from_ascii(qs.as_bytes());
            // mode 0: q*d + small; mode 1: (q+1)*10^9k-prefix (only top groups matter); mode 2: literal q as dividend
            let mut p = match mode {
                2 => qv,
                1 => {
                    // dividend sharing the divisor's top groups, lower ones zero or nine
                    let mut s = ds.clone();
                    let keep = s.len().saturating_sub(9);
                    let tail = if d > 0 { '9' } else { '0' };
                    s.replace_range(keep.., &tail.to_string().repeat(9.min(s.len())));
                    Big::from_ascii(s.as_bytes()).shl10(9 * q.len())
                }
                _ => dv.mul(&qv),
            };
            if mode != 1 {
                if d >= 0 {
                    p = p.add(&Big::from_u128(d as u128));
                } else if p > Big::from_u128((-d) as u128) {
                    p = p.sub(&Big::from_u128((-d) as u128));
                }
            }
            let mk = |b: &Big, s: usize, neg: bool| {
                let mut b = b.clone();
                if b.len() > 65 {
                    b = b.shr10(b.len() - 65);
                }
                let t = Num::new(neg, b, s.min(60));
                let mut txt = t.text();
                if super::text_digits(&t) > 65 {
                    txt = Num::new(neg, t.mag, 0).text();
                }
                Src::Lit(txt)
            };
            // scales on group boundaries most of the time
            let al = |s: usize| if s % 3 == 0 { s } else { s / 9 * 9 };
            Pair { a: mk(&p, al(s1), n1), b: mk(&dv, al(s2), n2) }
        })
        .boxed()
}

pub fn div_pairs() -> BoxedStrategy<Pair> {
    prop_oneof![4 => pair(), 3 => division_pair(), 4 => knuth_pair()].boxed()
}

fn div_enumerate(op: Op) -> Vec<Bin> {
    let mut v = Vec::new();
    let shapes = shapes();
    for (i1, f1) in &shapes {
        for (i2, f2) in &shapes {
            for (d1, d2) in [('9', '9'), ('1', '9'), ('9', '1')] {
                v.push(Bin { a: Src::Lit(rep(d1, *i1, *f1)), b: Src::Lit(rep(d2, *i2, *f2)), op, incr: 4, prev: None });
            }
        }
    }
    // one and powers of ten against each other: every leading-digit position
    let p = |k: i32| if k >= 0 { format!("1e{}", k) } else { format!(".{}1", "0".repeat((-k - 1) as usize)) };
    for i in -40..=64 {
        for j in -40..=64 {
            v.push(Bin { a: Src::Lit(p(i)), b: Src::Lit(p(j)), op, incr: ((i + j + 200) % 14) as usize, prev: None });
        }
    }
    grid_pairs(op, &mut v);
    v
}

pub struct C08;
impl Prop for C08 {
    type Case = Bin;
    const ID: &'static str = "C08";
    const RULE: &'static str = "operand pairs as for C06, dividends built as divisor*q + {0, +-step, r}, trial-digit-correction shapes (divisor groups such as 500000000|999999999), all extra-precision arguments; enumerated: all pairs of operands of up to three groups over the group values 0, 1, 500000000 and 999999999; non-trivial: both non-zero and (divisor has two or more significant groups, or the quotient has two or more groups)";
    fn strategy(_: Tier) -> BoxedStrategy<Bin> {
        bin(vec![Op::Div], div_pairs())
    }
    fn enumerate() -> Vec<Bin> {
        div_enumerate(Op::Div)
    }
    fn fast(r: &mut Fast) -> Option<Bin> {
        Some(fast::bin(r, &[Op::Div]))
    }
    fn quick_cases() -> u64 {
        800_000
    }
    fn check(c: &Bin, cx: &mut Cx) -> Result<(), String> {
        if let Some((a, b, q)) = judge(c, cx, false)? {
            let sig = |n: &Num| n.mag.len().div_ceil(9);
            cx.label_if(sig(&b) >= 2, "long_division");
            cx.label_if(b.is_zero(), "zero_divisor");
            cx.nontrivial_if(!a.is_zero() && !b.is_zero() && (sig(&b) >= 2 || q.is_some_and(|q| sig(&q) >= 2)));
        }
        Ok(())
    }
}

pub struct C09;
impl Prop for C09 {
    type Case = Bin;
    const ID: &'static str = "C09";
    const RULE: &'static str = "operand pairs as for C08, with the same enumeration; non-trivial: divisor non-zero, dividend at least as large as the divisor, and one of them has two or more significant groups";
    fn strategy(_: Tier) -> BoxedStrategy<Bin> {
        bin(vec![Op::Rem], div_pairs())
    }
    fn enumerate() -> Vec<Bin> {
        div_enumerate(Op::Rem)
    }
    fn fast(r: &mut Fast) -> Option<Bin> {
        Some(fast::bin(r, &[Op::Rem]))
    }
    fn quick_cases() -> u64 {
        1_000_000
    }
    fn check(c: &Bin, cx: &mut Cx) -> Result<(), String> {
        if let Some((a, b, r)) = judge(c, cx, true)? {
            let sig = |n: &Num| n.mag.len().div_ceil(9);
            cx.label_if(sig(&b) >= 2, "long_division");
            cx.label_if(b.is_zero(), "zero_divisor");
            cx.label_if(r.is_some_and(|r| r.is_zero()), "zero_remainder");
            cx.nontrivial_if(!b.is_zero() && a.abs().cmp_value(&b.abs()) != std::cmp::Ordering::Less && (sig(&a) >= 2 || sig(&b) >= 2));
        }
        Ok(())
    }
}

/// No model of the value: only which outcomes are possible.
pub struct C10;
impl Prop for C10 {
    type Case = Bin;
    const ID: &'static str = "C10";
    const RULE: &'static str = "all five operations on operand pairs biased to capacity limits (65-digit literals, 9-group computed values, 65-digit fractions, zero divisors), function and operator forms; non-trivial: an operand has seven or more 9-digit groups, or the outcome is an error";
    fn strategy(_: Tier) -> BoxedStrategy<Bin> {
        let ext = prop_oneof![
            3 => wide_src(),
            2 => lit_of(65, 65, 65).prop_map(Src::Lit),
            1 => (0usize..65, any::<bool>()).prop_map(|(k, n)| Src::Lit(format!("{}{}", if n { "-" } else { "" }, ulp_lit(k)))),
            1 => (0usize..65).prop_map(|k| Src::Lit(format!("1e{}", k.min(64)))),
            1 => (0usize..66).prop_map(|k| Src::Lit(rep('9', 65 - k, k))),
            1 => src(),
            1 => prop::sample::select(vec!["0", "-0", "0.0", ".000000000000000000000000000000", "1", "-1"]).prop_map(Src::lit),
        ];
        let p = (ext.clone(), ext).prop_map(|(a, b)| Pair { a, b });
        bin(OPS.to_vec(), prop_oneof![3 => p.boxed(), 1 => pair(), 1 => knuth_pair()].boxed())
    }
    fn enumerate() -> Vec<Bin> {
        let mut v = Vec::new();
        let mut sh = shapes();
        sh.retain(|(i, f)| i + f >= 54);
        for op in OPS {
            for (i1, f1) in &sh {
                for (i2, f2) in &sh {
                    v.push(Bin { a: Src::Lit(rep('9', *i1, *f1)), b: Src::Lit(rep('9', *i2, *f2)), op, incr: 4, prev: None });
                }
            }
        }
        for op in [Op::Div, Op::Rem] {
            for (i, f) in shapes() {
                for z in ["0", "-0", "0.0", "0.000000000", "0000000000", "0.000000000000000000000000000001"] {
                    v.push(Bin { a: Src::Lit(rep('7', i, f)), b: Src::lit(z), op, incr: 4, prev: None });
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Bin> {
        let mut c = fast::bin(r, &OPS);
        if r.one_in(2) {
            c.a = fast::wide(r);
        }
        if r.one_in(2) {
            c.b = fast::wide(r);
        }
        Some(c)
    }
    fn quick_cases() -> u64 {
        1_200_000
    }
    fn check(c: &Bin, cx: &mut Cx) -> Result<(), String> {
        let (Some((a, na)), Some((b, nb))) = (operand(&c.a), operand(&c.b)) else {
            return cx.discard();
        };
        let what = format!("{} {} {} (incr {})", na.text(), c.op.name(), nb.text(), c.incr);
        let mut res = match &c.prev {
            None => FixedDecimal::zero(),
            Some(s) => fd_or_zero(s),
        };
        let out = guard(|| c.op.apply_to(&a, &b, &mut res, c.incr)).map_err(|p| format!("{}: {}", what, p))?;
        let allowed = c.op.spec(&na, &nb, c.incr);
        match &out {
            Err(e) => {
                let ok = match fail_of(e) {
                    Some(f) => allowed.err == Some(f),
                    None => false,
                };
                if !ok {
                    return Err(format!("{}: unexpected error {}, expected {}", what, err_kind(e), describe(&allowed)));
                }
            }
            Ok(()) => {
                if allowed.ok.is_none() {
                    return Err(format!("{}: succeeded, expected {}", what, describe(&allowed)));
                }
            }
        }
        // operands usable and unchanged
        expect_is("left operand afterwards", &a, &na)?;
        expect_is("right operand afterwards", &b, &nb)?;
        // operator form (fixed extra precision)
        let mut tmp = FixedDecimal::zero();
        let fallible = guard(|| c.op.apply_to(&a, &b, &mut tmp, DEFAULT_INCR)).map_err(|p| format!("{}: {}", what, p))?;
        let (x, y) = (a.clone(), b.clone());
        let op = guard(|| c.op.operator(x, y));
        if op.is_err() != fallible.is_err() {
            return Err(format!(
                "{}: operator {} while function {}",
                what,
                if op.is_err() { "panics" } else { "succeeds" },
                match &fallible {
                    Ok(()) => "succeeds",
                    Err(e) => err_kind(e),
                }
            ));
        }
        // the operator must not fail by accident where the function reports an error
        if let Err(p) = &op {
            const ACCIDENTS: [&str; 9] = ["index out of bounds", "attempt to ", "out of range for slice", "slice index", "copy_from_slice", "source slice length", "unreachable", "`None` value", "assertion"];
            if ACCIDENTS.iter().any(|a| p.msg.contains(a)) {
                return Err(format!("{}: the operator crashes ({}) where the function reports {}", what, p.msg, fallible.as_ref().map_or_else(err_kind, |_| "success")));
            }
        }
        // a failed operation leaves the destination usable for the next one
        if out.is_err() {
            let one = FixedDecimal::one();
            guard(|| FixedDecimal::add_to(&one, &one, &mut res)).map_err(|p| format!("{}: reusing destination: {}", what, p))?.map_err(|e| format!("{}: reusing destination: {}", what, e))?;
            expect_is("1+1 into a destination left by a failed operation", &res, &Num::int(2))?;
        }
        let wide = |n: &Num| n.int_units() + n.frac_units() >= 7;
        cx.label_if(out.is_err(), "error_result");
        cx.label_if(wide(&na) || wide(&nb), "wide_operand_7plus_groups");
        cx.label(match c.op {
            Op::Add => "add",
            Op::Sub => "sub",
            Op::Mul => "mul",
            Op::Div => "div",
            Op::Rem => "rem",
        });
        cx.nontrivial_if(wide(&na) || wide(&nb) || out.is_err());
        Ok(())
    }
}
