//! C15, C16 integers; C17 sign and zero; C18 reported precision.
use super::operand;
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::num::Num;
use crate::real::*;
use crate::spec::{self, classify_literal, Lit};
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ints {
    pub i: i64,
    pub u: u64,
    pub j: i64,
    pub w: u64,
}

pub struct C15;
impl Prop for C15 {
    type Case = Ints;
    const ID: &'static str = "C15";
    const RULE: &'static str = "integers biased to powers of two and ten (+-2), group boundaries and limits; every 2^k+-3, 10^k+-3 and type limit enumerated; non-trivial: the signed or the unsigned integer needs two or more 9-digit groups";
    fn strategy(_: Tier) -> BoxedStrategy<Ints> {
        (i64s(), u64s(), i64s(), u64s(), 0u8..4).prop_map(|(i, u, j, w, m)| match m {
            0 => Ints { i, u, j: i.wrapping_add(1), w: u.wrapping_add(1) },
            1 => Ints { i, u, j: i.wrapping_neg(), w: i as u64 },
            _ => Ints { i, u, j, w },
        })
        .boxed()
    }
    fn enumerate() -> Vec<Ints> {
        let mut v = Vec::new();
        let mut us: Vec<u64> = Vec::new();
        for k in 0..64 {
            for d in -3i64..=3 {
                us.push((1u64 << k).wrapping_add(d as u64));
            }
        }
        for k in 0..20 {
            for d in -3i64..=3 {
                us.push(10u64.pow(k).wrapping_add(d as u64));
                us.push(9u64.wrapping_mul(10u64.pow(k)).wrapping_add(d as u64));
            }
        }
        for u in us {
            v.push(Ints { i: u as i64, u, j: (u as i64).wrapping_neg(), w: u.wrapping_mul(3) });
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Ints> {
        let (u, w) = (fast::integer(r), fast::integer(r));
        let i = fast::integer(r) as i64;
        let i = if r.one_in(2) { i } else { i.wrapping_neg() };
        Some(match r.below(4) {
            0 => Ints { i, u, j: i.wrapping_add(r.int(-3, 3)), w: u.wrapping_add(r.int(-3, 3) as u64) },
            1 => Ints { i, u: i.unsigned_abs(), j: i.wrapping_neg(), w: i as u64 },
            _ => Ints { i, u, j: w as i64, w },
        })
    }
    fn fast_factor() -> u64 {
        4
    }
    fn quick_cases() -> u64 {
        3_000_000
    }
    fn check(c: &Ints, cx: &mut Cx) -> Result<(), String> {
        for v in [c.i, c.j] {
            let f = FixedDecimal::from(v);
            let t = f.to_string(-1);
            if t != v.to_string() {
                return Err(format!("i64 {} converts to {}", v, t));
            }
            if f.frac() != 0 || f.is_neg() != (v < 0) || f.is_zero() != (v == 0) {
                return Err(format!("i64 {}: frac {} neg {} zero {}", v, f.frac(), f.is_neg(), f.is_zero()));
            }
            match f.as_i64() {
                Ok(b) if b == v => {}
                o => return Err(format!("i64 {} converts back to {:?}", v, o.map_err(|e| err_kind(&e)))),
            }
            match (f.as_u64(), v >= 0) {
                (Ok(b), true) if b == v as u64 => {}
                (Err(_), false) => {}
                (o, _) => return Err(format!("i64 {} as_u64 gives {:?}", v, o.map_err(|e| err_kind(&e)))),
            }
            if t.parse::<FixedDecimal>().ok().as_ref() != Some(&f) {
                return Err(format!("i64 {} differs from the decimal parsed from its text", v));
            }
        }
        for v in [c.u, c.w] {
            let f = FixedDecimal::from(v);
            let t = f.to_string(-1);
            if t != v.to_string() {
                return Err(format!("u64 {} converts to {}", v, t));
            }
            if f.frac() != 0 || f.is_neg() || f.is_zero() != (v == 0) {
                return Err(format!("u64 {}: frac {} neg {} zero {}", v, f.frac(), f.is_neg(), f.is_zero()));
            }
            match f.as_u64() {
                Ok(b) if b == v => {}
                o => return Err(format!("u64 {} converts back to {:?}", v, o.map_err(|e| err_kind(&e)))),
            }
            match (f.as_i64(), i64::try_from(v)) {
                (Ok(b), Ok(w)) if b == w => {}
                (Err(_), Err(_)) => {}
                (o, _) => return Err(format!("u64 {} as_i64 gives {:?}", v, o.map_err(|e| err_kind(&e)))),
            }
            if t.parse::<FixedDecimal>().ok().as_ref() != Some(&f) {
                return Err(format!("u64 {} differs from the decimal parsed from its text", v));
            }
        }
        let ord = [(FixedDecimal::from(c.i), c.i as i128), (FixedDecimal::from(c.j), c.j as i128), (FixedDecimal::from(c.u), c.u as i128), (FixedDecimal::from(c.w), c.w as i128)];
        for (x, i) in &ord {
            for (y, j) in &ord {
                if x.cmp(y) != i.cmp(j) {
                    return Err(format!("decimals of {} and {} compare {:?}", i, j, x.cmp(y)));
                }
            }
        }
        cx.label_if(c.i < 0, "negative");
        cx.label_if(c.u > i64::MAX as u64, "above_i64_max");
        cx.nontrivial_if(c.i.unsigned_abs() > 999_999_999 || c.u > 999_999_999);
        Ok(())
    }
}

/// values around the integer limits, in several layouts
fn near_limits() -> BoxedStrategy<Src> {
    let anchors = prop::sample::select(vec![
        i64::MAX as i128,
        i64::MIN as i128,
        u64::MAX as i128,
        -(u64::MAX as i128),
        0,
        1,
        -1,
        999_999_999,
        1_000_000_000,
        999_999_999_999_999_999,
        1_000_000_000_000_000_000,
        -1_000_000_000_000_000_000,
        9_000_000_000_000_000_000,
        10_000_000_000_000_000_000,
        18_000_000_000_000_000_000,
        100_000_000_000_000_000_000,
        1_000_000_000_000_000_000_000_000_000,
    ]);
    let fr = prop::sample::select(vec![
        "", "", ".0", ".000000000", ".1", ".4", ".49", ".499999999", ".4999999999999999999", ".5", ".50", ".500000000", ".5000000000000000001", ".500000001", ".51", ".9", ".999999999",
        ".999999999999999999", ".000000001", ".0000000001", ".0000000005", ".4999999995", ".49999999950000",
    ]);
    (anchors, -3i128..=3, fr, 0u8..12, 0usize..30)
        .prop_map(|(a, d, f, how, k)| {
            let v = a + d;
            let s = Src::Lit(format!("{}{}", v, f));
            if how < 10 {
                relayout(s, how, k)
            } else {
                s
            }
        })
        .boxed()
}

pub struct C16;
impl Prop for C16 {
    type Case = Src;
    const ID: &'static str = "C16";
    const RULE: &'static str = "decimals of every origin, concentrated on the 64-bit limits, group boundaries and ties, in padded and computed layouts; non-trivial: non-zero fraction, or within 10 of a limit, or an integral part of two or more groups";
    fn strategy(_: Tier) -> BoxedStrategy<Src> {
        prop_oneof![
            5 => near_limits(),
            2 => src(),
            3 => (lit_of(21, 20, 40), 0u8..10, 0usize..30).prop_map(|(t, h, k)| relayout(Src::Lit(t), h, k)),
            2 => (i64s(), "[.]([049]{1,3}|5|49{1,25}|50{1,25}1?|9{1,30})").prop_map(|(v, f)| Src::Lit(format!("{}{}", v, f))),
            2 => (u64s(), "[.]([049]{1,3}|5|49{1,25}|50{1,25}1?|9{1,30})").prop_map(|(v, f)| Src::Lit(format!("{}{}", v, f))),
        ]
        .boxed()
    }
    fn fast(r: &mut Fast) -> Option<Src> {
        let (t, _) = fast::cut(r);
        let limit = r.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0, 999_999_999, 1_000_000_000, 1_000_000_000_000_000_000]);
        let s = match r.below(4) {
            0 => fast::src(r),
            1 => {
                let f = t.split_once('.').map(|x| x.1).unwrap_or("5");
                let v = limit + r.int(-2, 2) as i128;
                Src::Lit(format!("{}.{}", v, &f[..f.len().min(40)]))
            }
            2 => Src::Lit(t),
            _ => {
                let (i, f) = (1 + r.below(20), r.below(20));
                let g = fast::groups(r);
                Src::Lit(fast::literal(&g, i, f, r.one_in(2)))
            }
        };
        Some(if r.one_in(4) { fast::other_layout(r, s) } else { s })
    }
    fn quick_cases() -> u64 {
        2_000_000
    }
    fn check(c: &Src, cx: &mut Cx) -> Result<(), String> {
        let Some((fd, n)) = operand(c) else {
            return cx.discard();
        };
        let range = |e: &fxd::Error| matches!(e, fxd::Error::ExceedsConversionTargetRange);
        let gi = guard(|| fd.as_i64()).map_err(|p| format!("{} as_i64: {}", n.text(), p))?;
        match (&gi, spec::as_i64(&n)) {
            (Ok(a), Some(b)) if *a == b => {}
            (Err(e), None) if range(e) => {}
            (g, w) => return Err(format!("{} as_i64 gives {:?}, want {:?}", n.text(), g.as_ref().map_err(err_kind), w)),
        }
        let gu = guard(|| fd.as_u64()).map_err(|p| format!("{} as_u64: {}", n.text(), p))?;
        match (&gu, spec::as_u64(&n)) {
            (Ok(a), Some(b)) if *a == b => {}
            (Err(e), None) if range(e) => {}
            (g, w) => return Err(format!("{} as_u64 gives {:?}, want {:?}", n.text(), g.as_ref().map_err(err_kind), w)),
        }
        expect_is("decimal after conversion", &fd, &n)?;
        cx.label_if(gi.is_ok(), "i64_ok");
        cx.label_if(gu.is_ok(), "u64_ok");
        cx.label_if(n.scale > 0, "has_fraction_digits");
        cx.label_if(c.is_computed(), "computed");
        let near = [i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0].iter().any(|l| n.sub(&Num::int(*l)).abs().cmp_value(&Num::int(10)).is_lt());
        cx.label_if(near, "near_limit");
        cx.nontrivial_if(!n.trunc(0).eq_value(&n) || near || n.int_units() >= 2);
        Ok(())
    }
}

/// many ways to reach zero
fn zeros() -> BoxedStrategy<Src> {
    let zl = ("[-+]?", 0usize..30, 0usize..30, prop::sample::select(vec!["", "e0", "e5", "e-5", "e30", "E-30"])).prop_map(|(s, i, f, e)| {
        let mut t = s;
        t.push_str(&"0".repeat(i.max(if f == 0 { 1 } else { 0 })));
        if f > 0 {
            t.push('.');
            t.push_str(&"0".repeat(f));
        }
        t.push_str(e);
        Src::Lit(t)
    });
    let z2 = zl.clone();
    prop_oneof![
        4 => zl,
        2 => (src(), 0u8..10, 0usize..20).prop_map(|(s, h, k)| Src::op(s.clone(), Op::Sub, relayout(s, h, k))),
        2 => src().prop_map(|s| Src::op(s.clone(), Op::Add, Src::Neg(Box::new(s)))),
        2 => (lit_of(0, 40, 40), 0usize..40).prop_map(|(s, k)| Src::op(Src::Lit(s), Op::Mul, Src::lit(ulp_lit(k)))),
        2 => (lit_of(1, 40, 40), 30usize..60).prop_map(|(s, k)| Src::op(Src::Lit(s), Op::Div, Src::lit(format!("-1e{}", k)))),
        2 => (lit_of(5, 30, 35), -20i32..9, any::<bool>()).prop_map(|(s, k, t)| { let s = Box::new(Src::Lit(s)); if t { Src::Round(s, k) } else { Src::RoundTo(s, k) } }),
        2 => (lit_of(10, 10, 20), lit_of(5, 5, 10)).prop_map(|(q, d)| Src::op(Src::op(Src::Lit(q), Op::Mul, Src::Lit(d.clone())), Op::Rem, Src::Lit(d))),
        2 => (src(), src()).prop_map(|(a, b)| Src::op(a, Op::Rem, b)),
        2 => (z2, ops(), src(), any::<bool>()).prop_map(|(z, o, s, l)| if l { Src::op(z, o, s) } else { Src::op(s, o, z) }),
    ]
    .boxed()
}

pub struct C17;
impl Prop for C17 {
    type Case = Src;
    const ID: &'static str = "C17";
    const RULE: &'static str = "values reached through every route to zero (signed zero literals, cancellation, underflowing products and quotients, rounding small negatives, zero remainders) and ordinary values, then every sign operation; non-trivial: the value is a computed or negative-spelled zero, or a non-zero value of two or more groups";
    fn strategy(_: Tier) -> BoxedStrategy<Src> {
        prop_oneof![4 => zeros(), 1 => src()].boxed()
    }
    fn fast(r: &mut Fast) -> Option<Src> {
        let (a, b) = fast::pair(r);
        let o = fast::op(r);
        Some(match r.below(4) {
            0 => Src::op(a.clone(), Op::Sub, fast::other_layout(r, a)),
            1 => Src::op(Src::op(a, Op::Mul, b.clone()), Op::Rem, b),
            2 => Src::Round(Box::new(a), r.int(-30, 10) as i32),
            _ => Src::op(a, o, b),
        })
    }
    fn quick_cases() -> u64 {
        1_500_000
    }
    fn check(c: &Src, cx: &mut Cx) -> Result<(), String> {
        let Some(fd) = c.build() else {
            return cx.discard();
        };
        let t = fd.to_string(-1);
        let Some(n) = Num::parse_canonical(&t) else {
            return cx.discard();
        };
        if n.is_zero() {
            zero_ok(&fd, &t, "value")?;
            for (name, op) in [("set_neg", true), ("set_pos", false)] {
                let mut x = fd.clone();
                if op {
                    x.set_neg()
                } else {
                    x.set_pos()
                }
                zero_ok(&x, &x.to_string(-1), name)?;
                if x != fd || x.frac() != fd.frac() {
                    return Err(format!("{}: {} changed it to {}", t, name, x.to_string(-1)));
                }
            }
            cx.label("zero");
            cx.nontrivial_if(c.is_computed() || matches!(c, Src::Lit(s) if s.starts_with('-')));
        } else {
            if fd.is_zero() {
                return Err(format!("{}: is_zero()", t));
            }
            if fd.is_neg() != n.neg {
                return Err(format!("{}: is_neg() = {}", t, fd.is_neg()));
            }
            let neg_t = format!("-{}", t.trim_start_matches('-'));
            let pos_t = t.trim_start_matches('-').to_string();
            let mut x = fd.clone();
            for (what, want) in [("set_neg", &neg_t), ("set_neg again", &neg_t), ("set_pos", &pos_t), ("set_pos again", &pos_t), ("set_neg", &neg_t)] {
                if what.starts_with("set_neg") {
                    x.set_neg()
                } else {
                    x.set_pos()
                }
                if x.to_string(-1) != *want || x.is_neg() != want.starts_with('-') || x.is_zero() || x.frac() != fd.frac() || x.intg() != fd.intg() {
                    return Err(format!("{}: {} gives {}", t, what, x.to_string(-1)));
                }
            }
            // negating twice restores the value
            if n.neg {
                x.set_neg()
            } else {
                x.set_pos()
            }
            if x != fd {
                return Err(format!("{}: setting the sign back and forth gives {}", t, x.to_string(-1)));
            }
            cx.nontrivial_if(n.int_units() + n.frac_units() >= 2);
        }
        // resets from this state
        let mut x = fd.clone();
        x.set_zero();
        zero_ok(&x, &x.to_string(-1), "set_zero")?;
        if x.to_string(-1) != "0" {
            return Err(format!("{}: set_zero gives {}", t, x.to_string(-1)));
        }
        let mut x = fd.clone();
        x.set_one();
        if x.to_string(-1) != "1" || x.is_neg() || x.is_zero() || x != FixedDecimal::one() || x.as_i64().ok() != Some(1) {
            return Err(format!("{}: set_one gives {}", t, x.to_string(-1)));
        }
        let x = fd.clone();
        if x.to_string(-1) != t || x != fd {
            return Err(format!("{}: its clone is {}", t, x.to_string(-1)));
        }
        Ok(())
    }
}

fn zero_ok(x: &FixedDecimal, t: &str, what: &str) -> Result<(), String> {
    let z = FixedDecimal::zero();
    if x.is_neg() || t.starts_with('-') {
        return Err(format!("{}: negative zero {:?}", what, t));
    }
    if !x.is_zero() {
        return Err(format!("{}: {:?} but is_zero() is false", what, t));
    }
    if *x != z || z != *x || *x < z || *x > z {
        return Err(format!("{}: {:?} does not compare equal to zero", what, t));
    }
    Ok(())
}

pub struct C18;
impl Prop for C18 {
    type Case = Src;
    const ID: &'static str = "C18";
    const RULE: &'static str = "values of every origin; every literal shape (integral digits, fraction digits) enumerated with and without leading zeros; non-trivial: computed value, or literal with two or more groups";
    fn strategy(_: Tier) -> BoxedStrategy<Src> {
        let two = (src(), ops(), src()).prop_map(|(a, o, b)| Src::op(a, o, b));
        prop_oneof![4 => src(), 2 => spelled().prop_map(Src::Lit), 3 => two, 1 => (wide_src(), super::round::positions()).prop_map(|(s, k)| Src::Round(Box::new(s), k.clamp(-200, 300) as i32))].boxed()
    }
    fn enumerate() -> Vec<Src> {
        let mut v = Vec::new();
        for i in 0..=65usize {
            for f in 0..=(65 - i) {
                if i + f > 0 {
                    v.push(Src::Lit(super::arith::rep('8', i, f)));
                    v.push(Src::Lit(super::arith::rep('0', i, f)));
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Src> {
        let (a, b) = fast::pair(r);
        let o = fast::op(r);
        Some(match r.below(3) {
            0 => fast::src(r),
            1 => Src::Round(Box::new(a), r.int(-30, 40) as i32),
            _ => Src::op(a, o, b),
        })
    }
    fn quick_cases() -> u64 {
        1_500_000
    }
    fn check(c: &Src, cx: &mut Cx) -> Result<(), String> {
        let Some(fd) = c.build() else {
            return cx.discard();
        };
        let t = fd.to_string(-1);
        let n = match observe(&fd) {
            Ok(n) => n,
            Err(e) => return Err(format!("{:?}: {}", c, e)),
        };
        let (i, f, iu, fu) = guard(|| (fd.intg() as i64, fd.frac() as i64, fd.intg_units() as i64, fd.frac_units() as i64)).map_err(|p| format!("{}: {}", t, p))?;
        let bad = |m: String| Err(format!("{} (from {:?}): {}", t, c, m));
        if f != n.scale as i64 {
            return bad(format!("frac() = {} but {} fractional digits are printed", f, n.scale));
        }
        if i < n.int_digits() as i64 {
            return bad(format!("intg() = {} but the value has {} significant integral digits", i, n.int_digits()));
        }
        if iu != (i + 8) / 9 || fu != (f + 8) / 9 {
            return bad(format!("intg() = {} intg_units() = {} frac() = {} frac_units() = {}", i, iu, f, fu));
        }
        if iu + fu > 9 {
            return bad(format!("{} integral and {} fractional groups exceed nine", iu, fu));
        }
        if let Src::Lit(s) = c {
            if let Lit::Valid { num, int_digits } = classify_literal(s.as_bytes()) {
                if i != int_digits as i64 || f != num.scale as i64 {
                    return bad(format!("literal reports {}+{} digits, written {}+{}", i, f, int_digits, num.scale));
                }
            }
        }
        cx.label_if(c.is_computed(), "computed");
        cx.label_if(iu + fu == 9, "full_9_groups");
        cx.label_if(i > n.int_digits().max(1) as i64, "leading_zero_digits_reported");
        cx.nontrivial_if(c.is_computed() || n.int_units() + n.frac_units() >= 2);
        Ok(())
    }
}
