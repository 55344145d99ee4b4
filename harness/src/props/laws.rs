//! C20: algebraic laws among public operations, without the reference model.
use super::order::{trio, Trio};
use crate::engine::{Cx, Prop, Tier};
use crate::fast::Fast;
use crate::gen::*;
use crate::real::*;
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LawCase {
    pub t: Trio,
    pub k: i64,
}

type R = Result<Option<FixedDecimal>, String>;

fn go(op: Op, a: &FixedDecimal, b: &FixedDecimal) -> R {
    match guard(|| op.compute(a, b, DEFAULT_INCR)) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(_)) => Ok(None),
        Err(p) => Err(format!("{} {} {}: {}", a.to_string(-1), op.name(), b.to_string(-1), p)),
    }
}

fn neg(a: &FixedDecimal) -> FixedDecimal {
    let mut x = a.clone();
    if !x.is_zero() {
        if x.is_neg() {
            x.set_pos()
        } else {
            x.set_neg()
        }
    }
    x
}

/// product, only if nothing was cut
fn exact_mul(a: &FixedDecimal, b: &FixedDecimal) -> R {
    Ok(go(Op::Mul, a, b)?.filter(|p| a.is_zero() || b.is_zero() || p.frac() as i64 == a.frac() as i64 + b.frac() as i64))
}

fn s(f: &FixedDecimal) -> String {
    f.to_string(-1)
}

fn rounded(a: &FixedDecimal, k: i64) -> Result<FixedDecimal, String> {
    let mut x = a.clone();
    guard(|| x.round(k as isize)).map_err(|p| format!("{} rounded to {}: {}", s(a), k, p))?;
    Ok(x)
}

pub struct C20;
impl Prop for C20 {
    type Case = LawCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "triples of related decimals and a rounding position; commutativity, cancellation, antisymmetry, order and sign laws, distributivity, associativity, division identity, rounding laws, each where no operation involved overflows or truncates; non-trivial: at least six laws applied and all three values non-zero";
    fn strategy(_: Tier) -> BoxedStrategy<LawCase> {
        let small = (lit_of(20, 9, 22), lit_of(20, 9, 22), lit_of(20, 9, 22)).prop_map(|(a, b, c)| Trio { a: Src::Lit(a), b: Src::Lit(b), c: Src::Lit(c) });
        let comp = (pair(), lit_of(20, 9, 22)).prop_map(|(p, c)| Trio { a: p.a, b: p.b, c: Src::Lit(c) });
        (prop_oneof![3 => trio(), 3 => small, 2 => comp], prop_oneof![4 => -5i64..20, 2 => -30i64..40]).prop_map(|(t, k)| LawCase { t, k }).boxed()
    }
    fn fast(r: &mut Fast) -> Option<LawCase> {
        Some(LawCase { t: super::order::fast_trio(r), k: r.int(-12, 30) })
    }
    fn quick_cases() -> u64 {
        700_000
    }
    fn check(c: &LawCase, cx: &mut Cx) -> Result<(), String> {
        let (Some(a), Some(b), Some(d)) = (c.t.a.build(), c.t.b.build(), c.t.c.build()) else {
            return cx.discard();
        };
        let ctx = |law: &str, x: &FixedDecimal, y: &FixedDecimal| format!("{}: {} vs {} for a={} b={} c={} k={}", law, s(x), s(y), s(&a), s(&b), s(&d), c.k);
        let mut laws = 0;
        macro_rules! same {
            ($name:expr, $x:expr, $y:expr) => {
                if let (Some(x), Some(y)) = (&$x, &$y) {
                    laws += 1;
                    if x != y || (x.cmp(y) != Ordering::Equal) {
                        return Err(ctx($name, x, y));
                    }
                }
            };
        }
        macro_rules! chk {
            ($name:expr, $c:expr, $x:expr, $y:expr) => {
                laws += 1;
                if !$c {
                    return Err(ctx($name, $x, $y));
                }
            };
        }
        let ab = go(Op::Add, &a, &b)?;
        let ba = go(Op::Add, &b, &a)?;
        if ab.is_some() != ba.is_some() {
            return Err(ctx("a+b and b+a do not both succeed", &a, &b));
        }
        same!("a+b = b+a", ab, ba);
        // a zero operand gives way to the other one, scale included, so two zeros may differ in text
        if let (Some(x), Some(y), false) = (&ab, &ba, a.is_zero() && b.is_zero()) {
            chk!("text of a+b = text of b+a", s(x) == s(y), x, y);
        }
        let amb = go(Op::Sub, &a, &b)?;
        let bma = go(Op::Sub, &b, &a)?;
        if let (Some(x), Some(y)) = (&amb, &bma) {
            same!("a-b = -(b-a)", Some(x.clone()), Some(neg(y)));
            // sign of the difference is the order
            let z = FixedDecimal::zero();
            chk!("sign of a-b is the order of a and b", x.cmp(&z) == a.cmp(&b), &a, &b);
            chk!("a-b is negative exactly when a<b", x.is_neg() == (a < b), &a, &b);
        }
        same!("a-b = a+(-b)", amb, go(Op::Add, &a, &neg(&b))?);
        if let Some(x) = &ab {
            same!("a+b-b = a", go(Op::Sub, x, &b)?, Some(a.clone()));
            same!("a+b-a = b", go(Op::Sub, x, &a)?, Some(b.clone()));
            same!("(-a)+(-b) = -(a+b)", go(Op::Add, &neg(&a), &neg(&b))?, Some(neg(x)));
        }
        if let Some(x) = &amb {
            same!("a-b+b = a", go(Op::Add, x, &b)?, Some(a.clone()));
        }
        same!("a-a = 0", go(Op::Sub, &a, &a)?, Some(FixedDecimal::zero()));
        // (a+b)+c = a+(b+c)
        let bc = go(Op::Add, &b, &d)?;
        if let (Some(x), Some(y)) = (&ab, &bc) {
            same!("(a+b)+c = a+(b+c)", go(Op::Add, x, &d)?, go(Op::Add, &a, y)?);
        }
        // order laws
        let (ac, bcx) = (go(Op::Add, &a, &d)?, go(Op::Add, &b, &d)?);
        if let (Some(x), Some(y)) = (&ac, &bcx) {
            chk!("a<b iff a+c<b+c", x.cmp(y) == a.cmp(&b), &a, &b);
        }
        chk!("negation reverses order", neg(&b).cmp(&neg(&a)) == a.cmp(&b), &a, &b);
        chk!("comparison is antisymmetric", b.cmp(&a) == a.cmp(&b).reverse(), &a, &b);
        if a <= b && b <= d {
            chk!("order is transitive", a <= d, &a, &d);
        }
        // multiplication
        let m1 = go(Op::Mul, &a, &b)?;
        let m2 = go(Op::Mul, &b, &a)?;
        if m1.is_some() != m2.is_some() {
            return Err(ctx("a*b and b*a do not both succeed", &a, &b));
        }
        same!("a*b = b*a", m1, m2);
        same!("a*1 = a", exact_mul(&a, &FixedDecimal::one())?, Some(a.clone()));
        let two = FixedDecimal::from(2u64);
        same!("a+a = a*2", go(Op::Add, &a, &a)?, exact_mul(&a, &two)?);
        if let (Some(x), Some(y)) = (exact_mul(&a, &b)?, exact_mul(&a, &d)?) {
            if let (Some(sum), Some(bpc)) = (go(Op::Add, &x, &y)?, &bc) {
                let p = exact_mul(&a, bpc)?;
                cx.label_if(p.is_some(), "distributivity");
                same!("a*(b+c) = a*b+a*c", p, Some(sum));
            }
            if let Some(bxc) = exact_mul(&b, &d)? {
                let (l, r) = (exact_mul(&x, &d)?, exact_mul(&a, &bxc)?);
                cx.label_if(l.is_some() && r.is_some(), "associativity");
                same!("(a*b)*c = a*(b*c)", l, r);
            }
        }
        if let Some(x) = exact_mul(&a, &b)? {
            same!("(-a)*b = -(a*b)", exact_mul(&neg(&a), &b)?, Some(neg(&x)));
            if !b.is_zero() {
                // an exact multiple divides back
                if let Some(q) = go(Op::Div, &x, &b)? {
                    if q.frac() >= a.frac() {
                        same!("a*b/b = a", Some(q), Some(a.clone()));
                    }
                }
                if let Some(r) = go(Op::Rem, &x, &b)? {
                    if a.frac() == 0 {
                        chk!("a*b%b = 0 for an integer a", r.is_zero(), &r, &b);
                    }
                }
            }
        }
        // division identity
        if !b.is_zero() {
            let r = go(Op::Rem, &a, &b)?;
            if let Some(r) = &r {
                let abs = |x: &FixedDecimal| {
                    let mut y = x.clone();
                    y.set_pos();
                    y
                };
                chk!("|a%b| < |b|", abs(r) < abs(&b), r, &b);
                chk!("a%b is zero or has the sign of a", r.is_zero() || r.is_neg() == a.is_neg(), r, &a);
                let rn = go(Op::Rem, &a, &neg(&b))?;
                same!("a%b = a%(-b)", rn, Some(r.clone()));
                let nr = go(Op::Rem, &neg(&a), &b)?;
                same!("(-a)%b = -(a%b)", nr, Some(neg(r)));
                if let Some(q) = go(Op::Div, &a, &b)? {
                    // integral part of the quotient by its text
                    let t = q.to_string(0);
                    if let Ok(qi) = t.parse::<FixedDecimal>() {
                        if let Some(p) = exact_mul(&b, &qi)? {
                            cx.label("division_identity");
                            same!("b*trunc(a/b) + a%b = a", go(Op::Add, &p, r)?, Some(a.clone()));
                        }
                    }
                }
            }
        }
        // rounding laws; skip positions where a carry could leave the representable range
        if a.to_string(0).trim_start_matches('-').len() <= 72 && b.to_string(0).trim_start_matches('-').len() <= 72 {
            let ra = rounded(&a, c.k)?;
            let rb = rounded(&b, c.k)?;
            same!("rounding is idempotent", Some(rounded(&ra, c.k)?), Some(ra.clone()));
            same!("rounding is symmetric in sign", Some(rounded(&neg(&a), c.k)?), Some(neg(&ra)));
            chk!("rounding is monotone", a.cmp(&b) == Ordering::Equal && ra == rb || a < b && ra <= rb || a > b && ra >= rb, &ra, &rb);
            // distance: 2*|a - round(a)| <= 10^-k
            if (-60..=60).contains(&c.k) {
                let unit: FixedDecimal = if c.k >= 1 { ulp_lit(c.k as usize) } else { format!("1e{}", -c.k) }.parse().map_err(|_| "harness literal".to_string())?;
                if let Some(mut d) = go(Op::Sub, &a, &ra)? {
                    d.set_pos();
                    if let Some(dd) = go(Op::Add, &d, &d)? {
                        chk!("2*|a-round(a)| <= unit", dd <= unit, &dd, &unit);
                        // ties go away from zero
                        if dd == unit && !a.is_zero() {
                            cx.label("rounding_tie");
                            let mut x = a.clone();
                            let mut y = ra.clone();
                            x.set_pos();
                            y.set_pos();
                            chk!("a tie moves away from zero", y > x, &y, &x);
                        }
                    }
                }
            }
        }
        cx.label_if(c.t.a.is_computed() || c.t.b.is_computed(), "computed");
        cx.nontrivial_if(laws >= 6 && !a.is_zero() && !b.is_zero() && !d.is_zero());
        Ok(())
    }
}
