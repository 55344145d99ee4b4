//! C11 rounding.
use super::operand;
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::num::Num;
use crate::real::*;
use crate::spec;
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoundCase {
    pub v: Src,
    pub k: i64,
    pub prev: Option<Src>,
}

pub fn positions() -> BoxedStrategy<i64> {
    prop_oneof![
        6 => -30i64..40,
        4 => (-9i64..=9, -1i64..=1).prop_map(|(a, d)| 9 * a + d),
        2 => -90i64..100,
        1 => prop::sample::select(vec![i64::MIN, i64::MIN + 1, -1000, -257, -256, -255, -129, -128, -127, 126, 127, 128, 129, 255, 256, 257, 300, 1 << 31, 1 << 32, i64::MAX]),
    ]
    .boxed()
}

/// values with a tie or near-tie exactly below position k
fn tie() -> BoxedStrategy<RoundCase> {
    (lit_of(60, 40, 64), -1i32..=1, 0usize..40, any::<bool>(), 0usize..20, 0u8..3)
        .prop_map(|(t, d, cut, nines, tail, computed)| {
            let neg = t.starts_with('-');
            let body = t.trim_start_matches('-');
            let (i, f) = body.split_once('.').unwrap_or((body, ""));
            let mut ds: Vec<u8> = i.bytes().chain(f.bytes()).collect();
            let il = i.len() as i64;
            let p = cut.min(ds.len() - 1); // digits kept
            for x in ds.iter_mut().skip(p) {
                *x = b'0';
            }
            ds[p] = b'5';
            if d < 0 {
                ds[p] = b'4';
                for x in ds.iter_mut().skip(p + 1) {
                    *x = b'9';
                }
            } else if d > 0 {
                let l = ds.len();
                let q = (p + 1 + tail).min(l - 1);
                if q > p {
                    ds[q] = b'1';
                }
            }
            if nines {
                for x in ds.iter_mut().take(p) {
                    *x = b'9';
                }
            }
            let s = String::from_utf8(ds).unwrap();
            let txt = format!("{}{}{}{}", if neg { "-" } else { "" }, &s[..i.len()], if f.is_empty() { "" } else { "." }, &s[i.len()..]);
            let v = match computed {
                0 => Src::op(Src::Lit(txt), Op::Mul, Src::One),
                1 => Src::op(Src::Lit(txt), Op::Add, Src::lit("0")),
                _ => Src::Lit(txt),
            };
            RoundCase { v, k: p as i64 - il, prev: None }
        })
        .boxed()
}

pub struct C11;
impl Prop for C11 {
    type Case = RoundCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "values of every origin and positions -90..100 plus extremes, constructed ties and near-ties at every digit with runs of nines above; every (digit count, position) for all-nines and 4999/5000 patterns; every value of up to three groups over six boundary group values at positions -28..28; non-trivial: rounding changes the value, or the scale is extended on a non-zero value";
    fn strategy(_: Tier) -> BoxedStrategy<RoundCase> {
        let any = (src(), positions(), prop_oneof![2 => Just(None), 1 => dirty().prop_map(Some)]).prop_map(|(v, k, prev)| RoundCase { v, k, prev });
        prop_oneof![4 => any, 3 => tie(), 1 => (wide_src(), positions()).prop_map(|(v, k)| RoundCase { v, k, prev: None })].boxed()
    }
    fn enumerate() -> Vec<RoundCase> {
        let mut v = Vec::new();
        let shapes = super::arith::shapes();
        for (i, f) in &shapes {
            for k in -(*i as i64) - 2..=(*f as i64) + 2 {
                v.push(RoundCase { v: Src::Lit(super::arith::rep('9', *i, *f)), k, prev: None });
                // tie and near tie below position k
                let p = *i as i64 + k;
                if p >= 0 && p < (*i + *f) as i64 {
                    for (first, rest) in [(b'5', b'0'), (b'4', b'9')] {
                        let mut d = vec![b'2'; i + f];
                        d[p as usize] = first;
                        for x in d.iter_mut().skip(p as usize + 1) {
                            *x = rest;
                        }
                        let s = String::from_utf8(d).unwrap();
                        let t = format!("{}{}{}", &s[..*i], if *f > 0 { "." } else { "" }, &s[*i..]);
                        v.push(RoundCase { v: Src::Lit(t), k, prev: None });
                    }
                }
            }
            for k in [36, 45, 54, 63, 64, 65, 72, 81, 100, 127, 128] {
                v.push(RoundCase { v: Src::Lit(super::arith::rep('3', *i, *f)), k, prev: None });
            }
        }
        for (n, t) in grid(&[0, 1, 499_999_999, 500_000_000, 999_999_999, 99_999_995], 3).into_iter().enumerate() {
            for k in -28..=28 {
                v.push(RoundCase { v: Src::Lit(format!("{}{}", if n % 2 == 1 { "-" } else { "" }, t)), k, prev: None });
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<RoundCase> {
        let (t, k) = fast::cut(r);
        let v = match r.below(6) {
            0 => fast::src(r),
            1 => fast::wide(r),
            2 => fast::other_layout(r, Src::Lit(t)),
            _ => Src::Lit(t),
        };
        Some(RoundCase { v, k, prev: fast::prev(r) })
    }
    fn quick_cases() -> u64 {
        1_700_000
    }
    fn check(c: &RoundCase, cx: &mut Cx) -> Result<(), String> {
        let Some((fd, n)) = operand(&c.v) else {
            return cx.discard();
        };
        let Some(want) = spec::round(&n, c.k) else {
            return cx.discard(); // no such decimal exists (more than 81 integral digits)
        };
        let what = format!("{} rounded to {}", n.text(), c.k);
        let mut x = fd.clone();
        guard(|| x.round(c.k as isize)).map_err(|p| format!("{}: {}", what, p))?;
        expect_is(&what, &x, &want)?;
        let mut res = match &c.prev {
            None => FixedDecimal::zero(),
            Some(s) => fd_or_zero(s),
        };
        guard(|| fd.round_to(&mut res, c.k as isize)).map_err(|p| format!("{} (round_to): {}", what, p))?;
        expect_is(&format!("{} (round_to)", what), &res, &want)?;
        expect_is("operand after round_to", &fd, &n)?;
        let changed = !want.eq_value(&n);
        let extended = want.scale > n.scale && !n.is_zero();
        cx.label_if(changed, "value_changed");
        cx.label_if(extended, "scale_extended");
        cx.label_if(c.k < 0, "left_of_point");
        cx.label_if(is_tie(&n, c.k), "tie");
        cx.label_if(want.int_digits() > n.int_digits(), "carries_into_new_digit");
        cx.label_if(c.v.is_computed(), "computed");
        cx.nontrivial_if(changed || extended);
        Ok(())
    }
}

fn is_tie(n: &Num, k: i64) -> bool {
    let drop = n.scale as i64 - k.max(-200);
    if drop <= 0 || n.is_zero() {
        return false;
    }
    let drop = drop as usize;
    n.mag.0.iter().take(drop - 1).all(|d| *d == 0) && n.mag.0.get(drop - 1) == Some(&5)
}
