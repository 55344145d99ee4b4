//! C19: register machine against the exact model, compared after every step.
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::num::Num;
use crate::real::*;
use crate::spec::{self, classify_literal, Lit};
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const REGS: usize = 4;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Parse(usize, String),
    FromI(usize, i64),
    FromU(usize, u64),
    /// dst, op, lhs, rhs, incr
    Bin(usize, Op, usize, usize, usize),
    /// dst = lhs op rhs by operator
    Oper(usize, Op, usize, usize),
    Round(usize, i64),
    RoundTo(usize, usize, i64),
    Flip(usize),
    SetPos(usize),
    SetNeg(usize),
    Zero(usize),
    One(usize),
    Copy(usize, usize),
    ToInt(usize),
    /// print and parse back, into the register itself
    Reparse(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub steps: Vec<Step>,
}

fn reg() -> std::ops::Range<usize> {
    0..REGS
}

fn incr() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(4usize), 1 => 0usize..30].boxed()
}

fn small_lit() -> BoxedStrategy<String> {
    prop_oneof![
        4 => lit_of(12, 9, 20),
        3 => lit(),
        1 => prop::sample::select(vec!["1", "-1", "2", "10", "0.1", "0.000000001", "999999999", "1000000000", "0.5", "3", "0.999999999", "1000000001"]).prop_map(|s| s.to_string()),
        1 => spelled(),
    ]
    .boxed()
}

fn step() -> BoxedStrategy<Step> {
    let arith = prop_oneof![4 => Just(Op::Add), 4 => Just(Op::Sub), 3 => Just(Op::Mul), 2 => Just(Op::Div), 2 => Just(Op::Rem)];
    let pos = prop_oneof![3 => -3i64..20, 2 => (0i64..5, -1i64..=1).prop_map(|(a, d)| 9 * a + d), 1 => -40i64..70];
    prop_oneof![
        5 => (reg(), small_lit()).prop_map(|(r, s)| Step::Parse(r, s)),
        1 => (reg(), i64s()).prop_map(|(r, v)| Step::FromI(r, v)),
        1 => (reg(), u64s()).prop_map(|(r, v)| Step::FromU(r, v)),
        12 => (reg(), arith.clone(), reg(), reg(), incr()).prop_map(|(d, o, l, r, i)| Step::Bin(d, o, l, r, i)),
        2 => (reg(), arith, reg(), reg()).prop_map(|(d, o, l, r)| Step::Oper(d, o, l, r)),
        3 => (reg(), pos.clone()).prop_map(|(r, k)| Step::Round(r, k)),
        2 => (reg(), reg(), pos).prop_map(|(d, s, k)| Step::RoundTo(d, s, k)),
        1 => reg().prop_map(Step::Flip),
        1 => reg().prop_map(Step::SetPos),
        1 => reg().prop_map(Step::SetNeg),
        1 => reg().prop_map(Step::Zero),
        1 => reg().prop_map(Step::One),
        1 => (reg(), reg()).prop_map(|(d, s)| Step::Copy(d, s)),
        1 => reg().prop_map(Step::ToInt),
        1 => reg().prop_map(Step::Reparse),
    ]
    .boxed()
}

/// programs with a theme, so that long chains of one operation occur
fn program(max: usize) -> BoxedStrategy<Program> {
    let free = (prop::collection::vec((reg(), small_lit()), 4), prop::collection::vec(step(), 1..max)).prop_map(|(init, rest)| {
        let mut steps: Vec<Step> = init.into_iter().enumerate().map(|(i, (_, s))| Step::Parse(i, s)).collect();
        steps.extend(rest);
        steps
    });
    let chain = (small_lit(), small_lit(), prop::sample::select(vec![Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem]), 2usize..max, step()).prop_map(|(a, b, op, n, last)| {
        let mut v = vec![Step::Parse(0, a), Step::Parse(1, b)];
        for i in 0..n {
            v.push(match i % 3 {
                0 => Step::Bin(2, op, 0, 1, 4),
                1 => Step::Bin(0, op, 2, 1, 4),
                _ => Step::Bin(0, op, 0, 1, 4),
            });
            if i % 3 == 1 {
                v.push(Step::Copy(2, 0));
            }
        }
        v.push(last);
        v
    });
    prop_oneof![5 => free, 1 => chain].prop_map(|steps| Program { steps }).boxed()
}

pub struct C19;
impl Prop for C19 {
    type Case = Program;
    const ID: &'static str = "C19";
    const RULE: &'static str = "programs of 5 to 40 steps over four registers (parse, convert, five operations with reused and aliased-by-copy destinations, rounding, sign changes, resets), all registers compared with the model after each step; non-trivial: at least two operations whose operands were themselves results of earlier operations";
    fn strategy(t: Tier) -> BoxedStrategy<Program> {
        program(if t == Tier::Quick { 36 } else { 60 })
    }
    fn fast(r: &mut Fast) -> Option<Program> {
        let small = r.one_in(2);
        let text = |r: &mut Fast| match r.below(8) {
            0 => fast::text(r),
            1 | 2 => fast::lit(r),
            3 => r.pick(&["1", "-1", "2", "10", "0.1", "0.000000001", "999999999", "1000000000", "0.5", "-0.999999999", "1000000001"]).to_string(),
            _ => {
                let g = fast::groups(r);
                let (mi, mf) = if small { (13, 10) } else { (28, 19) };
                let (i, f) = (r.below(mi), r.below(mf));
                let neg = r.one_in(2);
                fast::literal(&g, if i + f == 0 { 1 } else { i }, f, neg)
            }
        };
        let mut steps: Vec<Step> = (0..REGS).map(|i| Step::Parse(i, text(r))).collect();
        // mostly one operation, or any
        let theme = if r.one_in(3) { Some(fast::op(r)) } else { None };
        for _ in 0..=r.below(36) {
            let (d, x, y) = (r.below(REGS), r.below(REGS), r.below(REGS));
            let o = match theme {
                Some(o) if !r.one_in(4) => o,
                _ => r.pick(&[Op::Add, Op::Add, Op::Sub, Op::Sub, Op::Mul, Op::Div, Op::Rem]),
            };
            let k = r.int(-6, 30);
            steps.push(match r.below(32) {
                0..=4 => Step::Parse(d, text(r)),
                5 => Step::FromI(d, fast::integer(r) as i64),
                6 => Step::FromU(d, fast::integer(r)),
                7..=18 => Step::Bin(d, o, x, y, fast::incr(r)),
                19 | 20 => Step::Oper(d, o, x, y),
                21 | 22 => Step::Round(d, k),
                23 => Step::RoundTo(d, x, k),
                24 => Step::Flip(d),
                25 => Step::SetPos(d),
                26 => Step::SetNeg(d),
                27 => Step::Zero(d),
                28 => Step::One(d),
                29 => Step::Copy(d, x),
                30 => Step::ToInt(d),
                _ => Step::Reparse(d),
            });
        }
        Some(Program { steps })
    }
    fn fast_factor() -> u64 {
        3
    }
    fn quick_cases() -> u64 {
        240_000
    }
    fn check(p: &Program, cx: &mut Cx) -> Result<(), String> {
        let mut real: Vec<FixedDecimal> = (0..REGS).map(|_| FixedDecimal::zero()).collect();
        let mut model: Vec<Num> = (0..REGS).map(|_| Num::zero()).collect();
        let mut computed = [false; REGS];
        let mut deep = 0;
        for (ix, s) in p.steps.iter().enumerate() {
            let at = |m: String| format!("step {} {:?}: {}", ix, s, m);
            match s {
                Step::Parse(r, t) => {
                    let Lit::Valid { num, .. } = classify_literal(t.as_bytes()) else {
                        continue;
                    };
                    real[*r].from_ascii_str(t, true).map_err(|e| at(format!("rejected: {}", err_kind(&e))))?;
                    model[*r] = num;
                    computed[*r] = false;
                }
                Step::FromI(r, v) => {
                    real[*r] = FixedDecimal::from(*v);
                    model[*r] = Num::int(*v as i128);
                    computed[*r] = false;
                }
                Step::FromU(r, v) => {
                    real[*r] = FixedDecimal::from(*v);
                    model[*r] = Num::int(*v as i128);
                    computed[*r] = false;
                }
                Step::Bin(d, op, l, r, incr) => {
                    let allowed = op.spec(&model[*l], &model[*r], *incr);
                    let (a, b) = (real[*l].clone(), real[*r].clone());
                    let mut dst = real[*d].clone();
                    let out = guard(|| op.apply_to(&a, &b, &mut dst, *incr));
                    let res = out.map(|x| x.map(|_| dst.clone()));
                    let what = format!("{} {} {}", model[*l].text(), op.name(), model[*r].text());
                    check_outcome(&what, &res, &allowed, *op == Op::Rem).map_err(at)?;
                    if computed[*l] || computed[*r] {
                        deep += 1;
                    }
                    match res {
                        Ok(Ok(v)) => {
                            model[*d] = observe(&v).map_err(at)?;
                            real[*d] = v;
                            computed[*d] = true;
                        }
                        _ => {
                            // the destination of a failed operation is unspecified: reset it
                            dst.set_zero();
                            real[*d] = dst;
                            model[*d] = Num::zero();
                            computed[*d] = false;
                            cx.label("error_result");
                        }
                    }
                }
                Step::Oper(d, op, l, r) => {
                    let allowed = op.spec(&model[*l], &model[*r], DEFAULT_INCR);
                    let (a, b) = (real[*l].clone(), real[*r].clone());
                    match guard(|| op.operator(a, b)) {
                        Ok(v) => {
                            let what = format!("{} {} {} (operator)", model[*l].text(), op.name(), model[*r].text());
                            check_outcome(&what, &Ok(Ok(v.clone())), &allowed, *op == Op::Rem).map_err(at)?;
                            model[*d] = observe(&v).map_err(at)?;
                            real[*d] = v;
                            computed[*d] = true;
                        }
                        Err(p) => {
                            if allowed.err.is_none() {
                                return Err(at(format!("{} {} {}: {}", model[*l].text(), op.name(), model[*r].text(), p)));
                            }
                        }
                    }
                }
                Step::Round(r, k) => {
                    let Some(w) = spec::round(&model[*r], *k) else { continue };
                    let mut v = real[*r].clone();
                    guard(|| v.round(*k as isize)).map_err(|p| at(format!("{}: {}", model[*r].text(), p)))?;
                    expect_is(&format!("{} rounded to {}", model[*r].text(), k), &v, &w).map_err(at)?;
                    real[*r] = v;
                    model[*r] = w;
                    computed[*r] = true;
                }
                Step::RoundTo(d, r, k) => {
                    let Some(w) = spec::round(&model[*r], *k) else { continue };
                    let src = real[*r].clone();
                    let mut v = real[*d].clone();
                    guard(|| src.round_to(&mut v, *k as isize)).map_err(|p| at(format!("{}: {}", model[*r].text(), p)))?;
                    expect_is(&format!("{} rounded to {}", model[*r].text(), k), &v, &w).map_err(at)?;
                    real[*d] = v;
                    model[*d] = w;
                    computed[*d] = true;
                }
                Step::Flip(r) => {
                    if model[*r].neg {
                        real[*r].set_pos();
                    } else {
                        real[*r].set_neg();
                    }
                    model[*r] = model[*r].negate();
                }
                Step::SetPos(r) => {
                    real[*r].set_pos();
                    model[*r] = model[*r].abs();
                }
                Step::SetNeg(r) => {
                    real[*r].set_neg();
                    model[*r] = model[*r].abs().negate();
                }
                Step::Zero(r) => {
                    real[*r].set_zero();
                    model[*r] = Num::zero();
                    computed[*r] = false;
                }
                Step::One(r) => {
                    real[*r].set_one();
                    model[*r] = Num::int(1);
                    computed[*r] = false;
                }
                Step::Copy(d, r) => {
                    real[*d] = real[*r].clone();
                    model[*d] = model[*r].clone();
                    computed[*d] = computed[*r];
                }
                Step::ToInt(r) => {
                    let m = &model[*r];
                    let (gi, gu) = (real[*r].as_i64(), real[*r].as_u64());
                    let (wi, wu) = (spec::as_i64(m), spec::as_u64(m));
                    if gi.as_ref().ok() != wi.as_ref() || gu.as_ref().ok() != wu.as_ref() {
                        return Err(at(format!("{}: as_i64 {:?} want {:?}, as_u64 {:?} want {:?}", m.text(), gi.ok(), wi, gu.ok(), wu)));
                    }
                }
                Step::Reparse(r) => {
                    let t = real[*r].to_string(-1);
                    if super::text_digits(&model[*r]) <= spec::MAX_DIGITS {
                        let mut v = real[*r].clone();
                        v.from_bytes_str(t.as_bytes(), true).map_err(|e| at(format!("{:?} rejected: {}", t, err_kind(&e))))?;
                        real[*r] = v;
                    }
                }
            }
            // every register still shows its model value
            for r in 0..REGS {
                expect_is(&format!("register {}", r), &real[r], &model[r]).map_err(at)?;
                if real[r].frac() as i64 != model[r].scale as i64 || real[r].is_neg() != model[r].neg || real[r].is_zero() != model[r].is_zero() {
                    return Err(at(format!("register {} = {}: frac() {} is_neg() {} is_zero() {}", r, model[r].text(), real[r].frac(), real[r].is_neg(), real[r].is_zero())));
                }
            }
            let q = ix % REGS;
            for r in 0..REGS {
                if real[q].cmp(&real[r]) != model[q].cmp_value(&model[r]) {
                    return Err(at(format!("{} and {} compare {:?}", model[q].text(), model[r].text(), real[q].cmp(&real[r]))));
                }
            }
        }
        cx.label_if(p.steps.len() > 20, "more_than_20_steps");
        cx.label_if(model.iter().any(|m| m.int_units() + m.frac_units() >= 7), "wide_7plus_groups_at_end");
        cx.nontrivial_if(deep >= 2);
        Ok(())
    }
}
