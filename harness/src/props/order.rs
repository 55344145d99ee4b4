//! C12 call forms, C13 order, C14 hash.
use super::{check_append, operand};
use super::text::{parse_via, Route};
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::num::Num;
use crate::real::*;
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Recorder(pub Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(b.len() as u8); // keeps differently chunked writes apart
    }
}

pub fn hash_bytes(f: &FixedDecimal) -> Vec<u8> {
    let mut r = Recorder::default();
    f.hash(&mut r);
    r.0
}

pub type Shape = (String, i8, i8, bool, bool, Vec<u8>, (Option<i64>, Option<u64>));

/// All a user can see of a decimal.
pub fn shape(f: &FixedDecimal) -> Shape {
    (f.to_string(-1), f.intg(), f.frac(), f.is_neg(), f.is_zero(), hash_bytes(f), (f.as_i64().ok(), f.as_u64().ok()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Forms {
    Arith { a: Src, b: Src, op: Op, incr: usize, prev: Src },
    Round { v: Src, k: i64, prev: Src },
    Parse { text: String, prev: Src },
    Show { v: Src, k: i64, prefix: String },
    Reset { prev: Src },
}

pub struct C12;
impl Prop for C12 {
    type Case = Forms;
    const ID: &'static str = "C12";
    const RULE: &'static str = "each public operation through all its call forms (parsing also of rejected text), into a clean and into a previously used destination (full-width values, leftovers); non-trivial: the previous content of the destination is not zero (or, for formatting, the buffer is not empty)";
    fn strategy(_: Tier) -> BoxedStrategy<Forms> {
        prop_oneof![
            5 => (pair(), ops(), super::arith::incrs(), dirty()).prop_map(|(p, op, incr, prev)| Forms::Arith { a: p.a, b: p.b, op, incr, prev }),
            3 => (src(), super::round::positions(), dirty()).prop_map(|(v, k, prev)| Forms::Round { v, k, prev }),
            2 => (spelled(), dirty()).prop_map(|(text, prev)| Forms::Parse { text, prev }),
            1 => (super::text::junk(), dirty()).prop_map(|(b, prev)| Forms::Parse { text: String::from_utf8_lossy(&b).into_owned(), prev }),
            1 => (src(), prop_oneof![6 => -3i64..90, 2 => 90i64..300, 1 => prop::sample::select(vec![i64::MIN, i64::MIN + 1, -1000, -256, -129, -128, 255, 256, 1000, 2100])], "[ -~]{0,6}").prop_map(|(v, k, prefix)| Forms::Show { v, k, prefix }),
            1 => dirty().prop_map(|prev| Forms::Reset { prev }),
        ]
        .boxed()
    }
    fn fast(r: &mut Fast) -> Option<Forms> {
        let prev = fast::used(r);
        Some(match r.below(16) {
            0..=7 => {
                let b = fast::bin(r, &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem]);
                Forms::Arith { a: b.a, b: b.b, op: b.op, incr: b.incr, prev }
            }
            8 | 9 => {
                let (t, k) = fast::cut(r);
                Forms::Round { v: Src::Lit(t), k, prev }
            }
            10 => {
                let v = fast::src(r);
                Forms::Round { v, k: fast::position(r), prev }
            }
            11 | 12 => Forms::Parse { text: fast::text(r), prev },
            13 => Forms::Parse { text: String::from_utf8_lossy(&fast::edited(r)).into_owned(), prev },
            14 => {
                let v = fast::src(r);
                let k = fast::position(r);
                Forms::Show { v, k, prefix: "ab".repeat(r.below(40)) }
            }
            _ => Forms::Reset { prev },
        })
    }
    fn fast_factor() -> u64 {
        4
    }
    fn quick_cases() -> u64 {
        1_000_000
    }
    fn check(c: &Forms, cx: &mut Cx) -> Result<(), String> {
        match c {
            Forms::Arith { a, b, op, incr, prev } => {
                let (Some((x, nx)), Some((y, ny))) = (operand(a), operand(b)) else {
                    return cx.discard();
                };
                let Some(mut dirty) = prev.build() else {
                    return cx.discard();
                };
                let was_dirty = !dirty.is_zero();
                let what = format!("{} {} {} (incr {})", nx.text(), op.name(), ny.text(), incr);
                let mut clean = FixedDecimal::zero();
                let r1 = guard(|| op.apply_to(&x, &y, &mut clean, *incr).map_err(|e| err_kind(&e)));
                let r2 = guard(|| op.apply_to(&x, &y, &mut dirty, *incr).map_err(|e| err_kind(&e)));
                let o1 = outcome(&r1, &clean);
                let o2 = outcome(&r2, &dirty);
                if o1 != o2 {
                    return Err(format!("{}: into a fresh zero gives {}, into a used destination gives {}", what, o1, o2));
                }
                // self-aliasing through clones: destination previously holding an operand
                let mut own = x.clone();
                let r3 = guard(|| op.apply_to(&x, &y, &mut own, *incr).map_err(|e| err_kind(&e)));
                let o3 = outcome(&r3, &own);
                if o1 != o3 {
                    return Err(format!("{}: into a copy of the left operand gives {}, into a fresh zero {}", what, o3, o1));
                }
                // a copy, made afresh and into a used decimal
                let mut copy = prev.build().unwrap_or_else(FixedDecimal::zero);
                copy.clone_from(&x);
                if shape(&copy) != shape(&x) || shape(&x.clone()) != shape(&x) {
                    return Err(format!("copying {} into a used decimal gives {}, cloning it {}", show(&x), show(&copy), show(&x.clone())));
                }
                expect_is("left operand afterwards", &x, &nx)?;
                expect_is("right operand afterwards", &y, &ny)?;
                let mut plain = FixedDecimal::zero();
                let r4 = guard(|| op.apply_to(&x, &y, &mut plain, DEFAULT_INCR).map_err(|e| err_kind(&e)));
                let (p, q) = (x.clone(), y.clone());
                let r5 = guard(|| op.operator(p, q));
                match (&r4, &r5) {
                    (Ok(Ok(())), Ok(v)) => {
                        if shape(v) != shape(&plain) {
                            return Err(format!("{}: the operator gives {} and the function {}", what, show(v), show(&plain)));
                        }
                    }
                    (Ok(Ok(())), Err(p)) => return Err(format!("{}: the function succeeds but the operator {}", what, p)),
                    (_, Ok(v)) => return Err(format!("{}: the function fails but the operator gives {}", what, show(v))),
                    _ => {}
                }
                cx.label("arith");
                cx.nontrivial_if(was_dirty);
            }
            Forms::Round { v, k, prev } => {
                let Some((x, n)) = operand(v) else {
                    return cx.discard();
                };
                let Some(mut dirty) = prev.build() else {
                    return cx.discard();
                };
                let was_dirty = !dirty.is_zero();
                let what = format!("{} rounded to {}", n.text(), k);
                let mut inplace = x.clone();
                let mut clean = FixedDecimal::zero();
                let r1 = guard(|| inplace.round(*k as isize));
                let r2 = guard(|| x.round_to(&mut clean, *k as isize));
                let r3 = guard(|| x.round_to(&mut dirty, *k as isize));
                let o = |r: &Result<(), Panicked>, f: &FixedDecimal| match r {
                    Ok(()) => show(f),
                    Err(_) => "panic".to_string(),
                };
                let (a, b, d) = (o(&r1, &inplace), o(&r2, &clean), o(&r3, &dirty));
                if a != b || b != d {
                    return Err(format!("{}: round gives {}, round_to {}, round_to into a used destination {}", what, a, b, d));
                }
                expect_is("operand afterwards", &x, &n)?;
                cx.label("round");
                cx.nontrivial_if(was_dirty);
            }
            Forms::Parse { text, prev } => {
                let mut first: Option<(String, _)> = None;
                let mut left: Vec<String> = Vec::new();
                for route in [Route::FromStr, Route::Ascii, Route::Bytes, Route::AsciiReset(prev.clone()), Route::BytesReset(prev.clone())] {
                    let r = guard(|| {
                        let (d, r) = parse_via(text, &route);
                        left.push(show(&d));
                        match r {
                            Ok(()) => format!("{:?}", shape(&d)),
                            Err(e) => err_kind(&e).to_string(),
                        }
                    });
                    let o = r.unwrap_or_else(|_| "panic".into());
                    match &first {
                        None => first = Some((o, route)),
                        Some((f, fr)) if *f != o => return Err(format!("{:?}: {:?} gives {} but {:?} gives {}", text, fr, f, route, o)),
                        _ => {}
                    }
                }
                // a rejected text leaves the same behind through text and bytes
                if left.len() == 5 && (left[1] != left[2] || left[3] != left[4]) {
                    return Err(format!("{:?}: the entry points leave {} / {} in a fresh destination, {} / {} in a used one", text, left[1], left[2], left[3], left[4]));
                }
                let failed = first.is_some_and(|f| f.0 == "ConversionSyntax");
                cx.label(if failed { "parse_rejected" } else { "parse" });
                cx.nontrivial_if(prev.build().is_some_and(|p| !p.is_zero()));
            }
            Forms::Show { v, k, prefix } => {
                let Some(x) = v.build() else {
                    return cx.discard();
                };
                let s = guard(|| x.to_string(*k as isize)).map_err(|p| p.to_string())?;
                guard(|| check_append(&x, *k as isize, prefix.as_bytes(), &s)).map_err(|p| p.to_string())?.map_err(|e| format!("{:?} with {}: {}", v, k, e))?;
                cx.label("format");
                cx.nontrivial_if(!prefix.is_empty());
            }
            Forms::Reset { prev } => {
                let Some(mut x) = prev.build() else {
                    return cx.discard();
                };
                let nz = !x.is_zero();
                x.set_one();
                if shape(&x) != shape(&FixedDecimal::one()) {
                    return Err(format!("{:?}: set_one gives {}", prev, show(&x)));
                }
                let mut x = fd_or_zero(prev);
                x.set_zero();
                if shape(&x) != shape(&FixedDecimal::zero()) {
                    return Err(format!("{:?}: set_zero gives {}", prev, show(&x)));
                }
                cx.label("reset");
                cx.nontrivial_if(nz);
            }
        }
        Ok(())
    }
}

fn show(f: &FixedDecimal) -> String {
    match guard(|| shape(f)) {
        Ok(s) => format!("{} (intg {} frac {} zero {} hash {:?} integers {:?})", s.0, s.1, s.2, s.4, s.5, s.6),
        Err(p) => format!("unprintable ({})", p),
    }
}

fn outcome(r: &Result<Result<(), &'static str>, Panicked>, v: &FixedDecimal) -> String {
    match r {
        Err(_) => "panic".into(),
        Ok(Err(e)) => e.to_string(),
        Ok(Ok(())) => show(v),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trio {
    pub a: Src,
    pub b: Src,
    pub c: Src,
}

pub fn trio() -> BoxedStrategy<Trio> {
    (pair(), src(), 0u8..10, 0usize..30, 0u8..4)
        .prop_map(|(p, s, how, k, mode)| {
            let c = match mode {
                0 => relayout(p.a.clone(), how, k),
                1 => relayout(p.b.clone(), how, k),
                2 => Src::op(p.a.clone(), Op::Add, Src::lit(ulp_lit(k))),
                _ => s,
            };
            Trio { a: p.a, b: p.b, c }
        })
        .boxed()
}

pub fn fast_trio(r: &mut Fast) -> Trio {
    let (a, b) = fast::pair(r);
    let c = match r.below(4) {
        0 => fast::other_layout(r, a.clone()),
        1 => fast::other_layout(r, b.clone()),
        2 => Src::op(a.clone(), Op::Add, Src::Lit(ulp_lit(r.below(40)))),
        _ => fast::src(r),
    };
    Trio { a, b, c }
}

/// every pair of decimals of up to three groups over the boundary groups
fn grid_trios() -> Vec<Trio> {
    let g = grid(&GRID, 3);
    let mut v = Vec::new();
    for (i, a) in g.iter().enumerate() {
        for (j, b) in g.iter().enumerate().skip(i) {
            let neg = (i + j) % 3 == 0;
            let lit = |t: &str| Src::Lit(format!("{}{}", if neg { "-" } else { "" }, t));
            v.push(Trio { a: lit(a), b: lit(b), c: Src::One });
        }
    }
    v
}

pub struct C13;
impl Prop for C13 {
    type Case = Trio;
    const ID: &'static str = "C13";
    const RULE: &'static str = "triples of decimals, mostly related (same value in another representation, one step apart, long shared prefix), and all pairs of operands of up to three groups over the group values 0, 1, 500000000 and 999999999; non-trivial: a pair of the same sign whose values are equal with different group counts, or which agree in their leading group, or differ in group counts";
    fn strategy(_: Tier) -> BoxedStrategy<Trio> {
        trio()
    }
    fn enumerate() -> Vec<Trio> {
        // the same small numbers in every combination of padding
        let mut reps = Vec::new();
        for base in ["0", "1", "1.000000001", "0.5", "-1", "-0.000000001", "999999999", "1000000000"] {
            for (l, t) in [(0, 0), (1, 0), (9, 0), (10, 3), (0, 9), (0, 10), (20, 20), (27, 27), (0, 40), (40, 0)] {
                reps.push(Src::Lit(pad_literal(base, l, t)));
            }
        }
        let mut v = Vec::new();
        for a in &reps {
            for b in &reps {
                v.push(Trio { a: a.clone(), b: b.clone(), c: Src::One });
            }
        }
        v.extend(grid_trios());
        v
    }
    fn fast(r: &mut Fast) -> Option<Trio> {
        Some(fast_trio(r))
    }
    fn quick_cases() -> u64 {
        600_000
    }
    fn check(c: &Trio, cx: &mut Cx) -> Result<(), String> {
        let (Some(a), Some(b), Some(d)) = (operand(&c.a), operand(&c.b), operand(&c.c)) else {
            return cx.discard();
        };
        let all = [&a, &b, &d];
        for (x, nx) in all {
            for (y, ny) in all {
                let w = nx.cmp_value(ny);
                let bad = |what: &str| Err(format!("{} against {}: {} but the values compare {:?}", nx.text(), ny.text(), what, w));
                let got = guard(|| x.cmp(y)).map_err(|p| format!("comparing {} and {}: {}", nx.text(), ny.text(), p))?;
                if got != w {
                    return bad(&format!("cmp gives {:?}", got));
                }
                if x.partial_cmp(y) != Some(w) {
                    return bad("partial_cmp differs");
                }
                if (x == y) != (w == Ordering::Equal) || (x != y) != (w != Ordering::Equal) {
                    return bad("== or != differs");
                }
                if (x < y) != w.is_lt() || (x <= y) != w.is_le() || (x > y) != w.is_gt() || (x >= y) != w.is_ge() {
                    return bad("<, <=, > or >= differs");
                }
                let (mx, mn) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
                if !super::super::real::observe(&mx)?.eq_value(if w.is_ge() { nx } else { ny }) || !super::super::real::observe(&mn)?.eq_value(if w.is_le() { nx } else { ny }) {
                    return bad("max or min differs");
                }
            }
        }
        let mut v: Vec<FixedDecimal> = all.iter().map(|x| x.0.clone()).collect();
        let mut m: Vec<&Num> = all.iter().map(|x| &x.1).collect();
        v.sort();
        m.sort_by(|p, q| p.cmp_value(q));
        for (x, n) in v.iter().zip(m) {
            if !observe(x)?.eq_value(n) {
                return Err("sorting three decimals disagrees with numeric order".into());
            }
        }
        for (x, y) in [(&a.1, &b.1), (&a.1, &d.1), (&b.1, &d.1)] {
            let eq = x.eq_value(y);
            let units = x.int_units() != y.int_units() || x.frac_units() != y.frac_units();
            cx.label_if(eq, "equal_values");
            cx.label_if(eq && units, "equal_values_in_different_group_counts");
            let lead = x.neg == y.neg && x.int_units() == y.int_units() && !x.is_zero() && !y.is_zero() && x.mag.len() > 9 && {
                let t = |n: &Num| n.mag.0[n.mag.len() - 9..].to_vec();
                y.mag.len() > 9 && t(x) == t(y)
            };
            cx.label_if(lead && !eq, "agree_in_leading_digits");
            cx.nontrivial_if(x.neg == y.neg && (lead || units));
        }
        Ok(())
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = Trio;
    const ID: &'static str = "C14";
    const RULE: &'static str = "triples of decimals as for C13, with the same enumeration, hashed into a byte recorder, plus the same values written into used destinations by parsing, rounding and arithmetic with a neutral operand; non-trivial: some pair is equal with equal group counts but different construction, or differs in value with equal group counts";
    fn strategy(_: Tier) -> BoxedStrategy<Trio> {
        trio()
    }
    fn enumerate() -> Vec<Trio> {
        grid_trios()
    }
    fn fast(r: &mut Fast) -> Option<Trio> {
        Some(fast_trio(r))
    }
    fn quick_cases() -> u64 {
        450_000
    }
    fn check(c: &Trio, cx: &mut Cx) -> Result<(), String> {
        let mut all = Vec::new();
        let wide: FixedDecimal = "99999999999999999999999999999999999.999999999999999999999999999999".parse().unwrap_or_else(|_| FixedDecimal::zero());
        for s in [&c.a, &c.b, &c.c] {
            let Some((f, n)) = operand(s) else {
                return cx.discard();
            };
            // the same text parsed afresh and into a used destination
            let t = f.to_string(-1);
            if let Ok(p) = t.parse::<FixedDecimal>() {
                all.push((p, n.clone()));
                let mut used: FixedDecimal = "-99999999999999999999999999999999999.999999999999999999999999999999".parse().unwrap_or_else(|_| FixedDecimal::zero());
                if used.from_ascii_str(&t, true).is_ok() {
                    all.push((used, n.clone()));
                }
                // padded to full integral groups: same group counts as computed values
                let k = (9 - n.int_digits() % 9) % 9;
                if let Ok(p) = pad_literal(&t, k, 0).parse::<FixedDecimal>() {
                    all.push((p, n.clone()));
                }
            }
            let mut written = Vec::new();
            let mut used = wide.clone();
            if guard(|| f.round_to(&mut used, n.scale as isize)).is_ok() {
                if let Ok(m) = observe(&used) {
                    written.push((used, m));
                }
            }
            // the same value written by arithmetic into used decimals, and by rounding in place
            let (one, zero) = (FixedDecimal::one(), FixedDecimal::zero());
            for (op, g) in [(Op::Add, &zero), (Op::Sub, &zero), (Op::Mul, &one)] {
                let mut used = wide.clone();
                if matches!(guard(|| op.apply_to(&f, g, &mut used, 4)), Ok(Ok(()))) {
                    if let Ok(m) = observe(&used) {
                        written.push((used, m));
                    }
                }
            }
            let mut used = f.clone();
            if guard(|| used.round((n.scale + 1 + n.int_digits() % 19) as isize)).is_ok() {
                if let Ok(m) = observe(&used) {
                    written.push((used, m));
                }
            }
            // only a representation not seen yet takes part in the comparison of all pairs
            for (x, m) in written {
                if m.eq_value(&n) && x == f && x.intg_units() == f.intg_units() && x.frac_units() == f.frac_units() {
                    if hash_bytes(&x) != hash_bytes(&f) {
                        return Err(format!("{} and {} are equal with the same group counts but hash {:?} and {:?}", m.text(), n.text(), hash_bytes(&x), hash_bytes(&f)));
                    }
                } else {
                    all.push((x, m));
                }
            }
            if n.is_zero() {
                let mut z = f.clone();
                z.set_neg();
                let mut y = f.clone();
                y.set_pos();
                all.push((z, n.clone()));
                all.push((y, n.clone()));
            } else {
                let mut z = f.clone();
                z.set_neg();
                z.set_pos();
                let mut m = n.clone();
                m.neg = false;
                all.push((z, m));
            }
            all.push((f, n));
        }
        // as part of slices and tuples
        let in_slice = |x: &FixedDecimal| {
            let mut r = Recorder::default();
            FixedDecimal::hash_slice(std::slice::from_ref(x), &mut r);
            (x, 7u8).hash(&mut r);
            r.0
        };
        let ss: Vec<Vec<u8>> = all.iter().map(|x| in_slice(&x.0)).collect();
        let hs: Vec<Vec<u8>> = all.iter().map(|x| hash_bytes(&x.0)).collect();
        for i in 0..all.len() {
            for j in i + 1..all.len() {
                let ((x, nx), (y, ny)) = (&all[i], &all[j]);
                let same_units = x.intg_units() == y.intg_units() && x.frac_units() == y.frac_units();
                if x == y && same_units && hs[i] != hs[j] {
                    return Err(format!("{} and {} are equal with the same group counts but hash {:?} and {:?}", nx.text(), ny.text(), hs[i], hs[j]));
                }
                if x == y && same_units && ss[i] != ss[j] {
                    return Err(format!("{} and {} are equal with the same group counts but hash differently inside slices or tuples", nx.text(), ny.text()));
                }
                if !nx.eq_value(ny) && hs[i] == hs[j] {
                    return Err(format!("{} and {} differ but feed identical data to the hasher: {:?}", nx.text(), ny.text(), hs[i]));
                }
                let eq = nx.eq_value(ny);
                cx.label_if(eq && same_units, "equal_same_groups");
                cx.label_if(!eq && same_units, "different_same_groups");
                cx.nontrivial_if(same_units && (!eq || c.a.is_computed() || c.b.is_computed() || c.c.is_computed()));
            }
        }
        Ok(())
    }
}
