//! Generators: numerals aligned to the 9-digit groups of the implementation, literal spellings, and
//! operand recipes (so that every internal layout an API user can reach is reached).
use crate::num::Num;
use crate::real::{guard, Op, OPS};
use fxd::FixedDecimal;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

pub const POW10: [u32; 10] = [1, 10, 100, 1_000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000, 1_000_000_000];

/// one 9-digit group
pub fn unit() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just(0u32),
        2 => Just(1u32),
        3 => Just(999_999_999u32),
        1 => Just(999_999_998u32),
        2 => Just(500_000_000u32),
        2 => Just(499_999_999u32),
        2 => (0usize..9).prop_map(|k| POW10[k]),
        1 => (1usize..10).prop_map(|k| POW10[k] - 1),
        1 => (0usize..9).prop_map(|k| 5 * POW10[k]),
        1 => (1usize..9).prop_map(|k| 5 * POW10[k] - 1),
        1 => ((1u32..10), (0usize..9)).prop_map(|(d, k)| d * POW10[k]),
        2 => ((0u32..1000), (0usize..3)).prop_map(|(d, k)| d * POW10[3 * k]),
        1 => 0u32..1000,
        8 => 0u32..1_000_000_000,
    ]
    .boxed()
}

/// 16 groups: [0..8] integral (0 nearest the point), [8..16] fractional (8 nearest the point)
pub fn units16() -> BoxedStrategy<Vec<u32>> {
    let mixed = prop::collection::vec(unit(), 16);
    let uniform = prop::collection::vec(0u32..1_000_000_000, 16);
    // few distinct groups, so that leading groups of two operands coincide often
    let alphabet = (prop::collection::vec(unit(), 3), prop::collection::vec(0usize..3, 16))
        .prop_map(|(a, ix)| ix.into_iter().map(|i| a[i]).collect::<Vec<u32>>());
    let small_alphabet = prop::collection::vec(
        prop::sample::select(vec![0u32, 1, 999_999_999, 500_000_000, 499_999_999, 2]),
        16,
    );
    // long runs of 0 or 9 with a few deviations
    let runs = (
        prop::sample::select(vec![0u32, 999_999_999]),
        prop::collection::vec((0usize..16, unit()), 0..3),
    )
        .prop_map(|(base, devs)| {
            let mut v = vec![base; 16];
            for (i, u) in devs {
                v[i] = u;
            }
            v
        });
    Union::new_weighted(vec![
        (6, mixed.boxed()),
        (2, uniform.boxed()),
        (2, alphabet.boxed()),
        (3, small_alphabet.boxed()),
        (3, runs.boxed()),
    ])
    .boxed()
}

fn boundary_len(max: usize) -> BoxedStrategy<usize> {
    let mut b: Vec<usize> = Vec::new();
    for k in 0..=8usize {
        for d in [-1i64, 0, 1] {
            let v = 9 * k as i64 + d;
            if v >= 0 && v as usize <= max {
                b.push(v as usize);
            }
        }
    }
    for v in [2, 3, 4, 5, 6, 7, 29, 30, 31, 62, 63, 64, 65] {
        if v <= max {
            b.push(v);
        }
    }
    b.sort();
    b.dedup();
    prop_oneof![3 => prop::sample::select(b), 2 => 0..=max, 2 => 0..=max.min(9)].boxed()
}

/// digits of a numeral: integral and fractional digit strings (either may be empty)
#[derive(Clone, Debug)]
pub struct Digits {
    pub int: String,
    pub frac: String,
}

pub fn int_string(units: &[u32], len: usize) -> String {
    let mut s = String::new();
    for u in units.iter().rev() {
        s.push_str(&format!("{:09}", u));
    }
    s[s.len() - len..].to_string()
}

pub fn frac_string(units: &[u32], len: usize) -> String {
    let mut s = String::new();
    for u in units.iter() {
        s.push_str(&format!("{:09}", u));
    }
    s[..len].to_string()
}

fn make_digits(units: &[u32], il: usize, fl: usize, lead: u8) -> Digits {
    let mut int = int_string(&units[..8], il);
    if lead > 0 && int.starts_with('0') {
        int.replace_range(0..1, &lead.to_string());
    }
    let frac = frac_string(&units[8..], fl);
    Digits { int, frac }
}

/// lengths with il + fl <= total, il <= max_int, fl <= max_frac
pub fn lens(max_int: usize, max_frac: usize, total: usize) -> BoxedStrategy<(usize, usize)> {
    (boundary_len(max_int.min(total)), boundary_len(max_frac.min(total)), any::<bool>())
        .prop_map(move |(mut i, mut f, keep_int)| {
            if i + f > total {
                if keep_int {
                    f = total - i;
                } else {
                    i = total - f;
                }
            }
            (i, f)
        })
        .boxed()
}

pub fn digits_of(max_int: usize, max_frac: usize, total: usize) -> BoxedStrategy<Digits> {
    (units16(), lens(max_int, max_frac, total), prop_oneof![1 => Just(0u8), 7 => 1u8..=9])
        .prop_map(|(u, (i, f), lead)| make_digits(&u, i, f, lead))
        .boxed()
}

pub fn digits() -> BoxedStrategy<Digits> {
    prop_oneof![
        4 => digits_of(65, 30, 65),
        3 => digits_of(30, 30, 60),
        3 => digits_of(20, 12, 32),
        2 => digits_of(9, 9, 18),
        1 => digits_of(65, 65, 65),
        1 => digits_of(2, 2, 4),
    ]
    .boxed()
}

/// plain spelling of the digits as a literal
pub fn plain(d: &Digits, neg: bool, zero_int: bool) -> String {
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    if d.int.is_empty() {
        if d.frac.is_empty() || (zero_int && d.frac.len() < 65) {
            s.push('0');
        }
    } else {
        s.push_str(&d.int);
    }
    if !d.frac.is_empty() {
        s.push('.');
        s.push_str(&d.frac);
    }
    s
}

/// literal operand, no exponent
pub fn lit() -> BoxedStrategy<String> {
    (digits(), any::<bool>(), any::<bool>()).prop_map(|(d, n, z)| plain(&d, n, z)).boxed()
}

pub fn lit_of(max_int: usize, max_frac: usize, total: usize) -> BoxedStrategy<String> {
    (digits_of(max_int, max_frac, total), any::<bool>(), any::<bool>())
        .prop_map(|(d, n, z)| plain(&d, n, z))
        .boxed()
}

/// literals in every spelling of the grammar, at most 65 positional digits
pub fn spelled() -> BoxedStrategy<String> {
    (
        digits(),
        0u8..6,            // sign: none/none/-/-/+/none
        0usize..12,        // leading zeros (clamped)
        any::<bool>(),     // show zero integral digit
        any::<bool>(),     // trailing point if no fraction
        prop_oneof![2 => Just(None), 3 => (0u32..10_000).prop_map(Some)], // exponent position
        any::<bool>(),     // E or e
        0u8..3,            // exponent sign style
        prop_oneof![5 => Just(0usize), 2 => 1usize..4, 1 => 4usize..30], // exponent zero padding
        prop_oneof![3 => Just(false), 1 => Just(true)], // use leading zeros at all
    )
        .prop_map(|(d, sign, lz, show0, tdot, expo, upper, es, pad, use_lz)| {
            let mut int = d.int.clone();
            let frac = d.frac.clone();
            if int.is_empty() && (frac.is_empty() || (show0 && frac.len() < 65)) {
                int.push('0');
            }
            if use_lz {
                let room = 65 - int.len() - frac.len();
                int = format!("{}{}", "0".repeat(lz.min(room)), int);
            }
            let mut s = String::new();
            match sign {
                2 | 3 => s.push('-'),
                4 => s.push('+'),
                _ => {}
            }
            s.push_str(&int);
            if !frac.is_empty() || (tdot && !int.is_empty()) {
                s.push('.');
            }
            s.push_str(&frac);
            if let Some(x) = expo {
                let dl = (int.len() + frac.len()) as i64;
                let f = frac.len() as i64;
                let lo = (-30i64).max(f - 65);
                let hi = 65i64.min(65 - dl + f);
                let e = lo + (x as i64) % (hi - lo + 1);
                s.push(if upper { 'E' } else { 'e' });
                if e < 0 || (e == 0 && es == 2) {
                    s.push('-');
                } else if es == 1 {
                    s.push('+');
                }
                s.push_str(&"0".repeat(pad));
                s.push_str(&e.abs().to_string());
            }
            s
        })
        .boxed()
}

/// How an operand is produced.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Src {
    Lit(String),
    I(i64),
    U(u64),
    One,
    Op(Box<Src>, Op, Box<Src>),
    Round(Box<Src>, i32),
    RoundTo(Box<Src>, i32),
    Neg(Box<Src>),
}

impl Src {
    pub fn lit(s: impl Into<String>) -> Src {
        Src::Lit(s.into())
    }
    pub fn op(a: Src, op: Op, b: Src) -> Src {
        Src::Op(Box::new(a), op, Box::new(b))
    }
    /// None if a construction step fails (error or panic): other properties judge those.
    pub fn build(&self) -> Option<FixedDecimal> {
        guard(|| self.build_res().ok()).ok().flatten()
    }
    pub fn build_res(&self) -> fxd::Result<FixedDecimal> {
        Ok(match self {
            Src::Lit(s) => s.parse()?,
            Src::I(v) => FixedDecimal::from(*v),
            Src::U(v) => FixedDecimal::from(*v),
            Src::One => FixedDecimal::one(),
            Src::Op(a, op, b) => {
                let (a, b) = (a.build_res()?, b.build_res()?);
                op.compute(&a, &b, 4)?
            }
            Src::Round(a, k) => {
                let mut a = a.build_res()?;
                a.round(*k as isize);
                a
            }
            Src::RoundTo(a, k) => {
                let a = a.build_res()?;
                let mut r = FixedDecimal::zero();
                a.round_to(&mut r, *k as isize);
                r
            }
            Src::Neg(a) => {
                let mut a = a.build_res()?;
                if !a.is_zero() {
                    if a.is_neg() {
                        a.set_pos();
                    } else {
                        a.set_neg();
                    }
                }
                a
            }
        })
    }
    pub fn is_computed(&self) -> bool {
        !matches!(self, Src::Lit(_) | Src::I(_) | Src::U(_) | Src::One)
    }
}

pub fn int_src() -> BoxedStrategy<Src> {
    prop_oneof![i64s().prop_map(Src::I), u64s().prop_map(Src::U), Just(Src::One)].boxed()
}

pub fn u64s() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        2 => (0u32..64, -2i64..=2).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        2 => (0u32..20, -2i64..=2).prop_map(|(k, d)| 10u64.pow(k).wrapping_add(d as u64)),
        2 => (0u32..64, any::<u64>()).prop_map(|(k, v)| v >> k),
        1 => (0u64..3).prop_map(|d| u64::MAX - d),
        1 => (unit(), unit(), 0u64..18).prop_map(|(a, b, c)| c * 1_000_000_000_000_000_000 + b as u64 * 1_000_000_000 + a as u64),
        1 => 0u64..10,
        1 => (-3i64..=3).prop_map(|d| (i64::MAX as u64).wrapping_add(d as u64)),
    ]
    .boxed()
}

pub fn i64s() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => u64s().prop_map(|v| v as i64),
        2 => u64s().prop_map(|v| (v as i64).wrapping_neg()),
        1 => (0i64..3).prop_map(|d| i64::MIN + d),
        1 => (0i64..3).prop_map(|d| i64::MAX - d),
    ]
    .boxed()
}

pub fn ops() -> BoxedStrategy<Op> {
    prop::sample::select(OPS.to_vec()).boxed()
}

/// Values with up to 81 digits (nine full groups), which only computation can reach.
pub fn wide_src() -> BoxedStrategy<Src> {
    let scaled = (lit_of(65, 0, 65), 0usize..=65, lit_of(45, 36, 65), any::<bool>()).prop_map(|(hi, k, lo, add)| {
        let h = Src::op(Src::lit(hi), Op::Mul, Src::lit(format!("1e{}", k.min(64))));
        if add {
            Src::op(h, Op::Add, Src::lit(lo))
        } else {
            h
        }
    });
    let prod = (lit_of(45, 18, 45), lit_of(45, 18, 45)).prop_map(|(a, b)| Src::op(Src::lit(a), Op::Mul, Src::lit(b)));
    // nine groups all nines (or nearly), with f fractional groups
    let nines = (0usize..=36, 1usize..=45, prop::collection::vec((0usize..81, 0u8..10), 0..3)).prop_map(|(f, extra, devs)| {
        // total digits: int = 81 - 9*ceil(f/9) at most; build hi part (multiple of 10^16) + lo part
        let fu = f.div_ceil(9);
        let il = 81 - 9 * fu;
        let mut d = vec![b'9'; il + f];
        for (p, v) in devs {
            if p < d.len() {
                d[p] = b'0' + v;
            }
        }
        let cut = il.min(45.min(20 + extra));
        let hi = String::from_utf8(d[..cut].to_vec()).unwrap();
        let lo_int = String::from_utf8(d[cut..il].to_vec()).unwrap();
        let lo_frac = String::from_utf8(d[il..].to_vec()).unwrap();
        let h = Src::op(Src::lit(hi), Op::Mul, Src::lit(format!("1e{}", il - cut)));
        let li = if lo_int.is_empty() { "0".to_string() } else { lo_int };
        let lo = if lo_frac.is_empty() { li } else { format!("{}.{}", li, lo_frac) };
        Src::op(h, Op::Add, Src::lit(lo))
    });
    prop_oneof![3 => scaled, 2 => prod, 3 => nines].boxed()
}

/// Any operand.
pub fn src() -> BoxedStrategy<Src> {
    prop_oneof![
        20 => lit().prop_map(Src::Lit),
        3 => spelled().prop_map(Src::Lit),
        3 => int_src(),
        6 => (lit(), ops(), lit()).prop_map(|(a, o, b)| Src::op(Src::Lit(a), o, Src::Lit(b))),
        2 => (lit_of(9, 9, 18), ops(), lit_of(9, 9, 18)).prop_map(|(a, o, b)| Src::op(Src::Lit(a), o, Src::Lit(b))),
        2 => (lit(), any::<bool>(), -12i32..36).prop_map(|(a, t, k)| if t { Src::RoundTo(Box::new(Src::Lit(a)), k) } else { Src::Round(Box::new(Src::Lit(a)), k) }),
        2 => wide_src(),
        1 => wide_src().prop_map(|s| Src::Neg(Box::new(s))),
    ]
    .boxed()
}

/// Same value as `s` in another layout.
pub fn relayout(s: Src, how: u8, k: usize) -> Src {
    match how {
        0 => Src::op(s, Op::Mul, Src::One),
        1 => Src::op(Src::op(s, Op::Add, Src::lit("1")), Op::Sub, Src::lit("1")),
        2 => Src::Round(Box::new(s), k as i32 + 9),
        3 => Src::RoundTo(Box::new(s), k as i32 + 9),
        4 => Src::op(s, Op::Div, Src::One),
        5 => Src::op(Src::op(s, Op::Sub, Src::lit("0.3")), Op::Add, Src::lit("0.3")),
        6 => match s {
            Src::Lit(t) => Src::Lit(pad_literal(&t, k, 0)),
            o => Src::Neg(Box::new(Src::Neg(Box::new(o)))),
        },
        7 => match s {
            Src::Lit(t) => Src::Lit(pad_literal(&t, 0, k)),
            o => Src::Round(Box::new(o), 36),
        },
        8 => Src::op(s.clone(), Op::Rem, Src::op(Src::op(s, Op::Mul, Src::lit("2")), Op::Add, Src::lit("0"))),
        _ => match s {
            Src::Lit(t) => Src::Lit(pad_literal(&t, k, k)),
            o => o,
        },
    }
}

/// adds leading and trailing zeros to a plain literal, as far as 65 digits allow
pub fn pad_literal(t: &str, lead: usize, trail: usize) -> String {
    if t.contains(['e', 'E']) {
        return t.to_string();
    }
    let (sign, body) = match t.as_bytes().first() {
        Some(b'-') => ("-", &t[1..]),
        Some(b'+') => ("+", &t[1..]),
        _ => ("", t),
    };
    let n = body.bytes().filter(|c| c.is_ascii_digit()).count();
    let mut room = 65usize.saturating_sub(n);
    let lead = lead.min(room);
    room -= lead;
    let trail = trail.min(room);
    let dot = if trail > 0 && !body.contains('.') { "." } else { "" };
    format!("{}{}{}{}{}", sign, "0".repeat(lead), body, dot, "0".repeat(trail))
}

/// smallest step at scale s as a literal
pub fn ulp_lit(s: usize) -> String {
    if s == 0 {
        "1".into()
    } else {
        format!(".{}1", "0".repeat(s - 1))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pair {
    pub a: Src,
    pub b: Src,
}

fn scale_of(lit: &str) -> usize {
    match lit.find('.') {
        Some(p) => lit.len() - p - 1,
        None => 0,
    }
}

/// Two operands, independent or related.
pub fn pair() -> BoxedStrategy<Pair> {
    let indep = (src(), src()).prop_map(|(a, b)| Pair { a, b });
    let indep_lit = (lit(), lit()).prop_map(|(a, b)| Pair { a: Src::Lit(a), b: Src::Lit(b) });
    // same groups, so long common prefixes
    let shared = (
        units16(),
        lens(65, 30, 65),
        lens(65, 30, 65),
        any::<(bool, bool)>(),
        prop::collection::vec((0usize..16, unit()), 0..3),
    )
        .prop_map(|(u, (i1, f1), (i2, f2), (n1, n2), devs)| {
            let a = plain(&make_digits(&u, i1, f1, 0), n1, true);
            let mut w = u.clone();
            for (p, v) in devs {
                w[p] = v;
            }
            let b = plain(&make_digits(&w, i2, f2, 0), n2, true);
            Pair { a: Src::Lit(a), b: Src::Lit(b) }
        });
    let same = (src(), 0u8..10, 0usize..40, any::<bool>()).prop_map(|(a, how, k, neg)| {
        let b = relayout(a.clone(), how, k);
        Pair { a, b: if neg { Src::Neg(Box::new(b)) } else { b } }
    });
    let near = (lit(), any::<bool>(), any::<bool>(), 0usize..4, 0u8..10, 0usize..20).prop_map(|(a, neg, up, shift, how, k)| {
        let s = scale_of(&a);
        let step = Src::lit(ulp_lit((s + shift).min(60)));
        let base = relayout(Src::Lit(a.clone()), how, k);
        let b = Src::op(base, if up { Op::Add } else { Op::Sub }, step);
        Pair { a: Src::Lit(a), b: if neg { Src::Neg(Box::new(b)) } else { b } }
    });
    // a + b = +-10^k (all carries), or one step beside it
    let complement = (lit_of(60, 30, 64), 0usize..64, -1i32..=1, any::<bool>()).prop_map(|(a, k, d, neg)| {
        let s = scale_of(&a);
        let p = Src::lit(format!("1e{}", k));
        let mut b = Src::op(p, Op::Sub, Src::Lit(a.clone()));
        if d != 0 {
            b = Src::op(b, if d > 0 { Op::Add } else { Op::Sub }, Src::lit(ulp_lit(s)));
        }
        Pair { a: Src::Lit(a), b: if neg { Src::Neg(Box::new(b)) } else { b } }
    });
    let wide = (wide_src(), prop_oneof![src(), wide_src()], any::<bool>()).prop_map(|(a, b, sw)| if sw { Pair { a, b } } else { Pair { a: b, b: a } });
    Union::new_weighted(vec![
        (6, indep.boxed()),
        (6, indep_lit.boxed()),
        (4, shared.boxed()),
        (2, same.boxed()),
        (2, near.boxed()),
        (2, complement.boxed()),
        (2, wide.boxed()),
        (3, division_pair()),
    ])
    .boxed()
}

/// dividend = q * divisor + r, r in {0, one step, random, divisor - one step}
pub fn division_pair() -> BoxedStrategy<Pair> {
    (
        prop_oneof![
            3 => lit_of(45, 27, 45),
            2 => lit_of(20, 12, 30),
            2 => lit_of(36, 0, 36),
            1 => lit_of(9, 0, 9),
            1 => lit_of(0, 27, 27),
        ],
        prop_oneof![
            3 => lit_of(36, 0, 36),
            2 => lit_of(18, 9, 27),
            1 => lit_of(0, 27, 27),
            1 => lit_of(3, 0, 3),
        ],
        0u8..6,
        0usize..10,
        lit_of(20, 9, 27),
    )
        .prop_map(|(d, q, mode, extra, r)| {
            let s = (scale_of(&d) + scale_of(&q)).min(36);
            let p = Src::op(Src::Lit(q), Op::Mul, Src::Lit(d.clone()));
            let ulp = Src::lit(ulp_lit((s + if extra > 6 { extra - 6 } else { 0 }).min(60)));
            let a = match mode {
                0 => p,
                1 => Src::op(p, Op::Add, ulp),
                2 | 3 => Src::op(p, Op::Sub, ulp),
                4 => Src::op(p, Op::Add, Src::Lit(r)),
                _ => Src::op(Src::op(p, Op::Add, Src::Lit(d.clone())), Op::Sub, ulp),
            };
            Pair { a, b: Src::Lit(d) }
        })
        .boxed()
}

/// a previous content for a destination
pub fn dirty() -> BoxedStrategy<Src> {
    prop_oneof![
        2 => Just(Src::lit("0")),
        1 => Just(Src::lit("-99999999999999999999999999999999999.999999999999999999999999999999")),
        1 => src(),
        2 => wide_src(),
    ]
    .boxed()
}

pub fn fd_or_zero(s: &Src) -> FixedDecimal {
    s.build().unwrap_or_else(FixedDecimal::zero)
}

/// structural class labels of a pair, for the evidence histogram
pub fn pair_labels(a: &Num, b: &Num) -> Vec<&'static str> {
    let mut v = Vec::new();
    if a.neg != b.neg {
        v.push("signs_differ");
    }
    if a.int_units() != b.int_units() {
        v.push("int_groups_differ");
    }
    if a.frac_units() != b.frac_units() {
        v.push("frac_groups_differ");
    }
    if a.int_units() + a.frac_units() >= 7 || b.int_units() + b.frac_units() >= 7 {
        v.push("wide_operand_7plus_groups");
    }
    if a.int_units() + a.frac_units() == 9 || b.int_units() + b.frac_units() == 9 {
        v.push("full_operand_9_groups");
    }
    if a.eq_value(b) {
        v.push("equal_values");
    }
    v
}

/// every literal of at most `max` groups, each group one of `groups`
pub fn grid(groups: &[u32], max: usize) -> Vec<String> {
    let mut v = Vec::new();
    for n in 1..=max {
        for int in 0..=n {
            for code in 0..groups.len().pow(n as u32) {
                let mut s = String::new();
                let mut c = code;
                for i in 0..n {
                    if i == int {
                        s.push('.');
                    }
                    s.push_str(&format!("{:09}", groups[c % groups.len()]));
                    c /= groups.len();
                }
                v.push(s);
            }
        }
    }
    v
}

/// boundary values of a group; all pairs of operands of up to three groups are enumerated over these
pub const GRID: [u32; 4] = [0, 1, 500_000_000, 999_999_999];
