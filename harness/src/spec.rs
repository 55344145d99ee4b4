//! What each operation is allowed to produce, as a function of exact values and scales only.
use crate::num::{Big, Num};
use std::cmp::Ordering;

pub const MAX_UNITS: usize = 9;
pub const MAX_DIGITS: usize = 65;
pub const MAX_FRAC_UNITS: usize = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fail {
    Overflow,
    DivZero,
}

/// Allowed outcomes: a value (exact value *and* scale) and/or one error kind.
#[derive(Clone, Debug)]
pub struct Allowed {
    pub ok: Option<Num>,
    pub err: Option<Fail>,
}

impl Allowed {
    fn exactly(n: Num) -> Allowed {
        Allowed { ok: Some(n), err: None }
    }
    fn fail(k: Fail) -> Allowed {
        Allowed { ok: None, err: Some(k) }
    }
    fn either(n: Num, k: Fail) -> Allowed {
        Allowed { ok: Some(n), err: Some(k) }
    }
}

pub fn fits(n: &Num) -> bool {
    n.int_units() + n.frac_units() <= MAX_UNITS
}

pub fn add(l: &Num, r: &Num) -> Allowed {
    if l.is_zero() {
        return Allowed::exactly(r.clone());
    }
    if r.is_zero() {
        return Allowed::exactly(l.clone());
    }
    let v = l.add(r);
    if !fits(&v) {
        return Allowed::fail(Fail::Overflow);
    }
    let aligned = l.int_units().max(r.int_units()) + v.frac_units();
    if aligned > MAX_UNITS {
        return Allowed::either(v, Fail::Overflow);
    }
    Allowed::exactly(v)
}

pub fn sub(l: &Num, r: &Num) -> Allowed {
    add(l, &r.negate())
}

pub fn mul(l: &Num, r: &Num) -> Allowed {
    if l.is_zero() || r.is_zero() {
        return Allowed::exactly(Num::zero());
    }
    let p = l.mul(r);
    let digits = l.int_digits() + r.int_digits();
    let groups = digits.div_ceil(9);
    if groups > MAX_UNITS {
        if p.int_digits() > 9 * MAX_UNITS {
            return Allowed::fail(Fail::Overflow);
        }
        return Allowed::either(p.trunc(0), Fail::Overflow);
    }
    let s = p.scale.min(9 * MAX_FRAC_UNITS.min(MAX_UNITS - groups));
    Allowed::exactly(p.trunc(s))
}

/// true if the product is exact (no fraction digits were cut)
pub fn mul_exact(l: &Num, r: &Num) -> bool {
    match mul(l, r) {
        Allowed { ok: Some(v), err: None } => v.scale == l.scale + r.scale,
        _ => false,
    }
}

pub fn div(l: &Num, r: &Num, incr: usize) -> Allowed {
    if r.is_zero() {
        return Allowed::fail(Fail::DivZero);
    }
    if l.is_zero() {
        return Allowed::exactly(Num::zero());
    }
    // |l|/|r| = ml*10^rs / (mr*10^ls)
    let num0 = l.mag.shl10(r.scale);
    let den = r.mag.shl10(l.scale);
    let (iq, _) = num0.divrem(&den);
    let iu = iq.len().div_ceil(9);
    if iu > MAX_UNITS {
        return Allowed::fail(Fail::Overflow);
    }
    let want = (9 * (l.frac_units() + r.frac_units())).max((l.scale + r.scale).saturating_add(incr));
    let fu = want.div_ceil(9).min(MAX_FRAC_UNITS).min(MAX_UNITS - iu);
    let s = 9 * fu;
    let (q, _) = num0.shl10(s).divrem(&den);
    Allowed::exactly(Num::new(l.neg != r.neg, q, s))
}

pub fn rem(l: &Num, r: &Num) -> Allowed {
    if r.is_zero() {
        return Allowed::fail(Fail::DivZero);
    }
    let s = l.scale.max(r.scale);
    let (_, m) = l.mag_at(s).divrem(&r.mag_at(s));
    Allowed::exactly(Num::new(l.neg, m, s))
}

/// Rounded value at position k; `None` when it has more than 81 integral digits and so cannot exist.
pub fn round(v: &Num, k: i64) -> Option<Num> {
    if k >= v.scale as i64 {
        let cap = 9 * (MAX_UNITS - v.int_units());
        let s = (k as u64).min(cap as u64) as usize;
        return Some(v.trunc(s.max(v.scale)));
    }
    // drop (scale - k) digits
    let drop = (v.scale as i128 - k as i128) as u128;
    if drop > 400 {
        return Some(Num::zero());
    }
    let drop = drop as usize;
    let half = Big(vec![5]).shl10(drop - 1);
    let q = v.mag.add(&half).shr10(drop);
    let r = if k >= 0 {
        Num::new(v.neg, q, k as usize)
    } else {
        Num::new(v.neg, q.shl10((-k) as usize), 0)
    };
    if fits(&r) {
        return Some(r);
    }
    if r.int_units() > MAX_UNITS {
        return None;
    }
    // carried out of the top group at full width: only trailing zero digits can be given up
    let s = 9 * (MAX_UNITS - r.int_units());
    assert!(s < r.scale);
    let t = r.trunc(s);
    assert!(t.eq_value(&r));
    Some(t)
}

/// nearest integer, ties away from zero
pub fn nearest_int(v: &Num) -> Num {
    if v.scale == 0 {
        return v.clone();
    }
    let half = Big(vec![5]).shl10(v.scale - 1);
    Num::new(v.neg, v.mag.add(&half).shr10(v.scale), 0)
}

fn in_range(v: &Num, lo: i128, hi: i128) -> bool {
    v.cmp_value(&Num::int(lo)) != Ordering::Less && v.cmp_value(&Num::int(hi)) != Ordering::Greater
}

fn to_i128(v: &Num) -> i128 {
    let m: i128 = v.mag.to_ascii().parse().expect("fits");
    if v.neg {
        -m
    } else {
        m
    }
}

pub fn as_i64(v: &Num) -> Option<i64> {
    in_range(v, i64::MIN as i128, i64::MAX as i128).then(|| to_i128(&nearest_int(v)) as i64)
}

pub fn as_u64(v: &Num) -> Option<u64> {
    in_range(v, 0, u64::MAX as i128).then(|| to_i128(&nearest_int(v)) as u64)
}

/// Classification of an arbitrary byte string against the literal grammar.
#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    /// must be accepted with this value and scale; `digits` integral+fractional positional digits
    Valid { num: Num, int_digits: usize },
    /// grammatical, more than 65 positional digits but at most 65 without leading zeros:
    /// may be rejected or accepted with exactly this value
    Grey { num: Num },
    /// must be rejected
    Invalid(&'static str),
}

pub fn classify_literal(b: &[u8]) -> Lit {
    let mut p = 0;
    let mut neg = false;
    if p < b.len() && (b[p] == b'-' || b[p] == b'+') {
        neg = b[p] == b'-';
        p += 1;
    }
    let i0 = p;
    while p < b.len() && b[p].is_ascii_digit() {
        p += 1;
    }
    let int = &b[i0..p];
    let mut frac: &[u8] = &[];
    if p < b.len() && b[p] == b'.' {
        p += 1;
        let f0 = p;
        while p < b.len() && b[p].is_ascii_digit() {
            p += 1;
        }
        frac = &b[f0..p];
    }
    if int.is_empty() && frac.is_empty() {
        return Lit::Invalid("no digits");
    }
    let mut exp: i64 = 0;
    if p < b.len() {
        if b[p] != b'e' && b[p] != b'E' {
            return Lit::Invalid("trailing junk");
        }
        p += 1;
        let mut eneg = false;
        if p < b.len() && (b[p] == b'-' || b[p] == b'+') {
            eneg = b[p] == b'-';
            p += 1;
        }
        if p == b.len() {
            return Lit::Invalid("empty exponent");
        }
        if !b[p..].iter().all(|c| c.is_ascii_digit()) {
            return Lit::Invalid("bad exponent");
        }
        for c in &b[p..] {
            exp = (exp * 10 + (c - b'0') as i64).min(1_000_000);
        }
        if eneg {
            if exp > 30 {
                return Lit::Invalid("exponent below -30");
            }
            exp = -exp;
        } else if exp > 65 {
            return Lit::Invalid("exponent above 65");
        }
    }
    let d = (int.len() + frac.len()) as i64;
    let f = frac.len() as i64 - exp;
    let mut all = int.to_vec();
    all.extend_from_slice(frac);
    let (digits, scale, mag) = if f >= 0 {
        (d.max(f), f as usize, Big::from_ascii(&all))
    } else {
        (d - f, 0, Big::from_ascii(&all).shl10((-f) as usize))
    };
    let num = Num::new(neg, mag, scale);
    if digits as usize <= MAX_DIGITS {
        return Lit::Valid { num, int_digits: digits as usize - scale };
    }
    if num.int_digits() + num.scale <= MAX_DIGITS {
        return Lit::Grey { num };
    }
    Lit::Invalid("more than 65 digits")
}
