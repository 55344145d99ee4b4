//! Reference arithmetic: schoolbook big integers on decimal digits and exact decimals.
//! Deliberately simple and unrelated to the base-1e9 representation of the code under test.
use std::cmp::Ordering;

/// Non-negative integer, least significant decimal digit first, no leading (trailing in the vec) zeros.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Big(pub Vec<u8>);

impl Big {
    pub fn zero() -> Big {
        Big(Vec::new())
    }
    pub fn from_u128(mut v: u128) -> Big {
        let mut d = Vec::new();
        while v > 0 {
            d.push((v % 10) as u8);
            v /= 10;
        }
        Big(d)
    }
    /// digits most significant first, ASCII
    pub fn from_ascii(s: &[u8]) -> Big {
        let mut d: Vec<u8> = s.iter().rev().map(|c| {
            assert!(c.is_ascii_digit(), "model: not a digit");
            c - b'0'
        }).collect();
        trim(&mut d);
        Big(d)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0;
        for i in 0..n {
            let s = self.0.get(i).copied().unwrap_or(0) + o.0.get(i).copied().unwrap_or(0) + c;
            r.push(s % 10);
            c = s / 10;
        }
        if c > 0 {
            r.push(c);
        }
        Big(r)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i8;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i8 - o.0.get(i).copied().unwrap_or(0) as i8 - b;
            b = 0;
            if s < 0 {
                s += 10;
                b = 1;
            }
            r.push(s as u8);
        }
        assert!(b == 0, "model: negative difference");
        trim(&mut r);
        Big(r)
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut acc = vec![0u32; self.0.len() + o.0.len()];
        for (i, a) in self.0.iter().enumerate() {
            if *a == 0 {
                continue;
            }
            for (j, b) in o.0.iter().enumerate() {
                acc[i + j] += *a as u32 * *b as u32;
            }
        }
        let mut r = Vec::with_capacity(acc.len());
        let mut c = 0u32;
        for a in acc {
            let v = a + c;
            r.push((v % 10) as u8);
            c = v / 10;
        }
        assert!(c == 0);
        trim(&mut r);
        Big(r)
    }
    /// self * 10^n
    pub fn shl10(&self, n: usize) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u8; n];
        r.extend_from_slice(&self.0);
        Big(r)
    }
    /// floor(self / 10^n)
    pub fn shr10(&self, n: usize) -> Big {
        if n >= self.0.len() {
            return Big::zero();
        }
        Big(self.0[n..].to_vec())
    }
    /// quotient and remainder by digit-wise long division
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "model: division by zero");
        let mut rem: Vec<u8> = Vec::with_capacity(d.0.len() + 1); // lsd first
        let mut q = vec![0u8; self.0.len()];
        for i in (0..self.0.len()).rev() {
            rem.insert(0, self.0[i]);
            trim(&mut rem);
            let mut n = 0u8;
            while cmp_digits(&rem, &d.0) != Ordering::Less {
                sub_in_place(&mut rem, &d.0);
                n += 1;
            }
            assert!(n <= 9);
            q[i] = n;
        }
        trim(&mut q);
        (Big(q), Big(rem))
    }
    pub fn to_ascii(&self) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        self.0.iter().rev().map(|d| (d + b'0') as char).collect()
    }
}

fn trim(v: &mut Vec<u8>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

fn cmp_digits(a: &[u8], b: &[u8]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    a.iter().rev().cmp(b.iter().rev())
}

fn sub_in_place(a: &mut Vec<u8>, b: &[u8]) {
    let mut br = 0i8;
    for i in 0..a.len() {
        let mut s = a[i] as i8 - b.get(i).copied().unwrap_or(0) as i8 - br;
        br = 0;
        if s < 0 {
            s += 10;
            br = 1;
        }
        a[i] = s as u8;
        if br == 0 && i >= b.len() {
            break;
        }
    }
    trim(a);
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        cmp_digits(&self.0, &o.0)
    }
}

/// Exact decimal: (-1)^neg * mag / 10^scale. Zero is never negative.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Num {
    pub neg: bool,
    pub mag: Big,
    pub scale: usize,
}

impl Num {
    pub fn new(neg: bool, mag: Big, scale: usize) -> Num {
        let neg = neg && !mag.is_zero();
        Num { neg, mag, scale }
    }
    pub fn int(v: i128) -> Num {
        Num::new(v < 0, Big::from_u128(v.unsigned_abs()), 0)
    }
    pub fn zero() -> Num {
        Num::int(0)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    /// significant integral digits
    pub fn int_digits(&self) -> usize {
        self.mag.len().saturating_sub(self.scale)
    }
    /// 9-digit groups of the significant integral part
    pub fn int_units(&self) -> usize {
        self.int_digits().div_ceil(9)
    }
    pub fn frac_units(&self) -> usize {
        self.scale.div_ceil(9)
    }
    pub fn negate(&self) -> Num {
        Num::new(!self.neg, self.mag.clone(), self.scale)
    }
    pub fn abs(&self) -> Num {
        Num::new(false, self.mag.clone(), self.scale)
    }
    pub fn mag_at(&self, scale: usize) -> Big {
        assert!(scale >= self.scale);
        self.mag.shl10(scale - self.scale)
    }
    pub fn add(&self, o: &Num) -> Num {
        let s = self.scale.max(o.scale);
        let a = self.mag_at(s);
        let b = o.mag_at(s);
        if self.neg == o.neg {
            Num::new(self.neg, a.add(&b), s)
        } else {
            match a.cmp(&b) {
                Ordering::Less => Num::new(o.neg, b.sub(&a), s),
                _ => Num::new(self.neg, a.sub(&b), s),
            }
        }
    }
    pub fn sub(&self, o: &Num) -> Num {
        self.add(&o.negate())
    }
    pub fn mul(&self, o: &Num) -> Num {
        Num::new(self.neg != o.neg, self.mag.mul(&o.mag), self.scale + o.scale)
    }
    /// drops digits below the given scale (or appends zeros)
    pub fn trunc(&self, scale: usize) -> Num {
        if scale >= self.scale {
            Num::new(self.neg, self.mag_at(scale), scale)
        } else {
            Num::new(self.neg, self.mag.shr10(self.scale - scale), scale)
        }
    }
    /// numeric comparison
    pub fn cmp_value(&self, o: &Num) -> Ordering {
        let s = self.scale.max(o.scale);
        let a = self.mag_at(s);
        let b = o.mag_at(s);
        match (self.neg, o.neg) {
            (false, false) => a.cmp(&b),
            (true, true) => b.cmp(&a),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
    pub fn eq_value(&self, o: &Num) -> bool {
        self.cmp_value(o) == Ordering::Equal
    }
    /// canonical numeral with exactly `scale` fractional digits
    pub fn text(&self) -> String {
        let mut d = self.mag.0.clone();
        while d.len() < self.scale + 1 {
            d.push(0);
        }
        let mut s = String::with_capacity(d.len() + 2);
        if self.neg {
            s.push('-');
        }
        for i in (0..d.len()).rev() {
            s.push((d[i] + b'0') as char);
            if i == self.scale && self.scale > 0 {
                s.push('.');
            }
        }
        s
    }
    /// text with k fractional digits: truncated or zero padded, sign as in the value
    pub fn text_k(&self, k: usize) -> String {
        let t = self.trunc(k);
        let body = Num::new(false, t.mag, k).text();
        if self.neg {
            format!("-{}", body)
        } else {
            body
        }
    }
    /// Reads a canonical numeral: -?digits(.digits)?; None if it is anything else.
    pub fn parse_canonical(t: &str) -> Option<Num> {
        let b = t.as_bytes();
        let (neg, b) = match b.first() {
            Some(b'-') => (true, &b[1..]),
            _ => (false, b),
        };
        let (i, f): (&[u8], &[u8]) = match b.iter().position(|c| *c == b'.') {
            Some(p) => {
                if p + 1 == b.len() {
                    return None;
                }
                (&b[..p], &b[p + 1..])
            }
            None => (b, &[]),
        };
        if i.is_empty() || !i.iter().chain(f).all(|c| c.is_ascii_digit()) {
            return None;
        }
        if i.len() > 1 && i[0] == b'0' {
            return None;
        }
        let mut all = i.to_vec();
        all.extend_from_slice(f);
        Some(Num::new(neg, Big::from_ascii(&all), f.len()))
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn n(s: &str) -> Num {
        Num::parse_canonical(s).unwrap()
    }
    #[test]
    fn model_against_i128() {
        let vals: Vec<i128> = vec![0, 1, -1, 9, 10, 99, -100, 123456789, 999999999, 1000000000, -987654321987654321, 500000000499999999];
        for a in &vals {
            for b in &vals {
                assert_eq!(Num::int(*a).add(&Num::int(*b)).text(), (a + b).to_string());
                assert_eq!(Num::int(*a).sub(&Num::int(*b)).text(), (a - b).to_string());
                assert_eq!(Num::int(*a).mul(&Num::int(*b)).text(), (a * b).to_string());
                assert_eq!(Num::int(*a).cmp_value(&Num::int(*b)), a.cmp(b));
                if *b != 0 {
                    let (q, r) = Num::int(*a).mag.divrem(&Num::int(*b).mag);
                    assert_eq!(q.to_ascii(), (a.abs() / b.abs()).to_string());
                    assert_eq!(r.to_ascii(), (a.abs() % b.abs()).to_string());
                }
            }
        }
        assert_eq!(n("-1.50").add(&n("0.5")).text(), "-1.00");
        assert_eq!(n("0.05").text(), "0.05");
        assert_eq!(n("-0.05").text_k(1), "-0.0");
        assert_eq!(n("12.3").text_k(4), "12.3000");
        assert_eq!(n("12.39").text_k(0), "12");
    }
}
