//! A second generator: no strategy trees, so several times as many cases per second, and relations
//! between operands at the level of single groups. Failures are reduced by editing the case itself.
use crate::gen::*;
use crate::props::arith::Bin;
use crate::real::Op;
use crate::spec::{classify_literal, Lit};

pub struct Fast(u64);

impl Fast {
    pub fn new(seed: u64) -> Fast {
        Fast(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) * n as u64 >> 32) as usize
    }
    /// one in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

const B: u32 = 1_000_000_000;

pub fn group(r: &mut Fast) -> u32 {
    match r.below(24) {
        0..=2 => 0,
        3 => 1,
        4..=6 => B - 1,
        7 => B - 2,
        8 => B / 2,
        9 => B / 2 - 1,
        10 => B / 2 + 1,
        11 => POW10[r.below(9)],
        12 => POW10[r.below(9) + 1] - 1,
        13 => 5 * POW10[r.below(9)],
        14 => B - POW10[r.below(9)],
        15 => (r.below(999) as u32 + 1) * POW10[3 * r.below(3)],
        16 => r.below(1000) as u32,
        17 => ((1u64 << r.below(30)) as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1).min(B - 1),
        _ => r.below(B as usize) as u32,
    }
}

/// like `units16` of the other generator: eight integral groups, then eight fractional ones
pub fn groups(r: &mut Fast) -> [u32; 16] {
    let mut v = [0u32; 16];
    match r.below(8) {
        0 => {
            let base = r.pick(&[0, B - 1, B / 2, 1]);
            v = [base; 16];
            for _ in 0..r.below(3) {
                v[r.below(16)] = group(r);
            }
        }
        1 => {
            let a = [group(r), group(r), group(r)];
            v.iter_mut().for_each(|x| *x = a[r.below(3)]);
        }
        2 => v.iter_mut().for_each(|x| *x = r.below(B as usize) as u32),
        3 => v.iter_mut().for_each(|x| *x = r.pick(&[0, 1, B / 2, B - 1, B / 2 - 1])),
        _ => v.iter_mut().for_each(|x| *x = group(r)),
    }
    v
}

/// digit counts (integral, fractional): sum 1 to 65
pub fn digit_counts(r: &mut Fast) -> (usize, usize) {
    let len = |r: &mut Fast, max: usize| {
        let n = match r.below(6) {
            0..=2 => 9 * r.below(max / 9 + 1),
            3 => (9 * r.below(max / 9 + 1)).saturating_sub(1),
            4 => 9 * r.below(max / 9 + 1) + 1,
            _ => r.below(max + 1),
        };
        n.min(max)
    };
    let (mi, mf) = r.pick(&[(65, 30), (30, 30), (27, 18), (18, 18), (9, 9), (65, 65), (36, 27)]);
    let (mut i, mut f) = (len(r, mi), len(r, mf));
    if i + f > 65 {
        if r.one_in(2) {
            f = 65 - i;
        } else {
            i = 65 - f;
        }
    }
    if i + f == 0 {
        i = 1;
    }
    (i, f)
}

pub fn literal(g: &[u32; 16], i: usize, f: usize, neg: bool) -> String {
    let mut s = String::with_capacity(i + f + 2);
    if neg {
        s.push('-');
    }
    s.push_str(&int_string(&g[..8], i));
    if f > 0 {
        s.push('.');
        s.push_str(&frac_string(&g[8..], f));
    }
    s
}

pub fn lit(r: &mut Fast) -> String {
    let g = groups(r);
    let (i, f) = digit_counts(r);
    let neg = r.one_in(2);
    literal(&g, i, f, neg)
}

pub fn op(r: &mut Fast) -> Op {
    r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem])
}

fn leaf(r: &mut Fast) -> Src {
    match r.below(16) {
        0 => Src::I(r.next() as i64 >> r.below(64)),
        1 => Src::U(r.next() >> r.below(64)),
        2 => Src::One,
        _ => Src::Lit(lit(r)),
    }
}

/// nine groups, which take an operation to build
pub fn wide(r: &mut Fast) -> Src {
    let g = groups(r);
    let f = r.below(37);
    let il = 81 - 9 * f.div_ceil(9);
    let high = il.min(18 + 9 * r.below(4));
    let mut hi = int_string(&g[..8], high);
    if hi.starts_with('0') && r.below(4) > 0 {
        hi.replace_range(..1, "9");
    }
    let l = groups(r);
    let rest = (il - high).min(65 - f);
    let lo = literal(&l, rest.max(usize::from(f == 0)), f, false);
    let s = Src::op(Src::op(Src::Lit(hi), Op::Mul, Src::Lit(format!("1e{}", (il - high).min(64)))), Op::Add, Src::Lit(lo));
    if r.one_in(2) {
        Src::Neg(Box::new(s))
    } else {
        s
    }
}

pub fn src(r: &mut Fast) -> Src {
    match r.below(20) {
        0 | 1 => {
            let (a, o, b) = (leaf(r), op(r), leaf(r));
            Src::op(a, o, b)
        }
        2 => Src::RoundTo(Box::new(leaf(r)), r.int(-12, 36) as i32),
        3 => Src::Round(Box::new(leaf(r)), r.int(-12, 36) as i32),
        4 => wide(r),
        5 => {
            let s = leaf(r);
            other_layout(r, s)
        }
        _ => leaf(r),
    }
}

pub fn other_layout(r: &mut Fast, s: Src) -> Src {
    let how = r.below(10) as u8;
    let k = r.below(40);
    relayout(s, how, k)
}

pub fn prev(r: &mut Fast) -> Option<Src> {
    match r.below(8) {
        0 => Some(src(r)),
        1 => Some(wide(r)),
        2 => Some(Src::lit("-99999999999999999999999999999999999.999999999999999999999999999999")),
        _ => None,
    }
}

/// two operands
pub fn pair(r: &mut Fast) -> (Src, Src) {
    let g = groups(r);
    let (i, f) = digit_counts(r);
    let a = Src::Lit(literal(&g, i, f, r.one_in(2)));
    let mut w = g;
    match r.below(14) {
        0..=3 => return (src(r), src(r)),
        4 | 5 => return divided(r),
        6 => {} // the same groups
        7 => w.iter_mut().for_each(|x| *x = B - 1 - *x),
        8 => {
            // all groups complement to a power of ten
            w.iter_mut().for_each(|x| *x = B - 1 - *x);
            let p = 8 + (f / 9).max(1) - 1;
            w[p] = (w[p] + 1) % B;
        }
        9 => w.iter_mut().for_each(|x| *x = if *x >= B / 2 { *x / 2 } else { *x * 2 }),
        10 => {
            let (x, y) = (r.below(16), r.below(16));
            w.swap(x, y);
        }
        11 => {
            // the point moved by groups
            let n = r.below(8);
            let mut line: Vec<u32> = g[..8].iter().rev().chain(g[8..].iter()).copied().collect();
            line.rotate_left(n);
            for x in 0..8 {
                w[7 - x] = line[x];
                w[8 + x] = line[8 + x];
            }
        }
        12 => {
            // the lowest groups' product comes close to a multiple of 10^9
            for x in w.iter_mut().filter(|x| **x > 1) {
                let m = r.below(*x as usize) as u64 + 1;
                *x = ((m * B as u64).div_ceil(*x as u64) % B as u64) as u32;
            }
        }
        _ => {
            for _ in 0..=r.below(2) {
                let p = r.below(16);
                w[p] = if r.one_in(2) { (w[p] + 1) % B } else { (w[p] + B - 1) % B };
            }
        }
    }
    let (i2, f2) = if r.one_in(2) { (i, f) } else { digit_counts(r) };
    let b = Src::Lit(literal(&w, i2, f2, r.one_in(2)));
    let b = if r.one_in(8) { other_layout(r, b) } else { b };
    if r.one_in(2) {
        (a, b)
    } else {
        (b, a)
    }
}

/// dividend = quotient * divisor, or a step or a remainder beside it
pub fn divided(r: &mut Fast) -> (Src, Src) {
    let mut d = groups(r);
    if r.one_in(2) {
        // leading groups for which the estimated quotient digit is off
        let top = r.below(4);
        d[top] = r.pick(&[B / 2, B / 2 + 1, B / 2 - 1, B - 1, 1, 2, B / 2 + 12345]);
        if top > 0 {
            d[top - 1] = r.pick(&[0, 1, B - 1, B - 2, B / 2]);
        }
        for x in d.iter_mut().take(8).skip(top + 1) {
            *x = 0;
        }
    }
    let q = groups(r);
    let (di, df) = (r.below(37), 9 * r.below(3) + r.pick(&[0, 0, 0, 1, 8]));
    let (qi, qf) = (r.below(28), r.pick(&[0, 0, 0, 9, 18, 1, 5, 8]));
    let dl = literal(&d, di.max(1), df, r.one_in(2));
    let ql = literal(&q, qi.max(1), qf, r.one_in(2));
    let p = Src::op(Src::Lit(ql), Op::Mul, Src::Lit(dl.clone()));
    let step = Src::Lit(ulp_lit((df + qf + if r.one_in(3) { r.below(4) } else { 0 }).min(60)));
    let a = match r.below(7) {
        0 => p,
        1 => Src::op(p, Op::Add, step),
        2 | 3 => Src::op(p, Op::Sub, step),
        4 => Src::op(p, Op::Add, Src::Lit(lit(r))),
        _ => Src::op(Src::op(p, Op::Add, Src::Lit(dl.clone())), Op::Sub, step),
    };
    (a, Src::Lit(dl))
}

pub fn incr(r: &mut Fast) -> usize {
    match r.below(8) {
        0..=2 => 4,
        3 => 0,
        4 | 5 => r.below(14),
        6 => r.below(40),
        _ => r.below(200),
    }
}

pub fn bin(r: &mut Fast, ops: &[Op]) -> Bin {
    let op = r.pick(ops);
    let (a, b) = if matches!(op, Op::Div | Op::Rem) && r.one_in(3) { divided(r) } else { pair(r) };
    let incr = incr(r);
    let prev = prev(r);
    Bin { a, b, op, incr, prev }
}

/// a literal and a position around which it is cut: on a tie, or one step beside it, or anywhere
pub fn cut(r: &mut Fast) -> (String, i64) {
    let t = lit(r);
    let neg = t.starts_with('-');
    let body = t.trim_start_matches('-');
    let (i, f) = body.split_once('.').unwrap_or((body, ""));
    let il = i.len() as i64;
    if r.one_in(2) {
        let k = match r.below(8) {
            0..=4 => r.int(-il - 2, f.len() as i64 + 2),
            5 => 9 * r.int(-8, 8) + r.int(-1, 1),
            _ => r.int(-90, 100),
        };
        return (t.clone(), k);
    }
    let mut d: Vec<u8> = i.bytes().chain(f.bytes()).collect();
    let p = r.below(d.len());
    let (first, rest) = r.pick(&[(b'5', b'0'), (b'4', b'9'), (b'5', b'0'), (b'9', b'9'), (b'0', b'9')]);
    d[p] = first;
    d[p + 1..].iter_mut().for_each(|x| *x = rest);
    if r.one_in(3) && p + 1 < d.len() {
        let q = p + 1 + r.below(d.len() - p - 1);
        d[q] = b'0' + r.below(10) as u8;
    }
    if r.one_in(3) {
        let from = r.below(p + 1);
        d[from..p].iter_mut().for_each(|x| *x = b'9');
    }
    let s = String::from_utf8(d).unwrap();
    let t = format!("{}{}{}{}", if neg { "-" } else { "" }, &s[..i.len()], if f.is_empty() { "" } else { "." }, &s[i.len()..]);
    (t, p as i64 - il)
}

/// n digits: random, whole groups, runs, or nearly all the same
fn digit_string(r: &mut Fast, n: usize) -> String {
    let mut d = vec![b'0'; n];
    match r.below(4) {
        0 | 1 => d.iter_mut().for_each(|x| *x = b'0' + r.below(10) as u8),
        2 => {
            let mut p = 0;
            while p < n {
                let len = r.below(24) + 1;
                let c = r.pick(b"0099512345678");
                d[p..n.min(p + len)].iter_mut().for_each(|x| *x = c);
                p += len;
            }
        }
        _ => {
            let c = r.pick(b"0009");
            d.iter_mut().for_each(|x| *x = c);
            for _ in 0..r.below(4) {
                if n > 0 {
                    d[r.below(n)] = b'0' + r.below(10) as u8;
                }
            }
        }
    }
    String::from_utf8(d).unwrap()
}

/// a grammatical literal: every shape (integral digits, fraction digits, exponent) that fits is as likely as any other
pub fn text(r: &mut Fast) -> String {
    for _ in 0..30 {
        let (i, f) = if r.one_in(4) {
            digit_counts(r)
        } else {
            let i = r.below(66);
            (i, r.below(66 - i))
        };
        if i + f == 0 {
            continue;
        }
        let e = match r.below(8) {
            0 | 1 => None,
            2 => Some(9 * r.int(-3, 7)),
            3 => Some(r.int(-(i as i64) - 1, f as i64 + 1)),
            4 => Some(f as i64 - 30 + r.int(-1, 1)),
            _ => Some(r.int(-30, 65)),
        };
        let mut s = r.pick(&["", "", "-", "-", "+"]).to_string();
        let zeros = if r.one_in(3) { r.below(12).min(65 - i - f) } else { 0 };
        if zeros > 0 {
            s.push_str(&"0".repeat(zeros));
        }
        let d = digit_string(r, i + f);
        s.push_str(&d[..i]);
        if f > 0 || r.one_in(4) {
            s.push('.');
            s.push_str(&d[i..]);
        }
        if let Some(e) = e {
            s.push(r.pick(b"eE") as char);
            s.push_str(if e < 0 { "-" } else { r.pick(&["", "", "+"]) });
            s.push_str(&"0".repeat(r.pick(&[0, 0, 0, 1, 2, 5, 9])));
            s.push_str(&e.unsigned_abs().to_string());
        }
        if matches!(classify_literal(s.as_bytes()), Lit::Valid { .. }) {
            return s;
        }
    }
    lit(r)
}

/// a literal after one to three edits
pub fn edited(r: &mut Fast) -> Vec<u8> {
    let mut v = text(r).into_bytes();
    if r.one_in(8) {
        // digits beyond what fits
        let p = r.below(v.len() + 1);
        let c = r.pick(b"0019");
        for _ in 0..=r.below(40) {
            v.insert(p, c);
        }
    }
    for _ in 0..=r.below(3) {
        let n = v.len();
        let c = match r.below(6) {
            0 => r.below(256) as u8,
            1 => r.pick(b" /:;,_xfd'\t\n\0"),
            _ => r.pick(b"0123456789..eE+-"),
        };
        match r.below(6) {
            0 | 1 => v.insert(r.below(n + 1), c),
            2 if n > 0 => {
                v.remove(r.below(n));
            }
            3 if n > 0 => v.truncate(r.below(n)),
            4 if n > 0 => {
                let x = v[r.below(n)];
                v.insert(r.below(n + 1), x);
            }
            _ if n > 0 => v[r.below(n)] = c,
            _ => {}
        }
    }
    v
}

/// some content for a destination
pub fn used(r: &mut Fast) -> Src {
    match prev(r) {
        Some(s) => s,
        None => src(r),
    }
}

/// non-negative, any bit length, near powers of two and ten, or made of groups
pub fn integer(r: &mut Fast) -> u64 {
    match r.below(8) {
        0 => (1u64 << r.below(64)).wrapping_add(r.int(-40, 40) as u64),
        1 => (10u64.pow(r.below(20) as u32).wrapping_mul(r.below(18) as u64 + 1)).wrapping_add(r.int(-40, 40) as u64),
        2 | 3 => group(r) as u64 * B as u64 + group(r) as u64,
        4 => (r.below(19) as u64 * 1_000_000_000_000_000_000).wrapping_add(group(r) as u64 * B as u64 + group(r) as u64),
        5 => u64::MAX / (r.below(20) as u64 + 1) - r.below(20) as u64,
        _ => r.next() >> r.below(64),
    }
}

/// a position for rounding or cutting
pub fn position(r: &mut Fast) -> i64 {
    match r.below(8) {
        0..=3 => r.int(-12, 36),
        4 | 5 => 9 * r.int(-9, 9) + r.int(-1, 1),
        6 => r.int(-90, 120),
        _ => r.pick(&[i64::MIN, -1000, -256, -129, -128, 127, 128, 255, 256, 1000]),
    }
}

/// operands of which something does not fit, or of which the second is zero
pub fn failing(r: &mut Fast) -> (Src, Op, Src) {
    let big = |r: &mut Fast| match r.below(4) {
        0 => wide(r),
        1 => {
            let g = groups(r);
            let i = r.int(36, 65) as usize;
            Src::Lit(literal(&g, i, r.below(66 - i), r.one_in(2)))
        }
        2 => {
            let e = r.int(30, 64);
            Src::Lit(format!("{}{}e{}", if r.one_in(2) { "-" } else { "" }, 1 + r.below(9), e))
        }
        _ => Src::Lit(format!("{}{}", if r.one_in(2) { "-" } else { "" }, "9".repeat(r.int(40, 65) as usize))),
    };
    let small = |r: &mut Fast| {
        let g = groups(r);
        let i = r.below(10);
        let f = r.int(1, 55) as usize;
        Src::Lit(literal(&g, i, f, r.one_in(2)))
    };
    match r.below(8) {
        0 => (src(r), r.pick(&[Op::Div, Op::Rem]), Src::lit(r.pick(&["0", "-0", "0.0", "0.000000000", "0e9"]))),
        1 => {
            let s = src(r);
            (src(r), r.pick(&[Op::Div, Op::Rem]), Src::op(s.clone(), Op::Sub, s))
        }
        2 | 3 => (big(r), r.pick(&[Op::Add, Op::Sub, Op::Mul]), big(r)),
        4 | 5 => {
            let (a, b) = (big(r), small(r));
            let o = r.pick(&[Op::Add, Op::Sub, Op::Div, Op::Rem]);
            if r.one_in(3) && matches!(o, Op::Add | Op::Sub) {
                (b, o, a)
            } else {
                (a, o, b)
            }
        }
        _ => {
            let (a, b) = pair(r);
            (a, op(r), b)
        }
    }
}
