//! C01 parse value, C02 parse totality, C03 canonical text, C04 requested digits, C05 round trip.
use super::{check_append, operand, text_digits};
use crate::engine::{Cx, Prop, Tier};
use crate::fast::{self, Fast};
use crate::gen::*;
use crate::real::*;
use crate::spec::{classify_literal, Lit, MAX_DIGITS};
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Route {
    FromStr,
    /// from_ascii_str on a fresh zero without reset
    Ascii,
    Bytes,
    /// with reset, on a destination holding this
    AsciiReset(Src),
    BytesReset(Src),
}

pub fn route() -> BoxedStrategy<Route> {
    prop_oneof![
        2 => Just(Route::FromStr),
        1 => Just(Route::Ascii),
        1 => Just(Route::Bytes),
        2 => dirty().prop_map(Route::AsciiReset),
        2 => dirty().prop_map(Route::BytesReset),
    ]
    .boxed()
}

pub fn parse_via(text: &str, r: &Route) -> (FixedDecimal, fxd::Result<()>) {
    match r {
        Route::FromStr => match text.parse::<FixedDecimal>() {
            Ok(v) => (v, Ok(())),
            Err(e) => (FixedDecimal::zero(), Err(e)),
        },
        Route::Ascii => {
            let mut d = FixedDecimal::zero();
            let r = d.from_ascii_str(text, false);
            (d, r)
        }
        Route::Bytes => {
            let mut d = FixedDecimal::zero();
            let r = d.from_bytes_str(text.as_bytes(), false);
            (d, r)
        }
        Route::AsciiReset(s) => {
            let mut d = fd_or_zero(s);
            let r = d.from_ascii_str(text, true);
            (d, r)
        }
        Route::BytesReset(s) => {
            let mut d = fd_or_zero(s);
            let r = d.from_bytes_str(text.as_bytes(), true);
            (d, r)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParseCase {
    pub text: String,
    pub route: Route,
}

pub struct C01;
impl Prop for C01 {
    type Case = ParseCase;
    const ID: &'static str = "C01";
    const RULE: &'static str = "grammatical literals in random spellings (sign, leading zeros, leading/trailing point, exponent with sign and padding) through five entry routes, every shape (integral length, fraction length, exponent) equally likely in part of them, plus each shape that fits 65 digits once, and exponents padded with up to a million zeros; non-trivial: the literal has an exponent, or ten or more digits, or a leading/trailing point or superfluous zero, and its value is not zero";
    fn strategy(_: Tier) -> BoxedStrategy<ParseCase> {
        (spelled(), route()).prop_map(|(text, route)| ParseCase { text, route }).boxed()
    }
    fn enumerate() -> Vec<ParseCase> {
        let mut v = Vec::new();
        let pat = "12345678912345678912345678912345678912345678912345678912345678912345";
        let dirty = Src::lit("-99999999999999999999999999999999999.999999999999999999999999999999");
        for i in 0usize..=65 {
            for f in 0usize..=(65 - i) {
                if i + f == 0 {
                    continue;
                }
                for e in -30i64..=65 {
                    let mut s = pat[..i].to_string();
                    if f > 0 {
                        s.push('.');
                        s.push_str(&pat[i..i + f]);
                    }
                    if e != 0 {
                        s.push_str(&format!("e{}", e));
                    }
                    if !matches!(classify_literal(s.as_bytes()), Lit::Valid { .. }) {
                        continue;
                    }
                    let route = if (i + f) % 2 == 0 { Route::FromStr } else { Route::BytesReset(dirty.clone()) };
                    v.push(ParseCase { text: s, route });
                }
            }
        }
        // exponents padded beyond every counter width
        for pad in [0usize, 1, 8, 9, 10, 11, 63, 64, 65, 66, 119, 120, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 1_000_000] {
            for (m, e) in [("1", "7"), ("-12.5", "-3"), ("+.5", "12"), ("123456789.987654321", "-30"), ("1", "65"), ("7", "-30")] {
                for sign in ["", "+"] {
                    let (es, ed) = e.strip_prefix('-').map(|d| ("-", d)).unwrap_or((sign, e));
                    let text = format!("{}e{}{}{}", m, es, "0".repeat(pad), ed);
                    if matches!(classify_literal(text.as_bytes()), Lit::Valid { .. }) {
                        v.push(ParseCase { text, route: if pad % 2 == 0 { Route::FromStr } else { Route::BytesReset(dirty.clone()) } });
                    }
                }
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<ParseCase> {
        let text = fast::text(r);
        let route = match r.below(16) {
            0..=6 => Route::FromStr,
            7..=9 => Route::Ascii,
            10..=12 => Route::Bytes,
            13 => Route::AsciiReset(fast::used(r)),
            14 => Route::BytesReset(fast::used(r)),
            _ => Route::BytesReset(Src::lit("-99999999999999999999999999999999999.999999999999999999999999999999")),
        };
        Some(ParseCase { text, route })
    }
    fn fast_factor() -> u64 {
        6
    }
    fn quick_cases() -> u64 {
        1_500_000
    }
    fn check(c: &ParseCase, cx: &mut Cx) -> Result<(), String> {
        let Lit::Valid { num, .. } = classify_literal(c.text.as_bytes()) else {
            return cx.discard();
        };
        let (d, r) = parse_via(&c.text, &c.route);
        if let Err(e) = r {
            return Err(format!("literal {:?} rejected with {}", c.text, err_kind(&e)));
        }
        expect_is(&format!("literal {:?}", c.text), &d, &num)?;
        if d.frac() as i64 != num.scale as i64 {
            return Err(format!("literal {:?}: frac() = {} want {}", c.text, d.frac(), num.scale));
        }
        // the same number written plainly, and as an integer where it is one
        let plain: FixedDecimal = match num.text().parse() {
            Ok(p) => p,
            Err(_) if text_digits(&num) > MAX_DIGITS => d.clone(),
            Err(e) => return Err(format!("literal {:?} rejected with {}", num.text(), err_kind(&e))),
        };
        if plain != d {
            return Err(format!("literal {:?} differs from {:?}", c.text, num.text()));
        }
        if num.scale == 0 && num.mag.len() <= 18 {
            let v: i64 = num.text().parse().unwrap();
            if FixedDecimal::from(v) != d {
                return Err(format!("literal {:?} differs from the integer {}", c.text, v));
            }
        }
        let t = &c.text;
        let has_exp = t.contains(['e', 'E']);
        cx.label_if(has_exp, "exponent");
        cx.label_if(t.starts_with('.') || t.starts_with("-.") || t.starts_with("+."), "leading_point");
        cx.label_if(matches!(c.route, Route::AsciiReset(_) | Route::BytesReset(_)), "dirty_destination");
        let n = t.bytes().take_while(|c| *c != b'e' && *c != b'E').filter(|c| c.is_ascii_digit()).count();
        cx.label_if(n >= 60, "sixty_or_more_digits");
        cx.nontrivial_if(!num.is_zero() && (has_exp || n >= 10 || t.contains(".e") || t.ends_with('.') || t.trim_start_matches(['+', '-']).starts_with(['0', '.'])));
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
    pub bytes: Vec<u8>,
    pub prev: Option<Src>,
    pub reset: bool,
}

pub fn junk() -> BoxedStrategy<Vec<u8>> {
    let alpha = prop_oneof![
        5 => prop::sample::select(b"0123456789..eE+-  _,x\x00\xff\xc3".to_vec()),
        1 => prop::sample::select(b"/:;<=>?\t\n\r\x0b'\"dDFfiIpPlLuU\x10\x19\x90\x99\xb0\xb9".to_vec()),
    ];
    let digit_run = prop_oneof![
        3 => 60usize..72,
        3 => 120usize..140,
        1 => 250usize..260,
        1 => 500usize..520,
        1 => 1000usize..1100,
        2 => 1usize..70,
    ];
    let dig = prop::sample::select(b"0123459".to_vec());
    // long digit runs with optional point and exponent
    let long = (digit_run.clone(), dig.clone(), prop::option::of(0usize..1100), any::<bool>(), prop::option::of((prop::sample::select(vec!["", "-", "+"]), 0usize..14, 0u64..10_000_000_000, 1usize..14))).prop_map(|(n, d, dot, lead0, ex)| {
        let mut v: Vec<u8> = if lead0 { vec![b'0'; n] } else { vec![d; n] };
        if lead0 {
            let l = v.len();
            v[l - 1] = d;
        }
        if let Some(p) = dot {
            let p = p % (v.len() + 1);
            v.insert(p, b'.');
        }
        if let Some((sg, z, e, w)) = ex {
            v.push(b'e');
            v.extend_from_slice(sg.as_bytes());
            v.extend(vec![b'0'; z]);
            let s = e.to_string();
            v.extend_from_slice(&s.as_bytes()[..w.min(s.len())]);
        }
        v
    });
    // exponent just outside the limits
    let exps = (spelled(), prop::sample::select(vec![-1000i64, -256, -129, -128, -127, -32, -31, -30, 64, 65, 66, 67, 99, 100, 126, 127, 128, 129, 191, 255, 256, 257, 320, 321, 999, 1000, 9999, 65536, 65600, 4294967296, 4294967297, 4294967360])).prop_map(|(s, e)| {
        let base = s.split(['e', 'E']).next().unwrap().to_string();
        format!("{}e{}", base, e).into_bytes()
    });
    let edits = (spelled(), prop::collection::vec((any::<u16>(), 0u8..4, alpha.clone()), 1..4)).prop_map(|(s, es)| {
        let mut v = s.into_bytes();
        for (p, k, c) in es {
            let n = v.len();
            match k {
                0 => v.insert(p as usize % (n + 1), c),
                1 if n > 0 => {
                    v.remove(p as usize % n);
                }
                2 if n > 0 => v[p as usize % n] = c,
                3 if n > 0 => {
                    let x = v[p as usize % n];
                    v.insert(p as usize % n, x);
                }
                _ => {}
            }
        }
        v
    });
    // valid literal stretched beyond 65 digits
    let stretched = (spelled(), 1usize..70, any::<bool>(), dig).prop_map(|(s, n, front, d)| {
        let mut v = s.into_bytes();
        let p = if front { v.iter().position(|c| c.is_ascii_digit()).unwrap_or(0) } else { v.iter().position(|c| *c == b'e' || *c == b'E').unwrap_or(v.len()) };
        for _ in 0..n {
            v.insert(p, d);
        }
        v
    });
    prop_oneof![
        4 => edits,
        3 => long,
        2 => exps,
        2 => stretched,
        3 => prop::collection::vec(alpha, 0..12),
        1 => prop::collection::vec(any::<u8>(), 0..20),
        1 => spelled().prop_map(|s| s.into_bytes()),
    ]
    .boxed()
}

pub struct C02;
impl Prop for C02 {
    type Case = RawCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "edited valid literals, digit runs up to 1100 characters, exponents around every limit, grammar-alphabet and random byte strings, with every previous destination content; every string of up to five characters over [0 9 . e E + - x] and every byte in every place of eight literals, and exponents near every 2^8 to 2^128 that a counter may wrap at enumerated; inputs of up to a million characters; non-trivial: the string must be rejected, or (grammatical) has more than 65 positional digits; the empty string is trivial";
    fn strategy(_: Tier) -> BoxedStrategy<RawCase> {
        (junk(), prop::option::of(dirty()), any::<bool>()).prop_map(|(bytes, prev, reset)| RawCase { bytes, prev, reset }).boxed()
    }
    fn enumerate() -> Vec<RawCase> {
        let mut v = Vec::new();
        let al = b"09.eE+-x";
        let prev = Some(Src::lit("-12345678901.5"));
        let mut cur: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..=5 {
            let mut next = Vec::new();
            for s in &cur {
                v.push(RawCase { bytes: s.clone(), prev: if s.len() % 2 == 0 { prev.clone() } else { None }, reset: s.len() % 3 != 0 });
                for c in al {
                    let mut t = s.clone();
                    t.push(*c);
                    next.push(t);
                }
            }
            cur = next;
        }
        // every total length of one digit around every integer-width limit, int and frac
        for n in (60..72).chain(120..136).chain(184..200).chain(250..262).chain(318..330).chain(380..390) {
            for d in [b'0', b'1'] {
                for dot in [0usize, 1, n / 2, n - 1, n] {
                    for e in ["", "e0", "e65", "e-30", "e30", "e1", "e-1"] {
                        let mut s = vec![d; n];
                        s.insert(dot, b'.');
                        s.extend_from_slice(e.as_bytes());
                        v.push(RawCase { bytes: s, prev: prev.clone(), reset: n % 2 == 0 });
                    }
                }
            }
        }
        // exponents that leave a small number in a counter of any width
        let near = |k: usize, d: i64| {
            // text of 2^k + d
            let mut t = vec![1u8];
            for _ in 0..k {
                let mut c = 0;
                for x in t.iter_mut() {
                    c += 2 * *x;
                    *x = c % 10;
                    c /= 10;
                }
                if c > 0 {
                    t.push(c);
                }
            }
            let mut c = d;
            for x in t.iter_mut() {
                c += *x as i64;
                *x = c.rem_euclid(10) as u8;
                c = c.div_euclid(10);
            }
            if c > 0 {
                t.push(c as u8);
            }
            t.iter().rev().map(|x| (b'0' + x) as char).collect::<String>()
        };
        for k in [8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128] {
            for d in -33..=66 {
                for m in ["1", "-0.25", "123456789012"] {
                    for sign in ["", "-", "+"] {
                        let e = near(k, d);
                        for zeros in ["", "0"] {
                            v.push(RawCase { bytes: format!("{}e{}{}{}", m, sign, zeros, e).into_bytes(), prev: if d % 2 == 0 { prev.clone() } else { None }, reset: d % 3 == 0 });
                        }
                    }
                }
            }
        }
        // every byte in every place of a few literals
        for t in ["7", "12345678", "-123456789.5", "+.25e-3", "0.00123456789012345", "1234567890123456789012345678901234.567890123456789", "1e05", "99999999999999999e+10"] {
            for p in 0..=t.len() {
                for c in 0..=255u8 {
                    for replace in [false, true] {
                        let mut b = t.as_bytes().to_vec();
                        if replace && p < b.len() {
                            b[p] = c;
                        } else if replace {
                            continue;
                        } else {
                            b.insert(p, c);
                        }
                        v.push(RawCase { bytes: b, prev: if c % 16 == 0 { prev.clone() } else { None }, reset: p % 2 == 0 });
                    }
                }
            }
        }
        // inputs longer than any narrow counter can hold
        for n in [1000usize, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600, 131072, 1_000_000] {
            for (head, fill, tail) in [("", '0', ""), ("", '1', ""), (".", '0', ""), (".", '0', "1"), ("1.", '0', ""), ("-1", '0', ""), ("0.", '9', "e5"), ("1e", '0', "x"), ("1e", '9', ""), ("1e-", '1', ""), ("", '0', "e65"), ("+", '+', "1"), ("1", '.', ""), ("", ' ', "1"), ("1", 'e', "1"), ("5", '\u{0}', "")] {
                let s = format!("{}{}{}", head, fill.to_string().repeat(n), tail);
                v.push(RawCase { bytes: s.into_bytes(), prev: prev.clone(), reset: n % 2 == 0 });
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<RawCase> {
        let bytes = fast::edited(r);
        let (prev, reset) = (fast::prev(r), r.one_in(2));
        Some(RawCase { bytes, prev, reset })
    }
    fn fast_factor() -> u64 {
        4
    }
    fn quick_cases() -> u64 {
        2_000_000
    }
    fn check(c: &RawCase, cx: &mut Cx) -> Result<(), String> {
        let mut d = match &c.prev {
            None => FixedDecimal::zero(),
            Some(s) => fd_or_zero(s),
        };
        let show = || String::from_utf8_lossy(&c.bytes).into_owned();
        let before = d.clone();
        let before_t = before.to_string(-1);
        let class = classify_literal(&c.bytes);
        let r = guard(|| d.from_bytes_str(&c.bytes, c.reset)).map_err(|p| format!("parsing {:?}: {}", show(), p))?;
        match (&class, &r) {
            (Lit::Invalid(why), Ok(())) => return Err(format!("{:?} ({}) accepted as {}", show(), why, d.to_string(-1))),
            (_, Err(fxd::Error::ConversionSyntax)) | (_, Ok(())) => {}
            (_, Err(e)) => return Err(format!("{:?}: rejected with {}", show(), err_kind(e))),
        }
        if r.is_err() {
            if c.reset {
                if d.to_string(-1) != "0" || !d.is_zero() || d.is_neg() || d.frac() != 0 {
                    return Err(format!("{:?}: after a failed parse with reset the destination is {}", show(), d.to_string(-1)));
                }
            } else if d.to_string(-1) != before_t || d != before || d.intg() != before.intg() {
                return Err(format!("{:?}: a failed parse without reset changed the destination from {} to {}", show(), before_t, d.to_string(-1)));
            }
        }
        // the other entry points agree on acceptance
        if let Ok(s) = std::str::from_utf8(&c.bytes) {
            let p = guard(|| s.parse::<FixedDecimal>()).map_err(|p| format!("parsing {:?}: {}", show(), p))?;
            if p.is_ok() != r.is_ok() {
                return Err(format!("{:?}: FromStr and from_bytes_str disagree on acceptance", show()));
            }
        }
        cx.label(match &class {
            Lit::Valid { .. } => "valid",
            Lit::Grey { .. } => "more_than_65_positional_digits_with_leading_zeros",
            Lit::Invalid(w) => w,
        });
        cx.nontrivial_if(!c.bytes.is_empty() && !matches!(class, Lit::Valid { .. }));
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShowCase {
    pub v: Src,
    pub prefix: String,
}

pub struct C03;
impl Prop for C03 {
    type Case = ShowCase;
    const ID: &'static str = "C03";
    const RULE: &'static str = "values of every origin with random buffer prefixes, and all 1000 three-digit groups in every position of an integral group (leading, inner) and of a fraction cut after 1..9 digits; non-trivial: the value has two or more groups or a fraction, and is not zero";
    fn strategy(_: Tier) -> BoxedStrategy<ShowCase> {
        (src(), prop_oneof![Just(String::new()), "[ -~]{0,12}".prop_map(|s| s)]).prop_map(|(v, prefix)| ShowCase { v, prefix }).boxed()
    }
    fn enumerate() -> Vec<ShowCase> {
        let mut v = Vec::new();
        let mut push = |s: String| v.push(ShowCase { v: Src::Lit(s), prefix: "p".into() });
        for g in 0..1000u32 {
            // integral: group in each position of the leading unit and of a following unit
            push(format!("{}", g));
            push(format!("{}000", g));
            push(format!("{}000000", g));
            push(format!("{}123", g));
            push(format!("{}456123", g));
            push(format!("7{:03}456123", g));
            push(format!("7123{:03}456", g));
            push(format!("7123456{:03}", g));
            push(format!("98{:03}000000", g));
            push(format!("98000{:03}000", g));
            push(format!("98000000{:03}", g));
            push(format!("5000000000{:03}000000.{:03}", g, g));
            // fraction: every position, every cut
            for cut in 1..=9usize {
                for pos in 0..3usize {
                    let mut f = String::new();
                    for k in 0..3 {
                        f.push_str(&if k == pos { format!("{:03}", g) } else { "000".into() });
                    }
                    push(format!("0.{}", &f[..cut]));
                    if pos == (g % 3) as usize {
                        push(format!("-1.111111111{}", &f[..cut]));
                    }
                }
            }
        }
        // very long buffers
        for s in ["-1.5", "0", "-0.001", "123456789012345678901234567890.123456789012345678901234567890"] {
            for len in [32_768, 65_536, 1 << 20] {
                v.push(ShowCase { v: Src::Lit(s.into()), prefix: "b".repeat(len) });
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<ShowCase> {
        let v = fast::src(r);
        let prefix = if r.one_in(2) { String::new() } else { "[x]".repeat(r.below(60)) };
        Some(ShowCase { v, prefix })
    }
    fn quick_cases() -> u64 {
        1_600_000
    }
    fn check(c: &ShowCase, cx: &mut Cx) -> Result<(), String> {
        let Some(fd) = c.v.build() else {
            return cx.discard();
        };
        let t = fd.to_string(-1);
        // expected text where the value is known independently of any other operation
        let known = match &c.v {
            Src::Lit(s) => match classify_literal(s.as_bytes()) {
                Lit::Valid { num, .. } => Some(num.text()),
                _ => None,
            },
            Src::I(v) => Some(v.to_string()),
            Src::U(v) => Some(v.to_string()),
            Src::One => Some("1".to_string()),
            _ => None,
        };
        if let Some(k) = &known {
            if *k != t {
                return Err(format!("{:?} prints as {:?}, want {:?}", c.v, t, k));
            }
        }
        let n = observe(&fd)?;
        if n.scale as i64 != fd.frac() as i64 {
            return Err(format!("{:?} has scale {} but prints as {:?}", c.v, fd.frac(), t));
        }
        if t.starts_with('-') != fd.is_neg() {
            return Err(format!("{:?}: sign of {:?} does not match is_neg() = {}", c.v, t, fd.is_neg()));
        }
        // the value printed is the value held
        if text_digits(&n) <= MAX_DIGITS {
            match t.parse::<FixedDecimal>() {
                Ok(p) if p == fd => {}
                Ok(_) => return Err(format!("{:?} prints as {:?}, which is a different number", c.v, t)),
                Err(e) => return Err(format!("{:?} prints as {:?}, which does not parse: {}", c.v, t, err_kind(&e))),
            }
        } else if known.is_none() {
            check_in_parts(&fd, &t).map_err(|e| format!("{:?}: {}", c.v, e))?;
        }
        // every negative argument means all digits
        for k in [-2isize, -9, isize::MIN] {
            let u = fd.to_string(k);
            if u != t {
                return Err(format!("{:?}: to_string({}) = {:?}, to_string(-1) = {:?}", c.v, k, u, t));
            }
        }
        // appending: exact bytes after the existing contents
        check_append(&fd, -1, c.prefix.as_bytes(), &t)?;
        cx.label_if(c.v.is_computed(), "computed");
        cx.label_if(n.neg, "negative");
        cx.label_if(n.int_units() + n.frac_units() >= 7, "wide_7plus_groups");
        cx.nontrivial_if(!n.is_zero() && (n.scale > 0 || n.int_units() >= 2));
        Ok(())
    }
}

/// For texts too long for one literal: the value must lie strictly between its printed leading part
/// minus/plus one step (ordering only, no arithmetic).
fn check_in_parts(fd: &FixedDecimal, t: &str) -> Result<(), String> {
    let body = t.trim_start_matches('-');
    let neg = body.len() != t.len();
    let digits: Vec<u8> = body.bytes().filter(|c| *c != b'.').collect();
    let il = body.find('.').unwrap_or(body.len());
    if il > 64 {
        return Ok(()); // beyond any literal; covered by comparison properties on computed values
    }
    // leading part with at most 65 digits: lo <= |v| < lo + step
    let keep = digits.len().min(64);
    if keep < il {
        return Ok(());
    }
    let lead = |d: &[u8]| {
        let s = String::from_utf8(d.to_vec()).unwrap();
        if d.len() > il {
            format!("{}.{}", &s[..il], &s[il..])
        } else {
            s
        }
    };
    let lo: FixedDecimal = match lead(&digits[..keep]).parse() {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    let mut up = digits[..keep].to_vec();
    let mut i = keep;
    loop {
        if i == 0 {
            return Ok(());
        }
        i -= 1;
        if up[i] == b'9' {
            up[i] = b'0';
        } else {
            up[i] += 1;
            break;
        }
    }
    let hi: FixedDecimal = match lead(&up).parse() {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    let mut a = fd.clone();
    if neg {
        a.set_pos();
    }
    if !(lo <= a && a < hi) {
        return Err(format!("prints as {:?}, which is not its value", t));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShowK {
    pub v: Src,
    pub k: usize,
    pub prefix: String,
}

pub struct C04;
impl Prop for C04 {
    type Case = ShowK;
    const ID: &'static str = "C04";
    const RULE: &'static str = "values of every origin with k near the scale, near group boundaries, and far beyond; all (scale 0..65, k 0..85) combinations enumerated, and k up to a million; non-trivial: k differs from the scale and the value has a non-zero fraction";
    fn strategy(_: Tier) -> BoxedStrategy<ShowK> {
        let k = prop_oneof![4 => 0usize..40, 2 => 0usize..80, 2 => (0usize..9, 0usize..3).prop_map(|(a, d)| (9 * a + d).saturating_sub(1)), 1 => 80usize..300];
        (src(), k, prop_oneof![3 => Just(String::new()), 1 => "[ -~]{1,8}".prop_map(|s| s)]).prop_map(|(v, k, prefix)| ShowK { v, k, prefix }).boxed()
    }
    fn enumerate() -> Vec<ShowK> {
        let mut v = Vec::new();
        let pat = "91827364591827364591827364591827364591827364591827364591827364591";
        for f in 0usize..=64 {
            for k in 0usize..=85 {
                for int in ["0", "7"] {
                    let s = if f == 0 { int.to_string() } else { format!("{}.{}", int, &pat[..f]) };
                    v.push(ShowK { v: Src::Lit(s), k, prefix: String::new() });
                }
                // zeros with a last digit only
                if f > 0 {
                    v.push(ShowK { v: Src::Lit(format!("-0.{}3", "0".repeat(f - 1))), k, prefix: "x".into() });
                }
            }
        }
        // far more digits than any narrow counter can hold
        for k in [100usize, 119, 126, 127, 128, 129, 136, 137, 254, 255, 256, 257, 264, 265, 1000, 4000, 32766, 32767, 32768, 32769, 32776, 65534, 65535, 65536, 65537, 65545, 100_000, 1_000_000] {
            for t in ["0", "7", "-1.5", "0.000000001", "123456789.987654321", "-99999999999999999999999.999999999999999999999999999999", &format!("0.{}", pat)] {
                v.push(ShowK { v: Src::Lit(t.to_string()), k, prefix: String::new() });
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<ShowK> {
        let (t, k) = fast::cut(r);
        let v = if r.one_in(3) { fast::src(r) } else { Src::Lit(t) };
        let prefix = "-0.".repeat(if r.one_in(4) { r.below(40) } else { 0 });
        Some(ShowK { v, k: k.unsigned_abs() as usize, prefix })
    }
    fn quick_cases() -> u64 {
        1_500_000
    }
    fn check(c: &ShowK, cx: &mut Cx) -> Result<(), String> {
        let Some((fd, n)) = operand(&c.v) else {
            return cx.discard();
        };
        let want = n.text_k(c.k);
        let got = fd.to_string(c.k as isize);
        if got != want {
            return Err(format!("{} with {} digits prints as {:?}, want {:?}", n.text(), c.k, got, want));
        }
        check_append(&fd, c.k as isize, c.prefix.as_bytes(), &want)?;
        expect_is("value after formatting", &fd, &n)?;
        cx.label_if(c.k < n.scale, "truncates");
        cx.label_if(c.k > n.scale, "pads");
        cx.label_if(c.k > 9 * n.frac_units(), "pads_beyond_stored_groups");
        let fz = n.trunc(0).trunc(n.scale) == n;
        cx.nontrivial_if(c.k != n.scale && !fz);
        Ok(())
    }
}

pub struct C05;
impl Prop for C05 {
    type Case = Src;
    const ID: &'static str = "C05";
    const RULE: &'static str = "values of every origin whose text has at most 65 digits; non-trivial: not zero, and computed or with two or more groups";
    fn strategy(_: Tier) -> BoxedStrategy<Src> {
        prop_oneof![
            3 => src(),
            2 => (lit_of(30, 20, 40), ops(), lit_of(30, 20, 40)).prop_map(|(a, o, b)| Src::op(Src::Lit(a), o, Src::Lit(b))),
            1 => (src(), 0u8..10, 0usize..20).prop_map(|(s, h, k)| relayout(s, h, k)),
        ]
        .boxed()
    }
    fn enumerate() -> Vec<Src> {
        let mut v = Vec::new();
        for (i, f) in super::arith::shapes() {
            for d in ['9', '1', '0'] {
                v.push(Src::Lit(super::arith::rep(d, i, f)));
                v.push(Src::Neg(Box::new(Src::Lit(super::arith::rep(d, i, f)))));
            }
        }
        v
    }
    fn fast(r: &mut Fast) -> Option<Src> {
        Some(fast::src(r))
    }
    fn quick_cases() -> u64 {
        1_500_000
    }
    fn check(c: &Src, cx: &mut Cx) -> Result<(), String> {
        let Some(fd) = c.build() else {
            return cx.discard();
        };
        let t = fd.to_string(-1);
        if t.bytes().filter(|b| b.is_ascii_digit()).count() > MAX_DIGITS {
            return cx.discard();
        }
        let back: FixedDecimal = match t.parse() {
            Ok(v) => v,
            Err(e) => return Err(format!("{:?} does not parse back: {}", t, err_kind(&e))),
        };
        let t2 = back.to_string(-1);
        if t2 != t {
            return Err(format!("{:?} parses back and prints {:?}", t, t2));
        }
        if back != fd || fd != back {
            return Err(format!("{:?} parses back to a different value", t));
        }
        if back.frac() != fd.frac() || back.is_neg() != fd.is_neg() {
            return Err(format!("{:?}: scale {} sign {} became scale {} sign {}", t, fd.frac(), fd.is_neg(), back.frac(), back.is_neg()));
        }
        cx.label_if(c.is_computed(), "computed");
        cx.nontrivial_if(!fd.is_zero() && (c.is_computed() || t.len() > 10));
        Ok(())
    }
}
