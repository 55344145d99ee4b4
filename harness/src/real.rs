//! Thin layer over the public API of the library under test.
use crate::num::Num;
use crate::spec::{Allowed, Fail};
use fxd::{Error, FixedDecimal};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub loc: String,
    pub msg: String,
}

impl Panicked {
    /// panics raised by the harness itself are harness errors, never violations
    pub fn in_harness(&self) -> bool {
        self.loc.starts_with("src/")
    }
}

impl std::fmt::Display for Panicked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "panicked at {}: {}", self.loc, self.msg)
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Panicked { loc, msg })
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

pub const OPS: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem];
pub const DEFAULT_INCR: usize = 4;

impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Rem => "%",
        }
    }
    pub fn apply_to(self, l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal, incr: usize) -> fxd::Result<()> {
        match self {
            Op::Add => FixedDecimal::add_to(l, r, res),
            Op::Sub => FixedDecimal::sub_to(l, r, res),
            Op::Mul => FixedDecimal::mul_to(l, r, res),
            Op::Div => FixedDecimal::div_to(l, r, res, incr),
            Op::Rem => FixedDecimal::rem_to(l, r, res),
        }
    }
    pub fn operator(self, l: FixedDecimal, r: FixedDecimal) -> FixedDecimal {
        match self {
            Op::Add => l + r,
            Op::Sub => l - r,
            Op::Mul => l * r,
            Op::Div => l / r,
            Op::Rem => l % r,
        }
    }
    pub fn spec(self, l: &Num, r: &Num, incr: usize) -> Allowed {
        match self {
            Op::Add => crate::spec::add(l, r),
            Op::Sub => crate::spec::sub(l, r),
            Op::Mul => crate::spec::mul(l, r),
            Op::Div => crate::spec::div(l, r, incr),
            Op::Rem => crate::spec::rem(l, r),
        }
    }
    pub fn compute(self, l: &FixedDecimal, r: &FixedDecimal, incr: usize) -> fxd::Result<FixedDecimal> {
        let mut res = FixedDecimal::zero();
        self.apply_to(l, r, &mut res, incr)?;
        Ok(res)
    }
}

pub fn err_kind(e: &Error) -> &'static str {
    match e {
        Error::ConversionSyntax => "ConversionSyntax",
        Error::DivisionByZero => "DivisionByZero",
        Error::Overflow => "Overflow",
        Error::ExceedsConversionTargetRange => "ExceedsConversionTargetRange",
    }
}

pub fn fail_of(e: &Error) -> Option<Fail> {
    match e {
        Error::DivisionByZero => Some(Fail::DivZero),
        Error::Overflow => Some(Fail::Overflow),
        _ => None,
    }
}

/// The value a decimal shows to its user: the text with all fractional digits.
pub fn observe(fd: &FixedDecimal) -> Result<Num, String> {
    let t = fd.to_string(-1);
    let n = Num::parse_canonical(&t).ok_or_else(|| format!("text form {:?} is not a canonical numeral", t))?;
    if !crate::spec::fits(&n) {
        return Err(format!("value {} has more than nine groups of digits", t));
    }
    Ok(n)
}

/// Text must be exactly the numeral of `want` (value, scale and sign) and the reported sign, zero-ness
/// and scale must agree with it.
pub fn expect_is(what: &str, fd: &FixedDecimal, want: &Num) -> Result<(), String> {
    let t = fd.to_string(-1);
    let w = want.text();
    if t != w {
        return Err(format!("{}: got {} want {}", what, t, w));
    }
    Ok(())
}

/// As `expect_is`, but a zero may have any scale in `zero_scales`.
pub fn check_outcome(what: &str, got: &Result<fxd::Result<FixedDecimal>, Panicked>, allowed: &Allowed, zero_any_scale: bool) -> Result<(), String> {
    match got {
        Err(p) => Err(format!("{}: {}", what, p)),
        Ok(Err(e)) => match (fail_of(e), allowed.err) {
            (Some(a), Some(b)) if a == b => Ok(()),
            _ => Err(format!(
                "{}: failed with {}, expected {}",
                what,
                err_kind(e),
                describe(allowed)
            )),
        },
        Ok(Ok(v)) => match &allowed.ok {
            None => Err(format!("{}: got {}, expected {}", what, v.to_string(-1), describe(allowed))),
            Some(n) => {
                if zero_any_scale && n.is_zero() {
                    let o = observe(v)?;
                    if o.is_zero() && (o.scale == 0 || o.scale == n.scale) && !v.is_neg() {
                        return Ok(());
                    }
                }
                expect_is(what, v, n)
            }
        },
    }
}

pub fn describe(a: &Allowed) -> String {
    match (&a.ok, a.err) {
        (Some(n), None) => n.text(),
        (None, Some(e)) => format!("error {:?}", e),
        (Some(n), Some(e)) => format!("{} or error {:?}", n.text(), e),
        (None, None) => "nothing".into(),
    }
}
