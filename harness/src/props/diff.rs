//! C21: the same case in two builds of the library (this process and a child built with the other profile).
use crate::engine::{profile_name, Cx, Prop, Tier};
use crate::gen::*;
use crate::real::*;
use fxd::FixedDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Parse { bytes: Vec<u8>, prev: Option<Src>, reset: bool },
    Arith { a: Src, b: Src, op: Op, incr: usize },
    Round { v: Src, k: i64 },
    Show { v: Src, k: i64 },
    Ints { v: Src },
    FromInt { i: i64, u: u64 },
    Cmp { a: Src, b: Src },
    Program(super::machine::Program),
}

fn shows(f: &FixedDecimal) -> String {
    match guard(|| super::order::shape(f)) {
        Ok(s) => format!("{} i{} f{} n{} z{} h{:02x?} {:?}", s.0, s.1, s.2, s.3 as u8, s.4 as u8, s.5, s.6),
        Err(p) => format!("unprintable {}", p.msg),
    }
}

fn res<T>(r: Result<T, Panicked>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        // position and message: two different internal failures are different outcomes
        Err(p) => format!("PANIC {} {}", p.loc, p.msg),
    }
}

/// Steps of building an operand, so that a divergence inside construction shows as well.
fn operand(s: &Src, out: &mut Vec<String>) -> Option<FixedDecimal> {
    match guard(|| s.build_res()) {
        Ok(Ok(f)) => {
            out.push(shows(&f));
            Some(f)
        }
        Ok(Err(e)) => {
            out.push(e.to_string());
            None
        }
        Err(p) => {
            out.push(format!("PANIC {} {}", p.loc, p.msg));
            None
        }
    }
}

pub fn transcript(a: &Act) -> Vec<String> {
    let mut out = Vec::new();
    match a {
        Act::Parse { bytes, prev, reset } => {
            let mut d = match prev {
                None => FixedDecimal::zero(),
                Some(s) => fd_or_zero(s),
            };
            // without reset only a fresh zero is a specified destination, unless the parse fails
            let t = res(guard(|| d.from_bytes_str(bytes, *reset || prev.is_some())), |r| match r {
                Ok(()) => "ok".into(),
                Err(e) => err_kind(&e).into(),
            });
            out.push(t);
            out.push(shows(&d));
        }
        Act::Arith { a, b, op, incr } => {
            let (Some(x), Some(y)) = (operand(a, &mut out), operand(b, &mut out)) else {
                return out;
            };
            let r = guard(|| op.compute(&x, &y, *incr));
            out.push(res(r, |r| match r {
                Ok(v) => shows(&v),
                Err(e) => err_kind(&e).into(),
            }));
            let r = guard(|| op.operator(x.clone(), y.clone()));
            out.push(match r {
                Ok(v) => shows(&v),
                Err(p) => format!("operator panic {}", p.msg),
            });
        }
        Act::Round { v, k } => {
            let Some(x) = operand(v, &mut out) else { return out };
            let mut y = x.clone();
            let r = guard(|| y.round(*k as isize));
            out.push(res(r, |_| shows(&y)));
            let mut z = FixedDecimal::zero();
            let r = guard(|| x.round_to(&mut z, *k as isize));
            out.push(res(r, |_| shows(&z)));
        }
        Act::Show { v, k } => {
            let Some(x) = operand(v, &mut out) else { return out };
            out.push(res(guard(|| x.to_string(*k as isize)), |t| t));
        }
        Act::Ints { v } => {
            let Some(x) = operand(v, &mut out) else { return out };
            out.push(res(guard(|| x.as_i64()), |r| format!("{:?}", r.map_err(|e| err_kind(&e)))));
            out.push(res(guard(|| x.as_u64()), |r| format!("{:?}", r.map_err(|e| err_kind(&e)))));
        }
        Act::FromInt { i, u } => {
            out.push(res(guard(|| FixedDecimal::from(*i)), |f| shows(&f)));
            out.push(res(guard(|| FixedDecimal::from(*u)), |f| shows(&f)));
        }
        Act::Cmp { a, b } => {
            let (Some(x), Some(y)) = (operand(a, &mut out), operand(b, &mut out)) else {
                return out;
            };
            out.push(res(guard(|| (x.cmp(&y), x == y, x < y)), |r| format!("{:?}", r)));
        }
        Act::Program(p) => run_program(p, &mut out),
    }
    out
}

fn run_program(p: &super::machine::Program, out: &mut Vec<String>) {
    use super::machine::{Step, REGS};
    let mut regs: Vec<FixedDecimal> = (0..REGS).map(|_| FixedDecimal::zero()).collect();
    for s in &p.steps {
        let mut r2 = regs.clone();
        let r = guard(|| match s {
            Step::Parse(r, t) => r2[*r].from_ascii_str(t, true).map_err(|e| err_kind(&e)),
            Step::FromI(r, v) => {
                r2[*r] = FixedDecimal::from(*v);
                Ok(())
            }
            Step::FromU(r, v) => {
                r2[*r] = FixedDecimal::from(*v);
                Ok(())
            }
            Step::Bin(d, op, l, r, i) => op.compute(&regs[*l], &regs[*r], *i).map(|v| r2[*d] = v).map_err(|e| err_kind(&e)),
            Step::Oper(d, op, l, r) => op.compute(&regs[*l], &regs[*r], 4).map(|v| r2[*d] = v).map_err(|e| err_kind(&e)),
            Step::Round(r, k) => {
                r2[*r].round(*k as isize);
                Ok(())
            }
            Step::RoundTo(d, r, k) => {
                regs[*r].round_to(&mut r2[*d], *k as isize);
                Ok(())
            }
            Step::Flip(r) => {
                if r2[*r].is_neg() {
                    r2[*r].set_pos()
                } else {
                    r2[*r].set_neg()
                }
                Ok(())
            }
            Step::SetPos(r) => {
                r2[*r].set_pos();
                Ok(())
            }
            Step::SetNeg(r) => {
                r2[*r].set_neg();
                Ok(())
            }
            Step::Zero(r) => {
                r2[*r].set_zero();
                Ok(())
            }
            Step::One(r) => {
                r2[*r].set_one();
                Ok(())
            }
            Step::Copy(d, r) => {
                r2[*d] = regs[*r].clone();
                Ok(())
            }
            Step::ToInt(_) | Step::Reparse(_) => Ok(()),
        });
        match r {
            Ok(Ok(())) => {
                regs = r2;
                out.push(regs.iter().map(shows).collect::<Vec<_>>().join(" | "));
            }
            Ok(Err(e)) => out.push(e.to_string()),
            Err(p) => out.push(format!("PANIC {} {}", p.loc, p.msg)),
        }
    }
}

/// `fxdcheck serve`: one JSON case per line in, one JSON transcript per line out.
pub fn serve<A: serde::de::DeserializeOwned>(run: impl Fn(&A) -> Vec<String>) -> i32 {
    install_hook();
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return 0 };
        let t = match serde_json::from_str::<A>(&line) {
            Ok(a) => run(&a),
            Err(e) => vec![format!("harness: {}", e)],
        };
        if writeln!(out, "{}", serde_json::to_string(&t).unwrap()).and_then(|_| out.flush()).is_err() {
            return 0;
        }
    }
    0
}

/// A child process that answers cases.
pub struct Peer {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

impl Peer {
    pub fn start(path: &std::ffi::OsStr, arg: &str) -> Peer {
        let mut child = Command::new(path).arg(arg).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("peer starts");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Peer { child, stdin, stdout }
    }
    pub fn ask<A: Serialize>(&mut self, a: &A) -> Vec<String> {
        let mut line = serde_json::to_string(a).unwrap();
        line.push('\n');
        self.stdin.write_all(line.as_bytes()).and_then(|_| self.stdin.flush()).expect("peer accepts a case");
        let mut back = String::new();
        let n = self.stdout.read_line(&mut back).expect("peer answers");
        assert!(n > 0, "peer ended");
        serde_json::from_str(&back).expect("peer transcript")
    }
}

fn ask(a: &Act) -> Vec<String> {
    PEER.with(|p| {
        p.borrow_mut()
            .get_or_insert_with(|| Peer::start(&std::env::var_os("FXDCHECK_PEER").expect("FXDCHECK_PEER names the other build"), "serve"))
            .ask(a)
    })
}

pub struct C21;
impl Prop for C21 {
    type Case = Act;
    const ID: &'static str = "C21";
    const RULE: &'static str = "random public operations (parsing of valid and malformed text, five operations with any extra-precision argument, rounding, formatting, integer conversion, comparison, operation sequences) executed in an optimised build without checks and in a build with overflow checks and debug assertions; transcripts (text, digit counts, sign, hash data, errors, panics) must be identical; non-trivial: the operation involves a value of five or more groups, a failing or panicking outcome, a rejected literal, or a program";
    fn strategy(t: Tier) -> BoxedStrategy<Act> {
        use super::*;
        prop_oneof![
            3 => text::C02::strategy(t).prop_map(|c| Act::Parse { bytes: c.bytes, prev: c.prev, reset: c.reset }),
            3 => arith::C10::strategy(t).prop_map(|c| Act::Arith { a: c.a, b: c.b, op: c.op, incr: c.incr }),
            3 => arith::C08::strategy(t).prop_map(|c| Act::Arith { a: c.a, b: c.b, op: c.op, incr: c.incr }),
            2 => arith::C09::strategy(t).prop_map(|c| Act::Arith { a: c.a, b: c.b, op: c.op, incr: c.incr }),
            2 => (pair(), ops(), arith::incrs()).prop_map(|(p, op, incr)| Act::Arith { a: p.a, b: p.b, op, incr }),
            3 => round::C11::strategy(t).prop_map(|c| Act::Round { v: c.v, k: c.k }),
            1 => (src(), -3i64..300).prop_map(|(v, k)| Act::Show { v, k }),
            1 => value::C16::strategy(t).prop_map(|v| Act::Ints { v }),
            1 => value::C15::strategy(t).prop_map(|c| Act::FromInt { i: c.i, u: c.u }),
            1 => order::trio().prop_map(|t| Act::Cmp { a: t.a, b: t.b }),
            1 => machine::C19::strategy(t).prop_map(Act::Program),
        ]
        .boxed()
    }
    fn enumerate() -> Vec<Act> {
        use super::*;
        let mut v: Vec<Act> = Vec::new();
        v.extend(text::C02::enumerate().into_iter().filter(|c| c.bytes.len() > 6 || c.bytes.len() < 4).map(|c| Act::Parse { bytes: c.bytes, prev: c.prev, reset: c.reset }));
        v.extend(arith::C10::enumerate().into_iter().map(|c| Act::Arith { a: c.a, b: c.b, op: c.op, incr: c.incr }));
        v.extend(round::C11::enumerate().into_iter().step_by(3).map(|c| Act::Round { v: c.v, k: c.k }));
        v
    }
    fn quick_cases() -> u64 {
        400_000
    }
    fn check(a: &Act, cx: &mut Cx) -> Result<(), String> {
        let here = transcript(a);
        let there = ask(a);
        if here != there {
            let i = here.iter().zip(&there).position(|(x, y)| x != y).unwrap_or(here.len().min(there.len()));
            let g = |v: &[String]| v.get(i).cloned().unwrap_or_else(|| "nothing".into());
            let (h, t) = (profile_name(), if profile_name() == "release" { "checked" } else { "release" });
            return Err(format!("builds disagree: {} gives {}, {} gives {}", h, g(&here), t, g(&there)));
        }
        cx.label(match a {
            Act::Parse { .. } => "parse",
            Act::Arith { .. } => "arith",
            Act::Round { .. } => "round",
            Act::Show { .. } => "format",
            Act::Ints { .. } => "to_int",
            Act::FromInt { .. } => "from_int",
            Act::Cmp { .. } => "compare",
            Act::Program(_) => "program",
        });
        let err = here.iter().any(|s| s.starts_with("PANIC") || s == "ConversionSyntax" || s == "Overflow" || s == "DivisionByZero");
        cx.label_if(err, "failing_outcome");
        let long = here.iter().any(|s| s.split(' ').next().unwrap().bytes().filter(|c| c.is_ascii_digit()).count() > 36);
        cx.nontrivial_if(err || long || matches!(a, Act::Program(_)));
        Ok(())
    }
}
