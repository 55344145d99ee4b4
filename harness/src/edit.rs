//! Cases as JSON trees: what the generator produces at each place, and reducing a failing case.
use crate::engine::{exec, Cx, Outcome, Prop, Slot};
use serde_json::{Map, Number, Value};
use std::collections::HashMap;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Key(String),
    Idx(usize),
}

/// What the generator produces at each place of a case.
#[derive(Default)]
pub struct Shape {
    pub pool: HashMap<String, Vec<Value>>,
    pub range: HashMap<String, (i128, i128)>,
    pub lens: HashMap<String, (usize, usize)>,
    pub count: HashMap<String, usize>,
}

pub fn int_of(n: &Number) -> Option<i128> {
    n.as_i64().map(|v| v as i128).or_else(|| n.as_u64().map(|v| v as i128))
}

pub fn place(parent: &str, step: &Step, shape: &Shape) -> String {
    let tail = match parent.rfind('>') {
        Some(p) => &parent[p + 1..],
        None => parent,
    };
    match step {
        Step::Key(k) => format!("{}>{}", tail, k),
        Step::Idx(i) => match shape.lens.get(parent) {
            Some((lo, hi)) if lo == hi => format!("{}>{}", tail, i),
            _ => format!("{}>*", tail),
        },
    }
}

impl Shape {
    pub fn of<'a>(samples: impl Iterator<Item = &'a Value> + Clone) -> Shape {
        let mut shape = Shape::default();
        for s in samples.clone() {
            shape.lengths(s, "");
        }
        for s in samples {
            shape.learn(s, "");
        }
        shape
    }
    pub fn lengths(&mut self, v: &Value, at: &str) {
        match v {
            Value::Array(a) => {
                let e = self.lens.entry(at.to_string()).or_insert((a.len(), a.len()));
                *e = (e.0.min(a.len()), e.1.max(a.len()));
                let p: Vec<String> = (0..a.len()).map(|i| place(at, &Step::Idx(i), self)).collect();
                for (x, p) in a.iter().zip(p) {
                    self.lengths(x, &p);
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    let p = place(at, &Step::Key(k.clone()), self);
                    self.lengths(x, &p);
                }
            }
            _ => {}
        }
    }
    pub fn learn(&mut self, v: &Value, at: &str) {
        let n = self.count.entry(at.to_string()).or_insert(0);
        *n += 1;
        let n = *n;
        let p = self.pool.entry(at.to_string()).or_default();
        if p.len() < 300 {
            p.push(v.clone());
        } else {
            // keep a spread over everything seen
            let i = n.wrapping_mul(2654435761) % n;
            if i < 300 {
                p[i] = v.clone();
            }
        }
        match v {
            Value::Number(x) => {
                if let Some(i) = int_of(x) {
                    let e = self.range.entry(at.to_string()).or_insert((i, i));
                    *e = (e.0.min(i), e.1.max(i));
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    let p = place(at, &Step::Idx(i), self);
                    self.learn(x, &p);
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    let p = place(at, &Step::Key(k.clone()), self);
                    self.learn(x, &p);
                }
            }
            _ => {}
        }
    }
}

pub fn nodes(v: &Value, at: &str, path: &mut Vec<Step>, shape: &Shape, out: &mut Vec<(Vec<Step>, String)>) {
    out.push((path.clone(), at.to_string()));
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let s = Step::Idx(i);
                let p = place(at, &s, shape);
                path.push(s);
                nodes(x, &p, path, shape, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                let s = Step::Key(k.clone());
                let p = place(at, &s, shape);
                path.push(s);
                nodes(x, &p, path, shape, out);
                path.pop();
            }
        }
        _ => {}
    }
}

pub fn at_mut<'a>(v: &'a mut Value, path: &[Step]) -> &'a mut Value {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get_mut(k.as_str()).expect("path"),
            Step::Idx(i) => v.get_mut(*i).expect("path"),
        };
    }
    v
}

// ---------------------------------------------------------------- shrinking

pub fn size(v: &Value) -> usize {
    serde_json::to_string(v).map(|s| s.len()).unwrap_or(usize::MAX)
}

pub fn simpler(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Number(n) => {
            if let Some(i) = int_of(n) {
                for w in [0, 1, i / 2, i - i.signum()] {
                    if w.abs() < i.abs() {
                        if let Ok(x) = i64::try_from(w) {
                            out.push(Value::from(x));
                        }
                    }
                }
            }
        }
        Value::String(s) => {
            let b: Vec<char> = s.chars().collect();
            let mut n = b.len() / 2;
            while n > 0 {
                let mut i = 0;
                while i + n <= b.len() {
                    out.push(Value::String(b[..i].iter().chain(&b[i + n..]).collect()));
                    i += n;
                }
                n /= 2;
            }
            for i in 0..b.len() {
                if matches!(b[i], '2'..='9') {
                    for z in ['0', '1'] {
                        let mut c = b.clone();
                        c[i] = z;
                        out.push(Value::String(c.into_iter().collect()));
                    }
                } else if b[i] == '1' {
                    let mut c = b.clone();
                    c[i] = '0';
                    out.push(Value::String(c.into_iter().collect()));
                }
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut c = a.clone();
                c.remove(i);
                out.push(Value::Array(c));
            }
            out.extend(a.iter().cloned());
        }
        Value::Object(o) => {
            for x in o.values() {
                out.push(x.clone());
                if let Value::Array(a) = x {
                    out.extend(a.iter().cloned());
                }
            }
            out.push(Value::Object(Map::from_iter([("Lit".to_string(), Value::from("1"))])));
            out.push(Value::Object(Map::from_iter([("Lit".to_string(), Value::from("0"))])));
        }
        _ => {}
    }
    out
}

pub fn shrink<P: Prop>(slot: &Slot<P::Case>, mut best: Value, mut msg: String, shape: &Shape) -> (Value, String) {
    let start = Instant::now();
    loop {
        let mut all = Vec::new();
        nodes(&best, "", &mut Vec::new(), shape, &mut all);
        let mut better = None;
        'search: for (path, at) in &all {
            let mut tmp = best.clone();
            let here = at_mut(&mut tmp, path).clone();
            for s in simpler(&here) {
                if start.elapsed() > Duration::from_secs(30) {
                    return (best, msg);
                }
                // stay inside what the generator produces
                let inside = match &s {
                    Value::Number(n) => int_of(n).is_some_and(|i| shape.range.get(at).is_some_and(|(lo, hi)| *lo <= i && i <= *hi)),
                    Value::Array(a) => shape.lens.get(at).is_some_and(|(lo, hi)| *lo <= a.len() && a.len() <= *hi),
                    _ => true,
                };
                if !inside {
                    continue;
                }
                let mut c = best.clone();
                *at_mut(&mut c, path) = s;
                if size(&c) > size(&best) || c == best {
                    continue;
                }
                let Ok(case) = serde_json::from_value::<P::Case>(c.clone()) else { continue };
                if let Outcome::Fail(m) = exec::<P>(slot, &case, &mut Cx::default()) {
                    better = Some((c, m));
                    break 'search;
                }
            }
        }
        match better {
            Some((c, m)) => {
                best = c;
                msg = m;
            }
            None => return (best, msg),
        }
    }
}

/// reduces a failing case, staying inside what the generator produces
pub fn reduce<P: Prop>(slot: &Slot<P::Case>, case: P::Case, msg: String, samples: impl Fn() -> Vec<Value>) -> (P::Case, String) {
    let v = serde_json::to_value(&case).expect("case serialises");
    let shape = Shape::of(samples().iter().chain(std::iter::once(&v)));
    let (v, msg) = shrink::<P>(slot, v, msg, &shape);
    (serde_json::from_value(v).unwrap_or(case), msg)
}
