//! Minimises a failing history.
use crate::op::*;
use serde_json::Value;
use std::time::Instant;

pub struct Budget {
    pub tries: u32,
    pub until: Instant,
    pub used: u32,
}
impl Budget {
    pub fn spent(&self) -> bool {
        self.used >= self.tries || Instant::now() >= self.until
    }
}

/// Minimises `sc`, for which `fails` must hold. `fails` is called with every candidate, and
/// `better` with every one that still fails.
pub fn shrink(sc: Scenario, b: &mut Budget, fails: &mut dyn FnMut(&Scenario) -> bool, better: &mut dyn FnMut(&Scenario)) -> Scenario {
    let mut best = sc;
    let mut attempt = |c: Scenario, best: &mut Scenario, b: &mut Budget| -> bool {
        if b.spent() || c == *best {
            return false;
        }
        b.used += 1;
        if fails(&c) {
            better(&c);
            *best = c;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Fewer steps
        let mut chunk = best.steps.len().max(1);
        while chunk >= 1 {
            let mut i = 0;
            while i < best.steps.len() {
                let mut c = best.clone();
                let end = (i + chunk).min(c.steps.len());
                c.steps.drain(i..end);
                if !attempt(c, &mut best, b) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Fewer faults
        for i in 0..best.steps.len() {
            if best.steps[i].panic.is_some() {
                let mut c = best.clone();
                c.steps[i].panic = None;
                attempt(c, &mut best, b);
            }
        }
        // A plainer setting
        while best.hash.len() > 2 {
            let mut done = true;
            for i in 0..best.hash.len() {
                let mut c = best.clone();
                c.hash.remove(i);
                if attempt(c, &mut best, b) {
                    done = false;
                    break;
                }
            }
            if done {
                break;
            }
        }
        for i in 0..best.hash.len() {
            for plan in [
                HashPlan { mode: 0, param: 0, seed: 0 },
                HashPlan { mode: 1, param: 0, seed: 0 },
                HashPlan { mode: best.hash[i].mode, param: 1, seed: 0 },
                HashPlan { seed: 0, ..best.hash[i] },
            ] {
                let mut c = best.clone();
                c.hash[i] = plan;
                if c.hash[i].mode != 0 && (best.hash[i].mode == 0 || best.universe > 1000) {
                    continue;
                }
                attempt(c, &mut best, b);
            }
        }
        if best.cap != 0 {
            attempt(Scenario { cap: 0, ..best.clone() }, &mut best, b);
        }
        if best.salt {
            attempt(Scenario { salt: false, ..best.clone() }, &mut best, b);
        }
        while best.slots > 1 {
            if !attempt(Scenario { slots: best.slots - 1, ..best.clone() }, &mut best, b) {
                break;
            }
        }
        for u in [2, 3, 4, 6, 8, 12, 16, best.universe.saturating_sub(1)] {
            if u < best.universe && u >= 2 {
                attempt(Scenario { universe: u, ..best.clone() }, &mut best, b);
            }
        }
        // Plainer arguments
        for i in 0..best.steps.len() {
            let mut leaf = 0;
            loop {
                let mut tried = false;
                let mut k = 0;
                while let Some(v) = simpler(&best.steps[i], leaf, k) {
                    tried = true;
                    k += 1;
                    if k > 40 {
                        break;
                    }
                    let Ok(st) = serde_json::from_value::<Step>(v) else { continue };
                    let mut c = best.clone();
                    c.steps[i] = st;
                    if attempt(c, &mut best, b) {
                        k = 0;
                    }
                    if b.spent() {
                        break;
                    }
                }
                if !tried && leaf > 400 || b.spent() {
                    break;
                }
                if !tried && count(&serde_json::to_value(&best.steps[i]).unwrap()) <= leaf {
                    break;
                }
                leaf += 1;
            }
        }
        if best == before || b.spent() {
            return best;
        }
    }
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}

/// The `k`-th simplification of the `leaf`-th value within a step
fn simpler(st: &Step, leaf: usize, k: usize) -> Option<Value> {
    let mut v = serde_json::to_value(st).ok()?;
    let mut n = leaf;
    let x = nth(&mut v, &mut n)?;
    let old = x.clone();
    let options: Vec<Value> = match &old {
        Value::Number(m) => {
            let m = m.as_u64()?;
            let mut o = vec![0, 1, 2, m / 2, m.saturating_sub(1)];
            o.retain(|y| *y < m);
            o.dedup();
            o.into_iter().map(Value::from).collect()
        }
        Value::Bool(true) => vec![Value::Bool(false)],
        Value::Array(a) if !a.is_empty() => {
            let mut o = vec![];
            if a.len() > 3 {
                o.push(Value::Array(a[..a.len() / 2].to_vec()));
                o.push(Value::Array(a[a.len() / 2..].to_vec()));
            }
            for i in 0..a.len() {
                let mut c = a.clone();
                c.remove(i);
                o.push(Value::Array(c));
            }
            o
        }
        _ => vec![],
    };
    let y = options.get(k)?.clone();
    *x = y;
    Some(v)
}

fn nth<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => {
            for x in a {
                let c = count(x);
                if *n < c {
                    return nth(x, n);
                }
                *n -= c;
            }
            None
        }
        Value::Object(o) => {
            for x in o.values_mut() {
                let c = count(x);
                if *n < c {
                    return nth(x, n);
                }
                *n -= c;
            }
            None
        }
        _ => None,
    }
}
