//! Does a scenario violate a property?
use crate::issue::*;
use crate::op::*;
use crate::run::{self, Control, Stats};

#[derive(Clone, Debug)]
pub struct Violation {
    pub step: usize,
    pub what: String,
}
pub struct Judged {
    pub violation: Option<Violation>,
    /// Something is wrong that this property doesn't speak about
    pub foreign: Option<String>,
    pub stats: Stats,
}

pub fn number(p: &str) -> u32 {
    p.trim_start_matches('C').parse().unwrap_or(0)
}

pub fn judge(sc: &Scenario) -> Judged {
    let p = number(&sc.property);
    if p == 18 {
        return differential(sc);
    }
    let o = run::run(sc, &Control::default());
    let mut stats = o.stats;
    if o.issues.is_empty() {
        return Judged { violation: None, foreign: None, stats };
    }
    if let Some(i) = o.issues.iter().find(|i| i.tags & t(p) != 0) {
        return Judged { violation: Some(Violation { step: o.step, what: i.what.clone() }), foreign: None, stats };
    }
    // Is it a late consequence of an operation that the property is about?
    let mine: Vec<bool> = o.classes.iter().take(o.step).map(|c| c & t(p) != 0).collect();
    // (Rebuilding a map changes its capacity. So, this says nothing about what only concerns that)
    let capacity = o.issues[0].tags & !(t(12) | t(13)) == 0;
    if !capacity && mine.iter().any(|x| *x) && [5, 7, 8, 9, 10, 12, 13, 15, 16, 17, 19].contains(&p) {
        let before = run::run(sc, &Control { before: mine.clone(), ..Control::default() });
        let after = run::run(sc, &Control { after: mine.clone(), ..Control::default() });
        stats.steps += before.stats.steps + after.stats.steps;
        if !before.issues.is_empty() && after.issues.is_empty() {
            let last = mine.iter().rposition(|x| *x).unwrap();
            let what = format!(
                "{} (and this doesn't happen if the map is rebuilt from its contents after {} and the like)",
                o.issues[0].what,
                sc.steps[last].op.name()
            );
            return Judged { violation: Some(Violation { step: o.step, what }), foreign: None, stats };
        }
        if p == 15 && after.issues.is_empty() && original_is_fine(sc, &mine, &mut stats) {
            let what = format!("{} (and this doesn't happen to the original of the clone)", o.issues[0].what);
            return Judged { violation: Some(Violation { step: o.step, what }), foreign: None, stats };
        }
    }
    Judged { violation: None, foreign: Some(format!("step {} {:?}: {}", o.step, sc.steps.get(o.step), o.issues[0].what)), stats }
}

/// Is nothing wrong as long as there is no cloning, whichever map of each clone and its original
/// goes on instead of both?
fn original_is_fine(sc: &Scenario, mine: &[bool], stats: &mut Stats) -> bool {
    let clones: Vec<usize> = (0..mine.len()).filter(|i| mine[*i]).collect();
    let k = clones.len();
    // (all combinations if they are few)
    for n in 0..(1u64 << k.min(4)) {
        let split = (0..sc.steps.len())
            .map(|i| {
                let at = clones.iter().position(|c| *c == i)?;
                let bits = if k <= 4 || n == 0 || n == 15 { n.wrapping_mul(0x1111_1111_1111_1111) } else { crate::rng::mix(n) };
                Some(bits >> (at % if k <= 4 { 4 } else { 64 }) & 1 == 1)
            })
            .collect();
        let o = run::run(sc, &Control { split, ..Control::default() });
        stats.steps += o.stats.steps;
        if !o.issues.is_empty() {
            return false;
        }
    }
    true
}

fn differential(sc: &Scenario) -> Judged {
    let mut first: Option<Vec<String>> = None;
    let mut stats = Stats::default();
    for h in &sc.hash {
        let one = Scenario { hash: vec![*h], ..sc.clone() };
        let (v, s) = run::trace(&one);
        stats.steps += s.steps;
        stats.digest = crate::rng::mix(stats.digest ^ s.digest);
        stats.states.extend(s.states);
        stats.checks += v.len() as u64;
        for (a, b) in stats.calls.iter_mut().zip(s.calls) {
            *a += b;
        }
        for (k, n) in s.ops {
            *stats.ops.entry(k).or_default() += n;
        }
        stats.fault(&format!("hash function: {}", HASH_NAMES[h.mode as usize % 8]), 1);
        match &first {
            None => first = Some(v),
            Some(f) => {
                for (i, (a, b)) in f.iter().zip(&v).enumerate() {
                    if a != b {
                        let (la, lb) = differing(a, b);
                        let what = format!("with the hash function {:?}: {la}; with {:?}: {lb}", sc.hash[0], h);
                        return Judged { violation: Some(Violation { step: i, what }), foreign: None, stats };
                    }
                }
            }
        }
    }
    Judged { violation: None, foreign: None, stats }
}

pub const HASH_NAMES: [&str; 8] =
    ["spread", "every item collides", "few values", "same position, different tag", "same tag, different position", "identity", "few low values", "special values"];

fn differing(a: &str, b: &str) -> (String, String) {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return (x.chars().take(300).collect(), y.chars().take(300).collect());
        }
    }
    (a.chars().take(300).collect(), b.chars().take(300).collect())
}
