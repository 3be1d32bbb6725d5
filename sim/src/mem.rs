//! How much memory maps occupy, depending on how much they hold and have held.
use crate::ctx::{lib, set_win, sim, with, take_panic_msg, win, Injected};
use crate::issue::*;
use crate::map::{bulk_items, S};
use crate::model::*;
use crate::op::*;
use crate::rng::{mix, Rng};
use crate::types::{advance, choose_among, focus, It, Stuff, Typed};
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// The comparison or clone that panics (0: none)
    static ARM: Cell<u32> = const { Cell::new(0) };
}
fn tick() {
    let n = ARM.with(|a| a.get());
    if n > 0 {
        ARM.with(|a| a.set(n - 1));
        if n == 1 {
            std::panic::panic_any(Injected);
        }
    }
}

pub struct Plain(u32);
impl Clone for Plain {
    fn clone(&self) -> Self {
        tick();
        Plain(self.0)
    }
}
impl Stuff for Plain {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        Plain(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn on_eq() {
        tick()
    }
}

/// Bytes that each item may take up (the tables need up to 100, depending on how full they are), and on top of that
const PER_ITEM: i64 = 300;
const FIXED: i64 = 4000;

fn measure<M: Typed<Plain, Plain>>(seed: u64, n: u32, len: u32) -> Result<f64, String> {
    let mut rng = Rng::new(seed);
    let kind = M::KIND;
    let base = win().live;
    let nr = if kind == Kind::Group { rng.pick(&[1, 2, n / 8 + 1, n]) } else { n };
    let faults = rng.chance(1, 3);
    let h = S::with_cfg(ahash::HashCfg { mode: if n <= 40 { rng.pick(&[0, 0, 1, 2, 3]) } else { 0 }, param: 3, seed: rng.next() });
    let cap = rng.pick(&[0, 0, 0, 10, 100]);
    let mut map = lib(|| M::make(cap, h));
    let mut m = Model::new(kind);
    // The most items there have been on both sides, and how large the group of each right item was at most
    let mut top = 2 * cap as i64;
    let mut groups = vec![0i64; if kind == Kind::Group { 2 * nr as usize + 2 } else { 0 }];
    let mut worst = 0f64;
    let sorts = focus(&mut rng);
    let bulky = rng.chance(1, if sorts.is_empty() { 3 } else { 2 });
    let clones = rng.pick(&[40, 40, 40, 3]);
    for k in 0..len {
        let mut op = choose_among(&sorts, kind, &m, n, nr, &mut rng);
        let whole = matches!(op, Op::Clear | Op::Drain { .. } | Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } | Op::DrainFilter { .. } | Op::Extend { .. } | Op::ShrinkTo { .. } | Op::ShrinkFit | Op::Reserve { .. });
        if whole && !bulky && !rng.chance(1, 20) {
            continue;
        }
        if let Op::Drain { take, .. } | Op::DrainFilter { take, .. } = &mut op {
            *take = rng.below(n as u64) as u32;
        }
        if !Model::supports(kind, &op) || m.known_bad(&op) {
            continue;
        }
        if kind == Kind::Group && matches!(op, Op::Extend { .. }) {
            continue;
        }
        let before = m.nl.max(m.nr) as i64;
        match &op {
            Op::Reserve { n, .. } => top = top.max(2 * (before + *n as i64)),
            Op::Extend { items, typed, .. } => top = top.max(2 * before + 2 * bulk_items(kind, items, *typed).len() as i64),
            Op::SwapRight { old, new, .. } if kind == Kind::Group => {
                groups[*new as usize] = groups[*new as usize].max(groups[*old as usize]);
            }
            _ => {}
        }
        if faults && rng.chance(1, 8) {
            ARM.with(|a| a.set(rng.range(1, 9) as u32));
        }
        let mut w = win();
        w.peak = w.live;
        let start = w.live;
        set_win(w);
        let res = lib(|| catch_unwind(AssertUnwindSafe(|| drop(map.apply(&op)))).is_ok());
        ARM.with(|a| a.set(0));
        if res {
            advance(&mut m, &op);
        } else {
            take_panic_msg();
            if !faults {
                // Some other property
                lib(|| drop(map));
                return Ok(worst);
            }
            // What happened only the map knows
            let all = map.all();
            m = Model::new(kind);
            for (l, r) in all {
                let op = match (l, r) {
                    (Some(l), Some(r)) => Op::Insert { l, r },
                    (Some(l), None) => Op::InsertLeft { l, r: 0 },
                    (None, Some(r)) => Op::InsertRight { r },
                    (None, None) => continue,
                };
                m.apply(&op, 0, 0);
            }
        }
        let now = (m.nl + m.nr) as i64;
        top = top.max(now + 2);
        if matches!(op, Op::ShrinkFit) && res {
            top = now;
        }
        let mut in_groups = 0;
        for (r, most) in groups.iter_mut().enumerate().take(nr as usize) {
            *most = (*most).max(m.group(r as u32).len() as i64);
            in_groups += *most;
        }
        let limit = FIXED + PER_ITEM * (top + in_groups);
        let w = win();
        let live = w.live - base;
        worst = worst.max(((live - 500).max(w.peak - start - 500)) as f64 / (top + in_groups).max(1) as f64);
        if live > limit {
            return Err(format!("{} bytes are occupied after {} operations, the last one {}, though there were never more than {top} items (and {in_groups} in groups)", live, k + 1, op.name()));
        }
        if w.peak - start > limit {
            return Err(format!("{} needed {} bytes, though there were never more than {top} items (and {in_groups} in groups)", op.name(), w.peak - start));
        }
        if rng.chance(1, clones) {
            // Reading takes no memory, and a clone gives back its own
            let live = win().live;
            lib(|| {
                let _ = map.all();
                for _ in 0..4 {
                    map.look(rng.below(n as u64) as u32, rng.below(nr as u64) as u32);
                }
            });
            if win().live != live {
                return Err(format!("{} bytes are left over from reading", win().live - live));
            }
            // (the tables of hashbrown lose the items they have cloned when cloning another one panics)
            if faults && kind != Kind::Group && rng.chance(1, 2) {
                ARM.with(|a| a.set(rng.range(1, 2 + now as u64) as u32));
            }
            let keep = if clones == 3 { rng.chance(9, 10) } else { rng.chance(1, 3) };
            let c = lib(|| catch_unwind(AssertUnwindSafe(|| map.clone())));
            ARM.with(|a| a.set(0));
            take_panic_msg();
            if let Ok(c) = c {
                if keep {
                    lib(|| map = c);
                } else {
                    lib(|| {
                        map.same(&c);
                        drop(c)
                    });
                    if win().live != live {
                        return Err(format!("{} bytes are left over from a clone", win().live - live));
                    }
                }
            } else if win().live != live {
                return Err(format!("{} bytes are left over from a clone that failed", win().live - live));
            }
        }
    }
    lib(|| drop(map));
    let left = win().live - base;
    if left != 0 {
        return Err(format!("{left} bytes are left when the map is gone"));
    }
    Ok(worst)
}

pub fn run(kind: Kind, seed: u64, n: u32, len: u32) -> Option<Issue> {
    let n = n.clamp(1, 2000);
    type A = It<Plain, 0>;
    type B = It<Plain, 1>;
    let res = match kind {
        Kind::Cycle => measure::<CycleMap<A, B, S>>(seed, n, len),
        Kind::Partial => measure::<PartialCycleMap<A, B, S>>(seed, n, len),
        Kind::Group => measure::<GroupMap<A, B, S>>(seed, n, len),
    };
    ARM.with(|a| a.set(0));
    sim(|| match res {
        Ok(x) => {
            with(|c| c.digest = mix(c.digest ^ x.to_bits()));
            if std::env::var_os("SIM_COST").is_some() {
                eprintln!("MEM {kind:?} {n} {x:.0}");
            }
            None
        }
        Err(what) => Some(issue(Class::Other, t(23), what)),
    })
}
