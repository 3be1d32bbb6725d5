//! How many calls of the items' `Eq` and `Hash` operations make, depending on how many items there are (C22).
//!
//! If built with `--cfg steps` and coverage instrumentation (see build.sh): how many steps they take (C25). A step
//! is a basic block of the library, hashbrown or generic code of std that is executed, or 16 bytes requested.
use crate::ctx::{lib, requested, sim};
use crate::issue::*;
use crate::map::S;
use crate::model::*;
use crate::op::*;
use crate::rng::Rng;
use crate::types::{advance, choose, It, Stuff, Typed};
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    static CALLS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

#[derive(Clone)]
pub struct Metered(u32);
impl Stuff for Metered {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        Metered(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn on_hash() {
        CALLS.with(|c| c.set((c.get().0 + 1, c.get().1)))
    }
    fn on_eq() {
        CALLS.with(|c| c.set((c.get().0, c.get().1 + 1)))
    }
}
/// Steps taken so far
static mut STEPS: u64 = 0;
#[cfg(steps)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    // (only one thread at a time is measured)
    let p = &raw mut STEPS;
    p.write_volatile(p.read_volatile().wrapping_add(1));
}
#[cfg(steps)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
fn steps() -> u64 {
    unsafe { (&raw const STEPS).read_volatile() }
}

fn calls<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    if cfg!(steps) {
        let (a, m) = (steps(), requested());
        let x = f();
        return (x, steps() - a, (requested() - m) / 16);
    }
    let a = CALLS.with(|c| c.get());
    let x = f();
    let b = CALLS.with(|c| c.get());
    (x, b.0 - a.0, b.1 - a.1)
}

/// No single operation needs more calls than this on average, apart from those for the members of a group that
/// it moves or removes
const PER_OP: f64 = if cfg!(steps) { 1500.0 } else { 40.0 };
/// Nor does an operation on all items, per item
const PER_ITEM: f64 = if cfg!(steps) { 1500.0 } else { 24.0 };
const UNIT: &str = if cfg!(steps) { "steps" } else { "calls of Eq and Hash" };

#[derive(Default)]
struct Tally {
    n: u64,
    hash: u64,
    eq: u64,
    /// Items concerned besides one on each side
    extra: u64,
    /// The most that single calls took, as tables may grow or be tidied up
    max: [u64; 3],
}

fn measure<M: Typed<Metered, Metered>>(seed: u64, n: u32, len: u32) -> Result<Vec<(String, f64)>, String> {
    let mut rng = Rng::new(seed);
    let h = S::with_cfg(ahash::HashCfg { mode: 0, param: 0, seed: rng.next() });
    let kind = M::KIND;
    let mut m = Model::new(kind);
    let room = if rng.chance(1, 4) { n * rng.pick(&[1, 1, 8]) } else { 0 };
    let mut map = M::make(room as usize, h);
    let mut seen = vec![];
    let mut note = |what: &str, calls: u64, items: u64, limit: f64| {
        let per = calls as f64 / items.max(1) as f64;
        seen.push((what.to_string(), per));
        if per > limit {
            return Err(format!("{what} with {n} items took {calls} {UNIT} for {items}, but {limit} each would do"));
        }
        Ok(())
    };
    // Building it
    let order = rng.next();
    let per_group = rng.pick(&[1, 2, 5, n / 3]);
    // How many of 8 items are added without a companion
    let lone = if kind == Kind::Cycle { 0 } else { rng.pick(&[0, 0, 3, 7]) };
    let mut c = 0;
    {
        for i in 0..n {
            // An order that isn't that of the ids
            let i = if order % 2 == 0 { i } else { (i as u64 * 7919 % n as u64) as u32 };
            let r = if kind == Kind::Group { i / per_group } else { i };
            let op = match i.wrapping_mul(0x9e37_79b1) >> 29 {
                x if x >= lone => Op::Insert { l: i, r },
                x if kind == Kind::Partial && x % 2 == 0 => Op::InsertLeft { l: i, r },
                _ => Op::InsertRight { r },
            };
            if !m.known_bad(&op) {
                let (_, a, b) = calls(|| lib(|| map.apply(&op)));
                c += a + b;
                advance(&mut m, &op);
            }
        }
    }
    note("inserting", c, n as u64, PER_ITEM)?;
    // Looking things up
    for i in 0..M::LOOKS {
        let (mut c, mut groups_hit) = (0, 0);
        for _ in 0..60 {
            let (l, r) = (rng.below(2 * n as u64) as u32, rng.below(2 * n as u64) as u32);
            let (l, r) = match rng.below(3) {
                0 => (l, m.l_partner(l).unwrap_or(r)),
                _ => (l, r),
            };
            groups_hit += if kind == Kind::Group && i == 1 { m.group(r).len() as u64 } else { 0 };
            let (_, a, b) = calls(|| lib(|| map.look_one(i, l, r)));
            c += a + b;
        }
        note(&format!("lookup {i}"), c, 60 + groups_hit, PER_OP)?;
    }
    let (_, a, b) = calls(|| lib(|| map.len2()));
    note("asking for the length", a + b, 1, PER_OP)?;
    // Changing single items
    let mut tally: BTreeMap<&'static str, Tally> = BTreeMap::new();
    let groups = |m: &Model, ids: &[u32]| -> u64 {
        if m.kind != Kind::Group {
            return 0;
        }
        ids.iter().map(|r| m.group(*r).len() as u64).sum()
    };
    for _ in 0..len {
        let op = choose(kind, &m, n + n / 2, if kind == Kind::Group { n / per_group + 1 } else { n + n / 2 }, &mut rng);
        let single = !matches!(
            op,
            Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } | Op::Drain { .. } | Op::DrainFilter { .. } | Op::Clear | Op::Reserve { .. } | Op::ShrinkTo { .. } | Op::ShrinkFit | Op::Extend { .. }
        );
        if !single || !Model::supports(kind, &op) || m.known_bad(&op) {
            continue;
        }
        let (ls, mut rs) = op.ids();
        rs.extend(ls.iter().filter_map(|l| m.l_partner(*l)));
        // Whole groups are moved or removed
        let whole = matches!(op, Op::InsertRemove { .. } | Op::InsertRight { .. } | Op::Remove { .. } | Op::RemoveRight { .. } | Op::SwapRight { .. });
        if whole && per_group > 5 && !rng.chance(1, 20) {
            // They would soon be gone
            continue;
        }
        let extra = if whole { groups(&m, &rs) } else { 0 };
        advance(&mut m, &op);
        let (_, a, b) = calls(|| lib(|| map.apply(&op)));
        let t = tally.entry(op.name()).or_default();
        t.n += 1;
        t.hash += a;
        t.eq += b;
        t.extra += extra;
        // (a table that grows doesn't compare items)
        let most = if cfg!(steps) { a + b } else { a };
        if most > t.max[0] {
            t.max[0] = most;
            t.max.sort();
        }
    }
    for (name, t) in tally {
        if t.n >= 12 {
            // Each table may have had to rehash everything
            note(name, t.hash + t.eq - t.max.iter().sum::<u64>(), t.n - 3 + t.extra, PER_OP)?;
        }
    }
    // Going back and forth around one size, which might be one at which a table grows or shrinks
    if rng.chance(1, 2) {
        let step = rng.range(1, 4) as u32;
        // Tables hold 7 * 2^k items
        let top = (4 * n as u64 / 7).ilog2() as u64;
        let size = match rng.below(6) {
            0 => n as u64,
            1 => 1 << rng.range(3, top + 2),
            _ => 7 << rng.range(top.saturating_sub(5), top),
        };
        let size = ((size + rng.below(5)).saturating_sub(2) as u32).clamp(8, 4 * n);
        // Left and right items beyond those used so far
        let id = |i: u32| 10 * n + i;
        let put = |i: u32| Op::Insert { l: id(i), r: id(i) };
        let take = |i: u32, how: u64| match (how % 3, kind) {
            (0, Kind::Group) => Op::RemoveLeft { l: id(i) },
            (_, Kind::Group) => Op::RemoveRight { r: id(i) },
            (0, _) => Op::RemoveViaLeft { l: id(i) },
            (1, _) => Op::RemoveViaRight { r: id(i) },
            _ => Op::Remove { l: id(i), r: id(i) },
        };
        let how = rng.next();
        if rng.chance(1, 2) {
            map.apply(&Op::Clear);
        } else {
            map = M::make(0, S::with_cfg(ahash::HashCfg { mode: 0, param: 0, seed: rng.next() }));
        }
        let mut c = (0, 0);
        for i in 0..size {
            let (_, a, b) = calls(|| lib(|| map.apply(&put(i))));
            c = (c.0 + a, c.1 + b);
        }
        note("inserting again", c.0 + c.1, size as u64, PER_ITEM)?;
        let turns = 3 * size.max(40) / step;
        let mut t = Tally::default();
        for k in 0..turns {
            for j in 0..step {
                let i = if how & 64 == 0 { size - 1 - j } else { (k * step + j) % size };
                let (_, a, b) = calls(|| lib(|| map.apply(&take(i, how))));
                t.hash += a;
                t.eq += b;
            }
            for j in 0..step {
                let i = if how & 64 == 0 { size - 1 - j } else { (k * step + j) % size };
                let (_, a, b) = calls(|| lib(|| map.apply(&put(i))));
                t.hash += a;
                t.eq += b;
            }
        }
        note("removing and inserting in turns", t.hash + t.eq, (2 * step * turns) as u64, PER_OP)?;
        return Ok(seen);
    }
    let (nl, nr) = map.len2();
    if (nl, nr) != (m.nl, m.nr) {
        // Some other property
        return Ok(seen);
    }
    // Walking through a table means walking through the room in it
    let all = (nl + nr) as u64 + if cfg!(steps) { 4 * (room.max(n) / 16) as u64 } else { 0 };
    // Operations on all items
    let (c, a, b) = calls(|| lib(|| map.clone()));
    note("cloning", a + b, all + 1, PER_ITEM)?;
    let (_, a, b) = calls(|| lib(|| map.same(&c)));
    note("comparing", a + b, 2 * all + 1, PER_ITEM)?;
    let (_, a, b) = calls(|| lib(|| if cfg!(steps) { map.walk() } else { map.all().len() }));
    note("iterating", a + b, all + 1, PER_ITEM)?;
    let sel = Sel { seed: rng.next(), dens: 4 };
    for op in [Op::RetainUnpaired { sel }, Op::RetainPaired { sel }, Op::Retain { sel }, Op::DrainFilter { sel, take: 3, end: End::Drop }, Op::ShrinkFit, Op::Drain { take: 5, end: End::Drop }] {
        if Model::supports(kind, &op) {
            let (_, a, b) = calls(|| lib(|| map.apply(&op)));
            note(op.name(), a + b, all + 1, PER_ITEM)?;
        }
    }
    Ok(seen)
}

pub fn run(kind: Kind, seed: u64, n: u32, len: u32) -> Option<Issue> {
    let n = n.clamp(16, 100_000);
    // Groups are sets of the library's own, which hash as the process happens to
    ahash::set_default(ahash::HashCfg { mode: 0, param: 0, seed });
    type M = It<Metered, 0>;
    type N = It<Metered, 1>;
    let res = match kind {
        Kind::Cycle => measure::<CycleMap<M, N, S>>(seed, n, len),
        Kind::Partial => measure::<PartialCycleMap<M, N, S>>(seed, n, len),
        Kind::Group => measure::<GroupMap<M, N, S>>(seed, n, len),
    };
    sim(|| match res {
        Ok(v) => {
            if std::env::var_os("SIM_COST").is_some() {
                for (what, per) in v {
                    eprintln!("COST {kind:?} {n} {what} {per:.2}");
                }
            }
            None
        }
        Err(what) => Some(issue(Class::Other, t(if cfg!(steps) { 25 } else { 22 }), what)),
    })
}
