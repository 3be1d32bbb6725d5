//! Executes a scenario against the real maps and decides, step by step, whether what they do is right.
use crate::ctx::*;
use crate::disk;
use crate::issue::*;
use crate::map::*;
use crate::model::*;
use crate::op::*;
use crate::readers;
use crate::rng::{mix, Rng};
use crate::cost;
use crate::options;
use crate::lawless;
use crate::mem as memory;
use crate::types;
use crate::verify::{self, Probes};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    static FATAL: Cell<Option<fn(&str)>> = const { Cell::new(None) };
    static PROGRESS: Cell<Option<fn(usize)>> = const { Cell::new(None) };
}
/// What to do with the last words of a process that is about to abort
pub fn on_fatal(f: fn(&str)) {
    FATAL.with(|x| x.set(Some(f)));
}
pub fn note_fatal(s: &str) {
    eprintln!("fatal: {s}");
    if let Some(f) = FATAL.with(|x| x.get()) {
        f(s)
    }
}
/// Called before every step
pub fn on_step(f: fn(usize)) {
    PROGRESS.with(|x| x.set(Some(f)));
}
fn progress(i: usize) {
    if let Some(f) = PROGRESS.with(|x| x.get()) {
        f(i)
    }
}

pub struct Slot {
    pub map: Map,
    pub model: Model,
    /// What the tables of the map take, if that is known
    pub bytes: Option<i64>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub skipped: u64,
    pub ops: std::collections::BTreeMap<&'static str, u64>,
    pub faults: std::collections::BTreeMap<String, u64>,
    pub calls: [u64; 8],
    pub switches: u64,
    pub refused: u64,
    pub digest: u64,
    pub states: Vec<u64>,
    pub checks: u64,
    pub elements: u64,
    /// Steps of the sort the property is about
    pub relevant: u64,
}
impl Stats {
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_default() += n;
        }
    }
}

/// Rebuild the map before or after these steps, to find out whether they are to blame
#[derive(Clone, Default)]
pub struct Control {
    pub before: Vec<bool>,
    pub after: Vec<bool>,
    /// Instead of cloning at this step, the map itself becomes the clone (true) or remains the
    /// original (false), while the other one is rebuilt from the contents
    pub split: Vec<Option<bool>>,
}
fn at(v: &[bool], i: usize) -> bool {
    v.get(i).copied().unwrap_or(false)
}

pub struct Outcome {
    /// What is wrong, and in which step (`steps.len()`: at the end)
    pub step: usize,
    pub issues: Vec<Issue>,
    /// Steps that were of the class of each property (bit sets)
    pub classes: Vec<Tags>,
    pub stats: Stats,
}

/// The property that says what an operation of this sort has to do
pub fn op_tags(op: &Op) -> Tags {
    match op {
        Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } => t(7),
        Op::Drain { .. } => t(8),
        Op::DrainFilter { .. } => t(9),
        Op::TryReserve { .. } => t(12),
        Op::Reserve { .. } | Op::ShrinkTo { .. } | Op::ShrinkFit | Op::Fill { .. } => t(13),
        Op::Eq { .. } => t(14),
        Op::CloneTo { .. } => t(15),
        Op::SaveLoad { .. } => t(16),
        Op::LoadStream { .. } | Op::LoadBytes { .. } => t(17),
        Op::Extend { .. } | Op::Collect { .. } => t(19),
        Op::Readers { .. } => t(20),
        Op::Cursors { .. } => t(6),
        Op::Cost { .. } => t(22) | t(25),
        Op::Memory { .. } => t(23),
        Op::Lawless { .. } => t(24),
        Op::Options { .. } => t(21),
        _ => 0,
    }
}

struct Exec<'a> {
    sc: &'a Scenario,
    slots: Vec<Option<Slot>>,
    probes: Probes,
    rng: Rng,
    stats: Stats,
    issues: Vec<Issue>,
    alloc_failed: u64,
}

fn serials_now() -> u32 {
    with(|c| c.objs.len() as u32)
}
fn hasher(sc: &Scenario, n: u64) -> S {
    let mut cfg = sc.hash[0].cfg();
    if n > 0 {
        cfg.seed = mix(cfg.seed ^ n);
    }
    S::with_cfg(cfg)
}
fn colliding(m: u8) -> bool {
    m != 0 && m != 5
}

/// Runs a scenario. Must be called with nothing else of the simulator active on this thread.
pub fn run(sc: &Scenario, control: &Control) -> Outcome {
    inside(sc, || run_inner(sc, control))
}

/// Sets the simulation up around `f`
fn inside<T>(sc: &Scenario, f: impl FnOnce() -> T) -> T {
    let mut ctx = Box::<Ctx>::default();
    ctx.salt = sc.salt;
    ctx.digest = mix(sc.seed);
    set_win(Win::default());
    let old = install(&mut *ctx);
    ahash::set_default(sc.hash[0].cfg());
    let io0 = disk::IO.with(|i| i.replace(Default::default()));
    let out = f();
    install(old);
    let _ = io0;
    out
}

fn run_inner(sc: &Scenario, control: &Control) -> Outcome {
    let mut ex = Exec::new(sc);
    let mut classes = vec![];
    let mut step = 0;
    for (i, st) in sc.steps.iter().enumerate() {
        step = i;
        progress(i);
        if at(&control.before, i) {
            ex.rebuild(st.slot);
        }
        match (control.split.get(i).copied().flatten(), &st.op) {
            (Some(moved), Op::CloneTo { dst, .. }) if st.panic.is_none() => {
                ex.split(st.slot, *dst % sc.slots, moved);
                classes.push(t(15));
            }
            _ => classes.push(ex.step(st)),
        }
        if !ex.issues.is_empty() {
            break;
        }
        if at(&control.after, i) {
            ex.rebuild(st.slot);
            if let Op::CloneTo { dst, .. } = st.op {
                ex.rebuild(dst);
            }
        }
    }
    if ex.issues.is_empty() {
        step = sc.steps.len();
        progress(step);
        ex.finish();
    }
    let Exec { mut stats, mut issues, slots, probes, .. } = ex;
    if !issues.is_empty() {
        // The maps may be broken, so they are not used any more
        std::mem::forget(slots);
        std::mem::forget(probes);
    } else {
        drop(slots);
        drop(probes);
    }
    with(|c| {
        stats.calls = c.counts;
        stats.digest = c.digest;
    });
    let io = disk::IO.with(|i| i.get());
    stats.fault("short read or write", io.short);
    stats.fault("interrupted system call", io.eintr);
    stats.fault("write error or full disk", io.werr);
    stats.fault("read error", io.rerr);
    stats.fault("crash with truncated file", io.crash);
    // Once lookups are wrong, iterations are as well
    if issues.iter().any(|i| i.class == Class::Content) {
        issues.retain(|i| i.class != Class::Iter && i.class != Class::Object);
    }
    let p = t(crate::judge::number(&sc.property));
    stats.relevant = classes.iter().filter(|c| **c & p != 0).count() as u64;
    Outcome { step, issues, classes, stats }
}

impl<'a> Exec<'a> {
    fn new(sc: &'a Scenario) -> Exec<'a> {
        let probes = Probes::new(sc.universe);
        let mut ex = Exec {
            sc,
            slots: (0..sc.slots).map(|_| None).collect(),
            probes,
            rng: Rng::new(sc.seed ^ 0x7e57),
            stats: Stats::default(),
            issues: vec![],
            alloc_failed: 0,
        };
        ex.new_slot(0, sc.cap, 1);
        ex
    }

    fn new_slot(&mut self, i: u8, cap: u32, hash: u64) {
        let live = win().live;
        let h = hasher(self.sc, hash);
        let map = Map::new(self.sc.kind, cap, h);
        self.slots[i as usize] = Some(Slot { map, model: Model::new(self.sc.kind), bytes: Some(win().live - live) });
    }
    fn bad(&mut self, class: Class, tags: Tags, what: impl Into<String>) {
        self.issues.push(issue(class, tags, what));
    }
    fn drop_slot(&mut self, i: u8) {
        if let Some(s) = self.slots[i as usize].take() {
            lib(|| drop(s.map));
        }
    }

    /// Replaces the map by a new one with the same contents
    fn rebuild(&mut self, i: u8) {
        let Some(s) = self.slots.get_mut(i as usize).and_then(|s| s.take()) else { return };
        let h = S::with_cfg(s.map.hash_cfg());
        let kind = self.sc.kind;
        lib(|| drop(s.map));
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut map = Map::new(kind, 0, h);
            let mut model = Model::new(kind);
            insert_all(&mut map, &mut model, &s.model);
            (map, model)
        }));
        with(|c| c.args.clear());
        if let Ok((map, model)) = res {
            self.slots[i as usize] = Some(Slot { map, model, bytes: None });
        }
    }

    /// What cloning should be like
    fn split(&mut self, si: u8, di: u8, moved: bool) {
        if self.slots.get(si as usize).is_none_or(|s| s.is_none()) {
            return;
        }
        if si == di {
            if !moved {
                self.rebuild(si);
            }
            return;
        }
        let old = self.slots[di as usize].take();
        lib(|| drop(old.map(|s| s.map)));
        let s = self.slots[si as usize].as_ref().unwrap();
        let h = S::with_cfg(s.map.hash_cfg());
        let kind = self.sc.kind;
        let from = s.model.clone();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut map = Map::new(kind, 0, h);
            let mut model = Model::new(kind);
            insert_all(&mut map, &mut model, &from);
            (map, model)
        }));
        with(|c| c.args.clear());
        if let Ok((map, model)) = res {
            let (a, b) = if moved { (di, si) } else { (si, di) };
            if moved {
                self.slots[di as usize] = self.slots[si as usize].take();
            }
            if let Some(s) = self.slots[a as usize].as_mut() {
                s.bytes = None;
            }
            self.slots[b as usize] = Some(Slot { map, model, bytes: None });
        }
    }

    fn step(&mut self, st: &Step) -> Tags {
        let si = st.slot as usize;
        let usable = match self.slots.get(si).and_then(|s| s.as_ref()) {
            Some(s) => Model::supports(self.sc.kind, &st.op) && (self.sc.strict || !s.model.known_bad(&st.op)),
            None => matches!(st.op, Op::Renew { .. }) && si < self.slots.len(),
        };
        if !usable {
            self.stats.skipped += 1;
            return 0;
        }
        if self.slots[si].is_none() {
            self.new_slot(st.slot, 0, 3);
        }
        self.stats.steps += 1;
        *self.stats.ops.entry(st.op.name()).or_default() += 1;
        let pre = self.slots[si].as_ref().unwrap().model.clone();
        let bytes0 = self.slots[si].as_ref().unwrap().bytes;
        let live0 = win().live;
        let base = serials_now();
        let faults0 = with(|c| {
            c.args.clear();
            c.log.clear();
            c.fired = None;
            c.fired_log = 0;
            if let Some((n, mask)) = st.panic {
                c.arm_nth = n;
                c.arm_mask = mask;
            }
            c.faults.len()
        });
        let mut out = Out::default();
        // What the operation leaves behind; `None`: as the model says
        let mut post = Post::default();
        let res = catch_unwind(AssertUnwindSafe(|| self.exec(st, &pre, &mut out, &mut post)));
        let (fired, fired_log, log) = with(|c| {
            c.arm_nth = 0;
            c.arm_mask = 0;
            c.args.clear();
            (c.fired, c.fired_log, std::mem::take(&mut c.log))
        });
        set_win(Win { fail_at: 0, limit: 0, ..win() });
        let tags = op_tags(&st.op);
        let ctags = content(self.sc.kind);
        let bytes_new = post.bytes;
        self.issues.append(&mut out.issues);
        let mut class = tags;
        if let Some(k) = fired {
            class |= t(10);
            self.stats.fault(&format!("panic in {}", CB_NAMES[k as usize]), 1);
        }
        let injected = fired.is_some();
        // A drain that ends with a panic in its consumer has the same effect as one that is dropped
        let ended = matches!(st.op, Op::Drain { end: End::Panic, .. } | Op::DrainFilter { end: End::Panic, .. })
            && injected
            && fired == Some(Cb::Source);
        match res {
            Err(e) if e.downcast_ref::<Injected>().is_none() => {
                let mut tg = if tags != 0 { tags | (ctags * (!matches!(st.op, Op::Readers { .. } | Op::Eq { .. } | Op::Cursors { .. }) as Tags)) } else { ctags };
                if injected {
                    tg = t(10);
                }
                if pre.clone().apply(&st.op, base, base + 1).is_some_and(|s| s.refused) {
                    tg |= t(5);
                }
                let what = format!("{} panicked: {}", st.op.name(), take_panic_msg());
                self.bad(Class::Other, tg, what);
            }
            Err(_) if !ended => self.interrupted(st, &pre, base, fired, fired_log, &log, &out),
            _ => {
                let refused = self.completed(st, &pre, base, &log, &mut out, post, ended);
                if refused {
                    class |= t(5);
                    self.stats.refused += 1;
                }
            }
        }
        // Memory
        let renewed = if injected { None } else { bytes_new };
        let keep = !injected && !matches!(st.op, Op::Drain { end: End::Leak, .. } | Op::DrainFilter { end: End::Leak, .. } | Op::Readers { .. });
        if let Some(s) = self.slots[si].as_mut() {
            s.bytes = match (&st.op, bytes0) {
                (Op::CloneTo { dst, .. }, b) if *dst as usize != si => b,
                (Op::Renew { .. }, _) => renewed,
                (Op::SaveLoad { .. } | Op::LoadStream { .. } | Op::LoadBytes { .. } | Op::CloneTo { .. }, _) => None,
                (_, Some(b)) if keep => Some(b + win().live - live0),
                _ => None,
            };
        }
        // Objects
        if (fired == Some(Cb::Clone) && !matches!(st.op, Op::Options { .. })) || matches!(st.op, Op::Readers { panics: 1.., .. }) {
            self.abandon_clones(base);
        }
        let (nfaults, fault, live, leaked) = with(|c| (c.faults.len(), c.faults.get(faults0).cloned(), c.live, c.leaked));
        if nfaults > faults0 {
            let mut tg = t(11);
            if injected {
                tg |= t(10);
            }
            if matches!(st.op, Op::Readers { .. }) {
                tg |= t(20);
            }
            if matches!(st.op, Op::Options { .. }) {
                tg |= t(21);
            }
            let what = format!("in {}: {}", st.op.name(), fault.unwrap_or_default());
            self.bad(Class::Other, tg, what);
        }
        if self.issues.is_empty() {
            let want = self.expected_live() + leaked;
            if live != want {
                let mut tg = t(11);
                if matches!(st.op, Op::Options { .. }) {
                    tg |= t(21);
                }
                if matches!(st.op, Op::Drain { .. }) {
                    tg |= t(8);
                }
                if matches!(st.op, Op::LoadStream { .. } | Op::LoadBytes { .. }) {
                    tg |= t(17);
                }
                let what = format!("after {} there are {live} objects, but {want} are stored or in use; of {}", st.op.name(), self.stray());
                self.bad(Class::Other, tg, what);
            }
        }
        if self.issues.is_empty() && self.slots.len() > 1 {
            // The other maps
            for i in 0..self.slots.len() {
                if i == si || matches!(st.op, Op::CloneTo { dst, .. } if dst as usize == i) {
                    continue;
                }
                if let Some(s) = &self.slots[i] {
                    self.stats.checks += 1;
                    let mut v = verify::lookups(&s.map, &s.model, &self.probes, &mut self.rng);
                    if v.is_empty() {
                        v = verify::iterations(&s.map, &s.model);
                    }
                    if let Some(x) = v.first() {
                        let what = format!("{} of one map changed another one: {}", st.op.name(), x.what);
                        let mut tg = t(15) | (tags & t(14));
                        if injected {
                            tg |= t(10);
                        }
                        self.bad(Class::Content, tg, what);
                        break;
                    }
                }
            }
        }
        self.note_state(st);
        class
    }

    fn note_state(&mut self, st: &Step) {
        if let Some(s) = &self.slots[st.slot as usize] {
            let mut h = mix(s.model.kind as u64);
            for (i, x) in s.model.l.iter().enumerate() {
                if let Some(x) = x {
                    h = mix(h ^ (i as u64) << 32 ^ x.1.map(|p| p as u64 + 1).unwrap_or(0));
                }
            }
            h = mix(h ^ 0xff);
            for (i, x) in s.model.r.iter().enumerate() {
                if x.is_some() {
                    h = mix(h ^ i as u64);
                }
            }
            let name = st.op.name().bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
            self.stats.states.push(mix(h ^ name));
            with(|c| c.digest = mix(c.digest ^ h));
        }
    }

    /// hashbrown 0.12.3 leaks what it has cloned so far when cloning panics
    fn abandon_clones(&mut self, base: u32) {
        let mut held: Vec<u32> = self.slots.iter().flatten().flat_map(|s| s.model.serials()).collect();
        held.sort_unstable();
        with(|c| {
            let mut n = 0;
            for (i, o) in c.objs.iter_mut().enumerate().skip(base as usize) {
                if o.live && !o.leakable && o.parent != u32::MAX && held.binary_search(&(i as u32)).is_err() {
                    o.leakable = true;
                    n += 1;
                }
            }
            c.leaked += n;
        })
    }

    fn expected_live(&self) -> i64 {
        self.probes.count() + self.slots.iter().flatten().map(|s| (s.model.nl + s.model.nr) as i64).sum::<i64>()
    }
    /// Names an object that should not exist, or should
    fn stray(&self) -> String {
        let mut held: Vec<u32> = self.slots.iter().flatten().flat_map(|s| s.model.serials()).collect();
        held.extend(self.probes.l.iter().map(|x| x.serial).chain(self.probes.r.iter().map(|x| x.serial)));
        held.sort_unstable();
        with(|c| {
            for (i, o) in c.objs.iter().enumerate() {
                let h = held.binary_search(&(i as u32)).is_ok();
                if o.live && !h && !o.leakable {
                    return format!("them {}{}#{i} leaked", side_name(o.side as usize), o.id);
                }
                if !o.live && h {
                    return format!("them {}{}#{i} was dropped while it is stored", side_name(o.side as usize), o.id);
                }
            }
            "unknown cause".into()
        })
    }

    fn verify_slot(&mut self, si: usize, extra: Tags) {
        let s = self.slots[si].as_ref().unwrap();
        self.stats.checks += 1;
        let mut v = verify::lookups(&s.map, &s.model, &self.probes, &mut self.rng);
        let big = s.model.nl + s.model.nr > 128;
        if v.is_empty() && (!big || self.rng.chance(1, 8)) {
            self.stats.elements += (s.model.nl + s.model.nr) as u64;
            v = verify::iterations(&s.map, &s.model);
            if !v.is_empty() && s.map.len().0 != s.model.nl {
                v[0].class = Class::Content;
            }
        }
        for mut x in v {
            match x.class {
                Class::Content => x.tags |= extra,
                Class::Iter => x.tags |= extra,
                _ => {}
            }
            self.issues.push(x);
        }
    }

    /// The operation has returned. Says whether it was refused.
    #[allow(clippy::too_many_arguments)]
    fn completed(&mut self, st: &Step, pre: &Model, base: u32, log: &[(Option<u32>, Option<u32>)], out: &mut Out, post: Post, ended: bool) -> bool {
        let si = st.slot as usize;
        let tags = op_tags(&st.op);
        let mut want = pre.clone();
        let spec = want.apply(&st.op, base, base + 1);
        if let Some(m) = post.model {
            want = m;
        }
        let refused = spec.as_ref().is_some_and(|s| s.refused);
        // The answer
        if let Some(spec) = &spec {
            match (&spec.ret, &out.text) {
                (RetSpec::Exact(s), Some(x)) if s != x => self.bad(Class::Other, t(4), format!("{} returned {x}, but should have returned {s}", st.op.name())),
                (RetSpec::Subset(v), Some(x)) => {
                    let mut o = out.objs.clone();
                    o.sort_unstable();
                    let twice = o.windows(2).any(|w| w[0] == w[1]);
                    if twice || o.iter().any(|s| !v.contains(s)) {
                        self.bad(Class::Other, t(4), format!("{} returned {x}, but only these objects were displaced: {v:?}", st.op.name()));
                    }
                }
                _ => {}
            }
        }
        // What closures were asked, and what was yielded
        match &st.op {
            Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } => {
                let (scope, sel, when) = pre.scope(&st.op).unwrap();
                self.check_log(&scope, log, true, t(7));
                for e in &scope {
                    if sel.hit(e.0.map(|x| x.0), e.1.map(|x| x.0)) == when {
                        want.remove_elem(e);
                    }
                }
            }
            Op::Drain { end, .. } => {
                let all = pre.all();
                self.check_yield(&all, &out.yielded, *end == End::Exhaust, t(8));
                if *end != End::Leak {
                    want.clear();
                }
            }
            Op::DrainFilter { end, .. } => {
                let (scope, sel, _) = pre.scope(&st.op).unwrap();
                let hits: Vec<Elem> = scope.iter().copied().filter(|e| sel.hit(e.0.map(|x| x.0), e.1.map(|x| x.0))).collect();
                self.check_log(&scope, log, *end != End::Leak, t(9));
                self.check_yield(&hits, &out.yielded, *end == End::Exhaust, t(9));
                let gone = if *end == End::Leak { &out.yielded } else { &hits };
                for e in gone {
                    if hits.contains(e) {
                        want.remove_elem(e);
                    }
                }
            }
            Op::Clear => want.clear(),
            _ => {}
        }
        let _ = ended;
        if matches!(st.op, Op::Drop) {
            self.slots[si] = None;
            return false;
        }
        if matches!(st.op, Op::Drain { end: End::Leak, .. }) {
            self.adopt_leaked(si, pre, &out.yielded, st);
            return false;
        }
        let single = spec.is_some();
        if let Some(s) = self.slots[si].as_mut() {
            s.model = want.clone();
        }
        let n = self.issues.len();
        self.verify_slot(si, tags);
        // A wrong state, and what it says about the answer
        if single && self.issues[n..].iter().any(|i| matches!(i.class, Class::Content | Class::Object)) {
            let obs = verify::observe(&self.slots[si].as_ref().unwrap().map);
            if let Ok(obs) = obs {
                let now = obs.serials();
                let gone: Vec<u32> = pre.serials().into_iter().filter(|s| !now.contains(s)).collect();
                let named = !matches!((self.sc.kind, &st.op), (Kind::Group, Op::Insert { .. }) | (Kind::Group, Op::SwapRight { .. }));
                let exact = matches!(spec.as_ref().unwrap().ret, RetSpec::Exact(_));
                let mut objs = out.objs.clone();
                objs.sort_unstable();
                let mut g = gone.clone();
                g.sort_unstable();
                let reports_objects = !matches!(st.op, Op::Pair { .. } | Op::Unpair { .. } | Op::PairForced { .. });
                if named && exact && reports_objects && objs != g {
                    self.bad(Class::Other, t(4), format!("{} returned {}, but the objects {g:?} are gone", st.op.name(), out.text.clone().unwrap_or_default()));
                } else if !exact && objs.iter().any(|o| now.contains(o)) {
                    self.bad(Class::Other, t(4), format!("{} returned {}, part of which is still in the map", st.op.name(), out.text.clone().unwrap_or_default()));
                }
                // An object that was passed in must not have taken the place of one that stays, nor the other way round
                if obs.same_ids(&want) && self.sc.kind != Kind::Group {
                    self.issues.push(issue(Class::Other, t(4), format!("{} left an object in the map that should be another, equal one", st.op.name())));
                }
                let changed = !obs.same(pre);
                if changed && refused {
                    self.bad(Class::Other, t(5), format!("{} should have been refused and have no effect, but changed the map", st.op.name()));
                } else if changed && says_no(&st.op, self.sc.kind, out.text.as_deref()) {
                    self.bad(Class::Other, t(5), format!("{} answered that it did nothing, but changed the map", st.op.name()));
                }
            } else if refused {
                self.bad(Class::Other, t(5), format!("{} should have been refused and have no effect, but damaged the map", st.op.name()));
            }
        }
        refused
    }

    fn check_log(&mut self, scope: &[Elem], log: &[(Option<u32>, Option<u32>)], complete: bool, tags: Tags) {
        let mut want: Vec<_> = scope.iter().map(|e| (e.0.map(|x| x.0), e.1.map(|x| x.0))).collect();
        let mut got = log.to_vec();
        want.sort_unstable();
        got.sort_unstable();
        let ok = if complete { want == got } else { got.windows(2).all(|w| w[0] != w[1]) && got.iter().all(|e| want.binary_search(e).is_ok()) };
        if !ok {
            let f = |v: &[(Option<u32>, Option<u32>)]| v.iter().take(20).map(|(l, r)| op2(l.map(|x| format!("L{x}")), r.map(|x| format!("R{x}")))).collect::<Vec<_>>().join(" ");
            self.bad(Class::Other, tags, format!("the closure was asked about {}, but should have been about {}", f(&got), f(&want)));
        }
    }
    fn check_yield(&mut self, want: &[Elem], got: &[Elem], complete: bool, tags: Tags) {
        let mut w = want.to_vec();
        let mut g = got.to_vec();
        w.sort_unstable();
        g.sort_unstable();
        let ok = if complete { w == g } else { g.windows(2).all(|x| x[0] != x[1]) && g.iter().all(|e| w.binary_search(e).is_ok()) };
        if !ok {
            let f = |v: &[Elem]| v.iter().take(20).map(|(l, r)| op2(l.map(tl), r.map(tr))).collect::<Vec<_>>().join(" ");
            self.bad(Class::Other, tags, format!("yielded {}, but {} {}", f(&g), if complete { "should have been" } else { "only these were to come:" }, f(&w)));
        }
    }

    /// A drain was leaked: the map may hold anything that was not yielded, but coherently
    fn adopt_leaked(&mut self, si: usize, pre: &Model, yielded: &[Elem], st: &Step) {
        let ctags = content(self.sc.kind);
        let mut out = vec![];
        for e in yielded {
            out.extend(e.0.map(|x| x.1));
            out.extend(e.1.map(|x| x.1));
        }
        match verify::observe(&self.slots[si].as_ref().unwrap().map) {
            Ok(obs) => {
                let now = obs.serials();
                if now.iter().any(|s| out.contains(s) || !pre.serials().contains(s)) {
                    self.bad(Class::Content, t(8) | ctags, format!("after a leaked {} the map still has what was yielded", st.op.name()));
                    return;
                }
                with(|c| {
                    for s in pre.serials() {
                        let o = &mut c.objs[s as usize];
                        if o.live && !now.contains(&s) {
                            o.leakable = true;
                            c.leaked += 1;
                        }
                    }
                });
                self.slots[si].as_mut().unwrap().model = obs;
                self.verify_slot(si, t(8));
            }
            Err(e) => self.bad(Class::Content, t(8) | ctags, format!("after a leaked {}: {e}", st.op.name())),
        }
        self.stats.fault("leaked iterator", 1);
    }

    /// The operation was ended by an injected panic
    #[allow(clippy::too_many_arguments)]
    fn interrupted(&mut self, st: &Step, pre: &Model, base: u32, fired: Option<Cb>, fired_log: usize, log: &[(Option<u32>, Option<u32>)], out: &Out) {
        let si = st.slot as usize;
        let mut tags = t(10) | (op_tags(&st.op) & (t(7) | t(8) | t(9) | t(15) | t(16) | t(19) | t(20)));
        if fired != Some(Cb::Closure) {
            tags &= !(t(7) | t(9));
        }
        let ctags = 0;
        let Some(slot) = self.slots[si].as_ref() else { return };
        let obs = match verify::observe(&slot.map) {
            Ok(o) => o,
            Err(e) => {
                self.bad(Class::Content, tags | ctags, format!("after a panic in {}: {e}", st.op.name()));
                return;
            }
        };
        // New objects can only be arguments, and only objects of the call
        let old = pre.serials();
        if !matches!(st.op, Op::Extend { .. }) {
            let (ls, rs) = st.op.ids();
            for (id, s) in obs.lids().into_iter().map(|i| obs.ls(i)) {
                if !old.contains(&s) && !(s >= base && ls.contains(&id)) {
                    self.bad(Class::Content, tags, format!("after a panic in {} the map holds {}", st.op.name(), tl((id, s))));
                }
            }
            for (id, s) in obs.rids().into_iter().map(|i| obs.rs(i)) {
                if !old.contains(&s) && !(s >= base && rs.contains(&id)) {
                    self.bad(Class::Content, tags, format!("after a panic in {} the map holds {}", st.op.name(), tr((id, s))));
                }
            }
        }
        let mut concerned = pre.concerned(&st.op);
        let mut exact: Option<Model> = None;
        let mut whole: Vec<Elem> = vec![];
        match &st.op {
            Op::Clear | Op::Drain { .. } => {
                concerned = (pre.lids(), pre.rids());
            }
            Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } | Op::DrainFilter { .. } => {
                let (scope, sel, when) = pre.scope(&st.op).unwrap();
                let last = if fired == Some(Cb::Closure) { fired_log.checked_sub(1).and_then(|i| log.get(i)).copied() } else { None };
                for e in &scope {
                    let ids = (e.0.map(|x| x.0), e.1.map(|x| x.0));
                    if sel.hit(ids.0, ids.1) == when {
                        if matches!(st.op, Op::DrainFilter { .. }) && last == Some(ids) {
                            continue;
                        }
                        concerned.0.extend(ids.0);
                        concerned.1.extend(ids.1);
                        if fired == Some(Cb::Closure) && self.sc.kind != Kind::Group {
                            whole.push(*e);
                        }
                    }
                }
            }
            Op::Extend { items, typed, .. } => {
                // What was delivered before
                let items = usable_items(pre, &bulk_items(self.sc.kind, items, *typed));
                let mut m = pre.clone();
                if fired == Some(Cb::Source) {
                    sequential(&mut m, &items[..out.delivered.min(items.len())], base);
                    exact = Some(m);
                } else {
                    let mut s = base;
                    for i in items.iter().take(out.delivered) {
                        let c = match m.bulk_op(i) {
                            Some(op) => m.concerned(&op),
                            None => continue,
                        };
                        concerned.0.extend(c.0);
                        concerned.1.extend(c.1);
                        s = sequential(&mut m, &[*i], s);
                    }
                }
            }
            _ => {}
        }
        let is_exact = exact.is_some();
        if let Some(m) = exact {
            if !obs.same(&m) {
                let class = if obs.same_ids(&m) { Class::Object } else { Class::Content };
                self.bad(class, t(19) | t(10), format!("after the source panicked the map holds {}, but should hold {}", brief(&obs), brief(&m)));
            }
        }
        for l in pre.lids() {
            if is_exact {
                break;
            }
            if !concerned.0.contains(&l) {
                if obs.lget(l).map(|x| x.0) != pre.lget(l).map(|x| x.0) {
                    self.bad(Class::Content, tags, format!("a panic in {} lost or replaced L{l}, which was not concerned", st.op.name()));
                } else if obs.l_partner(l) != pre.l_partner(l) {
                    self.bad(Class::Content, tags, format!("a panic in {} changed the partner of L{l}, which was not concerned, from {:?} to {:?}", st.op.name(), pre.l_partner(l), obs.l_partner(l)));
                }
            }
        }
        for r in pre.rids() {
            if is_exact {
                break;
            }
            if !concerned.1.contains(&r) {
                if obs.rget(r).map(|x| x.0) != pre.rget(r).map(|x| x.0) {
                    self.bad(Class::Content, tags, format!("a panic in {} lost or replaced R{r}, which was not concerned", st.op.name()));
                } else if obs.r_partner(r) != pre.r_partner(r) {
                    self.bad(Class::Content, tags, format!("a panic in {} changed the partner of R{r}, which was not concerned, from {:?} to {:?}", st.op.name(), pre.r_partner(r), obs.r_partner(r)));
                }
            }
        }
        for e in whole {
            if let (Some(l), Some(r)) = e {
                if obs.has_l(l.0) != obs.has_r(r.0) || (obs.has_l(l.0) && !obs.paired(l.0, r.0)) {
                    self.bad(Class::Content, tags, format!("a panic in the closure of {} tore the pair of L{} and R{} apart", st.op.name(), l.0, r.0));
                }
            }
        }
        self.slots[si].as_mut().unwrap().model = obs;
        if let Op::CloneTo { dst, assign: true } = st.op {
            if dst != st.slot {
                if let Some(s) = self.slots[dst as usize].as_mut() {
                    match verify::observe(&s.map) {
                        Ok(o) => {
                            s.model = o;
                            s.bytes = None;
                        }
                        Err(e) => self.bad(Class::Content, t(10) | t(15), format!("a panic in clone_from damaged its target: {e}")),
                    }
                }
            }
        }
        if self.issues.is_empty() {
            self.verify_slot(si, tags);
            for i in &mut self.issues {
                if i.class == Class::Content || i.class == Class::Iter {
                    i.tags = tags;
                }
            }
        }
    }

    fn fill_limit(&self, si: usize) -> usize {
        let m = self.slots[si].as_ref().unwrap().map.hash_cfg().mode;
        if colliding(m) {
            64
        } else {
            300
        }
    }

    /// Executes the operation on the real map
    fn exec(&mut self, st: &Step, pre: &Model, out: &mut Out, post: &mut Post) {
        let si = st.slot as usize;
        let total = pre.pairs().len() + if self.sc.kind == Kind::Cycle { 0 } else { pre.unpaired_l().len() + pre.unpaired_r().len() };
        match &st.op {
            Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } => self.slots[si].as_mut().unwrap().map.retain(&st.op),
            Op::Drain { take, end } => {
                let map = &mut self.slots[si].as_mut().unwrap().map;
                let c0 = map.capacity();
                if *end == End::Drop {
                    self.stats.fault("iterator dropped early", 1);
                }
                let res = catch_unwind(AssertUnwindSafe(|| map.drain(*take, *end, total, out)));
                let c1 = map.capacity();
                if *end != End::Leak && (c1.0 < c0.0 || c1.1 < c0.1) && with(|c| c.fired != Some(Cb::Hash)) {
                    self.bad(Class::Other, t(8) | t(13), format!("the capacity was {c0:?} before a drain, and is {c1:?} after it"));
                }
                if let Err(e) = res {
                    std::panic::resume_unwind(e);
                }
            }
            Op::DrainFilter { sel, take, end } => {
                if *end == End::Drop {
                    self.stats.fault("iterator dropped early", 1);
                }
                if *end == End::Leak {
                    self.stats.fault("leaked iterator", 1);
                }
                self.slots[si].as_mut().unwrap().map.drain_filter(*sel, *take, *end, total, out)
            }
            Op::Clear => {
                let map = &mut self.slots[si].as_mut().unwrap().map;
                let c0 = map.capacity();
                map.clear();
                let c1 = map.capacity();
                if c1.0 < c0.0 || c1.1 < c0.1 {
                    self.bad(Class::Other, t(13), format!("the capacity was {c0:?} before clear, and is {c1:?} after it"));
                }
            }
            Op::Reserve { side, n } => {
                let max = self.fill_limit(si).min(*n as usize);
                let kind = self.sc.kind;
                let map = &mut self.slots[si].as_mut().unwrap().map;
                map.reserve(*side, *n as usize);
                let sides = (kind != Kind::Partial || *side == 0, kind != Kind::Partial || *side != 0);
                self.check_room(si, *n as usize, max, sides, t(13), "reserving");
            }
            Op::TryReserve { side, n, fail } => {
                let kind = self.sc.kind;
                let map = &mut self.slots[si].as_mut().unwrap().map;
                let c0 = map.capacity();
                let mut n = usize::try_from(*n).unwrap_or(usize::MAX);
                // hashbrown 0.12.3 itself is unsound for sizes whose table layout lies
                // between isize::MAX and usize::MAX
                if n > 1 << 54 && n < 1 << 60 {
                    n |= 1 << 60;
                }
                map.try_reserve(*side, n, *fail, out);
                let sides = (kind != Kind::Partial || *side == 0, kind != Kind::Partial || *side != 0);
                let max = self.fill_limit(si);
                if out.injected_alloc {
                    self.alloc_failed += 1;
                    self.stats.fault("failed allocation", 1);
                }
                if out.ok == Some(true) {
                    self.check_room(si, n, max.min(n), sides, t(12), "a successful fallible reservation");
                } else {
                    if !out.injected_alloc && n <= 5000 {
                        self.bad(Class::Other, t(12), format!("a reservation of {n} failed though there is memory"));
                    }
                    if n > 1 << 40 {
                        self.stats.fault("reservation overflow", 1);
                    }
                    // Room that was reserved earlier is still promised
                    let c1 = self.slots[si].as_ref().unwrap().map.capacity();
                    if c1.0 < c0.0 || c1.1 < c0.1 {
                        self.bad(Class::Other, t(12) | t(13), format!("the capacity was {c0:?} before a failed reservation, and is {c1:?} after it"));
                    }
                    self.check_room(si, 0, max, (true, true), t(12), "a failed reservation");
                }
            }
            Op::ShrinkTo { side, n } => {
                let n = *n as usize;
                let kind = self.sc.kind;
                let s = self.slots[si].as_mut().unwrap();
                let c0 = s.map.capacity();
                let live = win().live;
                s.map.shrink_to(*side, n);
                let delta = win().live - live;
                let sides = (kind != Kind::Partial || *side == 0, kind != Kind::Partial || *side != 0);
                let whole = kind == Kind::Cycle;
                self.check_shrunk(si, c0, (n, n), sides, whole, delta);
            }
            Op::ShrinkFit => {
                let s = self.slots[si].as_mut().unwrap();
                let c0 = s.map.capacity();
                let live = win().live;
                s.map.shrink_fit();
                let delta = win().live - live;
                self.check_shrunk(si, c0, (0, 0), (true, true), true, delta);
            }
            Op::Fill { max } => {
                let max = (*max as usize).min(self.fill_limit(si));
                self.check_room(si, 0, max, (true, true), t(13), "any time");
            }
            Op::Extend { items, typed, hint, abort } => {
                let items = usable_items(pre, &bulk_items(self.sc.kind, items, *typed));
                let base = serials_now();
                let delivered = Rc::new(Cell::new(0));
                let feed = Feed { items: items.clone(), pos: 0, hint: *hint, abort: *abort, delivered: delivered.clone() };
                if *hint > 1 {
                    self.stats.fault("lying size hint", 1);
                }
                let s = self.slots[si].as_mut().unwrap();
                let map = &mut s.map;
                let res = catch_unwind(AssertUnwindSafe(|| map.extend(feed, *typed)));
                out.delivered = delivered.get();
                if let Err(e) = res {
                    std::panic::resume_unwind(e);
                }
                disarm();
                let mut m = pre.clone();
                sequential(&mut m, &items, base);
                self.check_bulk(si, pre, &m, &items, "extend");
                post.model = Some(m);
            }
            Op::Collect { items, typed, hint, abort } => {
                let empty = Model::new(self.sc.kind);
                let items = usable_items(&empty, &bulk_items(self.sc.kind, items, *typed));
                let base = serials_now();
                let delivered = Rc::new(Cell::new(0));
                let feed = Feed { items: items.clone(), pos: 0, hint: *hint, abort: *abort, delivered: delivered.clone() };
                if *hint > 1 {
                    self.stats.fault("lying size hint", 1);
                }
                let map = Map::collect(self.sc.kind, feed, *typed);
                disarm();
                out.delivered = delivered.get();
                let old = std::mem::replace(&mut self.slots[si].as_mut().unwrap().map, map);
                lib(|| drop(old));
                let mut m = empty.clone();
                sequential(&mut m, &items, base);
                self.check_bulk(si, &empty, &m, &items, "collect");
                post.model = Some(m);
            }
            Op::CloneTo { dst, assign } => {
                let di = *dst as usize % self.slots.len();
                self.clone_to(si, di, *assign, pre);
                if di == si && self.issues.is_empty() {
                    post.model = self.slots[si].as_ref().map(|s| s.model.clone());
                }
            }
            Op::Renew { cap, hash } => {
                let h = hasher(self.sc, *hash);
                let limit = if colliding(self.sc.hash[0].mode) { 64 } else { 300 };
                let live = win().live;
                let map = if hash % 2 == 0 {
                    ahash::set_default(h.cfg());
                    Map::new_default(self.sc.kind, *cap, hash % 4 == 0)
                } else {
                    Map::new(self.sc.kind, *cap, h)
                };
                post.bytes = Some(win().live - live);
                let old = std::mem::replace(&mut self.slots[si].as_mut().unwrap().map, map);
                lib(|| drop(old));
                post.model = Some(Model::new(self.sc.kind));
                self.slots[si].as_mut().unwrap().model = Model::new(self.sc.kind);
                self.check_room(si, *cap as usize, (*cap as usize).min(limit), (true, true), t(13), "constructing");
            }
            Op::Eq { other } => {
                let o = *other as usize % self.slots.len();
                let Some(os) = &self.slots[o] else { return };
                let s = self.slots[si].as_ref().unwrap();
                let want = s.model.same_ids(&os.model);
                let ab = (self.sc.strict || !eq_known_bad(&s.model, &os.model)).then(|| lib(|| (s.map.eq(&os.map), s.map.ne(&os.map))));
                let ba = (self.sc.strict || !eq_known_bad(&os.model, &s.model)).then(|| lib(|| (os.map.eq(&s.map), os.map.ne(&s.map))));
                for (x, how) in [(ab, ""), (ba, " (the other way round)")] {
                    if let Some((eq, ne)) = x {
                        if eq != want || ne == want {
                            let what = format!("comparing {} with {} gives == {eq} and != {ne}{how}", brief(&s.model), brief(&os.model));
                            self.issues.push(issue(Class::Other, t(14), what));
                            break;
                        }
                    }
                }
            }
            Op::Cursors { seed, len } => {
                let s = self.slots[si].as_ref().unwrap();
                cursors(&s.map, &s.model, *seed, *len, out);
                if self.rng.chance(1, 2) && s.model.nl + s.model.nr <= 128 {
                    out.issues.extend(verify::debug_output(&s.map, &s.model));
                }
            }
            Op::Churn { l, r, n, what } => {
                let mut m = pre.clone();
                let map = &mut self.slots[si].as_mut().unwrap().map;
                let mut o = Out::default();
                for i in 0..*n {
                    let op = churn(self.sc.kind, *l, *r, i, *what);
                    if !Model::supports(self.sc.kind, &op) || m.known_bad(&op) {
                        continue;
                    }
                    let base = serials_now();
                    o.objs.clear();
                    map.single(&op, &mut o);
                    with(|c| c.args.clear());
                    m.apply(&op, base, base + 1);
                }
                post.model = Some(m);
            }
            Op::SaveLoad { fmt, disk, hash } => {
                let s = self.slots[si].as_ref().unwrap();
                let loaded = disk::save_load(&s.map, &s.model, *fmt, disk, *hash, out);
                disarm();
                // Saving has not changed the map
                let n = self.issues.len();
                self.verify_slot(si, t(16));
                if self.issues.len() > n {
                    return;
                }
                if let Some(new) = loaded {
                    let s = self.slots[si].as_ref().unwrap();
                    match verify::observe(&new) {
                        Ok(m) => {
                            if out.issues.is_empty() {
                                if !m.same_ids(&s.model) {
                                    self.bad(Class::Content, t(16), format!("the restarted map holds {}, but {} was saved", brief(&m), brief(pre)));
                                    return;
                                }
                                let (a, b) = lib(|| (new.eq(&s.map), s.map.eq(&new)));
                                if !a || !b {
                                    self.bad(Class::Other, t(16) | t(14), "the restarted map does not compare equal to the one that was saved");
                                }
                            }
                            let s = self.slots[si].as_mut().unwrap();
                            let old = std::mem::replace(&mut s.map, new);
                            lib(|| drop(old));
                            s.model = m.clone();
                            post.model = Some(m);
                            self.stats.fault("restart from storage", 1);
                        }
                        Err(e) => self.bad(Class::Content, t(16) | t(1), format!("the restarted map is broken: {e}")),
                    }
                }
            }
            Op::LoadStream { items, hint, err_at, hash } => {
                if *hint > 1 && *hint - 2 != items.len() as u64 {
                    self.stats.fault("lying announced length", 1);
                }
                if err_at.is_some() {
                    self.stats.fault("error of the peer", 1);
                }
                let l = disk::load_stream(items, *hint, *err_at, *hash, out);
                self.loaded(si, l, post)
            }
            Op::LoadBytes { fmt, bytes, chunk, rerr_at, hash } => {
                self.stats.fault("damaged data", 1);
                let l = disk::load_bytes(*fmt, bytes, *chunk, *rerr_at, *hash, out);
                self.loaded(si, l, post)
            }
            Op::Readers { seed, n, ops, panics, other } => {
                let s = self.slots[si].as_ref().unwrap();
                let o = self.slots[*other as usize % self.slots.len()].as_ref().unwrap_or(s);
                // Comparisons that are known to be wrong are wrong for every reader alike
                let st = readers::run(&s.map, &o.map, &self.probes, *seed, (*n).clamp(1, 8) as usize, *ops, *panics, out);
                self.stats.switches += st.switches;
                self.stats.fault("reader suspended", st.switches);
                self.stats.fault("reader panicked", st.panics);
            }
            Op::Options { seed, len } => {
                let bad = options::run(*seed, *len);
                out.issues.extend(bad);
            }
            Op::Cost { seed, n, len } => {
                let bad = cost::run(self.sc.kind, *seed, *n, *len);
                out.issues.extend(bad);
            }
            Op::Memory { seed, n, len } => {
                let bad = memory::run(self.sc.kind, *seed, *n, (*len).min(20_000));
                out.issues.extend(bad);
            }
            Op::Lawless { seed, n, len } => {
                let (bad, lies, panics) = lawless::run(self.sc.kind, *seed, *n, (*len).min(20_000));
                out.issues.extend(bad);
                self.stats.fault("wrong answer of Eq or Hash", lies);
                self.stats.fault("panic of Eq or Drop of an item that breaks its contract", panics);
            }
            Op::Types { combo, seed, len } => {
                let bad = types::run(self.sc.kind, *combo, *seed, (*len).min(10_000));
                out.issues.extend(bad);
            }
            Op::Drop => {
                if let Some(s) = self.slots[si].take() {
                    lib(|| drop(s.map));
                }
            }
            op => self.slots[si].as_mut().unwrap().map.single(op, out),
        }
    }

    fn loaded(&mut self, si: usize, l: disk::Loaded, post: &mut Post) {
        disarm();
        match (l.map, l.pairs, l.error) {
            (Some(map), Some(pairs), _) => {
                let mut want = Model::new(Kind::Cycle);
                let items: Vec<_> = pairs.iter().map(|(l, r)| (Some(*l), Some(*r))).collect();
                sequential(&mut want, &items, 0);
                match verify::observe(&map) {
                    Ok(m) => {
                        if !m.same_ids(&want) {
                            self.bad(Class::Content, t(17), format!("loading {pairs:?} gave {}, but should have given {}", brief(&m), brief(&want)));
                            return;
                        }
                        let s = self.slots[si].as_mut().unwrap();
                        let old = std::mem::replace(&mut s.map, map);
                        lib(|| drop(old));
                        s.model = m.clone();
                        post.model = Some(m);
                    }
                    Err(e) => self.bad(Class::Content, t(17) | t(1), format!("the map that was loaded from {pairs:?} is broken: {e}")),
                }
            }
            (Some(map), None, _) => {
                let what = format!("loading data with an error gave a map of {} pairs", map.len().0);
                self.bad(Class::Other, t(17), what);
                std::mem::forget(map);
            }
            (None, Some(p), e) => {
                // Conflicting pairs may be refused
                let distinct = |f: fn(&(u32, u32)) -> u32| p.iter().map(f).collect::<std::collections::BTreeSet<_>>().len() == p.len();
                if distinct(|x| x.0) && distinct(|x| x.1) {
                    self.bad(Class::Other, t(17), format!("loading {p:?} failed: {}", e.unwrap_or_default()))
                }
            }
            (None, None, _) => {}
        }
    }

    /// There has to be room for `n` more elements, and for as many as the capacity says
    fn check_room(&mut self, si: usize, n: usize, max: usize, sides: (bool, bool), tags: Tags, when: &str) {
        disarm();
        let s = self.slots[si].as_mut().unwrap();
        let (c, l) = (s.map.capacity(), s.map.len());
        let short = |c: usize, l: usize| c.checked_sub(l).is_none_or(|x| x < n);
        if (sides.0 && short(c.0, l.0)) || (sides.1 && short(c.1, l.1)) {
            self.bad(Class::Other, tags, format!("after {when} ({n}), the capacity is {c:?} with {l:?} items"));
            return;
        }
        let gen = with(|c| c.gen);
        let (a, b, grown) = s.map.fill(max, sides);
        with(|c| c.gen = gen);
        if grown {
            self.bad(Class::Other, tags, format!("{when}: the capacity was {c:?} with {l:?} items, but adding {a} and {b} items reallocated"));
        }
    }

    fn check_shrunk(&mut self, si: usize, c0: (usize, usize), min: (usize, usize), sides: (bool, bool), whole: bool, delta: i64) {
        let s = self.slots[si].as_ref().unwrap();
        let kind = self.sc.kind;
        let (c, l) = (s.map.capacity(), s.map.len());
        let want = (min.0.max(l.0), min.1.max(l.1));
        let live = win().live;
        let a = Map::new(kind, want.0 as u32, S::with_cfg(s.map.hash_cfg()));
        let b = Map::new(kind, want.1 as u32, S::with_cfg(s.map.hash_cfg()));
        // Half of each, as both sides take the same
        let fresh_bytes = (win().live - live) / 2;
        let fresh = (a.capacity().0, b.capacity().1);
        lib(|| drop((a, b)));
        let bytes = s.bytes.map(|b| b + delta);
        for (on, c0, c, w, f, l) in [(sides.0, c0.0, c.0, want.0, fresh.0, l.0), (sides.1, c0.1, c.1, want.1, fresh.1, l.1)] {
            if !on {
                if c < c0 {
                    self.issues.push(issue(Class::Other, t(13), "shrinking one side took capacity from the other".to_string()));
                }
                continue;
            }
            if c < c0.min(w) {
                self.issues.push(issue(Class::Other, t(13), format!("shrinking to {w} left a capacity of {c} (it was {c0}) with {l} items")));
            }
            if c > f.max(w) && c0 > f.max(w) {
                self.issues.push(issue(Class::Other, t(13), format!("shrinking to {w} left a capacity of {c}, though a new map with that capacity has {f}")));
            }
        }
        if let (Some(b), true) = (bytes, whole) {
            if b > fresh_bytes && delta >= 0 {
                self.bad(Class::Other, t(13), format!("shrinking to {want:?} left {b} bytes in use, though a new map with that capacity has {fresh_bytes}"));
            } else if b > fresh_bytes {
                self.bad(Class::Other, t(13), format!("shrinking to {want:?} gave back only {} bytes and left {b}, though a new map with that capacity has {fresh_bytes}", -delta));
            }
        }
    }

    /// Bulk operations equal single ones
    fn check_bulk(&mut self, si: usize, pre: &Model, want: &Model, items: &[(Option<u32>, Option<u32>)], what: &str) {
        let s = self.slots[si].as_ref().unwrap();
        let got = verify::observe(&s.map);
        if matches!(&got, Ok(m) if m.same(want)) {
            return;
        }
        // Do single insertions give what they should? If not, this isn't about bulk operations
        let h = S::with_cfg(s.map.hash_cfg());
        let kind = self.sc.kind;
        let twin = catch_unwind(AssertUnwindSafe(|| {
            let mut map = Map::new(kind, 0, h);
            let mut m = Model::new(kind);
            insert_all(&mut map, &mut m, pre);
            let mut o = Out::default();
            for i in items {
                if let Some(op) = m.bulk_op(i) {
                    let base = serials_now();
                    map.single(&op, &mut o);
                    with(|c| c.args.clear());
                    m.apply(&op, base, base + 1);
                }
            }
            let obs = verify::observe(&map);
            std::mem::forget(map);
            obs
        }));
        match (got, twin) {
            (Ok(a), Ok(Ok(b))) if !a.same_ids(&b) => self.bad(Class::Content, t(19), format!("{what} gives {}, but single insertions give {}", brief(&a), brief(&b))),
            (Ok(a), Ok(Ok(b))) if b.same_ids(want) && a.same_ids(&b) => {
                self.bad(Class::Object, t(19) | t(4), format!("{what} leaves other objects in the map than single insertions do: {} instead of {}", brief(&a), brief(want)))
            }
            (Err(e), Ok(Ok(_))) => self.bad(Class::Content, t(19) | content(kind), format!("{what} leaves a broken map: {e}")),
            _ => {}
        }
        if self.issues.is_empty() {
            self.bad(Class::Content, content(kind), format!("{what}, like single insertions, doesn't give {}", brief(want)));
        }
    }

    fn clone_to(&mut self, si: usize, di: usize, assign: bool, pre: &Model) {
        let live = win().live;
        if assign && di != si && self.slots[di].is_some() {
            let mut dst = self.slots[di].take().unwrap();
            let s = self.slots[si].as_ref().unwrap();
            let res = catch_unwind(AssertUnwindSafe(|| lib(|| dst.map.clone_from(&s.map))));
            dst.bytes = None;
            self.slots[di] = Some(dst);
            if let Err(e) = res {
                std::panic::resume_unwind(e);
            }
        } else {
            let s = self.slots[si].as_ref().unwrap();
            let map = lib(|| s.map.clone());
            let bytes = win().live - live;
            if let Some(old) = self.slots[di].take() {
                lib(|| drop(old.map));
            }
            self.slots[di] = Some(Slot { map, model: Model::new(self.sc.kind), bytes: Some(bytes) });
        }
        disarm();
        let (d, kind) = (self.slots[di].as_ref().unwrap(), self.sc.kind);
        match verify::observe(&d.map) {
            Ok(m) => {
                if !m.same_ids(pre) {
                    self.bad(Class::Content, t(15), format!("the clone of {} holds {}", brief(pre), brief(&m)));
                    return;
                }
                let gen = |s: u32| with(|c| c.objs[s as usize].gen);
                let same = m.lids().iter().all(|i| gen(m.ls(*i).1) == gen(pre.ls(*i).1)) && m.rids().iter().all(|i| gen(m.rs(*i).1) == gen(pre.rs(*i).1));
                if !same {
                    self.bad(Class::Content, t(15), "an item of the clone is not the clone of its original");
                    return;
                }
                self.slots[di].as_mut().unwrap().model = m;
            }
            Err(e) => {
                self.bad(Class::Content, t(15) | content(kind), format!("a clone is broken: {e}"));
                return;
            }
        }
        if di == si {
            return;
        }
        let n = self.issues.len();
        self.verify_slot(di, t(15));
        if self.issues.len() > n {
            for i in &mut self.issues[n..] {
                i.what = format!("the clone: {}", i.what);
            }
            return;
        }
        let (s, d) = (self.slots[si].as_ref().unwrap(), self.slots[di].as_ref().unwrap());
        let (a, b) = lib(|| (s.map.eq(&d.map), d.map.eq(&s.map)));
        if !a || !b {
            self.bad(Class::Other, t(15) | t(14), "a clone does not compare equal to its original");
        }
    }

    /// The end of the history: everything is checked once more, and dropped
    fn finish(&mut self) {
        for i in 0..self.slots.len() {
            if self.slots[i].is_some() && self.issues.is_empty() {
                self.verify_slot(i, 0);
                let s = self.slots[i].as_ref().unwrap();
                if s.model.nl + s.model.nr > 128 {
                    self.issues.extend(verify::iterations(&s.map, &s.model));
                } else if self.rng.chance(1, 4) {
                    self.issues.extend(verify::debug_output(&s.map, &s.model));
                }
            }
        }
        if !self.issues.is_empty() {
            return;
        }
        let f0 = with(|c| c.faults.len());
        for i in 0..self.slots.len() {
            let res = catch_unwind(AssertUnwindSafe(|| self.drop_slot(i as u8)));
            if res.is_err() {
                self.bad(Class::Other, t(11), format!("dropping a map panicked: {}", take_panic_msg()));
                return;
            }
        }
        let (nf, fault, live, leaked) = with(|c| (c.faults.len(), c.faults.get(f0).cloned(), c.live, c.leaked));
        if nf > f0 {
            self.bad(Class::Other, t(11), format!("while a map was dropped: {}", fault.unwrap()));
        } else if live != self.expected_live() + leaked {
            self.bad(Class::Other, t(11), format!("after all maps are dropped, {} objects remain; of {}", live - self.expected_live() - leaked, self.stray()));
        }
    }
}

#[derive(Default)]
struct Post {
    model: Option<Model>,
    bytes: Option<i64>,
}

fn brief(m: &Model) -> String {
    let v: Vec<String> = m.all().iter().take(16).map(|(l, r)| op2(l.map(tl), r.map(tr))).collect();
    format!("{{{}}}", v.join(" "))
}

/// Does the text say that nothing was done?
fn says_no(op: &Op, kind: Kind, text: Option<&str>) -> bool {
    let Some(x) = text else { return false };
    match op {
        Op::Pair { .. } | Op::Unpair { .. } => x == "false",
        Op::Remove { .. } | Op::RemoveLeft { .. } | Op::RemoveRight { .. } => x == "None",
        Op::RemoveViaLeft { .. } | Op::RemoveViaRight { .. } => x == "None" || x == "<|>",
        Op::SwapLeft { how, .. } | Op::SwapRight { how, .. } => kind != Kind::Group && *how != Swap::OrInsert && x == "<|>",
        _ => false,
    }
}

/// The comparison `a == b` that is known to be wrong (see KNOWN_FINDINGS)
pub fn eq_known_bad(a: &Model, b: &Model) -> bool {
    a.kind == Kind::Partial
        && ((a.nl != b.nl) != (a.nr != b.nr))
        && a.lids().iter().all(|i| b.has_l(*i) && a.l_partner(*i) == b.l_partner(*i))
        && a.rids().iter().all(|i| b.has_r(*i) && a.r_partner(*i) == b.r_partner(*i))
}

/// Without the elements that would be the known bad call
pub fn usable_items(m: &Model, items: &[(Option<u32>, Option<u32>)]) -> Vec<(Option<u32>, Option<u32>)> {
    let mut m = m.clone();
    let mut v = vec![];
    for i in items {
        if *i == (None, None) {
            v.push(*i);
        } else if let Some(op) = m.bulk_op(i) {
            m.apply(&op, 0, 0);
            v.push(*i);
        }
    }
    v
}

/// Applies the elements one after another; their objects are numbered from `serial` on
pub fn sequential(m: &mut Model, items: &[(Option<u32>, Option<u32>)], mut serial: u32) -> u32 {
    for i in items {
        let a = serial;
        serial += i.0.is_some() as u32;
        let b = serial;
        serial += i.1.is_some() as u32;
        if let Some(op) = m.bulk_op(i) {
            match op {
                Op::InsertRight { .. } => m.apply(&op, b, b),
                _ => m.apply(&op, a, b),
            };
        }
    }
    serial
}

/// Inserts what a model holds
pub fn insert_all(map: &mut Map, m: &mut Model, from: &Model) {
    let mut o = Out::default();
    let mut one = |op: Op, m: &mut Model| {
        let base = serials_now();
        map.single(&op, &mut o);
        with(|c| c.args.clear());
        m.apply(&op, base, base + 1);
    };
    if from.kind == Kind::Group {
        for r in from.rids() {
            one(Op::InsertRight { r }, m);
        }
        for l in from.lids() {
            one(Op::InsertLeft { l, r: from.l_partner(l).unwrap() }, m);
        }
        return;
    }
    for l in from.lids() {
        match from.l_partner(l) {
            Some(r) => one(Op::Insert { l, r }, m),
            None => one(Op::InsertLeft { l, r: 0 }, m),
        }
    }
    for r in from.rids() {
        if from.r_partner(r).is_none() {
            one(Op::InsertRight { r }, m);
        }
    }
}

/// The i-th operation of a long monotonous history
pub fn churn(kind: Kind, l: u32, r: u32, i: u32, what: u8) -> Op {
    match (kind, what % 4) {
        (_, 0) => Op::Insert { l: l + i % 2, r: r + (i / 2) % 2 },
        (Kind::Group, 1) => {
            if i % 2 == 0 {
                Op::Insert { l, r: r + (i / 2) % 2 }
            } else {
                Op::RemoveLeft { l }
            }
        }
        (_, 1) => {
            if i % 2 == 0 {
                Op::Insert { l, r }
            } else {
                Op::RemoveViaLeft { l }
            }
        }
        (Kind::Group, 2) => Op::SwapRight { how: Swap::Plain, old: r + i % 2, new: r + (i + 1) % 2, other: l },
        (_, 2) => {
            if i % 4 < 2 {
                Op::SwapLeft { how: Swap::OrInsert, old: l + i % 2, new: l + (i + 1) % 2, other: r }
            } else {
                Op::SwapRight { how: Swap::OrInsert, old: r + i % 2, new: r + (i + 1) % 2, other: l }
            }
        }
        (Kind::Partial, _) => match i % 4 {
            0 => Op::InsertLeft { l, r: 0 },
            1 => Op::InsertRight { r },
            2 => Op::Pair { l, r },
            _ => Op::Unpair { l, r },
        },
        (Kind::Group, _) => {
            if i % 2 == 0 {
                Op::InsertRemove { l, r }
            } else {
                Op::InsertRight { r: r + 1 }
            }
        }
        _ => Op::Insert { l: l + (i / 3) % 2, r: r + i % 2 },
    }
}

/// Several cursors over one map are advanced in a seeded order
fn cursors(map: &Map, model: &Model, seed: u64, len: u32, out: &mut Out) {
    struct C<'a> {
        name: Listing,
        c: Box<dyn Cursor + 'a>,
        /// What may still come
        may: Vec<Elem>,
        left: usize,
    }
    let mut rng = Rng::new(seed);
    let tags = t(6);
    let mut v: Vec<C> = vec![];
    let group = |rng: &mut Rng| -> Option<u32> {
        let r = model.rids();
        if r.is_empty() {
            None
        } else {
            Some(rng.pick(&r))
        }
    };
    for _ in 0..len {
        if v.is_empty() || (v.len() < 5 && rng.chance(1, 6)) {
            let use_group = model.kind == Kind::Group && rng.chance(1, 4);
            let (name, c) = match (use_group, group(&mut rng)) {
                (true, Some(r)) => match map.group_cursor(r) {
                    Some(c) => (Listing::Group(r), c),
                    None => {
                        out.issues.push(issue(Class::Iter, content(Kind::Group), format!("there is no group of R{r}")));
                        return;
                    }
                },
                _ => {
                    let mut cs = map.cursors();
                    let i = rng.u(cs.len());
                    cs.swap_remove(i)
                }
            };
            let may = name.expected(model);
            let left = may.len();
            v.push(C { name, c, may, left });
        }
        let i = rng.u(v.len());
        let mut fail: Option<String> = None;
        let what = rng.below(16);
        let x = &mut v[i];
        match what {
            0..=7 => {
                let e = x.c.next();
                fail = took(&mut x.may, &mut x.left, e, 0);
            }
            8 => {
                let n = rng.pick(&[0, 1, 2, 3, x.left.saturating_sub(1), x.left, x.left + 1]);
                let e = x.c.nth(n);
                fail = took(&mut x.may, &mut x.left, e, n);
            }
            9 | 10 => {
                let (n, h) = (x.c.len(), x.c.size_hint());
                if n != x.left || h != (x.left, Some(x.left)) {
                    fail = Some(format!("len() is {n} and size_hint() {h:?} with {} elements to come", x.left));
                }
            }
            11 => {
                let c = C { name: x.name, c: x.c.fork(), may: x.may.clone(), left: x.left };
                if v.len() < 8 {
                    v.push(c);
                }
            }
            12 => {
                // What it prints is what is to come. After `nth` only the number is known
                let got = verify::tokens(&x.c.debug());
                let want = verify::elem_tokens(&x.may);
                let missing = x.may.len() == x.left && got != want;
                if missing || got.iter().any(|t| !want.contains(t)) {
                    fail = Some(format!("prints {got:?} with {want:?} to come"));
                }
            }
            13 => {
                v.swap_remove(i);
            }
            14 => {
                let how = rng.next();
                let mut x = v.swap_remove(i);
                let name = x.name;
                match x.c.finish(how) {
                    Finish::Elems(es) => {
                        for e in es {
                            fail = fail.or(took(&mut x.may, &mut x.left, Some(e), 0));
                        }
                        if x.left != 0 {
                            fail = fail.or(Some(format!("ends {} elements too early", x.left)));
                        }
                    }
                    Finish::Count(n) => {
                        if n != x.left {
                            fail = Some(format!("count() is {n} with {} elements to come", x.left));
                        }
                    }
                    Finish::Last(e) => {
                        if e.is_some() != (x.left > 0) || e.is_some_and(|e| !x.may.contains(&e)) {
                            fail = Some(format!("last() is {e:?} with {} elements to come", x.left));
                        }
                    }
                }
                if let Some(f) = fail.take() {
                    out.issues.push(issue(Class::Iter, tags, format!("the iteration over {name:?} {f}")));
                    return;
                }
            }
            _ => {
                if x.left == 0 {
                    for _ in 0..3 {
                        if let Some(e) = x.c.next() {
                            fail = Some(format!("goes on with {e:?} after its end"));
                        }
                    }
                }
            }
        }
        if let Some(f) = fail {
            let name = v[i].name;
            out.issues.push(issue(Class::Iter, tags, format!("the iteration over {name:?} {f}")));
            return;
        }
    }
}

/// A cursor has skipped `n` elements and then yielded `e`
fn took(may: &mut Vec<Elem>, left: &mut usize, e: Option<Elem>, n: usize) -> Option<String> {
    match e {
        Some(e) => {
            if *left <= n {
                return Some(format!("yields {} though it should have ended", op2(e.0.map(tl), e.1.map(tr))));
            }
            *left -= n + 1;
            match may.iter().position(|x| *x == e) {
                Some(i) => {
                    may.swap_remove(i);
                    None
                }
                None => Some(format!("yields {}, which isn't among the elements to come", op2(e.0.map(tl), e.1.map(tr)))),
            }
        }
        None => {
            if *left > n {
                return Some(format!("ended with {left} elements to come"));
            }
            *left = 0;
            None
        }
    }
}

// ---- the same history with different hash functions

/// What can be observed of each step, apart from the order of iterations
pub fn trace(sc: &Scenario) -> (Vec<String>, Stats) {
    inside(sc, || {
        let mut ex = Exec::new(sc);
        let mut v = vec![];
        let mut broken = false;
        for (i, st) in sc.steps.iter().enumerate() {
            progress(i);
            let (s, b) = ex.observe_step(st);
            v.push(s);
            if b {
                broken = true;
                break;
            }
        }
        let Exec { mut stats, slots, probes, .. } = ex;
        if broken {
            std::mem::forget(slots);
        } else {
            drop(slots);
        }
        drop(probes);
        with(|c| {
            stats.calls = c.counts;
            stats.digest = c.digest;
        });
        (v, stats)
    })
}

/// Serials depend on the order of iterations; generations don't
fn unserial(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        out.push(c);
        if c == '#' {
            let mut n = 0usize;
            while let Some(d) = it.peek().and_then(|c| c.to_digit(10)) {
                n = n * 10 + d as usize;
                it.next();
            }
            let g = with(|c| c.objs.get(n).map(|o| o.gen));
            out.push_str(&g.map(|g| g.to_string()).unwrap_or("?".into()));
        }
    }
    out
}

impl Exec<'_> {
    fn observe_step(&mut self, st: &Step) -> (String, bool) {
        use std::fmt::Write;
        let si = st.slot as usize;
        let mut text = String::new();
        let usable = match self.slots.get(si).and_then(|s| s.as_ref()) {
            Some(s) => Model::supports(self.sc.kind, &st.op) && (self.sc.strict || !s.model.known_bad(&st.op)),
            None => matches!(st.op, Op::Renew { .. }) && si < self.slots.len(),
        };
        if !usable {
            return ("skipped".into(), false);
        }
        if self.slots[si].is_none() {
            self.new_slot(st.slot, 0, 3);
        }
        self.stats.steps += 1;
        *self.stats.ops.entry(st.op.name()).or_default() += 1;
        let pre = self.slots[si].as_ref().unwrap().model.clone();
        with(|c| {
            c.args.clear();
            c.log.clear();
        });
        let mut out = Out::default();
        let mut post = Post::default();
        let op = match &st.op {
            // Which allocation fails depends on how full a table is
            Op::TryReserve { side, n, .. } => Op::TryReserve { side: *side, n: *n, fail: 0 },
            // Answers through an iteration
            Op::Eq { other } => {
                let o = *other as usize % self.slots.len();
                if let Some(o) = &self.slots[o] {
                    let s = self.slots[si].as_ref().unwrap();
                    let x = catch_unwind(AssertUnwindSafe(|| (s.map.eq(&o.map), o.map.eq(&s.map))));
                    let _ = write!(text, "equal {:?}", x.map_err(|_| "panic"));
                }
                Op::Cursors { seed: 0, len: 0 }
            }
            op => op.clone(),
        };
        let st2 = Step { slot: st.slot, op, panic: None };
        let mut broken = false;
        if !matches!(st2.op, Op::Cursors { .. } | Op::Readers { .. } | Op::SaveLoad { .. }) {
            let res = catch_unwind(AssertUnwindSafe(|| self.exec(&st2, &pre, &mut out, &mut post)));
            if res.is_err() {
                broken = true;
                text.push_str("panic ");
            }
        }
        self.issues.clear();
        let mut log = with(|c| {
            c.args.clear();
            std::mem::take(&mut c.log)
        });
        log.sort_unstable();
        let mut y: Vec<String> = out.yielded.iter().map(|(l, r)| unserial(&op2(l.map(tl), r.map(tr)))).collect();
        y.sort_unstable();
        let mut groups = unserial(&out.text.clone().unwrap_or_default());
        if groups.contains('{') {
            groups = sort_groups(&groups);
        }
        let _ = write!(text, "{} returned {groups} asked {log:?} yielded {y:?}", st.op.name());
        if let Some(ok) = out.ok {
            let _ = write!(text, " ok {ok}");
        }
        for i in 0..self.slots.len() {
            let Some(s) = self.slots[i].as_mut() else { continue };
            match verify::observe(&s.map) {
                Ok(m) => s.model = m,
                Err(_) => {
                    broken = true;
                    text.push_str(" incoherent");
                    continue;
                }
            }
            let map = &self.slots[i].as_ref().unwrap().map;
            let mut rng = Rng::new(self.stats.steps ^ self.sc.seed);
            match catch_unwind(AssertUnwindSafe(|| verify::snapshot(map, &self.probes, &mut rng))) {
                Ok(s) => {
                    let _ = write!(text, "\nmap {i}: {s}");
                }
                Err(_) => {
                    broken = true;
                    text.push_str(" reading panics");
                }
            }
        }
        self.note_state(st);
        (text, broken)
    }
}

/// Sorts the members within braces
fn sort_groups(s: &str) -> String {
    let (Some(a), Some(b)) = (s.find('{'), s.find('}')) else { return s.to_string() };
    let mut v: Vec<&str> = s[a + 1..b].split(' ').collect();
    v.sort_unstable();
    format!("{}{{{}}}{}", &s[..a], v.join(" "), &s[b + 1..])
}
