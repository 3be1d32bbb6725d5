//! The seeded generator of histories. It keeps a rough model of each map, so that the arguments are relevant.
use crate::model::*;
use crate::op::*;
use crate::rng::{mix, Rng};

const N: usize = 44;
/// Weights of operations
#[derive(Clone)]
struct W([u32; N]);

macro_rules! ops {
    ($($n:ident = $i:expr),* $(,)?) => { $(const $n: usize = $i;)* };
}
ops! {
    INSERT = 0, INSERT_LEFT = 1, INSERT_RIGHT = 2, INSERT_REMOVE = 3, PAIR = 4, FORCED = 5, FORCED_REMOVE = 6, UNPAIR = 7,
    REMOVE = 8, REMOVE_LEFT = 9, REMOVE_RIGHT = 10, VIA_LEFT = 11, VIA_RIGHT = 12, SWAP_LEFT = 13, SWAP_RIGHT = 14,
    RETAIN = 15, RETAIN_P = 16, RETAIN_U = 17, DRAIN = 18, FILTER = 19, CLEAR = 20, RESERVE = 21, TRY_RESERVE = 22,
    SHRINK = 23, FIT = 24, FILL = 25, EXTEND = 26, COLLECT = 27, CLONE = 28, RENEW = 29, EQ = 30, CURSORS = 31, CHURN = 32,
    SAVE = 33, STREAM = 34, BYTES = 35, READERS = 36, DROP = 37, TWIN = 38, TYPES = 39, COST = 40, OPTIONS = 41,
    MEMORY = 42, LAWLESS = 43,
}

fn base() -> W {
    let mut w = [0; N];
    for (i, x) in [
        (INSERT, 40), (INSERT_LEFT, 14), (INSERT_RIGHT, 12), (INSERT_REMOVE, 8), (PAIR, 16), (FORCED, 9), (FORCED_REMOVE, 9), (UNPAIR, 12),
        (REMOVE, 10), (REMOVE_LEFT, 8), (REMOVE_RIGHT, 8), (VIA_LEFT, 8), (VIA_RIGHT, 8), (SWAP_LEFT, 22), (SWAP_RIGHT, 22),
    ] {
        w[i] = x;
    }
    W(w)
}
impl W {
    fn with(mut self, v: &[(usize, u32)]) -> W {
        for (i, x) in v {
            self.0[*i] = *x;
        }
        self
    }
    fn scale(mut self, num: u32, den: u32) -> W {
        for x in &mut self.0 {
            *x = *x * num / den;
        }
        self
    }
}

struct Profile {
    kinds: Vec<Kind>,
    w: W,
    slots: u8,
    /// One step in this many gets an injected panic (0: none), in these kinds of calls
    panics: u64,
    mask: u8,
    len: (u64, u64),
    /// Preferred universes
    sizes: Vec<u32>,
    /// Try to be refused
    refuse: bool,
    ends: Vec<End>,
}

const ALL_CB: u8 = 0b0101_1111;
use Kind::*;

fn profile(p: &str, rng: &mut Rng) -> Profile {
    let any = || vec![Cycle, Partial, Group];
    let two = || vec![Cycle, Partial];
    let mild = [(RETAIN, 4), (RETAIN_P, 3), (RETAIN_U, 3), (DRAIN, 1), (FILTER, 3), (CLEAR, 1), (RESERVE, 2), (TRY_RESERVE, 1), (SHRINK, 2), (FIT, 2), (EXTEND, 3), (CURSORS, 1), (TYPES, 1)];
    let mut q = Profile {
        kinds: any(),
        w: base().with(&mild),
        slots: 1,
        panics: 0,
        mask: 0,
        len: (10, 70),
        sizes: vec![2, 3, 4, 6, 6, 8, 8, 12, 12, 16, 24, 40, 120],
        refuse: false,
        ends: vec![End::Exhaust, End::Drop, End::Drop, End::Leak],
    };
    let quiet = [End::Exhaust, End::Drop];
    match p {
        "C01" => {
            q.kinds = vec![Cycle];
            q.w = q.w.with(&[(CHURN, 1)]);
        }
        "C02" => {
            q.kinds = vec![Partial];
            q.w = q.w.with(&[(CHURN, 1)]);
        }
        "C03" => {
            q.kinds = vec![Group];
            q.w = q.w.with(&[(CHURN, 1), (CLONE, 2)]);
        }
        "C04" => {
            q.w = base().with(&[(SWAP_LEFT, 34), (SWAP_RIGHT, 34), (INSERT, 44), (RETAIN, 2), (RESERVE, 2), (FIT, 1), (TYPES, 1)]);
        }
        "C05" => {
            q.w = base().with(&[(SWAP_LEFT, 40), (SWAP_RIGHT, 40), (REMOVE, 20), (UNPAIR, 18), (PAIR, 20), (RESERVE, 1), (TYPES, 1)]);
            q.refuse = true;
        }
        "C06" => {
            q.w = base().with(&mild).with(&[(CURSORS, 70), (DRAIN, 6), (FILTER, 6), (CLONE, 2)]);
            q.ends = quiet.to_vec();
        }
        "C07" => {
            q.w = base().with(&[(RETAIN, 40), (RETAIN_P, 26), (RETAIN_U, 26), (RESERVE, 2), (FIT, 2), (TYPES, 1)]);
            if rng.chance(1, 3) {
                q.panics = 6;
                q.mask = 1 << 3;
            }
        }
        "C08" => {
            q.kinds = two();
            q.w = base().with(&[(DRAIN, 40), (RESERVE, 3), (FIT, 2), (FILL, 4), (TYPES, 1)]);
            q.ends = vec![End::Exhaust, End::Drop, End::Drop, End::Leak, End::Panic];
            q.len = (10, 60);
        }
        "C09" => {
            q.kinds = two();
            q.w = base().with(&[(FILTER, 50), (RESERVE, 2), (FIT, 2), (TYPES, 1)]);
            q.ends = vec![End::Exhaust, End::Drop, End::Drop, End::Leak, End::Panic];
            q.panics = 6;
            q.mask = 1 << 3;
        }
        "C10" => {
            q.w = base().with(&mild).with(&[(CLONE, 10), (EQ, 6), (CURSORS, 3), (EXTEND, 10), (RETAIN, 8), (RETAIN_P, 6), (RETAIN_U, 6), (FILTER, 8), (DRAIN, 3), (SAVE, 3), (COLLECT, 3), (RENEW, 2)]);
            q.slots = 2;
            q.panics = 4;
            q.mask = ALL_CB;
            q.ends = vec![End::Exhaust, End::Drop, End::Panic];
        }
        "C11" => {
            q.w = base().with(&mild).with(&[(CLONE, 8), (DROP, 2), (CLEAR, 4), (DRAIN, 6), (FILTER, 6), (EXTEND, 8), (COLLECT, 6), (STREAM, 6), (BYTES, 4), (SAVE, 3), (RENEW, 3), (TYPES, 4)]);
            q.slots = 2;
            q.panics = if rng.chance(1, 2) { 6 } else { 0 };
            q.mask = ALL_CB | 1 << 7;
            q.ends = vec![End::Exhaust, End::Drop, End::Drop, End::Leak, End::Panic];
        }
        "C12" => {
            q.kinds = two();
            q.w = base().with(&[(TRY_RESERVE, 70), (FIT, 6), (SHRINK, 6), (CLEAR, 2), (RENEW, 4)]);
            q.sizes = vec![3, 6, 12, 16, 24, 40, 120, 400];
        }
        "C13" => {
            q.w = base().scale(1, 2).with(&[(INSERT, 50), (RESERVE, 24), (SHRINK, 24), (FIT, 14), (FILL, 24), (CLEAR, 6), (RENEW, 14), (DRAIN, 5), (RETAIN, 6), (RETAIN_P, 6), (EXTEND, 14), (FILTER, 3), (CLONE, 2)]);
            q.sizes = vec![3, 6, 12, 16, 24, 40, 120, 400];
            q.ends = quiet.to_vec();
            q.slots = 2;
        }
        "C14" => {
            q.w = base().with(&[(TWIN, 40), (EQ, 60), (CLONE, 10), (RETAIN, 2), (FIT, 2), (TYPES, 1)]);
            q.slots = 2;
            q.sizes = vec![2, 3, 4, 6, 8, 12, 24];
        }
        "C15" => {
            q.w = base().with(&mild).with(&[(CLONE, 34), (DROP, 6), (DRAIN, 3), (CLEAR, 3), (RENEW, 4)]);
            q.slots = 3;
            q.ends = quiet.to_vec();
            q.sizes = vec![2, 3, 4, 6, 8, 12, 24, 60];
        }
        "C16" => {
            q.kinds = vec![Cycle];
            q.w = base().with(&[(SAVE, 60), (RETAIN, 2), (EXTEND, 8), (CLEAR, 1), (DRAIN, 1)]);
            q.panics = 0;
        }
        "C17" => {
            q.kinds = vec![Cycle];
            q.w = base().with(&[(STREAM, 50), (BYTES, 40)]);
        }
        "C18" => {
            q.w = base().with(&mild).with(&[(DRAIN, 2), (CLONE, 2), (EQ, 4), (COLLECT, 2), (SAVE, 0)]);
            q.slots = 2;
            q.ends = vec![End::Exhaust];
        }
        "C19" => {
            q.w = base().scale(1, 2).with(&[(EXTEND, 50), (COLLECT, 20), (CLEAR, 2), (FIT, 2), (TYPES, 1)]);
        }
        "C20" => {
            q.w = base().with(&[(READERS, 24), (RETAIN, 2), (CLONE, 8)]);
            q.slots = 2;
            q.len = (8, 24);
            q.sizes = vec![2, 3, 4, 6, 8, 12, 20];
        }
        "C21" => {
            q.w = base().scale(1, 8).with(&[(OPTIONS, 200)]);
            q.sizes = vec![2, 4, 8];
            q.panics = 3;
            q.mask = 1 << 2 | 1 << 3 | 1 << 6;
        }
        "C22" | "C25" => {
            q.w = base().scale(1, 8).with(&[(COST, 60)]);
            q.len = (2, 4);
            q.sizes = vec![4, 8];
        }
        "C23" => {
            q.w = base().scale(1, 8).with(&[(MEMORY, 60)]);
            q.len = (2, 4);
            q.sizes = vec![4, 8];
        }
        "C24" => {
            q.w = base().scale(1, 8).with(&[(LAWLESS, 60)]);
            q.len = (4, 8);
            q.sizes = vec![4, 8];
        }
        _ => {}
    }
    if matches!(p, "C01" | "C02" | "C03" | "C04" | "C05") && rng.chance(1, 4) {
        // Histories in which some operations are interrupted
        q.panics = 8;
        q.mask = ALL_CB;
    }
    if !matches!(p, "C20" | "C21" | "C22" | "C23" | "C24" | "C25") && rng.chance(1, 8) {
        // A few kinds of operations only, more often than not one that the property is about
        let mut all: Vec<usize> = vec![];
        for (i, n) in q.w.0.iter().enumerate() {
            all.extend(std::iter::repeat(i).take(if *n > 0 { 1 + (*n as usize).isqrt() } else { 0 }));
        }
        let keep: Vec<usize> = (0..rng.range(2, 5)).map(|_| rng.pick(&all)).collect();
        for (i, n) in q.w.0.iter_mut().enumerate() {
            *n = if keep.contains(&i) { 8 } else if i == INSERT { 2 } else { 0 };
        }
        if q.panics > 0 {
            q.panics = rng.pick(&[1, 2, 3, 8]);
        }
        q.len.1 += q.len.1 / 2;
    }
    q
}

pub fn hash_plan(rng: &mut Rng) -> HashPlan {
    let mode = rng.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7]);
    HashPlan { mode, param: rng.pick(&[1, 2, 2, 3, 5, 17]), seed: rng.next() }
}

struct Gen<'a> {
    rng: &'a mut Rng,
    kind: Kind,
    u: u32,
    /// Bounds of the ids on either side
    lu: u32,
    ru: u32,
    models: Vec<Option<Model>>,
    steps: Vec<Step>,
    q: Profile,
    serial: u32,
    property: String,
    items: u64,
    big: bool,
}

pub fn scenario(property: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed);
    let q = profile(property, &mut rng);
    let kind = rng.pick(&q.kinds);
    let mut u = rng.pick(&q.sizes);
    let big = !matches!(property, "C18" | "C20" | "C21" | "C22" | "C23" | "C24" | "C25") && rng.chance(1, if property == "C16" { 60 } else { 120 });
    if big {
        // Few operations on many items
        u = rng.pick(&[260, 300, 520, 700, 1100, 1500, 2100, 5000]);
        if kind != Group && rng.chance(1, if property == "C16" { 20 } else { 40 }) {
            u = rng.pick(&[20_000, 66_000, 70_000]);
        }
    }
    let mut hash = vec![hash_plan(&mut rng)];
    if property == "C18" {
        hash = vec![HashPlan { mode: 0, param: 0, seed: rng.next() }, HashPlan { mode: 1, param: 0, seed: rng.next() }, hash_plan(&mut rng)];
        if rng.chance(1, 3) {
            hash.push(hash_plan(&mut rng));
        }
    }
    if u > 150 && hash[0].mode != 0 {
        hash[0].mode = rng.pick(&[0, 0, 5, 4]);
    }
    // Often one side has far fewer items than the other, which makes for large groups and many displacements
    let (mut lu, mut ru) = (u, u);
    if u > 3 && rng.chance(1, 3) {
        let small = rng.range(1, (u as u64 / 4).clamp(1, 6)) as u32;
        if kind == Group && rng.chance(3, 4) || rng.chance(1, 2) {
            ru = small;
        } else {
            lu = small;
        }
    }
    let salt = rng.chance(1, 2);
    let cap = rng.pick(&[0, 0, 0, 0, 1, 3, 4, 7, 8, 14, 20]);
    let slots = q.slots;
    let len = if u > 5000 { rng.range(2, 6) as usize } else if big { rng.range(4, 16) as usize } else { rng.range(q.len.0, q.len.1) as usize };
    let mut g = Gen {
        rng: &mut rng,
        kind,
        u,
        lu,
        ru,
        models: (0..slots).map(|i| (i == 0).then(|| Model::new(kind))).collect(),
        steps: vec![],
        q,
        serial: 0,
        property: property.to_string(),
        items: 0,
        big,
    };
    g.prefill(0);
    let target = g.steps.len() + len;
    while g.steps.len() < target {
        g.step();
    }
    let steps = std::mem::take(&mut g.steps);
    Scenario { property: property.to_string(), seed, kind, hash, salt, universe: u.max(2), slots, cap, steps, strict: false }
}

impl Gen<'_> {
    fn push(&mut self, slot: u8, op: Op) {
        if !Model::supports(self.kind, &op) {
            return;
        }
        let mut panic = None;
        if self.q.panics > 0 && self.rng.below(self.q.panics) == 0 && !matches!(op, Op::Readers { .. } | Op::Churn { .. } | Op::TryReserve { .. } | Op::Fill { .. } | Op::Reserve { .. } | Op::ShrinkTo { .. } | Op::ShrinkFit | Op::Renew { .. } | Op::Drop | Op::Types { .. } | Op::Cost { .. } | Op::Memory { .. } | Op::Lawless { .. }) {
            let n = match self.rng.below(4) {
                0 => 1,
                1 => self.rng.range(1, 4),
                2 => self.rng.range(1, 10),
                _ => self.rng.range(1, 30),
            };
            let mut mask = self.q.mask;
            if self.rng.chance(1, 2) {
                // One kind only
                let kinds: Vec<u8> = (0..8).filter(|i| mask & (1 << i) != 0).collect();
                mask = 1 << self.rng.pick(&kinds);
            }
            panic = Some((n as u32, mask));
        }
        self.predict(slot, &op);
        self.steps.push(Step { slot, op, panic });
    }

    /// Roughly what the operation does
    fn predict(&mut self, slot: u8, op: &Op) {
        let kind = self.kind;
        if let Op::CloneTo { dst, .. } = op {
            self.models[*dst as usize] = self.models[slot as usize].clone();
            return;
        }
        if let Op::Drop = op {
            self.models[slot as usize] = None;
            return;
        }
        if let Op::Renew { .. } = op {
            self.models[slot as usize] = Some(Model::new(kind));
            return;
        }
        let Some(m) = self.models[slot as usize].as_mut() else { return };
        self.serial += 2;
        let s = self.serial;
        match op {
            _ if m.known_bad(op) => {}
            Op::Drain { .. } | Op::Clear => m.clear(),
            Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } | Op::DrainFilter { .. } => {
                if let Some((scope, sel, when)) = m.scope(op) {
                    for e in scope {
                        if sel.hit(e.0.map(|x| x.0), e.1.map(|x| x.0)) == when {
                            m.remove_elem(&e);
                        }
                    }
                }
            }
            Op::Extend { items, .. } => {
                for i in items {
                    if let Some(op) = m.bulk_op(i) {
                        m.apply(&op, s, s + 1);
                    }
                }
            }
            Op::Collect { items, .. } => {
                m.clear();
                for i in items {
                    if let Some(op) = m.bulk_op(i) {
                        m.apply(&op, s, s + 1);
                    }
                }
            }
            Op::LoadStream { items, err_at: None, .. } => {
                m.clear();
                for (l, r) in items {
                    m.apply(&Op::Insert { l: *l, r: *r }, s, s + 1);
                }
            }
            Op::Churn { l, r, n, what } => {
                for i in n.saturating_sub(8)..*n {
                    let op = crate::run::churn(kind, *l, *r, i, *what);
                    m.apply(&op, s, s + 1);
                }
            }
            _ => {
                m.apply(op, s, s + 1);
            }
        }
    }

    fn prefill(&mut self, slot: u8) {
        let n = match self.rng.below(5) {
            2.. if self.big => self.u as u64,
            0 => 0,
            1 => self.rng.below(4),
            2 | 3 => self.rng.below(self.u as u64 + 1),
            _ => self.u as u64,
        };
        let saved = std::mem::replace(&mut self.q.panics, 0);
        if (self.u > 250 || self.rng.chance(1, 6)) && n > 0 {
            let items = self.bulk(n as usize);
            self.push(slot, Op::Extend { items, typed: false, hint: 0, abort: None });
        } else {
            for _ in 0..n {
                let (l, r) = (self.any_l(), self.any_r());
                let op = match (self.kind, self.rng.below(6)) {
                    (Kind::Partial, 0) => Op::InsertLeft { l, r },
                    (Kind::Partial | Kind::Group, 1) => Op::InsertRight { r },
                    (Kind::Group, 2 | 3) => Op::InsertLeft { l, r },
                    _ => Op::Insert { l, r },
                };
                self.push(slot, op);
            }
        }
        self.q.panics = saved;
    }

    fn bulk(&mut self, n: usize) -> Vec<(Option<u32>, Option<u32>)> {
        self.items += n as u64;
        if self.u > 5000 && self.rng.chance(2, 3) {
            // All of them are different, so that the map really gets this large
            let shift = self.rng.below(n as u64) as u32;
            return (0..n as u32).map(|i| (Some(i % self.lu), Some((i + shift) % n as u32 % self.ru))).collect();
        }
        (0..n)
            .map(|_| {
                let (l, r) = (Some(self.any_l()), Some(self.any_r()));
                match self.rng.below(8) {
                    0 => (l, None),
                    1 => (None, r),
                    2 if self.rng.chance(1, 4) => (None, None),
                    _ => (l, r),
                }
            })
            .collect()
    }

    fn any_l(&mut self) -> u32 {
        self.rng.below(self.lu as u64) as u32
    }
    fn any_r(&mut self) -> u32 {
        self.rng.below(self.ru as u64) as u32
    }
    fn l(&mut self, m: &Model) -> u32 {
        if m.nl > 0 && self.rng.chance(11, 20) {
            let v = m.lids();
            return self.rng.pick(&v);
        }
        self.any_l()
    }
    fn r(&mut self, m: &Model) -> u32 {
        if m.nr > 0 && self.rng.chance(11, 20) {
            let v = m.rids();
            return self.rng.pick(&v);
        }
        self.any_r()
    }
    fn l_in(&mut self, m: &Model) -> u32 {
        let v = m.lids();
        if v.is_empty() || self.rng.chance(1, 8) {
            return self.any_l();
        }
        self.rng.pick(&v)
    }
    fn r_in(&mut self, m: &Model) -> u32 {
        let v = m.rids();
        if v.is_empty() || self.rng.chance(1, 8) {
            return self.any_r();
        }
        self.rng.pick(&v)
    }
    fn l_out(&mut self, m: &Model) -> u32 {
        for _ in 0..6 {
            let l = self.any_l();
            if !m.has_l(l) {
                return l;
            }
        }
        self.any_l()
    }
    fn r_out(&mut self, m: &Model) -> u32 {
        for _ in 0..6 {
            let r = self.any_r();
            if !m.has_r(r) {
                return r;
            }
        }
        self.any_r()
    }
    /// A pair that is in the map, mostly
    fn pair(&mut self, m: &Model) -> (u32, u32) {
        let good = if self.q.refuse { 1 } else { 3 };
        if self.rng.chance(good, 5) {
            let v: Vec<u32> = m.lids().into_iter().filter(|l| m.l_partner(*l).is_some()).collect();
            if !v.is_empty() {
                let l = self.rng.pick(&v);
                return (l, m.l_partner(l).unwrap());
            }
        }
        match self.rng.below(4) {
            0 => (self.l_in(m), self.r_in(m)),
            1 => (self.l_in(m), self.r_out(m)),
            2 => (self.l_out(m), self.r_in(m)),
            _ => (self.any_l(), self.any_r()),
        }
    }
    fn free(&mut self, m: &Model) -> (u32, u32) {
        let ls: Vec<u32> = m.lids().into_iter().filter(|l| m.l_partner(*l).is_none()).collect();
        let rs: Vec<u32> = m.rids().into_iter().filter(|r| !m.r_is_paired(*r)).collect();
        let l = if ls.is_empty() || self.rng.chance(1, 4) { self.l_in(m) } else { self.rng.pick(&ls) };
        let r = if rs.is_empty() || self.rng.chance(1, 4) { self.r_in(m) } else { self.rng.pick(&rs) };
        (l, r)
    }
    fn sel(&mut self) -> Sel {
        Sel { seed: self.rng.next() >> 16, dens: self.rng.pick(&[0, 1, 2, 3, 4, 4, 6, 8]) }
    }

    fn step(&mut self) {
        let live: Vec<u8> = (0..self.models.len() as u8).filter(|i| self.models[*i as usize].is_some()).collect();
        if live.is_empty() {
            self.models[0] = Some(Model::new(self.kind));
            self.push(0, Op::Renew { cap: 0, hash: 1 });
            return;
        }
        let slot = self.rng.pick(&live);
        let total: u64 = self.q.w.0.iter().map(|x| *x as u64).sum();
        let mut x = self.rng.below(total);
        let mut k = 0;
        for (i, w) in self.q.w.0.iter().enumerate() {
            if x < *w as u64 {
                k = i;
                break;
            }
            x -= *w as u64;
        }
        let m = self.models[slot as usize].clone().unwrap();
        let m = &m;
        let op = match k {
            INSERT => {
                // Both halves taken by different pairs, or one, or none
                let (l, r) = match self.rng.below(6) {
                    0 => (self.l_in(m), self.r_in(m)),
                    1 => (self.l_in(m), self.r_out(m)),
                    2 => (self.l_out(m), self.r_in(m)),
                    3 => self.pair(m),
                    _ => (self.any_l(), self.any_r()),
                };
                Op::Insert { l, r }
            }
            INSERT_LEFT => {
                let l = self.l(m);
                let r = if self.q.refuse { self.r_out(m) } else { self.r_in(m) };
                Op::InsertLeft { l, r }
            }
            INSERT_RIGHT => Op::InsertRight { r: self.r(m) },
            INSERT_REMOVE => {
                let (l, r) = self.pair(m);
                Op::InsertRemove { l, r }
            }
            PAIR => {
                let (l, r) = if self.q.refuse { self.pair(m) } else { self.free(m) };
                Op::Pair { l, r }
            }
            FORCED | FORCED_REMOVE => {
                let (l, r) = if self.rng.chance(1, 4) { self.pair(m) } else { (self.l_in(m), self.r_in(m)) };
                if k == FORCED {
                    Op::PairForced { l, r }
                } else {
                    Op::PairForcedRemove { l, r }
                }
            }
            UNPAIR => {
                let (l, r) = self.pair(m);
                Op::Unpair { l, r }
            }
            REMOVE => {
                let (l, r) = self.pair(m);
                Op::Remove { l, r }
            }
            REMOVE_LEFT => Op::RemoveLeft { l: self.l(m) },
            REMOVE_RIGHT => Op::RemoveRight { r: self.r(m) },
            VIA_LEFT => Op::RemoveViaLeft { l: self.l(m) },
            VIA_RIGHT => Op::RemoveViaRight { r: self.r(m) },
            SWAP_LEFT => {
                let old = if self.q.refuse && self.rng.chance(1, 2) { self.l_out(m) } else { self.l_in(m) };
                let new = match self.rng.below(4) {
                    0 => old,
                    1 => self.l_in(m),
                    2 => self.l_out(m),
                    _ => self.any_l(),
                };
                let right = m.l_partner(old);
                let wrong = if self.q.refuse { 2 } else { 1 };
                let other = match right {
                    Some(r) if !self.rng.chance(wrong, 3) => r,
                    _ => self.r(m),
                };
                let how = self.rng.pick(&[Swap::Plain, Swap::Checked, Swap::OrInsert]);
                let how = if self.q.refuse && how == Swap::OrInsert && self.rng.chance(3, 4) { Swap::Checked } else { how };
                Op::SwapLeft { how, old, new, other }
            }
            SWAP_RIGHT => {
                let old = if self.q.refuse && self.rng.chance(1, 2) { self.r_out(m) } else { self.r_in(m) };
                let new = match self.rng.below(4) {
                    0 => old,
                    1 => self.r_in(m),
                    2 => self.r_out(m),
                    _ => self.any_r(),
                };
                let left = m.r_partner(old);
                let wrong = if self.q.refuse { 2 } else { 1 };
                let other = match left {
                    Some(l) if !self.rng.chance(wrong, 3) => l,
                    _ => self.l(m),
                };
                let how = if self.kind == Kind::Group {
                    self.rng.pick(&[Swap::Plain, Swap::Remove])
                } else {
                    self.rng.pick(&[Swap::Plain, Swap::Checked, Swap::OrInsert])
                };
                let how = if self.q.refuse && how == Swap::OrInsert && self.rng.chance(3, 4) { Swap::Checked } else { how };
                Op::SwapRight { how, old, new, other }
            }
            RETAIN => Op::Retain { sel: self.sel() },
            RETAIN_P => Op::RetainPaired { sel: self.sel() },
            RETAIN_U => Op::RetainUnpaired { sel: self.sel() },
            DRAIN | FILTER => {
                let end = {
                    let e = self.q.ends.clone();
                    self.rng.pick(&e)
                };
                let n = (m.nl + m.nr) as u64;
                let take = match self.rng.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => n,
                    _ => self.rng.below(n + 1),
                } as u32;
                if k == DRAIN {
                    Op::Drain { take, end }
                } else {
                    Op::DrainFilter { sel: self.sel(), take, end }
                }
            }
            CLEAR => Op::Clear,
            RESERVE => Op::Reserve { side: self.rng.u(2) as u8, n: self.amount() },
            TRY_RESERVE => {
                let n = match self.rng.below(8) {
                    0 => self.rng.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 8 * 7, 1 << 63, 1 << 61, 1 << 60, 1 << 54, 1 << 50, 1 << 40, 1 << 33]),
                    1 => self.rng.next(),
                    2 => self.rng.below(5000),
                    _ => self.amount() as u64,
                };
                Op::TryReserve { side: self.rng.u(2) as u8, n, fail: self.rng.pick(&[0, 0, 1, 1, 2, 2, 3, 4]) }
            }
            SHRINK => {
                let len = m.nl.max(m.nr) as u32;
                let n = match self.rng.below(5) {
                    0 => 0,
                    1 => len,
                    2 => len + self.rng.below(8) as u32,
                    3 => self.amount(),
                    _ => self.rng.below(len as u64 + 1) as u32,
                };
                Op::ShrinkTo { side: self.rng.u(2) as u8, n }
            }
            FIT => Op::ShrinkFit,
            FILL => Op::Fill { max: self.rng.pick(&[4, 16, 64, 300]) },
            EXTEND | COLLECT => {
                let n = match self.rng.below(4) {
                    0 => self.rng.below(3),
                    1 => self.rng.below(8),
                    _ => self.rng.below(2 * self.u.min(60) as u64 + 1),
                };
                let items = self.bulk(n as usize);
                let hint = match self.rng.below(7) {
                    0 => 1,
                    1 => 2,
                    2 => 3 + self.rng.below(5),
                    // No honest allocator can serve these
                    4 => u64::MAX - self.rng.below(2),
                    3 => self.rng.below(200) + 3,
                    _ => 0,
                };
                let abort = (self.property == "C19" && self.rng.chance(1, 3)).then(|| self.rng.below(n + 1) as u32);
                let typed = self.rng.chance(1, 2);
                if k == EXTEND {
                    Op::Extend { items, typed, hint, abort }
                } else {
                    Op::Collect { items, typed, hint, abort }
                }
            }
            CLONE => {
                if self.models.len() == 1 {
                    Op::CloneTo { dst: 0, assign: false }
                } else {
                    let mut dst = self.rng.u(self.models.len()) as u8;
                    if dst == slot && self.rng.chance(3, 4) {
                        dst = (dst + 1) % self.models.len() as u8;
                    }
                    Op::CloneTo { dst, assign: self.rng.chance(1, 3) }
                }
            }
            RENEW => {
                let cap = self.amount();
                let hash = self.rng.below(1 << 20);
                self.push(slot, Op::Renew { cap, hash });
                if self.rng.chance(1, 2) {
                    self.prefill(slot);
                }
                return;
            }
            TWIN => return self.twin(slot),
            EQ => {
                let other = self.rng.pick(&live);
                Op::Eq { other }
            }
            CURSORS => {
                let most = if self.u > 5000 { 8 } else { 60 };
                Op::Cursors { seed: self.rng.next() >> 16, len: self.rng.range(4, most) as u32 }
            }
            CHURN => {
                if self.u < 2 {
                    return;
                }
                let n = match self.rng.below(40) {
                    0 => 65536 + self.rng.below(3) as u32 - 1,
                    1 | 2 => 2000 + self.rng.below(4000) as u32,
                    _ => self.rng.pick(&[3, 17, 60, 127, 128, 129, 254, 255, 256, 257, 300]),
                };
                let l = self.rng.below(self.u as u64 - 1) as u32;
                let r = self.rng.below(self.u as u64 - 1) as u32;
                Op::Churn { l, r, n, what: self.rng.u(4) as u8 }
            }
            SAVE => {
                let size = 12 * (m.nl as u64) + 4;
                let mut d = Disk { seed: self.rng.next() >> 16, ..Disk::default() };
                if self.rng.chance(2, 3) {
                    d.chunk = self.rng.pick(&[1, 1, 2, 3, 7, 16, 100]);
                }
                if self.rng.chance(1, 3) {
                    d.eintr = self.rng.pick(&[1, 3, 10]);
                }
                match self.rng.below(6) {
                    0 => d.werr_at = Some((self.rng.below(size) as u32, self.rng.pick(&[WErr::Full, WErr::Io, WErr::Zero]))),
                    1 | 2 => d.crash_at = Some(self.rng.below(size) as u32),
                    3 => d.rerr_at = Some(self.rng.below(size) as u32),
                    _ => {}
                }
                d.buffered = self.rng.chance(1, 2);
                d.once = self.rng.chance(1, 2);
                let mut hash = self.rng.next() >> 16;
                if self.u > 5000 {
                    hash -= hash % 8;
                    // One byte at a time would take too long
                    d.chunk = d.chunk.max(100);
                }
                Op::SaveLoad { fmt: self.rng.pick(&[Fmt::Json, Fmt::Bin]), disk: d, hash }
            }
            STREAM => {
                let n = match self.rng.below(12) {
                    0 => 4000 + self.rng.below(3000),
                    1 => self.rng.below(400),
                    2 => 0,
                    _ => self.rng.below(2 * self.u as u64 + 2),
                };
                let distinct = n >= 4000 && self.rng.chance(1, 2);
                let items: Vec<(u32, u32)> = if distinct {
                    // Nearly all of them are new
                    (0..n).map(|i| if self.rng.chance(1, 50) { (self.any_l(), self.any_r()) } else { (i as u32, (n - i) as u32) }).collect()
                } else {
                    (0..n).map(|_| (self.any_l(), self.any_r())).collect()
                };
                let hint = match self.rng.below(8) {
                    0 => 1,
                    1 => 2,
                    2 => 2 + self.rng.below(10),
                    3 => 2 + (1 << self.rng.range(10, 62)),
                    4 => u64::MAX,
                    5 => 2 + (1 << self.rng.range(20, 34)),
                    _ => 0,
                };
                let err_at = self.rng.chance(1, 4).then(|| self.rng.below(n + 1) as u32);
                let mut hash = self.rng.next() >> 16;
                if distinct {
                    // So many items only work with a hash function that spreads them
                    hash -= hash % 8;
                    self.push(slot, Op::LoadStream { items, hint, err_at, hash });
                    self.push(slot, Op::Clear);
                    return;
                }
                Op::LoadStream { items, hint, err_at, hash }
            }
            BYTES => self.bytes(),
            READERS => Op::Readers {
                seed: self.rng.next() >> 16,
                n: self.rng.range(2, 4) as u32,
                ops: self.rng.range(2, 10) as u32,
                panics: self.rng.pick(&[0, 0, 0, 1, 2]),
                other: self.rng.u(self.models.len()) as u8,
            },
            TYPES => Op::Types { combo: self.rng.below(crate::types::COMBOS as u64) as u32, seed: self.rng.next() >> 16, len: if self.rng.chance(1, 12) { self.rng.range(300, 3000) } else { self.rng.range(5, 60) } as u32 },
            OPTIONS => Op::Options { seed: self.rng.next() >> 16, len: self.rng.range(1, 30) as u32 },
            MEMORY => {
                let n = self.rng.pick(&[3, 8, 20, 40, 60, 120, 200]);
                let most = if n <= 20 { 10_000 } else { 2500 };
                Op::Memory { seed: self.rng.next() >> 16, n, len: self.rng.pick(&[30, 100, 300, 1000, most]) }
            }
            LAWLESS => Op::Lawless { seed: self.rng.next() >> 16, n: self.rng.pick(&[1, 2, 4, 8, 16, 40]), len: self.rng.range(5, 400) as u32 },
            COST => Op::Cost { seed: self.rng.next() >> 16, n: if cfg!(steps) { if self.rng.chance(1, 30) { 24_000 } else { self.rng.pick(&[64, 1000, 4000, 8000, 8000, 12_000]) } } else { self.rng.pick(&[64, 200, 400, 1000, 2000, 2000, 5000]) }, len: if self.rng.chance(1, 8) { 1200 } else { self.rng.range(50, 400) as u32 } },
            DROP => Op::Drop,
            _ => return,
        };
        self.push(slot, op);
    }

    fn amount(&mut self) -> u32 {
        if self.rng.chance(1, 40) {
            // Of any order of magnitude
            let top = 1u64 << self.rng.range(10, 17);
            return (top + self.rng.below(top)) as u32;
        }
        match self.rng.below(6) {
            0 => 0,
            1 => self.rng.pick(&[1, 3, 4, 7, 8, 14, 15, 28, 29, 56, 57, 112, 113]),
            2 => self.rng.below(1000) as u32,
            _ => self.rng.below(40) as u32,
        }
    }

    fn bytes(&mut self) -> Op {
        let fmt = self.rng.pick(&[Fmt::Json, Fmt::Bin]);
        let n = self.rng.below(12);
        let items: Vec<(u32, u32)> = (0..n).map(|_| (self.any_l(), self.any_r())).collect();
        let mut bytes = match fmt {
            Fmt::Json => {
                let v: Vec<String> = items.iter().map(|(l, r)| format!("[{l},{r}]")).collect();
                format!("[{}]", v.join(",")).into_bytes()
            }
            Fmt::Bin => {
                let mut v = (n as u64).to_le_bytes().to_vec();
                for (l, r) in &items {
                    v.extend(l.to_le_bytes());
                    v.extend(r.to_le_bytes());
                }
                v
            }
        };
        for _ in 0..self.rng.below(3) {
            if bytes.is_empty() {
                break;
            }
            let i = self.rng.u(bytes.len());
            match self.rng.below(5) {
                0 => bytes.truncate(i),
                1 => bytes[i] ^= 1 << self.rng.below(8),
                2 => bytes.insert(i, self.rng.pick(&[b'[', b']', b',', b'1', b' ', b'"', 0, 255])),
                3 => {
                    bytes.remove(i);
                }
                _ => {
                    if fmt == Fmt::Bin && bytes.len() >= 8 {
                        // The announced length
                        let k = self.rng.u(8);
                        bytes[k] = self.rng.pick(&[0, 1, 0x7f, 0xff]);
                    } else {
                        bytes[i] = self.rng.pick(b"0123456789[],");
                    }
                }
            }
        }
        let len = bytes.len() as u64;
        Op::LoadBytes {
            fmt,
            bytes,
            chunk: self.rng.pick(&[0, 1, 3, 16]),
            rerr_at: self.rng.chance(1, 6).then(|| self.rng.below(len + 1) as u32),
            hash: self.rng.next() >> 16,
        }
    }

    /// Builds another map with (nearly) the same contents, in another way
    fn twin(&mut self, slot: u8) {
        let other = (slot + 1) % self.models.len() as u8;
        let m = self.models[slot as usize].clone().unwrap();
        let (cap, hash) = (self.rng.pick(&[0, 0, 8, 30]), self.rng.below(1 << 20));
        self.push(other, Op::Renew { cap, hash });
        let mut ops: Vec<Op> = vec![];
        for l in m.lids() {
            match (m.l_partner(l), self.kind) {
                (Some(r), Kind::Partial) if m.nl + m.nr <= 200 && self.rng.chance(1, 2) => {
                    ops.push(Op::InsertLeft { l, r });
                    ops.push(Op::InsertRight { r });
                }
                (Some(r), _) => ops.push(Op::Insert { l, r }),
                (None, _) => ops.push(Op::InsertLeft { l, r: 0 }),
            }
        }
        for r in m.rids() {
            if !m.r_is_paired(r) {
                ops.push(Op::InsertRight { r });
            }
        }
        for i in (1..ops.len()).rev() {
            let j = self.rng.u(i + 1);
            ops.swap(i, j);
        }
        // Noise that is undone
        if self.rng.chance(1, 2) {
            for _ in 0..self.rng.below(4) {
                let (l, r) = (self.any_l(), self.any_r());
                self.push(other, Op::Insert { l, r });
            }
            match self.kind {
                Kind::Cycle => self.push(other, Op::Retain { sel: Sel { seed: 0, dens: 0 } }),
                _ => self.push(other, Op::Clear),
            }
        }
        if ops.len() > 200 {
            let items: Vec<_> = ops
                .iter()
                .filter_map(|op| match op {
                    Op::Insert { l, r } => Some((Some(*l), Some(*r))),
                    Op::InsertLeft { l, .. } => Some((Some(*l), None)),
                    Op::InsertRight { r } => Some((None, Some(*r))),
                    _ => None,
                })
                .collect();
            self.push(other, Op::Extend { items, typed: self.kind != Kind::Cycle, hint: 0, abort: None });
        } else {
            for op in ops {
                self.push(other, op);
            }
        }
        if self.kind == Kind::Partial && m.nl + m.nr > 200 {
            let ls: Vec<u32> = m.lids().into_iter().filter(|l| m.l_partner(*l).is_some()).collect();
            for _ in 0..self.rng.below(4) {
                if !ls.is_empty() {
                    let l = self.rng.pick(&ls);
                    self.push(other, Op::PairForced { l, r: m.l_partner(l).unwrap() });
                }
            }
        } else if self.kind == Kind::Partial {
            for l in m.lids() {
                if let Some(r) = m.l_partner(l) {
                    self.push(other, Op::Pair { l, r });
                }
            }
        }
        self.push(slot, Op::Eq { other });
        // Two pairs with exchanged partners
        let m = self.models[other as usize].clone().unwrap();
        if self.rng.chance(1, 3) {
            let (l, r) = self.pair(&m);
            let (l2, r2) = self.pair(&m);
            if l != l2 && r != r2 && m.l_partner(l) == Some(r) && m.l_partner(l2) == Some(r2) {
                let last = match self.kind {
                    Kind::Cycle => {
                        self.push(other, Op::Insert { l, r: r2 });
                        Op::Insert { l: l2, r }
                    }
                    Kind::Partial => {
                        self.push(other, Op::PairForced { l, r: r2 });
                        Op::PairForced { l: l2, r }
                    }
                    Kind::Group => {
                        self.push(other, Op::Pair { l, r: r2 });
                        Op::Pair { l: l2, r }
                    }
                };
                self.push(other, last);
                self.push(slot, Op::Eq { other });
                return;
            }
        }
        // One difference, or some
        for _ in 0..self.rng.pick(&[1, 1, 1, 2, 3]) {
            self.differ(other);
        }
        self.push(slot, Op::Eq { other });
    }

    fn differ(&mut self, other: u8) {
        let m = self.models[other as usize].clone().unwrap();
        let (l, r) = self.pair(&m);
        let (l2, r2) = (self.any_l(), self.any_r());
        let op = match (self.kind, self.rng.below(9)) {
            (_, 0) => Op::Insert { l, r: r2 },
            (_, 1) => Op::Insert { l: l2, r },
            (Kind::Partial, 2 | 3) => Op::Unpair { l, r },
            (Kind::Partial, 4) => Op::InsertLeft { l: l2, r: 0 },
            (Kind::Partial | Kind::Group, 5) => Op::InsertRight { r: r2 },
            (Kind::Partial, 6) => Op::PairForced { l: l2, r },
            (Kind::Group, 2 | 3) => Op::InsertLeft { l, r: self.r_in(&m) },
            (Kind::Group, 4) => Op::RemoveLeft { l },
            (Kind::Partial, 7) => Op::RemoveLeft { l },
            (Kind::Partial | Kind::Group, 8) => Op::RemoveRight { r },
            (Kind::Cycle, 2 | 3) => Op::SwapLeft { how: Swap::Plain, old: l, new: l2, other: r },
            (Kind::Cycle, 4 | 5) => Op::SwapRight { how: Swap::Plain, old: r, new: r2, other: l },
            _ => Op::Remove { l, r },
        };
        self.push(other, op);
    }
}

pub fn run_seed(property: &str, seed: u64, i: u64) -> u64 {
    let p = property.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    mix(mix(mix(seed) ^ p) ^ i)
}
