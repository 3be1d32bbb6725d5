//! The three real map types behind one interface.
use crate::ctx::*;
use crate::issue::*;
use crate::model::*;
use crate::op::*;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use std::cell::Cell;
use std::fmt;
use std::mem;
use std::panic::panic_any;
use std::rc::Rc;
use OptionalPair::*;

pub type L = Key<0>;
pub type R = Key<1>;
pub type S = ahash::RandomState;
pub type LP = Probe<0>;
pub type RP = Probe<1>;

pub enum Map {
    C(CycleMap<L, R, S>),
    P(PartialCycleMap<L, R, S>),
    G(GroupMap<L, R, S>),
}
pub use Map::{C, G, P};

pub fn kl(k: &L) -> (u32, u32) {
    (k.id(), k.serial)
}
pub fn kr(k: &R) -> (u32, u32) {
    (k.id(), k.serial)
}

/// Everything a call reports; it survives a panic of the call
#[derive(Default)]
pub struct Out {
    pub text: Option<String>,
    /// Serials of the owned objects that were handed back
    pub objs: Vec<u32>,
    pub yielded: Vec<Elem>,
    pub issues: Vec<Issue>,
    /// Elements a source delivered (bulk operations)
    pub delivered: usize,
    /// What a capacity operation answered
    pub ok: Option<bool>,
    pub injected_alloc: bool,
}

// ---- texts of results. `o` collects the owned objects

trait Tok {
    fn tok(&self, o: &mut Vec<u32>) -> String;
}
impl Tok for L {
    fn tok(&self, o: &mut Vec<u32>) -> String {
        o.push(self.serial);
        tl(kl(self))
    }
}
impl Tok for R {
    fn tok(&self, o: &mut Vec<u32>) -> String {
        o.push(self.serial);
        tr(kr(self))
    }
}
impl Tok for &L {
    fn tok(&self, _: &mut Vec<u32>) -> String {
        tl(kl(self))
    }
}
impl Tok for &R {
    fn tok(&self, _: &mut Vec<u32>) -> String {
        tr(kr(self))
    }
}
impl Tok for bool {
    fn tok(&self, _: &mut Vec<u32>) -> String {
        self.to_string()
    }
}
impl<A: Tok, B: Tok> Tok for (A, B) {
    fn tok(&self, o: &mut Vec<u32>) -> String {
        let a = self.0.tok(o);
        format!("({a},{})", self.1.tok(o))
    }
}
impl<A: Tok> Tok for Option<A> {
    fn tok(&self, o: &mut Vec<u32>) -> String {
        opt(self.as_ref().map(|x| x.tok(o)))
    }
}
impl<A: Tok + Eq, B: Tok + Eq> Tok for OptionalPair<A, B> {
    fn tok(&self, o: &mut Vec<u32>) -> String {
        match self {
            Neither => op2(None, None),
            SomeLeft(a) => op2(Some(a.tok(o)), None),
            SomeRight(b) => op2(None, Some(b.tok(o))),
            SomeBoth(a, b) => {
                let a = a.tok(o);
                op2(Some(a), Some(b.tok(o)))
            }
        }
    }
}
fn group_tok<'a>(set: impl Iterator<Item = &'a L>, r: &R, o: &mut Vec<u32>) -> String {
    let v: Vec<_> = set.map(kl).collect();
    o.extend(v.iter().map(|x| x.1));
    o.push(r.serial);
    set_text(v, kr(r))
}

macro_rules! call {
    ($out:expr, $e:expr) => {{
        let out = &mut *$out;
        lib(|| {
            let ret = $e;
            sim(|| out.text = Some(ret.tok(&mut out.objs)));
            drop(ret);
        })
    }};
}

pub fn mk<const X: usize>(id: u32) -> Key<X> {
    Key::new(id)
}

// ---- sources of bulk operations

pub struct Feed {
    pub items: Vec<(Option<u32>, Option<u32>)>,
    pub pos: usize,
    pub hint: u64,
    pub abort: Option<u32>,
    pub delivered: Rc<Cell<usize>>,
}
impl Feed {
    fn step(&mut self) -> Option<(Option<L>, Option<R>)> {
        sim(|| {
            callback(Cb::Source, 0, self.pos as u32, true);
            if self.abort == Some(self.pos as u32) {
                with(|c| {
                    c.fired = Some(Cb::Source);
                    c.fired_total += 1;
                });
                self.abort = None;
                panic_any(Injected);
            }
            let (l, r) = *self.items.get(self.pos)?;
            self.pos += 1;
            with(|c| c.args.clear());
            let e = (l.map(mk::<0>), r.map(mk::<1>));
            self.delivered.set(self.pos);
            Some(e)
        })
    }
    fn hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.pos;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(0)),
            h if h > 1 << 20 => (usize::MAX, None),
            h => (h as usize, Some(h as usize)),
        }
    }
}
pub struct Pairs(pub Feed);
impl Iterator for Pairs {
    type Item = (L, R);
    fn next(&mut self) -> Option<(L, R)> {
        let (l, r) = self.0.step()?;
        Some((l.unwrap(), r.unwrap()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
pub struct Opts(pub Feed);
impl Iterator for Opts {
    type Item = OptionalPair<L, R>;
    fn next(&mut self) -> Option<Self::Item> {
        let (l, r) = self.0.step()?;
        Some(match (l, r) {
            (None, None) => Neither,
            (Some(l), None) => SomeLeft(l),
            (None, Some(r)) => SomeRight(r),
            (Some(l), Some(r)) => SomeBoth(l, r),
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
pub struct Groups(pub Feed);
impl Iterator for Groups {
    type Item = (Option<L>, R);
    fn next(&mut self) -> Option<Self::Item> {
        let (l, r) = self.0.step()?;
        Some((l, r.unwrap()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}

/// The element types a bulk operation can deliver to this kind of map
pub fn bulk_items(kind: Kind, items: &[(Option<u32>, Option<u32>)], typed: bool) -> Vec<(Option<u32>, Option<u32>)> {
    items
        .iter()
        .copied()
        .filter(|i| match (kind, typed) {
            (Kind::Cycle, _) | (_, false) => i.0.is_some() && i.1.is_some(),
            (Kind::Partial, true) => true,
            (Kind::Group, true) => i.1.is_some(),
        })
        .collect()
}

pub const FRESH: u32 = 1_000_000;

impl Map {
    pub fn new(kind: Kind, cap: u32, h: S) -> Map {
        lib(|| match (kind, cap) {
            (Kind::Cycle, 0) => C(CycleMap::with_hasher(h)),
            (Kind::Partial, 0) => P(PartialCycleMap::with_hasher(h)),
            (Kind::Group, 0) => G(GroupMap::with_hasher(h)),
            (Kind::Cycle, n) => C(CycleMap::with_capacity_and_hasher(n as usize, h)),
            (Kind::Partial, n) => P(PartialCycleMap::with_capacity_and_hasher(n as usize, h)),
            (Kind::Group, n) => G(GroupMap::with_capacity_and_hasher(n as usize, h)),
        })
    }
    /// Without a hasher of our own: through `new` or `with_capacity`
    pub fn new_default(kind: Kind, cap: u32, plain: bool) -> Map {
        lib(|| match (kind, cap) {
            (Kind::Cycle, 0) if plain => C(Default::default()),
            (Kind::Partial, 0) if plain => P(Default::default()),
            (Kind::Group, 0) if plain => G(Default::default()),
            (Kind::Cycle, 0) => C(CycleMap::new()),
            (Kind::Partial, 0) => P(PartialCycleMap::new()),
            (Kind::Group, 0) => G(GroupMap::new()),
            (Kind::Cycle, n) => C(CycleMap::with_capacity(n as usize)),
            (Kind::Partial, n) => P(PartialCycleMap::with_capacity(n as usize)),
            (Kind::Group, n) => G(GroupMap::with_capacity(n as usize)),
        })
    }
    pub fn kind(&self) -> Kind {
        match self {
            C(_) => Kind::Cycle,
            P(_) => Kind::Partial,
            G(_) => Kind::Group,
        }
    }
    pub fn hash_cfg(&self) -> ahash::HashCfg {
        match self {
            C(m) => m.hasher().cfg(),
            P(m) => m.hasher().cfg(),
            G(m) => m.hasher().cfg(),
        }
    }
    pub fn len(&self) -> (usize, usize) {
        match self {
            C(m) => (m.len(), m.len()),
            P(m) => (m.len_left(), m.len_right()),
            G(m) => (m.len_left(), m.len_right()),
        }
    }
    pub fn is_empty(&self) -> bool {
        match self {
            C(m) => m.is_empty(),
            P(m) => m.is_empty(),
            G(m) => m.is_empty(),
        }
    }
    pub fn capacity(&self) -> (usize, usize) {
        match self {
            C(m) => (m.capacity(), m.capacity()),
            P(m) => (m.capacity_left(), m.capacity_right()),
            G(m) => (m.capacity_left(), m.capacity_right()),
        }
    }
    pub fn has_l(&self, k: &L) -> bool {
        match self {
            C(m) => m.contains_left(k),
            P(m) => m.contains_left(k),
            G(m) => m.contains_left(k),
        }
    }
    pub fn has_r(&self, k: &R) -> bool {
        match self {
            C(m) => m.contains_right(k),
            P(m) => m.contains_right(k),
            G(m) => m.contains_right(k),
        }
    }
    pub fn are_paired(&self, l: &L, r: &R) -> bool {
        match self {
            C(m) => m.are_paired(l, r),
            P(m) => m.are_paired(l, r),
            G(m) => m.are_paired(l, r),
        }
    }
    pub fn l_paired(&self, k: &L) -> Option<bool> {
        match self {
            P(m) => Some(m.is_left_paired(k)),
            _ => None,
        }
    }
    pub fn r_paired(&self, k: &R) -> Option<bool> {
        match self {
            C(_) => None,
            P(m) => Some(m.is_right_paired(k)),
            G(m) => Some(m.is_right_paired(k)),
        }
    }
    /// The right item of a left one
    pub fn right_of(&self, l: &L) -> Option<(u32, u32)> {
        match self {
            C(m) => m.get_right(l),
            P(m) => m.get_right(l),
            G(m) => m.get_right(l),
        }
        .map(kr)
    }
    pub fn right_of_probe(&self, l: &LP) -> Option<(u32, u32)> {
        match self {
            C(m) => m.get_right(l),
            P(m) => m.get_right(l),
            G(m) => m.get_right(l),
        }
        .map(kr)
    }
    /// The left items of a right one; `None` if the group map doesn't know the right item
    pub fn left_of(&self, r: &R) -> Option<Vec<(u32, u32)>> {
        match self {
            C(m) => m.get_left(r).map(|x| vec![kl(x)]),
            P(m) => m.get_left(r).map(|x| vec![kl(x)]),
            G(m) => m.get_left_iter(r).map(|i| i.map(kl).collect()),
        }
    }
    pub fn left_of_probe(&self, r: &RP) -> Option<Vec<(u32, u32)>> {
        match self {
            C(m) => m.get_left(r).map(|x| vec![kl(x)]),
            P(m) => m.get_left(r).map(|x| vec![kl(x)]),
            G(m) => m.get_left_iter(r).map(|i| i.map(kl).collect()),
        }
    }
    pub fn eq(&self, o: &Map) -> bool {
        match (self, o) {
            (C(a), C(b)) => a == b,
            (P(a), P(b)) => a == b,
            (G(a), G(b)) => a == b,
            _ => unreachable!(),
        }
    }
    pub fn ne(&self, o: &Map) -> bool {
        match (self, o) {
            (C(a), C(b)) => a != b,
            (P(a), P(b)) => a != b,
            (G(a), G(b)) => a != b,
            _ => unreachable!(),
        }
    }
    pub fn clone(&self) -> Map {
        match self {
            C(m) => C(m.clone()),
            P(m) => P(m.clone()),
            G(m) => G(m.clone()),
        }
    }
    pub fn clone_from(&mut self, o: &Map) {
        match (self, o) {
            (C(a), C(b)) => a.clone_from(b),
            (P(a), P(b)) => a.clone_from(b),
            (G(a), G(b)) => a.clone_from(b),
            _ => unreachable!(),
        }
    }
    pub fn debug(&self) -> String {
        match self {
            C(m) => format!("{m:?}"),
            P(m) => format!("{m:?}"),
            G(m) => format!("{m:?}"),
        }
    }

    /// All iterations: (name, expected elements, cursor)
    pub fn cursors<'a>(&'a self) -> Vec<(Listing, Box<dyn Cursor + 'a>)> {
        fn c<'a, I, F>(i: I, f: F) -> Box<dyn Cursor + 'a>
        where
            I: Iterator + ExactSizeIterator + Clone + fmt::Debug + 'a,
            F: Fn(I::Item) -> Elem + Copy + 'a,
        {
            Box::new(Cur { it: i, f })
        }
        match self {
            C(m) => vec![
                (Listing::All, c(m.iter(), |(l, r)| (Some(kl(l)), Some(kr(r))))),
                (Listing::Lefts, c(m.iter_left(), |l| (Some(kl(l)), None))),
                (Listing::Rights, c(m.iter_right(), |r| (None, Some(kr(r))))),
            ],
            P(m) => vec![
                (Listing::All, c(m.iter(), op_elem)),
                (Listing::Pairs, c(m.iter_paired(), |(l, r)| (Some(kl(l)), Some(kr(r))))),
                (Listing::Unpaired, c(m.iter_unpaired(), op_elem)),
                (Listing::Lefts, c(m.iter_left(), |l| (Some(kl(l)), None))),
                (Listing::Rights, c(m.iter_right(), |r| (None, Some(kr(r))))),
            ],
            G(m) => vec![
                (Listing::All, c(m.iter(), |(l, r)| (l.map(kl), Some(kr(r))))),
                (Listing::Pairs, c(m.iter_paired(), |(l, r)| (Some(kl(l)), Some(kr(r))))),
                (Listing::UnpairedR, c(m.iter_unpaired(), |r| (None, Some(kr(r))))),
                (Listing::Lefts, c(m.iter_left(), |l| (Some(kl(l)), None))),
                (Listing::Rights, c(m.iter_right(), |r| (None, Some(kr(r))))),
            ],
        }
    }
    /// The iteration over the group of a right item
    pub fn group_cursor<'a>(&'a self, r: u32) -> Option<Box<dyn Cursor + 'a>> {
        match self {
            G(m) => m
                .get_left_iter(&RP { id: r })
                .map(|i| Box::new(Cur { it: i, f: |l| (Some(kl(l)), None) }) as Box<dyn Cursor + 'a>),
            _ => None,
        }
    }

    /// Executes an operation on single items
    pub fn single(&mut self, op: &Op, out: &mut Out) {
        // Objects passed by value are made first, in the order that `Model::apply` expects
        match (self, op) {
            (C(m), Op::Insert { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.insert(l, r))
            }
            (P(m), Op::Insert { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                lib(|| {
                    let ret = m.insert(l, r);
                    sim(|| {
                        let a = ret.0.tok(&mut out.objs);
                        out.text = Some(format!("{a};{}", ret.1.tok(&mut out.objs)))
                    });
                    drop(ret);
                })
            }
            (G(m), Op::Insert { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                lib(|| m.insert(l, r));
                out.text = Some("()".into());
            }
            (P(m), Op::InsertLeft { l, .. }) => {
                let l = mk(*l);
                call!(out, m.insert_left(l))
            }
            (G(m), Op::InsertLeft { l, r }) => {
                let l = mk(*l);
                let r = mk(*r);
                call!(out, m.insert_left(l, &r))
            }
            (P(m), Op::InsertRight { r }) => {
                let r = mk(*r);
                call!(out, m.insert_right(r))
            }
            (G(m), Op::InsertRight { r }) => {
                let r = mk(*r);
                lib(|| {
                    let ret = m.insert_right(r);
                    sim(|| out.text = Some(opt(ret.as_ref().map(|(s, r)| group_tok(s.iter(), r, &mut out.objs)))));
                    drop(ret);
                })
            }
            (G(m), Op::InsertRemove { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                lib(|| {
                    let ret = m.insert_remove(l, r);
                    sim(|| {
                        let a = ret.0.tok(&mut out.objs);
                        let b = opt(ret.1.as_ref().map(|(s, r)| group_tok(s.iter(), r, &mut out.objs)));
                        out.text = Some(format!("{a};{b}"));
                    });
                    drop(ret);
                })
            }
            (P(m), Op::Pair { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.pair(&l, &r))
            }
            (G(m), Op::Pair { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.pair(&l, &r))
            }
            (P(m), Op::PairForced { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.pair_forced(&l, &r))
            }
            (P(m), Op::PairForcedRemove { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.pair_forced_remove(&l, &r))
            }
            (P(m), Op::Unpair { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.unpair(&l, &r))
            }
            (C(m), Op::Remove { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.remove(&l, &r))
            }
            (P(m), Op::Remove { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                call!(out, m.remove(&l, &r))
            }
            (G(m), Op::Remove { l, r }) => {
                let (l, r) = (mk(*l), mk(*r));
                lib(|| {
                    let ret = m.remove(&l, &r);
                    sim(|| out.text = Some(opt(ret.as_ref().map(|(s, r)| group_tok(s.iter(), r, &mut out.objs)))));
                    drop(ret);
                })
            }
            (P(m), Op::RemoveLeft { l }) => {
                let l = mk(*l);
                call!(out, m.remove_left(&l))
            }
            (G(m), Op::RemoveLeft { l }) => {
                let l = mk(*l);
                call!(out, m.remove_left(&l))
            }
            (P(m), Op::RemoveRight { r }) => {
                let r = mk(*r);
                call!(out, m.remove_right(&r))
            }
            (G(m), Op::RemoveRight { r }) => {
                let r = mk(*r);
                lib(|| {
                    let ret = m.remove_right(&r);
                    sim(|| out.text = Some(opt(ret.as_ref().map(|(s, r)| group_tok(s.iter(), r, &mut out.objs)))));
                    drop(ret);
                })
            }
            (C(m), Op::RemoveViaLeft { l }) => {
                let l = mk(*l);
                call!(out, m.remove_via_left(&l))
            }
            (P(m), Op::RemoveViaLeft { l }) => {
                let l = mk(*l);
                call!(out, m.remove_via_left(&l))
            }
            (C(m), Op::RemoveViaRight { r }) => {
                let r = mk(*r);
                call!(out, m.remove_via_right(&r))
            }
            (P(m), Op::RemoveViaRight { r }) => {
                let r = mk(*r);
                call!(out, m.remove_via_right(&r))
            }
            (C(m), Op::SwapLeft { how, old, new, other }) => {
                let new = mk(*new);
                match how {
                    Swap::OrInsert => {
                        let ins = mk(*other);
                        let old = mk(*old);
                        call!(out, m.swap_left_or_insert(&old, new, ins))
                    }
                    Swap::Checked => {
                        let (old, exp) = (mk(*old), mk(*other));
                        call!(out, m.swap_left_checked(&old, &exp, new))
                    }
                    _ => {
                        let old = mk(*old);
                        call!(out, m.swap_left(&old, new))
                    }
                }
            }
            (P(m), Op::SwapLeft { how, old, new, other }) => {
                let new = mk(*new);
                match how {
                    Swap::OrInsert => {
                        let ins = mk(*other);
                        let old = mk(*old);
                        call!(out, m.swap_left_or_insert(&old, new, ins))
                    }
                    Swap::Checked => {
                        let (old, exp) = (mk(*old), mk(*other));
                        call!(out, m.swap_left_checked(&old, &exp, new))
                    }
                    _ => {
                        let old = mk(*old);
                        call!(out, m.swap_left(&old, new))
                    }
                }
            }
            (C(m), Op::SwapRight { how, old, new, other }) => {
                let new = mk(*new);
                match how {
                    Swap::OrInsert => {
                        let ins = mk(*other);
                        let old = mk(*old);
                        call!(out, m.swap_right_or_insert(&old, new, ins))
                    }
                    Swap::Checked => {
                        let (old, exp) = (mk(*old), mk(*other));
                        call!(out, m.swap_right_checked(&old, &exp, new))
                    }
                    _ => {
                        let old = mk(*old);
                        call!(out, m.swap_right(&old, new))
                    }
                }
            }
            (P(m), Op::SwapRight { how, old, new, other }) => {
                let new = mk(*new);
                match how {
                    Swap::OrInsert => {
                        let ins = mk(*other);
                        let old = mk(*old);
                        call!(out, m.swap_right_or_insert(&old, new, ins))
                    }
                    Swap::Checked => {
                        let (old, exp) = (mk(*old), mk(*other));
                        call!(out, m.swap_right_checked(&old, &exp, new))
                    }
                    _ => {
                        let old = mk(*old);
                        call!(out, m.swap_right(&old, new))
                    }
                }
            }
            (G(m), Op::SwapRight { how: Swap::Remove, old, new, .. }) => {
                let new = mk(*new);
                let old = mk(*old);
                call!(out, m.swap_right_remove(&old, new))
            }
            (G(m), Op::SwapRight { old, new, .. }) => {
                let new = mk(*new);
                let old = mk(*old);
                lib(|| m.swap_right(&old, new));
                out.text = Some("()".into());
            }
            _ => {}
        }
    }

    pub fn retain(&mut self, op: &Op) {
        fn ask(sel: &Sel, l: Option<&L>, r: Option<&R>) -> bool {
            sim(|| {
                let (l, r) = (l.map(|x| x.id()), r.map(|x| x.id()));
                with(|c| c.log.push((l, r)));
                callback(Cb::Closure, 0, l.or(r).unwrap_or(0), true);
                sel.hit(l, r)
            })
        }
        fn ask_op(sel: &Sel, e: &OptionalPair<&L, &R>) -> bool {
            ask(sel, e.get_left().copied(), e.get_right().copied())
        }
        match (self, op) {
            (C(m), Op::Retain { sel }) => lib(|| m.retain(|l, r| ask(sel, Some(l), Some(r)))),
            (P(m), Op::Retain { sel }) => lib(|| m.retain(|e| ask_op(sel, e))),
            (P(m), Op::RetainPaired { sel }) => lib(|| m.retain_paired(|l, r| ask(sel, Some(l), Some(r)))),
            (P(m), Op::RetainUnpaired { sel }) => lib(|| m.retain_unpaired(|e| ask_op(sel, e))),
            (G(m), Op::RetainPaired { sel }) => lib(|| m.retain_paired(|l, r| ask(sel, Some(l), Some(r)))),
            (G(m), Op::RetainUnpaired { sel }) => lib(|| m.retain_unpaired(|r| ask(sel, None, Some(r)))),
            _ => {}
        }
    }

    /// `total`: how many elements the map has
    pub fn drain(&mut self, take: u32, end: End, total: usize, out: &mut Out) {
        match self {
            C(m) => {
                let d = lib(|| m.drain());
                consume(d, take, end, Some(total), |d| d.len(), |(l, r)| (Some(kl(l)), Some(kr(r))), out, t(6) | t(8))
            }
            P(m) => {
                let d = lib(|| m.drain());
                consume(d, take, end, Some(total), |d| d.len(), own_elem, out, t(6) | t(8))
            }
            G(_) => {}
        }
    }
    pub fn drain_filter(&mut self, sel: Sel, take: u32, end: End, total: usize, out: &mut Out) {
        fn ask(sel: &Sel, l: Option<&L>, r: Option<&R>) -> bool {
            sim(|| {
                let (l, r) = (l.map(|x| x.id()), r.map(|x| x.id()));
                with(|c| c.log.push((l, r)));
                callback(Cb::Closure, 0, l.or(r).unwrap_or(0), true);
                sel.hit(l, r)
            })
        }
        match self {
            C(m) => {
                let d = lib(|| m.drain_filter(|l, r| ask(&sel, Some(l), Some(r))));
                consume(d, take, end, None, |_| total, |(l, r)| (Some(kl(l)), Some(kr(r))), out, t(6) | t(9))
            }
            P(m) => {
                let d = lib(|| {
                    m.drain_filter(|e| match e {
                        Neither => false,
                        SomeLeft(l) => ask(&sel, Some(l), None),
                        SomeRight(r) => ask(&sel, None, Some(r)),
                        SomeBoth(l, r) => ask(&sel, Some(l), Some(r)),
                    })
                });
                consume(d, take, end, None, |_| total, own_elem, out, t(6) | t(9))
            }
            G(_) => {}
        }
    }

    pub fn clear(&mut self) {
        lib(|| match self {
            C(m) => m.clear(),
            P(m) => m.clear(),
            G(m) => m.clear(),
        })
    }
    pub fn reserve(&mut self, side: u8, n: usize) {
        lib(|| match (self, side) {
            (C(m), _) => m.reserve(n),
            (P(m), 0) => m.reserve_left(n),
            (P(m), _) => m.reserve_right(n),
            _ => {}
        })
    }
    pub fn try_reserve(&mut self, side: u8, n: usize, fail: u32, out: &mut Out) {
        let mut w = win();
        let failed = w.failed;
        w.fail_at = fail;
        w.limit = w.live + (64 << 20);
        set_win(w);
        let res = lib(|| {
            match (self, side) {
                (C(m), _) => m.try_reserve(n),
                (P(m), 0) => m.try_reserve_left(n),
                (P(m), _) => m.try_reserve_right(n),
                _ => Ok(()),
            }
            .is_ok()
        });
        let mut w = win();
        w.fail_at = 0;
        w.limit = 0;
        out.injected_alloc = w.failed > failed;
        set_win(w);
        out.ok = Some(res);
    }
    pub fn shrink_to(&mut self, side: u8, n: usize) {
        lib(|| match (self, side) {
            (C(m), _) => m.shrink_to(n),
            (P(m), 0) => m.shrink_to_left(n),
            (P(m), _) => m.shrink_to_right(n),
            _ => {}
        })
    }
    pub fn shrink_fit(&mut self) {
        lib(|| match self {
            C(m) => m.shrink_to_fit(),
            P(m) => m.shrink_to_fit(),
            G(_) => {}
        })
    }

    /// Adds up to `max` new elements, as many as the advertised capacity has room for, and removes them again.
    /// Returns how many were added on each side, and whether a table was reallocated meanwhile. The capacity can
    /// grow by one with an insertion (if it reuses the place of a removed item), but not by more.
    pub fn fill(&mut self, max: usize, sides: (bool, bool)) -> (usize, usize, bool) {
        let (cl, cr) = self.capacity();
        let (ll, lr) = self.len();
        let nl = if sides.0 { cl.saturating_sub(ll).min(max) } else { 0 };
        let nr = if sides.1 { cr.saturating_sub(lr).min(max) } else { 0 };
        let mut grown = false;
        let live = win().live;
        fn jumped(m: &Map, before: (usize, usize)) -> bool {
            let c = m.capacity();
            c.0 > before.0 + 1 || c.1 > before.1 + 1
        }
        let fresh = || with(|c| c.args.clear());
        let one = match self {
            C(_) => nl.min(nr),
            _ => 0,
        };
        for i in 0..one as u32 {
            let c = self.capacity();
            if let C(m) = self {
                let (l, r) = (mk(FRESH + i), mk(FRESH + i));
                lib(|| drop(m.insert(l, r)));
            }
            grown |= jumped(self, c);
            fresh();
        }
        if let C(m) = self {
            // Items own no memory, so that only tables can have grown
            grown |= win().live > live;
            for i in 0..one as u32 {
                let l = mk(FRESH + i);
                lib(|| drop(m.remove_via_left(&l)));
                fresh();
            }
            return (one, one, grown);
        }
        for i in 0..nr as u32 {
            let c = self.capacity();
            let r = mk(FRESH + i);
            match self {
                C(_) => {}
                P(m) => lib(|| drop(m.insert_right(r))),
                G(m) => lib(|| drop(m.insert_right(r))),
            }
            grown |= jumped(self, c);
            fresh();
        }
        let nl = match self {
            G(_) if nr == 0 => 0,
            _ => nl,
        };
        for i in 0..nl as u32 {
            let c = self.capacity();
            let l = mk(FRESH + i);
            match self {
                C(_) => {}
                P(m) => lib(|| drop(m.insert_left(l))),
                G(m) => {
                    let r = mk(FRESH + i % nr as u32);
                    lib(|| drop(m.insert_left(l, &r)))
                }
            }
            grown |= jumped(self, c);
            fresh();
        }
        // (the sets of the group map allocate when they get members)
        if !matches!(self, G(_)) {
            grown |= win().live > live;
        }
        for i in 0..nl as u32 {
            let l = mk(FRESH + i);
            match self {
                C(_) => {}
                P(m) => lib(|| drop(m.remove_left(&l))),
                G(m) => lib(|| drop(m.remove_left(&l))),
            }
            fresh();
        }
        for i in 0..nr as u32 {
            let r = mk(FRESH + i);
            match self {
                C(_) => {}
                P(m) => lib(|| drop(m.remove_right(&r))),
                G(m) => lib(|| drop(m.remove_right(&r))),
            }
            fresh();
        }
        (nl, nr, grown)
    }

    pub fn extend(&mut self, feed: Feed, typed: bool) {
        lib(|| match (self, typed) {
            (C(m), _) => m.extend(Pairs(feed)),
            (P(m), false) => m.extend(Pairs(feed)),
            (P(m), true) => m.extend(Opts(feed)),
            (G(m), false) => m.extend(Pairs(feed)),
            (G(m), true) => m.extend(Groups(feed)),
        })
    }
    pub fn collect(kind: Kind, feed: Feed, typed: bool) -> Map {
        lib(|| match (kind, typed) {
            (Kind::Cycle, _) => C(Pairs(feed).collect()),
            (Kind::Partial, false) => P(Pairs(feed).collect()),
            (Kind::Partial, true) => P(Opts(feed).collect()),
            (Kind::Group, false) => G(Pairs(feed).collect()),
            (Kind::Group, true) => G(Groups(feed).collect()),
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Listing {
    All,
    Pairs,
    Unpaired,
    UnpairedR,
    Lefts,
    Rights,
    Group(u32),
}
impl Listing {
    pub fn expected(self, m: &Model) -> Vec<Elem> {
        let mut v = match self {
            Listing::All => m.all(),
            Listing::Pairs => m.pairs(),
            Listing::Unpaired => {
                let mut v = m.unpaired_l();
                v.extend(m.unpaired_r());
                v
            }
            Listing::UnpairedR => m.unpaired_r(),
            Listing::Lefts => m.lefts(),
            Listing::Rights => m.rights(),
            Listing::Group(r) => m.group(r).into_iter().map(|l| (Some(m.ls(l)), None)).collect(),
        };
        v.sort_unstable();
        v
    }
}

fn op_elem(e: OptionalPair<&L, &R>) -> Elem {
    match e {
        Neither => (None, None),
        SomeLeft(l) => (Some(kl(l)), None),
        SomeRight(r) => (None, Some(kr(r))),
        SomeBoth(l, r) => (Some(kl(l)), Some(kr(r))),
    }
}
fn own_elem(e: &OptionalPair<L, R>) -> Elem {
    match e {
        Neither => (None, None),
        SomeLeft(l) => (Some(kl(l)), None),
        SomeRight(r) => (None, Some(kr(r))),
        SomeBoth(l, r) => (Some(kl(l)), Some(kr(r))),
    }
}

/// Uses an owning iterator the way `end` says. `total` is the exact number of elements, if it is known.
#[allow(clippy::too_many_arguments)]
fn consume<I: Iterator>(
    mut d: I,
    take: u32,
    end: End,
    total: Option<usize>,
    len: impl Fn(&I) -> usize,
    elem: impl Fn(&I::Item) -> Elem,
    out: &mut Out,
    tags: Tags,
) {
    let mut n = 0;
    // The upper bounds that were promised, and after how many elements
    let mut bounds: Vec<(usize, usize, Option<usize>)> = vec![];
    loop {
        let (lo, hi) = lib(|| d.size_hint());
        bounds.push((n, lo, hi));
        if let Some(total) = total {
            let left = total - n.min(total);
            let l = lib(|| len(&d));
            if l != left || lo != left || hi != Some(left) {
                out.issues.push(issue(Class::Other, tags & t(6), format!("a draining iterator with {left} elements to come has len() {l} and size_hint() {:?}", (lo, hi))));
            }
        }
        if end != End::Exhaust && n >= take as usize {
            break;
        }
        match lib(|| d.next()) {
            Some(e) => {
                out.yielded.push(elem(&e));
                n += 1;
                if n > total.unwrap_or(1 << 20) {
                    out.issues.push(issue(Class::Other, tags, "an owning iterator yields more elements than there are"));
                    break;
                }
                lib(|| drop(e));
            }
            None => {
                if lib(|| d.next()).is_some() {
                    out.issues.push(issue(Class::Other, tags, "an exhausted owning iterator goes on"));
                }
                for (k, lo, hi) in &bounds {
                    if *lo > n - k || hi.is_some_and(|h| h < n - k) {
                        out.issues.push(issue(Class::Other, tags & t(6), format!("an owning iterator with {} elements to come has size_hint() {:?}", n - k, (lo, hi))));
                    }
                }
                break;
            }
        }
    }
    match end {
        End::Exhaust | End::Drop => lib(|| drop(d)),
        End::Leak => mem::forget(d),
        End::Panic => {
            // A second panic while unwinding would end the process
            disarm();
            with(|c| {
                c.fired = Some(Cb::Source);
                c.fired_total += 1;
            });
            lib(|| {
                let _d = d;
                sim(|| panic_any(Injected))
            })
        }
    }
}

// ---- cursors

pub trait Cursor {
    fn next(&mut self) -> Option<Elem>;
    fn nth(&mut self, n: usize) -> Option<Elem>;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn debug(&self) -> String;
    fn fork<'b>(&self) -> Box<dyn Cursor + 'b>
    where
        Self: 'b;
    /// Finishes in one of several ways and returns what came: the elements, or their number and the last one
    fn finish(self: Box<Self>, how: u64) -> Finish;
}
pub enum Finish {
    Elems(Vec<Elem>),
    Count(usize),
    Last(Option<Elem>),
}
#[derive(Clone)]
struct Cur<I, F> {
    it: I,
    f: F,
}
impl<I, F> Cursor for Cur<I, F>
where
    I: Iterator + ExactSizeIterator + Clone + fmt::Debug,
    F: Fn(I::Item) -> Elem + Copy,
{
    fn next(&mut self) -> Option<Elem> {
        lib(|| self.it.next()).map(self.f)
    }
    fn nth(&mut self, n: usize) -> Option<Elem> {
        lib(|| self.it.nth(n)).map(self.f)
    }
    fn len(&self) -> usize {
        lib(|| self.it.len())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        lib(|| self.it.size_hint())
    }
    fn debug(&self) -> String {
        format!("{:?}", self.it)
    }
    fn fork<'b>(&self) -> Box<dyn Cursor + 'b>
    where
        Self: 'b,
    {
        Box::new(self.clone())
    }
    fn finish(self: Box<Self>, how: u64) -> Finish {
        let f = self.f;
        match how % 5 {
            0 => Finish::Elems(self.it.map(f).collect()),
            1 => Finish::Elems(self.it.fold(vec![], |mut v, x| {
                v.push(f(x));
                v
            })),
            2 => Finish::Count(self.it.count()),
            3 => Finish::Last(self.it.last().map(f)),
            _ => {
                let mut v = vec![];
                for x in self.it {
                    v.push(f(x));
                }
                Finish::Elems(v)
            }
        }
    }
}
