//! Short histories over maps of other item types: without a destructor, owning memory, of size zero, large, aligned.
use crate::ctx::{lib, sim, win};
use crate::issue::*;
use crate::map::{bulk_items, S};
use crate::model::*;
use crate::op::*;
use crate::rng::Rng;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use std::cell::Cell;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use OptionalPair::*;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    LIVE.with(|c| c.set(c.get() + n));
}

/// What an item is made of
pub trait Stuff: Clone + 'static {
    const N: u32;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    fn on_hash() {}
    fn on_eq() {}
}
impl Stuff for u8 {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        id as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Stuff for u32 {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        id
    }
    fn id(&self) -> u32 {
        *self
    }
}
impl Stuff for [u64; 24] {
    const N: u32 = 9;
    fn mk(id: u32) -> Self {
        std::array::from_fn(|i| id as u64 ^ (i as u64) << 32)
    }
    fn id(&self) -> u32 {
        let id = self[0] as u32;
        if *self == Self::mk(id) {
            id
        } else {
            u32::MAX
        }
    }
}
impl Stuff for String {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        format!("item number {id}")
    }
    fn id(&self) -> u32 {
        self.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(u32::MAX)
    }
}
impl Stuff for Box<u32> {
    const N: u32 = 8;
    fn mk(id: u32) -> Self {
        Box::new(id)
    }
    fn id(&self) -> u32 {
        **self
    }
}
impl Stuff for Rc<u32> {
    const N: u32 = 8;
    fn mk(id: u32) -> Self {
        Rc::new(id)
    }
    fn id(&self) -> u32 {
        **self
    }
}
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Wide(u32);
impl Stuff for Wide {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        Wide(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
impl Stuff for () {
    const N: u32 = 1;
    fn mk(_: u32) {}
    fn id(&self) -> u32 {
        0
    }
}
/// Counts how many there are
pub struct Counted(u32);
impl Stuff for Counted {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        count(1);
        Counted(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Self::mk(self.0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        count(-1);
    }
}
/// Has a size of zero, but a destructor
pub struct Token;
impl Stuff for Token {
    const N: u32 = 1;
    fn mk(_: u32) -> Self {
        count(1);
        Token
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Self::mk(0)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        count(-1);
    }
}

#[derive(Clone)]
#[repr(transparent)]
pub struct It<T, const X: usize>(T);
impl<T: Stuff, const X: usize> PartialEq for It<T, X> {
    fn eq(&self, o: &Self) -> bool {
        T::on_eq();
        self.0.id() == o.0.id()
    }
}
impl<T: Stuff, const X: usize> Eq for It<T, X> {}
impl<T: Stuff, const X: usize> Hash for It<T, X> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        T::on_hash();
        self.0.id().hash(h)
    }
}
impl<T: Stuff, const X: usize> Debug for It<T, X> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{}", ["L", "R"][X], self.0.id())
    }
}
fn mk<T: Stuff, const X: usize>(id: u32) -> It<T, X> {
    It(T::mk(id))
}

trait Text {
    fn text(&self) -> String;
}
impl<T: Stuff, const X: usize> Text for It<T, X> {
    fn text(&self) -> String {
        format!("{self:?}")
    }
}
impl<T: Text> Text for &T {
    fn text(&self) -> String {
        (**self).text()
    }
}
impl Text for bool {
    fn text(&self) -> String {
        self.to_string()
    }
}
impl Text for () {
    fn text(&self) -> String {
        "()".into()
    }
}
impl<A: Text, B: Text> Text for (A, B) {
    fn text(&self) -> String {
        format!("({},{})", self.0.text(), self.1.text())
    }
}
impl<A: Text> Text for Option<A> {
    fn text(&self) -> String {
        opt(self.as_ref().map(|x| x.text()))
    }
}
impl<A: Text + Eq, B: Text + Eq> Text for OptionalPair<A, B> {
    fn text(&self) -> String {
        match self {
            Neither => op2(None, None),
            SomeLeft(a) => op2(Some(a.text()), None),
            SomeRight(b) => op2(None, Some(b.text())),
            SomeBoth(a, b) => op2(Some(a.text()), Some(b.text())),
        }
    }
}
fn group_text<'a, A: Stuff, B: Stuff>(set: impl Iterator<Item = &'a It<A, 0>>, r: &It<B, 1>) -> String {
    let mut v: Vec<u32> = set.map(|l| l.0.id()).collect();
    v.sort_unstable();
    format!("({{{}}},{})", v.iter().map(|l| format!("L{l}")).collect::<Vec<_>>().join(" "), r.text())
}
/// Without serial numbers
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut skip = false;
    for c in s.chars() {
        skip = c == '#' || (skip && c.is_ascii_digit());
        if !skip {
            out.push(c);
        }
    }
    out
}

pub type Ids = Vec<(Option<u32>, Option<u32>)>;

/// What the maps have in common, for items of any type
pub trait Typed<A: Stuff, B: Stuff>: Clone {
    const KIND: Kind;
    fn make(cap: usize, h: S) -> Self;
    fn apply(&mut self, op: &Op) -> Option<String>;
    fn all(&self) -> Ids;
    fn len2(&self) -> (usize, usize);
    fn look(&self, l: u32, r: u32) -> String {
        (0..Self::LOOKS).map(|i| self.look_one(i, l, r)).collect::<Vec<_>>().join(" ")
    }
    /// How many ways to look something up there are
    const LOOKS: u32;
    fn look_one(&self, i: u32, l: u32, r: u32) -> String;
    /// What the iterators say about their lengths: over pairs, over items without a companion, and over all
    fn lens(&self) -> (usize, usize, usize);
    fn same(&self, o: &Self) -> bool;
    /// Goes through all iterators
    fn walk(&self) -> usize;
}

macro_rules! swaps {
    ($m:expr, $op:expr, $T:ty, $X:literal, $U:ty, $Y:literal, $plain:ident, $checked:ident, $or:ident) => {{
        let (how, old, new, other) = $op;
        let new = mk::<$T, $X>(*new);
        let old = mk::<$T, $X>(*old);
        match how {
            Swap::OrInsert => $m.$or(&old, new, mk::<$U, $Y>(*other)).text(),
            Swap::Checked => $m.$checked(&old, &mk::<$U, $Y>(*other), new).text(),
            _ => $m.$plain(&old, new).text(),
        }
    }};
}
fn hit<A: Stuff, B: Stuff>(s: &Sel, e: OptionalPair<&It<A, 0>, &It<B, 1>>) -> bool {
    s.hit(e.get_left().map(|x| x.0.id()), e.get_right().map(|x| x.0.id()))
}

impl<A: Stuff, B: Stuff> Typed<A, B> for CycleMap<It<A, 0>, It<B, 1>, S> {
    const KIND: Kind = Kind::Cycle;
    fn make(cap: usize, h: S) -> Self {
        Self::with_capacity_and_hasher(cap, h)
    }
    fn apply(&mut self, op: &Op) -> Option<String> {
        Some(match op {
            Op::Insert { l, r } => self.insert(mk(*l), mk(*r)).text(),
            Op::Remove { l, r } => self.remove(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::RemoveViaLeft { l } => self.remove_via_left(&mk::<A, 0>(*l)).text(),
            Op::RemoveViaRight { r } => self.remove_via_right(&mk::<B, 1>(*r)).text(),
            Op::SwapLeft { how, old, new, other } => {
                swaps!(self, (how, old, new, other), A, 0, B, 1, swap_left, swap_left_checked, swap_left_or_insert)
            }
            Op::SwapRight { how, old, new, other } => {
                swaps!(self, (how, old, new, other), B, 1, A, 0, swap_right, swap_right_checked, swap_right_or_insert)
            }
            Op::Retain { sel } => {
                self.retain(|l, r| hit(sel, SomeBoth(l, r)));
                return None;
            }
            Op::Drain { take, .. } => {
                for x in self.drain().take(*take as usize) {
                    drop(x);
                }
                return None;
            }
            Op::DrainFilter { sel, take, .. } => {
                for x in self.drain_filter(|l, r| hit(sel, SomeBoth(l, r))).take(*take as usize) {
                    drop(x);
                }
                return None;
            }
            Op::Clear => {
                self.clear();
                return None;
            }
            Op::Reserve { n, .. } => {
                self.reserve(*n as usize);
                return None;
            }
            Op::ShrinkTo { n, .. } => {
                self.shrink_to(*n as usize);
                return None;
            }
            Op::ShrinkFit => {
                self.shrink_to_fit();
                return None;
            }
            Op::Extend { items, .. } => {
                self.extend(bulk_items(Kind::Cycle, items, false).into_iter().map(|(l, r)| (mk(l.unwrap()), mk(r.unwrap()))));
                return None;
            }
            _ => return None,
        })
    }
    fn all(&self) -> Ids {
        self.iter().map(|(l, r)| (Some(l.0.id()), Some(r.0.id()))).collect()
    }
    fn len2(&self) -> (usize, usize) {
        (self.len(), self.len())
    }
    const LOOKS: u32 = 5;
    fn look_one(&self, i: u32, l: u32, r: u32) -> String {
        let (l, r) = (mk::<A, 0>(l), mk::<B, 1>(r));
        match i {
            0 => self.get_right(&l).text(),
            1 => self.get_left(&r).text(),
            2 => self.are_paired(&l, &r).to_string(),
            3 => self.contains_left(&l).to_string(),
            _ => self.contains_right(&r).to_string(),
        }
    }
    fn lens(&self) -> (usize, usize, usize) {
        (self.iter().len(), 0, self.iter_left().len().max(self.iter_right().len()))
    }
    fn same(&self, o: &Self) -> bool {
        self == o && !(self != o)
    }
    fn walk(&self) -> usize {
        self.iter().fold(0, |n, _| n + 1) + self.iter_left().fold(0, |n, _| n + 1) + self.iter_right().fold(0, |n, _| n + 1)
    }
}

impl<A: Stuff, B: Stuff> Typed<A, B> for PartialCycleMap<It<A, 0>, It<B, 1>, S> {
    const KIND: Kind = Kind::Partial;
    fn make(cap: usize, h: S) -> Self {
        Self::with_capacity_and_hasher(cap, h)
    }
    fn apply(&mut self, op: &Op) -> Option<String> {
        Some(match op {
            Op::Insert { l, r } => {
                let (a, b) = self.insert(mk(*l), mk(*r));
                format!("{};{}", a.text(), b.text())
            }
            Op::InsertLeft { l, .. } => self.insert_left(mk(*l)).text(),
            Op::InsertRight { r } => self.insert_right(mk(*r)).text(),
            Op::Pair { l, r } => self.pair(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::PairForced { l, r } => self.pair_forced(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::PairForcedRemove { l, r } => self.pair_forced_remove(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::Unpair { l, r } => self.unpair(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::Remove { l, r } => self.remove(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::RemoveLeft { l } => self.remove_left(&mk::<A, 0>(*l)).text(),
            Op::RemoveRight { r } => self.remove_right(&mk::<B, 1>(*r)).text(),
            Op::RemoveViaLeft { l } => self.remove_via_left(&mk::<A, 0>(*l)).text(),
            Op::RemoveViaRight { r } => self.remove_via_right(&mk::<B, 1>(*r)).text(),
            Op::SwapLeft { how, old, new, other } => {
                swaps!(self, (how, old, new, other), A, 0, B, 1, swap_left, swap_left_checked, swap_left_or_insert)
            }
            Op::SwapRight { how, old, new, other } => {
                swaps!(self, (how, old, new, other), B, 1, A, 0, swap_right, swap_right_checked, swap_right_or_insert)
            }
            Op::Retain { sel } => {
                self.retain(|e| sel.hit(e.get_left().map(|x| x.0.id()), e.get_right().map(|x| x.0.id())));
                return None;
            }
            Op::RetainPaired { sel } => {
                self.retain_paired(|l, r| hit(sel, SomeBoth(l, r)));
                return None;
            }
            Op::RetainUnpaired { sel } => {
                self.retain_unpaired(|e| sel.hit(e.get_left().map(|x| x.0.id()), e.get_right().map(|x| x.0.id())));
                return None;
            }
            Op::Drain { take, .. } => {
                for x in self.drain().take(*take as usize) {
                    drop(x);
                }
                return None;
            }
            Op::DrainFilter { sel, take, .. } => {
                let f = |e: OptionalPair<&It<A, 0>, &It<B, 1>>| hit(sel, e);
                for x in self.drain_filter(f).take(*take as usize) {
                    drop(x);
                }
                return None;
            }
            Op::Clear => {
                self.clear();
                return None;
            }
            Op::Reserve { side, n } => {
                if *side == 0 {
                    self.reserve_left(*n as usize);
                } else {
                    self.reserve_right(*n as usize);
                }
                return None;
            }
            Op::ShrinkTo { side, n } => {
                if *side == 0 {
                    self.shrink_to_left(*n as usize);
                } else {
                    self.shrink_to_right(*n as usize);
                }
                return None;
            }
            Op::ShrinkFit => {
                self.shrink_to_fit();
                return None;
            }
            Op::Extend { items, .. } => {
                self.extend(items.iter().map(|(l, r)| match (l, r) {
                    (None, None) => Neither,
                    (Some(l), None) => SomeLeft(mk(*l)),
                    (None, Some(r)) => SomeRight(mk(*r)),
                    (Some(l), Some(r)) => SomeBoth(mk(*l), mk(*r)),
                }));
                return None;
            }
            _ => return None,
        })
    }
    fn all(&self) -> Ids {
        self.iter().map(|e| (e.get_left().map(|l| l.0.id()), e.get_right().map(|r| r.0.id()))).collect()
    }
    fn len2(&self) -> (usize, usize) {
        (self.len_left(), self.len_right())
    }
    const LOOKS: u32 = 7;
    fn look_one(&self, i: u32, l: u32, r: u32) -> String {
        let (l, r) = (mk::<A, 0>(l), mk::<B, 1>(r));
        match i {
            0 => self.get_right(&l).text(),
            1 => self.get_left(&r).text(),
            2 => self.are_paired(&l, &r).to_string(),
            3 => self.contains_left(&l).to_string(),
            4 => self.contains_right(&r).to_string(),
            5 => self.is_right_paired(&r).to_string(),
            _ => self.is_left_paired(&l).to_string(),
        }
    }
    fn lens(&self) -> (usize, usize, usize) {
        (self.iter_paired().len(), self.iter_unpaired().len(), self.iter().len())
    }
    fn same(&self, o: &Self) -> bool {
        self == o && !(self != o)
    }
    fn walk(&self) -> usize {
        self.iter().fold(0, |n, _| n + 1) + self.iter_left().fold(0, |n, _| n + 1) + self.iter_right().fold(0, |n, _| n + 1) + self.iter_paired().fold(0, |n, _| n + 1) + self.iter_unpaired().fold(0, |n, _| n + 1)
    }
}

impl<A: Stuff, B: Stuff> Typed<A, B> for GroupMap<It<A, 0>, It<B, 1>, S> {
    const KIND: Kind = Kind::Group;
    fn make(cap: usize, h: S) -> Self {
        Self::with_capacity_and_hasher(cap, h)
    }
    fn apply(&mut self, op: &Op) -> Option<String> {
        Some(match op {
            Op::Insert { l, r } => {
                self.insert(mk(*l), mk(*r));
                "()".into()
            }
            Op::InsertLeft { l, r } => self.insert_left(mk(*l), &mk::<B, 1>(*r)).text(),
            Op::InsertRight { r } => {
                let x = self.insert_right(mk(*r));
                opt(x.as_ref().map(|(s, r)| group_text(s.iter(), r)))
            }
            Op::InsertRemove { l, r } => {
                let x = self.insert_remove(mk(*l), mk(*r));
                format!("{};{}", x.0.text(), opt(x.1.as_ref().map(|(s, r)| group_text(s.iter(), r))))
            }
            Op::Pair { l, r } => self.pair(&mk::<A, 0>(*l), &mk::<B, 1>(*r)).text(),
            Op::Remove { l, r } => {
                let x = self.remove(&mk::<A, 0>(*l), &mk::<B, 1>(*r));
                opt(x.as_ref().map(|(s, r)| group_text(s.iter(), r)))
            }
            Op::RemoveLeft { l } => self.remove_left(&mk::<A, 0>(*l)).text(),
            Op::RemoveRight { r } => {
                let x = self.remove_right(&mk::<B, 1>(*r));
                opt(x.as_ref().map(|(s, r)| group_text(s.iter(), r)))
            }
            Op::SwapRight { how: Swap::Remove, old, new, .. } => self.swap_right_remove(&mk::<B, 1>(*old), mk(*new)).text(),
            Op::SwapRight { old, new, .. } => {
                self.swap_right(&mk::<B, 1>(*old), mk(*new));
                "()".into()
            }
            Op::RetainPaired { sel } => {
                self.retain_paired(|l, r| hit(sel, SomeBoth(l, r)));
                return None;
            }
            Op::RetainUnpaired { sel } => {
                self.retain_unpaired(|r| sel.hit(None, Some(r.0.id())));
                return None;
            }
            Op::Clear => {
                self.clear();
                return None;
            }
            Op::Extend { items, .. } => {
                self.extend(bulk_items(Kind::Group, items, true).into_iter().map(|(l, r)| (l.map(mk), mk(r.unwrap()))));
                return None;
            }
            _ => return None,
        })
    }
    fn all(&self) -> Ids {
        self.iter().map(|(l, r)| (l.map(|l| l.0.id()), Some(r.0.id()))).collect()
    }
    fn len2(&self) -> (usize, usize) {
        (self.len_left(), self.len_right())
    }
    const LOOKS: u32 = 6;
    fn look_one(&self, i: u32, l: u32, r: u32) -> String {
        let (l, r) = (mk::<A, 0>(l), mk::<B, 1>(r));
        match i {
            0 => self.get_right(&l).text(),
            1 => {
                let group = self.get_left_iter(&r).map(|i| {
                    let mut v: Vec<_> = i.map(|l| l.0.id()).collect();
                    v.sort_unstable();
                    format!("{v:?}")
                });
                opt(group)
            },
            2 => self.are_paired(&l, &r).to_string(),
            3 => self.contains_left(&l).to_string(),
            4 => self.contains_right(&r).to_string(),
            _ => self.is_right_paired(&r).to_string(),
        }
    }
    fn lens(&self) -> (usize, usize, usize) {
        (self.iter_paired().len(), self.iter_unpaired().len(), self.iter().len())
    }
    fn same(&self, o: &Self) -> bool {
        self == o && !(self != o)
    }
    fn walk(&self) -> usize {
        self.iter().fold(0, |n, _| n + 1) + self.iter_left().fold(0, |n, _| n + 1) + self.iter_right().fold(0, |n, _| n + 1) + self.iter_paired().fold(0, |n, _| n + 1) + self.iter_unpaired().fold(0, |n, _| n + 1)
    }
}

pub const CHOICES: u64 = 34;
/// Some of the choices, or none
pub fn focus(rng: &mut Rng) -> Vec<u64> {
    if rng.chance(1, 3) {
        // What one does the other undoes
        let both: &[u64] = match rng.below(9) {
            0 => &[12, 15],
            1 => &[13, 15],
            2 => &[7, 17],
            3 => &[9, 18],
            4 => &[0, 16, 19, 20],
            5 => &[14, 0],
            6 => &[28, 33],
            7 => &[25, 26, 27, 29, 33],
            _ => &[21, 23],
        };
        return both.to_vec();
    }
    let n = rng.pick(&[0, 0, 1, 2, 2, 3, 4]);
    (0..n).map(|_| rng.below(CHOICES)).collect()
}
/// Mostly operations of certain sorts
pub fn choose_among(focus: &[u64], kind: Kind, m: &Model, nl: u32, nr: u32, rng: &mut Rng) -> Op {
    let k = if focus.is_empty() || rng.chance(1, 8) { rng.below(CHOICES) } else { rng.pick(focus) };
    pick(k, kind, m, nl, nr, rng)
}
pub fn choose(kind: Kind, m: &Model, nl: u32, nr: u32, rng: &mut Rng) -> Op {
    let k = rng.below(CHOICES);
    pick(k, kind, m, nl, nr, rng)
}
fn pick(k: u64, kind: Kind, m: &Model, nl: u32, nr: u32, rng: &mut Rng) -> Op {
    let l = rng.below(nl as u64) as u32;
    let r = match m.l_partner(l) {
        Some(r) if rng.chance(1, 3) => r,
        _ => rng.below(nr as u64) as u32,
    };
    let (l2, r2) = (rng.below(nl as u64) as u32, rng.below(nr as u64) as u32);
    let sel = Sel { seed: rng.next() >> 16, dens: rng.pick(&[2, 4, 6]) };
    let n = rng.below(20) as u32;
    let side = rng.below(2) as u8;
    match k {
        0..=6 => Op::Insert { l, r },
        7 | 8 => Op::InsertLeft { l, r },
        9 | 10 => Op::InsertRight { r },
        11 if kind == Kind::Group => Op::InsertRemove { l, r },
        11 => Op::Pair { l, r },
        12 => Op::Pair { l, r },
        13 => Op::PairForced { l, r },
        14 => Op::PairForcedRemove { l, r },
        15 => Op::Unpair { l, r },
        16 => Op::Remove { l, r },
        17 => Op::RemoveLeft { l },
        18 => Op::RemoveRight { r },
        19 => Op::RemoveViaLeft { l },
        20 => Op::RemoveViaRight { r },
        21 | 22 => Op::SwapLeft { how: rng.pick(&[Swap::Plain, Swap::Checked, Swap::OrInsert]), old: l, new: l2, other: r },
        23 | 24 if kind == Kind::Group => Op::SwapRight { how: rng.pick(&[Swap::Plain, Swap::Remove]), old: r, new: r2, other: l },
        23 | 24 => Op::SwapRight { how: rng.pick(&[Swap::Plain, Swap::Checked, Swap::OrInsert]), old: r, new: r2, other: l },
        25 => Op::Retain { sel },
        26 => Op::RetainPaired { sel },
        27 => Op::RetainUnpaired { sel },
        28 => Op::Drain { take: n / 4, end: End::Drop },
        29 => Op::DrainFilter { sel, take: n / 4, end: End::Drop },
        30 => Op::Clear,
        31 => Op::Reserve { side, n },
        32 if rng.chance(1, 2) => Op::ShrinkTo { side, n },
        32 => Op::ShrinkFit,
        _ => {
            let items = (0..n)
                .map(|_| {
                    let (l, r) = (Some(rng.below(nl as u64) as u32), Some(rng.below(nr as u64) as u32));
                    rng.pick(&[(l, r), (l, r), (l, None), (None, r)])
                })
                .collect();
            Op::Extend { items, typed: kind != Kind::Cycle, hint: 0, abort: None }
        }
    }
}

pub fn advance(m: &mut Model, op: &Op) -> Option<String> {
    match op {
        Op::Retain { .. } | Op::RetainPaired { .. } | Op::RetainUnpaired { .. } | Op::DrainFilter { .. } => {
            let (scope, sel, when) = m.scope(op)?;
            for e in scope {
                if sel.hit(e.0.map(|x| x.0), e.1.map(|x| x.0)) == when {
                    m.remove_elem(&e);
                }
            }
            None
        }
        Op::Drain { .. } | Op::Clear => {
            m.clear();
            None
        }
        Op::Extend { items, typed, .. } => {
            for i in bulk_items(m.kind, items, *typed) {
                if let Some(op) = m.bulk_op(&i) {
                    m.apply(&op, 0, 0);
                }
            }
            None
        }
        _ => match m.apply(op, 0, 0)?.ret {
            RetSpec::Exact(s) => Some(plain(&s)),
            RetSpec::Subset(_) => None,
        },
    }
}

type Bad = (Class, Tags, String);

/// What looking the two up must give
fn found(kind: Kind, m: &Model, l: u32, r: u32) -> String {
    let group = || format!("{:?}", m.group(r));
    let right = opt(m.l_partner(l).map(|r| format!("R{r}")));
    let left = match kind {
        Kind::Group => opt(m.has_r(r).then(group)),
        _ => opt(m.r_partner(r).map(|l| format!("L{l}"))),
    };
    let mut want = format!("{right} {left} {} {} {}", m.paired(l, r), m.has_l(l), m.has_r(r));
    if kind != Kind::Cycle {
        want += &format!(" {}", m.r_is_paired(r));
    }
    if kind == Kind::Partial {
        want += &format!(" {}", m.l_partner(l).is_some());
    }
    want
}

fn compare<A: Stuff, B: Stuff, M: Typed<A, B>>(map: &M, m: &Model, what: &str) -> Result<(), Bad> {
    let ids = |v: Vec<Elem>| -> Ids {
        let mut v: Ids = v.into_iter().map(|e| (e.0.map(|x| x.0), e.1.map(|x| x.0))).collect();
        v.sort_unstable();
        v
    };
    let bad = |s: String| Err((Class::Content, content(M::KIND), format!("{what}: {s}")));
    let want = ids(m.all());
    if map.len2() != (m.nl, m.nr) {
        return bad(format!("the length is {:?}, but should be {:?}", map.len2(), (m.nl, m.nr)));
    }
    for l in 0..A::N {
        for r in 0..B::N {
            let want = found(M::KIND, m, l, r);
            let got = map.look(l, r);
            if got != want {
                return bad(format!("looking L{l} and R{r} up gives {got}, but should give {want}"));
            }
        }
    }
    let mut got = map.all();
    got.sort_unstable();
    if got != want {
        return Err((Class::Iter, content(M::KIND) | t(6), format!("{what}: iterating gives {got:?}, but the map holds {want:?}")));
    }
    Ok(())
}

/// `dense`: compare everything after every operation
fn history<A: Stuff, B: Stuff, M: Typed<A, B>>(seed: u64, len: u32, dense: bool, live: i64, bytes: i64) -> Result<(), Bad> {
    let mut rng = Rng::new(seed);
    let mut when = Rng::new(seed ^ 0xdecade);
    let kind = M::KIND;
    let h = S::with_cfg(ahash::HashCfg { mode: rng.pick(&[0, 0, 1, 2]), param: 3, seed: rng.next() });
    let mut map = M::make(rng.pick(&[0, 0, 5, 30]), h);
    let mut m = Model::new(kind);
    let types = std::any::type_name::<M>().replace("cycle_map::", "").replace("sim::types::", "").replace("alloc::", "");
    let sorts = focus(&mut rng);
    for k in 0..len {
        let op = choose_among(&sorts, kind, &m, A::N, B::N, &mut rng);
        let group_only = matches!(op, Op::InsertRemove { .. }) && kind != Kind::Group;
        if !Model::supports(kind, &op) || group_only || m.known_bad(&op) {
            continue;
        }
        if let Op::Extend { items, typed, .. } = &op {
            // Including what would only become such a call on the way
            let mut n = m.clone();
            if bulk_items(kind, items, *typed).iter().any(|i| {
                let known = matches!(i, (Some(l), Some(r)) if n.known_bad(&Op::Insert { l: *l, r: *r }));
                if let Some(op) = n.bulk_op(i) {
                    n.apply(&op, 0, 0);
                }
                known
            }) {
                continue;
            }
        }
        let refused = m.clone().apply(&op, 0, 0).is_some_and(|s| s.refused);
        let tags = crate::run::op_tags(&op) | if refused { t(5) } else { 0 };
        let want = advance(&mut m, &op);
        let got = map.apply(&op);
        if let (Some(w), Some(g)) = (&want, &got) {
            if w != g {
                return Err((Class::Other, t(4), format!("{types}: {} returned {g}, but should have returned {w}", op.name())));
            }
        }
        if dense || when.chance(1, 40) || k + 1 == len {
            let what = format!("{types} after {} operations, the last one {}", k + 1, op.name());
            compare(&map, &m, &what).map_err(|(c, t, s)| (c, t | tags, s))?;
        }
        let n = LIVE.with(|c| c.get()) - live;
        let mine = expected::<A, B>(&m);
        if n != mine {
            return Err((Class::Other, t(11) | tags, format!("{types}: after {} there are {n} objects, but {mine} are stored", op.name())));
        }
        if rng.chance(1, if len > 200 { 200 } else { 12 }) {
            let c = map.clone();
            compare(&c, &m, &format!("{types}: a clone")).map_err(|(c, tags, s)| (c, tags | t(15), s))?;
            if !c.same(&map) || !map.same(&c) {
                return Err((Class::Other, t(14) | t(15), format!("{types}: a clone is not equal")));
            }
            if rng.chance(1, 2) {
                map = c;
            }
        }
    }
    drop(map);
    let n = LIVE.with(|c| c.get()) - live;
    if n != 0 {
        return Err((Class::Other, t(11), format!("{types}: {n} objects are left when the map is gone")));
    }
    drop((m, types, sorts));
    let n = win().live - bytes;
    if n != 0 {
        return Err((Class::Other, t(11), format!("{}: {n} bytes are left when the map is gone", std::any::type_name::<M>())));
    }
    Ok(())
}
fn counted<T: Stuff>() -> i64 {
    std::any::type_name::<T>().contains("Counted") as i64 | std::any::type_name::<T>().contains("Token") as i64
}
fn expected<A: Stuff, B: Stuff>(m: &Model) -> i64 {
    m.nl as i64 * counted::<A>() + m.nr as i64 * counted::<B>()
}

/// A map of every size up to some hundreds, and back again
fn ramp<M: Typed<u32, u32>>(seed: u64, len: u32) -> Result<(), Bad> {
    let mut rng = Rng::new(seed);
    let kind = M::KIND;
    let n = if len < 100 { 60 + 20 * len } else { len.min(1500) };
    let h = S::with_cfg(ahash::HashCfg { mode: rng.pick(&[0, 0, 5]), param: 0, seed: rng.next() });
    let mut map = M::make(rng.pick(&[0, 0, 5, 300]), h);
    let mut m = Model::new(kind);
    let per = if kind == Kind::Group { rng.pick(&[1, 2, 7, n, n]) } else { 1 };
    // How many of 8 items have no companion
    let lone = if kind == Kind::Cycle { 0 } else { rng.pick(&[0, 0, 1, 4, 8]) };
    let plan = rng.next();
    let what = if rng.chance(1, 2) { rng.range(1, 2 * n as u64) } else { 0 };
    let order = rng.below(3);
    for k in 0..2 * n {
        let mut op = if k < n {
            let (l, r) = (k, k / per);
            match k.wrapping_mul(0x9e37_79b1) >> 29 {
                x if x >= lone => Op::Insert { l, r },
                x if kind == Kind::Partial && (plan as u32 ^ x) & 1 == 0 => Op::InsertLeft { l, r },
                _ => Op::InsertRight { r: if per == n { k } else { r } },
            }
        } else {
            let i = match order {
                0 => k - n,
                1 => 2 * n - 1 - k,
                _ => rng.below(n as u64) as u32,
            };
            let right = m.l_partner(i).unwrap_or(i / per);
            match (kind, (plan >> 8) % 4) {
                (Kind::Group, x) if per == n && x < 3 => Op::RemoveLeft { l: i },
                (Kind::Group, 0 | 1) | (Kind::Partial, 0) if m.has_l(i) => Op::RemoveLeft { l: i },
                (Kind::Group, _) | (Kind::Partial, 0 | 1) => Op::RemoveRight { r: right },
                (_, 2) if m.has_l(i) => Op::RemoveViaLeft { l: i },
                _ => Op::RemoveViaRight { r: right },
            }
        };
        if k as u64 == what {
            let sel = Sel { seed: rng.next() >> 16, dens: rng.pick(&[1, 4, 7]) };
            op = match rng.below(6) {
                0 => Op::Retain { sel },
                1 => Op::RetainPaired { sel },
                2 => Op::RetainUnpaired { sel },
                3 => Op::DrainFilter { sel, take: rng.below(n as u64) as u32, end: End::Drop },
                4 => Op::ShrinkFit,
                _ => Op::Reserve { side: 0, n: rng.below(n as u64) as u32 },
            };
        }
        if !Model::supports(kind, &op) || m.known_bad(&op) {
            continue;
        }
        let (ls, rs) = op.ids();
        let tags = content(kind) | crate::run::op_tags(&op);
        let here = |s: String| format!("with {} left and {} right items, {}: {s}", m.nl, m.nr, op.name());
        let mut after = m.clone();
        let want = advance(&mut after, &op);
        let got = map.apply(&op);
        if let (Some(w), Some(g)) = (&want, &got) {
            if w != g {
                return Err((Class::Other, t(4) | content(kind), here(format!("returned {g}, but should have returned {w}"))));
            }
        }
        if map.len2() != (after.nl, after.nr) {
            return Err((Class::Content, tags, here(format!("the length is {:?} then, but should be {:?}", map.len2(), (after.nl, after.nr)))));
        }
        let any = |rng: &mut Rng| rng.below(n as u64 + 4) as u32;
        let l = ls.first().copied().unwrap_or_else(|| any(&mut rng));
        let r = rs.first().copied().or(m.l_partner(l)).unwrap_or_else(|| any(&mut rng));
        let l2 = any(&mut rng);
        let r2 = after.l_partner(l2).unwrap_or_else(|| any(&mut rng));
        for (l, r) in [(l, r), (l2, r2)] {
            let (want, got) = (found(kind, &after, l, r), map.look(l, r));
            if got != want {
                return Err((Class::Content, tags, here(format!("looking L{l} and R{r} up gives {got} then, but should give {want}"))));
            }
        }
        let size = after.nl.max(after.nr);
        let round = [size as u32, size as u32 + 1].iter().any(|s| s.is_power_of_two() || (s % 7 == 0 && (s / 7).is_power_of_two()));
        if round || k % 8 == 0 {
            let (p, u) = (after.pairs().len(), after.unpaired_l().len() + after.unpaired_r().len());
            let got = map.lens();
            if got != (p, u, p + u) {
                return Err((Class::Iter, t(6), here(format!("the iterators say {got:?}, but there are {p} pairs and {u} single items then"))));
            }
        }
        if round || k % 64 == 0 || k as u64 == what {
            let mut want: Ids = after.all().into_iter().map(|e| (e.0.map(|x| x.0), e.1.map(|x| x.0))).collect();
            want.sort_unstable();
            let listed = |x: &M| {
                let mut v = x.all();
                v.sort_unstable();
                v
            };
            if listed(&map) != want {
                return Err((Class::Iter, content(kind) | tags | t(6), here("iterating doesn't give the contents then".into())));
            }
            let c = map.clone();
            if listed(&c) != want {
                return Err((Class::Other, t(15), here("a clone doesn't have the same contents then".into())));
            }
            if !c.same(&map) || !map.same(&c) {
                return Err((Class::Other, t(14) | t(15), here("a clone isn't equal then".into())));
            }
            if rng.chance(1, 8) {
                map = c;
            }
        }
        m = after;
    }
    Ok(())
}
fn ramped<M: Typed<u32, u32>>(seed: u64, len: u32, _dense: bool, _live: i64, bytes: i64) -> Result<(), Bad> {
    ramp::<M>(seed, len)?;
    let n = win().live - bytes;
    if n != 0 {
        return Err((Class::Other, t(11), format!("{}: {n} bytes are left when the map is gone", std::any::type_name::<M>())));
    }
    Ok(())
}

type Fun = fn(u64, u32, bool, i64, i64) -> Result<(), Bad>;
macro_rules! table {
    ($M:ident: $(($A:ty, $B:ty)),* $(,)?) => {
        [$(history::<$A, $B, $M<It<$A, 0>, It<$B, 1>, S>> as Fun,)* ramped::<$M<It<u32, 0>, It<u32, 1>, S>> as Fun]
    };
}
macro_rules! tables {
    ($M:ident) => {
        table!($M:
            (u32, u32), (u32, Counted), (Counted, u8), (Counted, Counted), (String, Box<u32>), (Rc<u32>, [u64; 24]),
            ((), String), (Token, u32), (Wide, Token), (Box<u32>, u32), ([u64; 24], Counted), (u8, Rc<u32>),
        )
    };
}
/// The last one is the ramp
pub const COMBOS: u32 = 13;

pub fn run(kind: Kind, combo: u32, seed: u64, len: u32) -> Option<Issue> {
    let c: [Fun; COMBOS as usize] = tables!(CycleMap);
    let p: [Fun; COMBOS as usize] = tables!(PartialCycleMap);
    let g: [Fun; COMBOS as usize] = tables!(GroupMap);
    let f = match kind {
        Kind::Cycle => c,
        Kind::Partial => p,
        Kind::Group => g,
    }[(combo % COMBOS) as usize];
    let live = LIVE.with(|c| c.get());
    let bytes = win().live;
    let dense = len <= 200;
    let mut res = lib(|| f(seed, len, dense, live, bytes));
    if res.is_err() && !dense && LIVE.with(|c| c.get()) == live {
        // Which operation was it?
        let bytes = win().live;
        let again = lib(|| f(seed, len, true, live, bytes));
        if again.is_err() {
            res = again;
        }
    }
    sim(|| res.err().map(|(class, tags, what)| issue(class, tags, what)))
}
