//! The reference model: plain arrays indexed by id, and what each operation has to do to them.
use crate::op::*;

/// An element of an iteration: (id, serial) of the left and the right item
pub type Elem = (Option<(u32, u32)>, Option<(u32, u32)>);

#[derive(Clone, Debug)]
pub struct Model {
    pub kind: Kind,
    /// serial and partner
    pub l: Vec<Option<(u32, Option<u32>)>>,
    /// serial and partner (one-to-one maps only)
    pub r: Vec<Option<(u32, Option<u32>)>>,
    pub nl: usize,
    pub nr: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RetSpec {
    Exact(String),
    /// Any part of these displaced objects may be reported
    Subset(Vec<u32>),
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub ret: RetSpec,
    pub refused: bool,
}

pub fn tl(x: (u32, u32)) -> String {
    format!("L{}#{}", x.0, x.1)
}
pub fn tr(x: (u32, u32)) -> String {
    format!("R{}#{}", x.0, x.1)
}
pub fn op2(a: Option<String>, b: Option<String>) -> String {
    format!("<{}|{}>", a.unwrap_or_default(), b.unwrap_or_default())
}
pub fn opt(a: Option<String>) -> String {
    a.unwrap_or_else(|| "None".into())
}
pub fn pair_text(l: (u32, u32), r: (u32, u32)) -> String {
    format!("({},{})", tl(l), tr(r))
}
pub fn set_text(mut ls: Vec<(u32, u32)>, r: (u32, u32)) -> String {
    ls.sort_unstable();
    format!("({{{}}},{})", ls.into_iter().map(tl).collect::<Vec<_>>().join(" "), tr(r))
}

impl Model {
    pub fn new(kind: Kind) -> Self {
        Model { kind, l: vec![], r: vec![], nl: 0, nr: 0 }
    }
    pub fn lget(&self, id: u32) -> Option<(u32, Option<u32>)> {
        self.l.get(id as usize).copied().flatten()
    }
    pub fn rget(&self, id: u32) -> Option<(u32, Option<u32>)> {
        self.r.get(id as usize).copied().flatten()
    }
    pub fn has_l(&self, id: u32) -> bool {
        self.lget(id).is_some()
    }
    pub fn has_r(&self, id: u32) -> bool {
        self.rget(id).is_some()
    }
    pub fn l_partner(&self, id: u32) -> Option<u32> {
        self.lget(id).and_then(|x| x.1)
    }
    pub fn r_partner(&self, id: u32) -> Option<u32> {
        self.rget(id).and_then(|x| x.1)
    }
    pub fn group(&self, r: u32) -> Vec<u32> {
        (0..self.l.len() as u32).filter(|l| self.l_partner(*l) == Some(r)).collect()
    }
    pub fn paired(&self, l: u32, r: u32) -> bool {
        self.l_partner(l) == Some(r)
    }
    pub fn r_is_paired(&self, r: u32) -> bool {
        match self.kind {
            Kind::Group => self.l.iter().any(|x| matches!(x, Some((_, Some(p))) if *p == r)),
            _ => self.r_partner(r).is_some(),
        }
    }
    pub fn ls(&self, id: u32) -> (u32, u32) {
        (id, self.lget(id).unwrap().0)
    }
    pub fn rs(&self, id: u32) -> (u32, u32) {
        (id, self.rget(id).unwrap().0)
    }
    pub fn lids(&self) -> Vec<u32> {
        (0..self.l.len() as u32).filter(|i| self.has_l(*i)).collect()
    }
    pub fn rids(&self) -> Vec<u32> {
        (0..self.r.len() as u32).filter(|i| self.has_r(*i)).collect()
    }
    pub fn serials(&self) -> Vec<u32> {
        self.l.iter().flatten().map(|x| x.0).chain(self.r.iter().flatten().map(|x| x.0)).collect()
    }
    pub fn clear(&mut self) {
        self.l.clear();
        self.r.clear();
        self.nl = 0;
        self.nr = 0;
    }

    pub fn put_l(&mut self, id: u32, serial: u32, p: Option<u32>) {
        if self.l.len() <= id as usize {
            self.l.resize(id as usize + 1, None);
        }
        if self.l[id as usize].is_none() {
            self.nl += 1;
        }
        self.l[id as usize] = Some((serial, p));
        if let Some(r) = p {
            if self.kind != Kind::Group {
                self.r[r as usize].as_mut().unwrap().1 = Some(id);
            }
        }
    }
    pub fn put_r(&mut self, id: u32, serial: u32) {
        if self.r.len() <= id as usize {
            self.r.resize(id as usize + 1, None);
        }
        if self.r[id as usize].is_none() {
            self.nr += 1;
        }
        self.r[id as usize] = Some((serial, None));
    }
    /// Removes the item only, leaving its companion unpaired
    pub fn del_l(&mut self, id: u32) -> Option<(u32, u32)> {
        let (s, p) = self.lget(id)?;
        if let Some(r) = p {
            if let Some(Some(x)) = self.r.get_mut(r as usize) {
                x.1 = None;
            }
        }
        self.l[id as usize] = None;
        self.nl -= 1;
        Some((id, s))
    }
    pub fn del_r(&mut self, id: u32) -> Option<(u32, u32)> {
        let (s, p) = self.rget(id)?;
        if let Some(l) = p {
            self.l[l as usize].as_mut().unwrap().1 = None;
        }
        self.r[id as usize] = None;
        self.nr -= 1;
        Some((id, s))
    }
    /// Removes the item and its companion (one-to-one maps)
    fn del_via_l(&mut self, id: u32) -> (Option<(u32, u32)>, Option<(u32, u32)>) {
        let p = self.l_partner(id);
        let l = self.del_l(id);
        (l, p.and_then(|r| self.del_r(r)))
    }
    fn del_via_r(&mut self, id: u32) -> (Option<(u32, u32)>, Option<(u32, u32)>) {
        let p = self.r_partner(id);
        let r = self.del_r(id);
        (p.and_then(|l| self.del_l(l)), r)
    }
    /// Removes a right item with its group
    fn del_group(&mut self, r: u32) -> Option<(Vec<(u32, u32)>, (u32, u32))> {
        if !self.has_r(r) {
            return None;
        }
        let g = self.group(r).into_iter().map(|l| self.del_l(l).unwrap()).collect();
        Some((g, self.del_r(r).unwrap()))
    }
    fn link(&mut self, l: u32, r: u32) {
        let s = self.lget(l).unwrap().0;
        if self.kind != Kind::Group {
            if let Some(o) = self.l_partner(l) {
                self.r[o as usize].as_mut().unwrap().1 = None;
            }
            if let Some(o) = self.r_partner(r) {
                self.l[o as usize].as_mut().unwrap().1 = None;
            }
        }
        self.put_l(l, s, Some(r));
    }

    /// Every pairing is mutual and nothing dangles
    pub fn well_formed(&self) -> Result<(), String> {
        for l in self.lids() {
            match self.l_partner(l) {
                Some(r) => {
                    if !self.has_r(r) {
                        return Err(format!("L{l} is paired with R{r}, which is not in the map"));
                    }
                    if self.kind != Kind::Group && self.r_partner(r) != Some(l) {
                        return Err(format!("L{l} is paired with R{r}, but R{r} with {:?}", self.r_partner(r)));
                    }
                }
                None if self.kind != Kind::Partial => return Err(format!("L{l} has no partner")),
                None => {}
            }
        }
        if self.kind != Kind::Group {
            for r in self.rids() {
                match self.r_partner(r) {
                    Some(l) => {
                        if self.l_partner(l) != Some(r) {
                            return Err(format!("R{r} is paired with L{l}, but L{l} with {:?}", self.l_partner(l)));
                        }
                    }
                    None if self.kind == Kind::Cycle => return Err(format!("R{r} has no partner")),
                    None => {}
                }
            }
        }
        Ok(())
    }

    /// The same objects with the same partners
    pub fn same(&self, o: &Model) -> bool {
        let f = |v: &Vec<Option<(u32, Option<u32>)>>, i: usize| v.get(i).copied().flatten();
        (0..self.l.len().max(o.l.len())).all(|i| f(&self.l, i) == f(&o.l, i))
            && (0..self.r.len().max(o.r.len())).all(|i| f(&self.r, i) == f(&o.r, i))
    }

    pub fn same_ids(&self, o: &Model) -> bool {
        let f = |v: &Vec<Option<(u32, Option<u32>)>>, i: usize| v.get(i).copied().flatten().map(|x| x.1);
        (0..self.l.len().max(o.l.len())).all(|i| f(&self.l, i) == f(&o.l, i))
            && (0..self.r.len().max(o.r.len())).all(|i| f(&self.r, i) == f(&o.r, i))
    }

    // ---- what iterations list

    pub fn pairs(&self) -> Vec<Elem> {
        self.lids()
            .into_iter()
            .filter_map(|l| self.l_partner(l).map(|r| (Some(self.ls(l)), Some(self.rs(r)))))
            .collect()
    }
    pub fn unpaired_l(&self) -> Vec<Elem> {
        self.lids().into_iter().filter(|l| self.l_partner(*l).is_none()).map(|l| (Some(self.ls(l)), None)).collect()
    }
    pub fn unpaired_r(&self) -> Vec<Elem> {
        let mut used = vec![false; self.r.len()];
        for x in self.l.iter().flatten() {
            if let Some(r) = x.1 {
                used[r as usize] = true;
            }
        }
        self.rids().into_iter().filter(|r| !used[*r as usize]).map(|r| (None, Some(self.rs(r)))).collect()
    }
    pub fn all(&self) -> Vec<Elem> {
        let mut v = self.pairs();
        v.extend(self.unpaired_l());
        v.extend(self.unpaired_r());
        v
    }
    pub fn lefts(&self) -> Vec<Elem> {
        self.lids().into_iter().map(|l| (Some(self.ls(l)), None)).collect()
    }
    pub fn rights(&self) -> Vec<Elem> {
        self.rids().into_iter().map(|r| (None, Some(self.rs(r)))).collect()
    }
    /// The scope of a filter and whether it removes what its closure answers `true` for
    pub fn scope(&self, op: &Op) -> Option<(Vec<Elem>, Sel, bool)> {
        match op {
            Op::Retain { sel } => {
                if self.kind == Kind::Cycle {
                    Some((self.pairs(), *sel, false))
                } else {
                    // The existing tests fix that unpaired right items are not visited
                    let mut v = self.pairs();
                    v.extend(self.unpaired_l());
                    Some((v, *sel, true))
                }
            }
            Op::RetainPaired { sel } => Some((self.pairs(), *sel, true)),
            Op::RetainUnpaired { sel } => {
                let mut v = self.unpaired_r();
                if self.kind == Kind::Partial {
                    v.extend(self.unpaired_l());
                }
                Some((v, *sel, true))
            }
            Op::DrainFilter { sel, .. } => Some((self.all(), *sel, true)),
            _ => None,
        }
    }
    pub fn remove_elem(&mut self, e: &Elem) {
        if let Some(l) = e.0 {
            self.del_l(l.0);
        }
        if let Some(r) = e.1 {
            // A filter over pairs of the group map removes left items only
            if self.kind != Kind::Group || e.0.is_none() {
                self.del_r(r.0);
            }
        }
    }

    // ---- operations

    /// Is this the call that is known to break the map (see known-findings)?
    pub fn known_bad(&self, op: &Op) -> bool {
        matches!(op, Op::Insert { l, r } if self.kind == Kind::Group && self.paired(*l, *r))
    }

    /// Whether the map type has this operation
    pub fn supports(kind: Kind, op: &Op) -> bool {
        use Kind::*;
        match op {
            Op::InsertLeft { .. } | Op::InsertRight { .. } | Op::Pair { .. } | Op::RemoveLeft { .. } | Op::RemoveRight { .. } => kind != Cycle,
            Op::InsertRemove { .. } => kind == Group,
            Op::PairForced { .. } | Op::PairForcedRemove { .. } | Op::Unpair { .. } => kind == Partial,
            Op::RemoveViaLeft { .. } | Op::RemoveViaRight { .. } => kind != Group,
            Op::SwapLeft { how, .. } => kind != Group && *how != Swap::Remove,
            Op::SwapRight { how, .. } => {
                if kind == Group {
                    matches!(how, Swap::Plain | Swap::Remove)
                } else {
                    *how != Swap::Remove
                }
            }
            Op::Retain { .. } => kind != Group,
            Op::RetainPaired { .. } | Op::RetainUnpaired { .. } => kind != Cycle,
            Op::Drain { .. } | Op::DrainFilter { .. } | Op::Reserve { .. } | Op::TryReserve { .. } | Op::ShrinkTo { .. } | Op::ShrinkFit => kind != Group,
            Op::SaveLoad { .. } | Op::LoadStream { .. } | Op::LoadBytes { .. } => kind == Cycle,
            _ => true,
        }
    }

    /// Applies an operation on single items. `a` and `b` are the serials of the objects passed by value, in order.
    pub fn apply(&mut self, op: &Op, a: u32, b: u32) -> Option<Spec> {
        let exact = |s: String, refused: bool| Some(Spec { ret: RetSpec::Exact(s), refused });
        let k = self.kind;
        if !Model::supports(k, op) {
            return None;
        }
        match *op {
            Op::Insert { l, r } => match k {
                Kind::Cycle => {
                    let (x, y) = self.insert_one(l, r, a, b);
                    let f = |p: (Option<(u32, u32)>, Option<(u32, u32)>)| p.0.map(|l| pair_text(l, p.1.unwrap()));
                    exact(op2(f(x), f(y)), false)
                }
                Kind::Partial => {
                    let (x, y) = self.insert_one(l, r, a, b);
                    let f = |p: (Option<(u32, u32)>, Option<(u32, u32)>)| op2(p.0.map(tl), p.1.map(tr));
                    exact(format!("{};{}", f(x), f(y)), false)
                }
                Kind::Group => {
                    if !self.has_r(r) {
                        self.put_r(r, b);
                    }
                    let s = self.lget(l).map(|x| x.0).unwrap_or(a);
                    self.put_l(l, s, Some(r));
                    exact("()".into(), false)
                }
            },
            Op::InsertLeft { l, r } => {
                if k == Kind::Partial {
                    let (x, y) = self.del_via_l(l);
                    self.put_l(l, a, None);
                    exact(op2(x.map(tl), y.map(tr)), false)
                } else {
                    if !self.has_r(r) {
                        return exact("None".into(), true);
                    }
                    let old = self.del_l(l);
                    self.put_l(l, a, Some(r));
                    exact(opt(old.map(tl)), false)
                }
            }
            Op::InsertRight { r } => {
                if k == Kind::Partial {
                    let (x, y) = self.del_via_r(r);
                    self.put_r(r, a);
                    exact(op2(x.map(tl), y.map(tr)), false)
                } else {
                    let old = self.del_group(r);
                    self.put_r(r, a);
                    exact(opt(old.map(|(g, r)| set_text(g, r))), false)
                }
            }
            Op::InsertRemove { l, r } => {
                let x = self.del_l(l);
                let y = self.del_group(r);
                self.put_r(r, b);
                self.put_l(l, a, Some(r));
                exact(format!("{};{}", opt(x.map(tl)), opt(y.map(|(g, r)| set_text(g, r)))), false)
            }
            Op::Pair { l, r } => {
                let ok = self.has_l(l) && self.has_r(r) && (k == Kind::Group || (self.l_partner(l).is_none() && self.r_partner(r).is_none()));
                if ok {
                    self.link(l, r);
                }
                exact(ok.to_string(), !ok)
            }
            Op::PairForced { l, r } | Op::PairForcedRemove { l, r } => {
                if !self.has_l(l) || !self.has_r(r) || self.paired(l, r) {
                    return exact(op2(None, None), true);
                }
                let ol = self.r_partner(r).map(|x| self.ls(x));
                let or = self.l_partner(l).map(|x| self.rs(x));
                self.link(l, r);
                if matches!(op, Op::PairForcedRemove { .. }) {
                    ol.map(|x| self.del_l(x.0));
                    or.map(|x| self.del_r(x.0));
                }
                exact(op2(ol.map(tl), or.map(tr)), false)
            }
            Op::Unpair { l, r } => {
                let ok = self.paired(l, r);
                if ok {
                    self.l[l as usize].as_mut().unwrap().1 = None;
                    self.r[r as usize].as_mut().unwrap().1 = None;
                }
                exact(ok.to_string(), !ok)
            }
            Op::Remove { l, r } => {
                if !self.paired(l, r) {
                    return exact("None".into(), true);
                }
                if k == Kind::Group {
                    let (g, r) = self.del_group(r).unwrap();
                    return exact(set_text(g, r), false);
                }
                let (x, y) = self.del_via_l(l);
                exact(pair_text(x.unwrap(), y.unwrap()), false)
            }
            Op::RemoveLeft { l } => {
                let x = self.del_l(l);
                exact(opt(x.map(tl)), x.is_none())
            }
            Op::RemoveRight { r } => {
                if k == Kind::Group {
                    let x = self.del_group(r);
                    let none = x.is_none();
                    return exact(opt(x.map(|(g, r)| set_text(g, r))), none);
                }
                let x = self.del_r(r);
                exact(opt(x.map(tr)), x.is_none())
            }
            Op::RemoveViaLeft { .. } | Op::RemoveViaRight { .. } => {
                let (x, y) = match *op {
                    Op::RemoveViaLeft { l } => self.del_via_l(l),
                    Op::RemoveViaRight { r } => self.del_via_r(r),
                    _ => unreachable!(),
                };
                let none = x.is_none() && y.is_none();
                if k == Kind::Cycle {
                    exact(opt(x.map(|x| pair_text(x, y.unwrap()))), none)
                } else {
                    exact(op2(x.map(tl), y.map(tr)), none)
                }
            }
            Op::SwapLeft { how, old, new, other } => {
                if !self.has_l(old) || (how == Swap::Checked && !self.paired(old, other)) {
                    if how == Swap::OrInsert {
                        let (x, y) = self.insert_one(new, other, a, b);
                        return Some(Spec { ret: RetSpec::Subset(displaced(x, y)), refused: false });
                    }
                    return exact(op2(None, None), true);
                }
                let eq = if new != old { self.del_via_l(new) } else { (None, None) };
                let p = self.l_partner(old);
                let o = self.del_l(old).unwrap();
                self.put_l(new, a, p);
                exact(op2(Some(tl(o)), self.eq_text(eq)), false)
            }
            Op::SwapRight { how, old, new, other } => {
                if k == Kind::Group {
                    if !self.has_r(old) {
                        self.del_group(new);
                        self.put_r(new, a);
                        return exact(if how == Swap::Remove { "None".into() } else { "()".into() }, false);
                    }
                    if how == Swap::Plain {
                        if old != new {
                            self.del_group(new);
                            self.put_r(new, a);
                            for l in self.group(old) {
                                self.link(l, new);
                            }
                        }
                        return exact("()".into(), false);
                    }
                    if old != new {
                        self.del_group(new);
                    }
                    let g = self.group(old);
                    let o = self.del_r(old).unwrap();
                    self.put_r(new, a);
                    for l in g {
                        self.link(l, new);
                    }
                    return exact(tr(o), false);
                }
                if !self.has_r(old) || (how == Swap::Checked && !self.paired(other, old)) {
                    if how == Swap::OrInsert {
                        let (x, y) = self.insert_one(other, new, b, a);
                        return Some(Spec { ret: RetSpec::Subset(displaced(x, y)), refused: false });
                    }
                    return exact(op2(None, None), true);
                }
                let eq = if new != old { self.del_via_r(new) } else { (None, None) };
                let p = self.r_partner(old);
                let o = self.del_r(old).unwrap();
                self.put_r(new, a);
                if let Some(l) = p {
                    self.link(l, new);
                }
                exact(op2(Some(tr(o)), self.eq_text(eq)), false)
            }
            _ => None,
        }
    }

    fn eq_text(&self, eq: (Option<(u32, u32)>, Option<(u32, u32)>)) -> Option<String> {
        match (self.kind, eq) {
            (_, (None, None)) => None,
            (Kind::Cycle, (Some(l), Some(r))) => Some(pair_text(l, r)),
            (_, (l, r)) => Some(op2(l.map(tl), r.map(tr))),
        }
    }

    #[allow(clippy::type_complexity)]
    fn insert_one(&mut self, l: u32, r: u32, ls: u32, rs: u32) -> ((Option<(u32, u32)>, Option<(u32, u32)>), (Option<(u32, u32)>, Option<(u32, u32)>)) {
        let x = self.del_via_l(l);
        let y = self.del_via_r(r);
        self.put_r(r, rs);
        self.put_l(l, ls, Some(r));
        (x, y)
    }

    /// One element of a bulk operation. Returns false if it is the known bad call, which is skipped.
    pub fn bulk_op(&self, item: &(Option<u32>, Option<u32>)) -> Option<Op> {
        let op = match (self.kind, item.0, item.1) {
            (_, None, None) => return None,
            (_, Some(l), Some(r)) => Op::Insert { l, r },
            (Kind::Partial, Some(l), None) => Op::InsertLeft { l, r: 0 },
            (Kind::Partial | Kind::Group, None, Some(r)) => Op::InsertRight { r },
            _ => return None,
        };
        if self.known_bad(&op) {
            return None;
        }
        Some(op)
    }

    /// The items that a call with these arguments may touch: the arguments and their companions
    pub fn concerned(&self, op: &Op) -> (Vec<u32>, Vec<u32>) {
        let (mut ls, mut rs) = op.ids();
        let (l0, r0) = (ls.clone(), rs.clone());
        if self.kind == Kind::Group {
            for r in r0 {
                ls.extend(self.group(r));
            }
        } else {
            for l in l0 {
                rs.extend(self.l_partner(l));
            }
            for r in r0 {
                ls.extend(self.r_partner(r));
            }
        }
        (ls, rs)
    }
}

fn displaced(x: (Option<(u32, u32)>, Option<(u32, u32)>), y: (Option<(u32, u32)>, Option<(u32, u32)>)) -> Vec<u32> {
    [x.0, x.1, y.0, y.1].iter().flatten().map(|x| x.1).collect()
}
