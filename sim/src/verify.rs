//! Compares a real map with the model through its public read interface.
use crate::ctx::*;
use crate::issue::*;
use crate::map::*;
use crate::model::*;
use crate::op::*;
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Objects that are only used to ask questions
pub struct Probes {
    pub l: Vec<L>,
    pub r: Vec<R>,
}
impl Probes {
    pub fn new(universe: u32) -> Probes {
        let p = Probes { l: (0..universe).map(mk).collect(), r: (0..universe).map(mk).collect() };
        with(|c| c.args.clear());
        p
    }
    pub fn count(&self) -> i64 {
        (self.l.len() + self.r.len()) as i64
    }
}

fn show(v: &[Elem]) -> String {
    let v: Vec<String> = v.iter().take(24).map(|(l, r)| op2(l.map(tl), r.map(tr))).collect();
    v.join(" ")
}

/// Checks everything (or, in big maps, a sample) that can be asked about the contents
pub fn lookups(map: &Map, m: &Model, p: &Probes, rng: &mut Rng) -> Vec<Issue> {
    let mut out = vec![];
    let tags = content(m.kind);
    let res = catch_unwind(AssertUnwindSafe(|| lookups_inner(map, m, p, rng, &mut out)));
    if res.is_err() {
        out.push(issue(Class::Content, tags, format!("a lookup panicked: {}", take_panic_msg())));
    }
    out
}

fn lookups_inner(map: &Map, m: &Model, p: &Probes, rng: &mut Rng, out: &mut Vec<Issue>) {
    let kind = m.kind;
    let tags = content(kind);
    let mut bad = |class: Class, what: String| {
        let tags = if class == Class::Object { t(4) } else { tags };
        out.push(issue(class, tags, what))
    };
    let (nl, nr) = map.len();
    if (nl, nr) != (m.nl, m.nr) {
        bad(Class::Content, format!("the lengths are {nl} and {nr}, but should be {} and {}", m.nl, m.nr));
    }
    if map.is_empty() != (m.nl + m.nr == 0) {
        bad(Class::Content, format!("is_empty() is {}", map.is_empty()));
    }
    let u = p.l.len();
    let all: Vec<usize> = if u <= 24 { (0..u).collect() } else { (0..24).map(|_| rng.u(u)).collect() };
    for &i in &all {
        let id = i as u32;
        let (l, r) = (&p.l[i], &p.r[i]);
        let has = map.has_l(l);
        if has != m.has_l(id) {
            bad(Class::Content, format!("contains_left(L{id}) is {has}"));
        }
        let has = map.has_r(r);
        if has != m.has_r(id) {
            bad(Class::Content, format!("contains_right(R{id}) is {has}"));
        }
        if let Some(x) = map.l_paired(l) {
            if x != m.l_partner(id).is_some() {
                bad(Class::Content, format!("is_left_paired(L{id}) is {x}"));
            }
        }
        if let Some(x) = map.r_paired(r) {
            if x != m.r_is_paired(id) {
                bad(Class::Content, format!("is_right_paired(R{id}) is {x}"));
            }
        }
        let want = m.l_partner(id).map(|r| m.rs(r));
        for (got, how) in [(map.right_of(l), "item"), (map.right_of_probe(&l.probe), "borrowed form")] {
            if got.map(|x| x.0) != want.map(|x| x.0) {
                bad(Class::Content, format!("get_right of the {how} L{id} is {}, but should be {}", opt(got.map(tr)), opt(want.map(tr))));
            } else if got != want {
                bad(Class::Object, format!("get_right of the {how} L{id} is the object {}, but should be {}", opt(got.map(tr)), opt(want.map(tr))));
            }
        }
        let want: Option<Vec<(u32, u32)>> = if kind == Kind::Group {
            m.has_r(id).then(|| m.group(id).into_iter().map(|l| m.ls(l)).collect())
        } else {
            m.r_partner(id).map(|l| vec![m.ls(l)])
        };
        let ids = |v: &Option<Vec<(u32, u32)>>| v.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>());
        for (mut got, how) in [(map.left_of(r), "item"), (map.left_of_probe(&r.probe), "borrowed form")] {
            if let Some(v) = got.as_mut() {
                v.sort_unstable()
            }
            let text = |v: &Option<Vec<(u32, u32)>>| opt(v.as_ref().map(|v| v.iter().map(|x| tl(*x)).collect::<Vec<_>>().join(" ")));
            if ids(&got) != ids(&want) {
                bad(Class::Content, format!("the left side of the {how} R{id} is {}, but should be {}", text(&got), text(&want)));
            } else if got != want {
                bad(Class::Object, format!("the left side of the {how} R{id} is {}, but should be the objects {}", text(&got), text(&want)));
            }
        }
        let others: Vec<usize> = if u <= 12 {
            (0..u).collect()
        } else {
            let mut v: Vec<usize> = (0..3).map(|_| rng.u(u)).collect();
            v.extend(m.l_partner(id).map(|x| x as usize).filter(|x| *x < u));
            v
        };
        for j in others {
            let x = map.are_paired(l, &p.r[j]);
            if x != m.paired(id, j as u32) {
                bad(Class::Content, format!("are_paired(L{id}, R{j}) is {x}"));
            }
        }
    }
}

/// Checks that every iteration lists exactly what it should
pub fn iterations(map: &Map, m: &Model) -> Vec<Issue> {
    let mut out = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| {
        for (what, mut c) in map.cursors() {
            let want = what.expected(m);
            let (lo, hi) = c.size_hint();
            let n = c.len();
            if n != want.len() || lo != n || hi != Some(n) {
                out.push(issue(Class::Iter, t(6), format!("the iteration over {what:?} has {} elements, but len() is {n} and size_hint() {:?}", want.len(), (lo, hi))));
            }
            let mut got = vec![];
            while let Some(e) = c.next() {
                got.push(e);
                if got.len() > want.len() + 8 {
                    break;
                }
            }
            got.sort_unstable();
            if got != want {
                out.push(issue(Class::Iter, t(6), format!("the iteration over {what:?} gives {}, but should give {}", show(&got), show(&want))));
            }
        }
    }));
    if res.is_err() {
        out.push(issue(Class::Iter, t(6), format!("an iteration panicked: {}", take_panic_msg())));
    }
    out
}

/// The items that a Debug output mentions, sorted
pub fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if (b[i] == b'L' || b[i] == b'R') && i + 1 < b.len() && b[i + 1].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_alphanumeric()) {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'#') {
                j += 1;
            }
            v.push(s[i..j].to_string());
            i = j;
        } else {
            i += 1;
        }
    }
    v.sort();
    v
}
pub fn elem_tokens(v: &[Elem]) -> Vec<String> {
    let mut o = vec![];
    for (l, r) in v {
        o.extend(l.map(tl));
        o.extend(r.map(tr));
    }
    o.sort();
    o
}

pub fn debug_output(map: &Map, m: &Model) -> Vec<Issue> {
    let res = catch_unwind(AssertUnwindSafe(|| {
        let got = tokens(&map.debug());
        let want = elem_tokens(&m.all());
        if got != want {
            Some(format!("the debug output lists {got:?}, but should list {want:?}"))
        } else {
            None
        }
    }));
    match res {
        Ok(None) => vec![],
        Ok(Some(s)) => vec![issue(Class::Iter, t(6), s)],
        Err(e) if e.downcast_ref::<Injected>().is_some() => std::panic::resume_unwind(e),
        Err(_) => vec![issue(Class::Iter, t(6), format!("the debug output panicked: {}", take_panic_msg()))],
    }
}

/// Reads the contents of a map out of it. An error means that the map contradicts itself.
pub fn observe(map: &Map) -> Result<Model, String> {
    let mut m = Model::new(map.kind());
    let res = catch_unwind(AssertUnwindSafe(|| {
        let (mut ls, mut rs) = (vec![], vec![]);
        let (nl, nr) = map.len();
        for (what, mut c) in map.cursors() {
            let v = match what {
                Listing::Lefts => &mut ls,
                Listing::Rights => &mut rs,
                _ => continue,
            };
            while let Some(e) = c.next() {
                v.push(e.0.or(e.1).unwrap());
                if v.len() > nl.max(nr) + 8 {
                    return Err(format!("the iteration over {what:?} yields more elements than the length says"));
                }
            }
        }
        if (ls.len(), rs.len()) != (nl, nr) {
            return Err(format!("the lengths are {nl} and {nr}, but {} and {} items are listed", ls.len(), rs.len()));
        }
        for (id, s) in rs {
            if id >= FRESH {
                return Err(format!("R{id} was removed, but is listed"));
            }
            if m.has_r(id) {
                return Err(format!("R{id} is listed twice"));
            }
            m.put_r(id, s);
        }
        for (id, s) in ls {
            if id >= FRESH {
                return Err(format!("L{id} was removed, but is listed"));
            }
            if m.has_l(id) {
                return Err(format!("L{id} is listed twice"));
            }
            let p = map.right_of_probe(&LP { id }).map(|x| x.0);
            if let Some(r) = p {
                if !m.has_r(r) {
                    return Err(format!("L{id} is paired with R{r}, which is not listed"));
                }
                if m.kind != Kind::Group && m.r_partner(r).is_some() {
                    return Err(format!("L{id} and L{} are both paired with R{r}", m.r_partner(r).unwrap()));
                }
            }
            m.put_l(id, s, p);
        }
        Ok(())
    }));
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(e),
        Err(e) if reader() != usize::MAX && e.downcast_ref::<Injected>().is_some() => std::panic::resume_unwind(e),
        Err(_) => return Err(format!("reading the map panicked: {}", take_panic_msg())),
    }
    m.well_formed()?;
    Ok(m)
}

/// Everything observable without serials: used to compare runs with different hash functions
pub fn snapshot(map: &Map, p: &Probes, rng: &mut Rng) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let gen = |x: (u32, u32)| with(|c| (x.0, c.objs.get(x.1 as usize).map(|o| o.gen).unwrap_or(u32::MAX)));
    let ge = |e: Elem| (e.0.map(gen), e.1.map(gen));
    let (nl, nr) = map.len();
    let _ = write!(s, "len {nl} {nr} empty {};", map.is_empty());
    for (what, c) in map.cursors() {
        let n = c.len();
        let h = c.size_hint();
        let mut v = match c.finish(0) {
            Finish::Elems(v) => v.into_iter().map(ge).collect::<Vec<_>>(),
            _ => vec![],
        };
        v.sort_unstable();
        let _ = write!(s, "\n{what:?} {n} {h:?}");
        for (l, r) in v {
            let _ = write!(s, " {}", op2(l.map(tl), r.map(tr)));
        }
    }
    let u = p.l.len();
    let all: Vec<usize> = if u <= 24 { (0..u).collect() } else { (0..24).map(|_| rng.u(u)).collect() };
    for &i in &all {
        let (l, r) = (&p.l[i], &p.r[i]);
        let mut lo = map.left_of(r).map(|v| v.into_iter().map(gen).collect::<Vec<_>>());
        if let Some(v) = lo.as_mut() {
            v.sort_unstable()
        }
        let _ = write!(
            s,
            "\n{i}: {} {} {:?} {:?} {:?} {:?}",
            map.has_l(l),
            map.has_r(r),
            map.l_paired(l),
            map.r_paired(r),
            map.right_of(l).map(gen),
            lo
        );
        for _ in 0..3 {
            let j = rng.u(u);
            let _ = write!(s, " {j}{}", map.are_paired(l, &p.r[j]));
        }
    }
    s
}
