//! Chains of conversions of the two-sided optional value, holding instrumented items, with closures and clones that
//! may panic.
use crate::ctx::*;
use crate::issue::*;
use crate::map::{kl, kr, mk, L, R};
use crate::model::{op2, tl, tr};
use crate::rng::Rng;
use cycle_map::OptionalPair;
use OptionalPair::*;

type V = OptionalPair<L, R>;
/// id and serial of either side
type Want = (Option<(u32, u32)>, Option<(u32, u32)>);

fn look(v: &V) -> Want {
    match v {
        Neither => (None, None),
        SomeLeft(l) => (Some(kl(l)), None),
        SomeRight(r) => (None, Some(kr(r))),
        SomeBoth(l, r) => (Some(kl(l)), Some(kr(r))),
    }
}
fn text(w: &Want) -> String {
    op2(w.0.map(tl), w.1.map(tr))
}

pub fn run(seed: u64, len: u32) -> Option<Issue> {
    let mut rng = Rng::new(seed);
    match lib(|| chain(&mut rng, len)) {
        Ok(()) => None,
        Err(s) => Some(issue(Class::Other, t(21), s)),
    }
}

fn asked(side: usize, id: u32, log: &mut Vec<(usize, u32)>) {
    sim(|| {
        log.push((side, id));
        callback(Cb::Closure, side as u8, id, true);
    })
}

fn chain(rng: &mut Rng, len: u32) -> Result<(), String> {
    let (l, r) = (rng.chance(2, 3).then(|| rng.below(9) as u32), rng.chance(2, 3).then(|| rng.below(9) as u32));
    let (l, r) = sim(|| (l.map(mk::<0>), r.map(mk::<1>)));
    let mut want: Want = (l.as_ref().map(kl), r.as_ref().map(kr));
    let mut v: V = match (l, r) {
        (None, None) => Neither,
        (Some(l), None) => SomeLeft(l),
        (None, Some(r)) => SomeRight(r),
        (Some(l), Some(r)) => SomeBoth(l, r),
    };
    for _ in 0..len {
        let how = rng.below(12);
        let mut log = vec![];
        let mut calls = None;
        let name;
        match how {
            0 => {
                name = "conversion to and from a pair of options";
                let p: (Option<L>, Option<R>) = v.into();
                let seen = (p.0.as_ref().map(kl), p.1.as_ref().map(kr));
                if seen != want {
                    return Err(format!("{} became the pair of options {}", text(&want), text(&seen)));
                }
                v = p.into();
            }
            1 => {
                name = "conversion to and from an optional pair";
                let p: Option<(Option<L>, Option<R>)> = v.into();
                let seen = p.as_ref().map(|p| (p.0.as_ref().map(kl), p.1.as_ref().map(kr)));
                if seen != (want != (None, None)).then_some(want) {
                    return Err(format!("{} became the optional pair {seen:?}", text(&want)));
                }
                v = p.into();
            }
            2 => {
                name = "conversion from an optional pair";
                let p: (Option<L>, Option<R>) = v.into();
                v = Some(p).into();
            }
            3 => {
                name = "map";
                let log = std::cell::RefCell::new(&mut log);
                v = v.map(
                    |l| {
                        asked(0, l.id(), &mut log.borrow_mut());
                        l
                    },
                    |r| {
                        asked(1, r.id(), &mut log.borrow_mut());
                        r
                    },
                );
                calls = Some(want);
            }
            4 => {
                name = "map_left";
                v = v.map_left(|l| {
                    asked(0, l.id(), &mut log);
                    l
                });
                calls = Some((want.0, None));
            }
            5 => {
                name = "map_right";
                v = v.map_right(|r| {
                    asked(1, r.id(), &mut log);
                    r
                });
                calls = Some((None, want.1));
            }
            6 => {
                name = "convert";
                v = v.convert();
            }
            7 | 8 => {
                name = if how == 7 { "clone" } else { "cloned" };
                let c = match (how, &v) {
                    (7, v) => v.clone(),
                    (_, Neither) => Neither.cloned(),
                    (_, SomeLeft(l)) => OptionalPair::<&L, &R>::SomeLeft(l).cloned(),
                    (_, SomeRight(r)) => OptionalPair::<&L, &R>::SomeRight(r).cloned(),
                    (_, SomeBoth(l, r)) => SomeBoth(l, r).cloned(),
                };
                let seen = look(&c);
                let ids = |w: &Want| (w.0.map(|x| x.0), w.1.map(|x| x.0));
                let parents = |w: &Want| with(|c| (w.0.map(|x| c.objs[x.1 as usize].parent), w.1.map(|x| c.objs[x.1 as usize].parent)));
                if ids(&seen) != ids(&want) || parents(&seen) != (want.0.map(|x| x.1), want.1.map(|x| x.1)) {
                    return Err(format!("the clone of {} is {}", text(&want), text(&seen)));
                }
                if !(c == v) || c != v {
                    return Err(format!("the clone of {} is not equal to it", text(&want)));
                }
                if rng.chance(1, 2) {
                    if look(&v) != want {
                        return Err(format!("cloning changed {} to {}", text(&want), text(&look(&v))));
                    }
                    want = seen;
                    v = c;
                }
            }
            9 => {
                name = "printing";
                let s = sim(|| format!("{v:?}"));
                let (l, r) = (want.0.map(tl), want.1.map(tr));
                let has = |x: &Option<String>| x.as_ref().is_none_or(|x| s.matches(x.as_str()).count() == 1);
                let n = l.is_some() as usize + r.is_some() as usize;
                if s.matches('#').count() != n || !has(&l) || !has(&r) {
                    return Err(format!("{} is printed as {s}", text(&want)));
                }
            }
            11 => {
                // Assigning to a value that holds something else
                name = "clone_from";
                let (l, r) = (rng.chance(1, 2).then(|| rng.below(9) as u32), rng.chance(1, 2).then(|| rng.below(9) as u32));
                let (l, r) = sim(|| (l.map(mk::<0>), r.map(mk::<1>)));
                let before: Want = (l.as_ref().map(kl), r.as_ref().map(kr));
                let mut c: V = (l, r).into();
                if look(&c) != before {
                    return Err(format!("the pair of options {} became {}", text(&before), text(&look(&c))));
                }
                c.clone_from(&v);
                let seen = look(&c);
                let ids = |w: &Want| (w.0.map(|x| x.0), w.1.map(|x| x.0));
                if ids(&seen) != ids(&want) || !(c == v) || c != v {
                    return Err(format!("{} assigned from {} is {}", text(&before), text(&want), text(&seen)));
                }
            }
            _ => {
                name = "looking";
                let none = want == (None, None);
                let seen = (v.get_left().map(kl), v.get_right().map(kr));
                if v.is_none() != none || v.is_some() == none || seen != want {
                    return Err(format!("{} looks like {}, is_none() says {}", text(&want), text(&seen), v.is_none()));
                }
            }
        }
        if look(&v) != want {
            return Err(format!("{name} turned {} into {}", text(&want), text(&look(&v))));
        }
        if let Some(c) = calls {
            log.sort_unstable();
            let mut w = vec![];
            w.extend(c.0.map(|x| (0, x.0)));
            w.extend(c.1.map(|x| (1, x.0)));
            if log != w {
                return Err(format!("{name} of {} called its closures for {log:?}", text(&want)));
            }
        }
    }
    drop(v);
    Ok(())
}
