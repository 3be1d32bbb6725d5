//! Concurrent readers. They are real threads, but only one of them runs at any time: at every call into user code
//! (hashing, comparing, cloning, printing, serializing) a seeded scheduler decides who goes on.
use crate::ctx::*;
use crate::issue::*;
use crate::map::*;
use crate::model::*;
use crate::op::*;
use crate::rng::{mix, Rng};
use crate::verify;
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use std::marker::PhantomData;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

const CTRL: usize = usize::MAX;

struct BSt {
    turn: usize,
    done: Vec<bool>,
    rng: Rng,
    /// A reader hands over at one in this many calls
    grain: u64,
    /// Calls until the reader panics
    panic_in: Vec<u32>,
    /// Readers may panic again at most this many calls later (0: they don't)
    again: u64,
    switches: u64,
}
pub struct Baton {
    m: Mutex<BSt>,
    cv: Condvar,
}

impl Baton {
    pub fn pause(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        if s.panic_in[me] > 0 && !std::thread::panicking() {
            s.panic_in[me] -= 1;
            if s.panic_in[me] == 0 {
                if s.again > 0 {
                    let n = s.again;
                    s.panic_in[me] = 1 + s.rng.below(n) as u32;
                }
                drop(s);
                with(|c| c.fired_total += 1);
                panic_any(Injected);
            }
        }
        let g = s.grain;
        if s.rng.below(g) == 0 {
            s.turn = CTRL;
            s.switches += 1;
            self.cv.notify_all();
            while s.turn != me {
                s = self.cv.wait(s).unwrap();
            }
        }
    }
    fn start(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.turn != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.done[me] = true;
        s.turn = CTRL;
        self.cv.notify_all();
    }
}

fn ids(v: Option<Vec<(u32, u32)>>) -> String {
    match v {
        None => "none".into(),
        Some(mut v) => {
            v.sort_unstable();
            format!("{v:?}")
        }
    }
}

fn shape(m: &Model) -> String {
    let f = |v: Vec<Elem>| v.iter().map(|(l, r)| format!("{:?}-{:?} ", l.map(|x| x.0), r.map(|x| x.0))).collect::<String>();
    f(m.all())
}

const READS: u64 = 16;
#[derive(Clone, Copy)]
struct ReadOp(u64, u64);

fn read(map: &Map, other: &Map, p: &verify::Probes, op: ReadOp) -> String {
    let ReadOp(what, arg) = op;
    let u = p.l.len();
    let i = (arg % u as u64) as usize;
    let j = ((arg >> 16) % u as u64) as usize;
    match what % READS {
        0 => map.has_l(&p.l[i]).to_string(),
        1 => map.has_r(&p.r[i]).to_string(),
        2 => format!("{:?}", map.right_of_probe(&p.l[i].probe)),
        3 => ids(map.left_of_probe(&p.r[i].probe)),
        4 => format!("{:?}", map.right_of(&p.l[i])),
        5 => ids(map.left_of(&p.r[i])),
        6 => map.are_paired(&p.l[i], &p.r[j]).to_string(),
        7 => format!("{:?} {:?}", map.l_paired(&p.l[i]), map.r_paired(&p.r[j])),
        8 => {
            let mut cs = map.cursors();
            let k = j % cs.len();
            let (_, c) = cs.swap_remove(k);
            let mut v = match c.finish(arg >> 32) {
                Finish::Elems(v) => v,
                Finish::Count(n) => return n.to_string(),
                Finish::Last(_) => return String::new(),
            };
            v.sort_unstable();
            format!("{v:?}")
        }
        9 => format!("{:?}", verify::tokens(&map.debug())),
        10 => format!("{} {}", map.eq(other), other.eq(map)),
        11 => {
            let c = map.clone();
            match verify::observe(&c) {
                Ok(m) => shape(&m),
                Err(e) => e,
            }
        }
        12 => {
            if let Map::C(m) = map {
                let s = serde_json::to_string(m).unwrap_or_else(|e| e.to_string());
                let mut v: Vec<(u32, u32)> = serde_json::from_str(&s).unwrap_or_default();
                v.sort_unstable();
                return format!("{v:?}");
            }
            // Two cursors in turns
            let (mut a, mut b) = (map.cursors(), map.cursors());
            let k = j % a.len();
            let (mut a, mut b) = (a.swap_remove(k).1, b.swap_remove(0).1);
            let mut v = vec![];
            loop {
                match (a.next(), b.next()) {
                    (None, None) => break,
                    (x, y) => {
                        v.extend(x);
                        v.extend(y);
                    }
                }
            }
            v.sort_unstable();
            format!("{v:?}")
        }
        13 | 14 => {
            // A cursor that is measured, printed and cloned on its way. The order must not show
            let mut cs = map.cursors();
            let k = j % cs.len();
            let (_, mut c) = cs.swap_remove(k);
            let mut out = String::new();
            let mut v = vec![];
            let mut n = arg >> 32;
            loop {
                if n & 1 == 1 {
                    out += &format!("{} {:?} ", c.len(), c.size_hint());
                }
                if n & 6 == 6 {
                    let mut d = c.fork();
                    let mut w = v.clone();
                    while let Some(e) = d.next() {
                        w.push(e);
                    }
                    w.sort_unstable();
                    out += &format!("{w:?} ");
                }
                if n & 24 == 24 {
                    let mut t = verify::tokens(&c.debug());
                    t.extend(verify::elem_tokens(&v));
                    t.sort();
                    out += &format!("{t:?} ");
                }
                match c.next() {
                    Some(e) => v.push(e),
                    None => break,
                }
                n = mix(n);
            }
            v.sort_unstable();
            format!("{out}{v:?}")
        }
        _ => format!("{:?} {} {:?}", map.len(), map.is_empty(), map.capacity()),
    }
}

// ---- are the maps shareable at all?

struct Is<T>(PhantomData<T>);
trait Not {
    fn sync(&self) -> bool {
        false
    }
    fn send(&self) -> bool {
        false
    }
}
impl<T> Not for &Is<T> {}
impl<T: Sync> Is<T> {
    #[allow(unused)]
    fn sync(&self) -> bool {
        true
    }
}
struct IsSend<T>(PhantomData<T>);
impl<T> Not for &IsSend<T> {}
impl<T: Send> IsSend<T> {
    #[allow(unused)]
    fn send(&self) -> bool {
        true
    }
}
pub fn shareable(k: Kind) -> (bool, bool) {
    match k {
        Kind::Cycle => ((&Is::<CycleMap<L, R, S>>(PhantomData)).sync(), (&IsSend::<CycleMap<L, R, S>>(PhantomData)).send()),
        Kind::Partial => ((&Is::<PartialCycleMap<L, R, S>>(PhantomData)).sync(), (&IsSend::<PartialCycleMap<L, R, S>>(PhantomData)).send()),
        Kind::Group => ((&Is::<GroupMap<L, R, S>>(PhantomData)).sync(), (&IsSend::<GroupMap<L, R, S>>(PhantomData)).send()),
    }
}

struct Ptr<T>(*const T);
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Ptr<T> {}
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}
impl<T> Ptr<T> {
    unsafe fn get<'a>(self) -> &'a T {
        &*self.0
    }
}
#[derive(Clone, Copy)]
struct CtxPtr(*mut Ctx);
unsafe impl Send for CtxPtr {}
impl CtxPtr {
    fn get(self) -> *mut Ctx {
        self.0
    }
}

pub struct Stats {
    pub switches: u64,
    pub panics: u64,
}

/// `n` readers execute `ops` reads each, as `seed` says. `panics`: how many of them are aborted by a panic.
#[allow(clippy::too_many_arguments)]
pub fn run(map: &Map, other: &Map, p: &verify::Probes, seed: u64, n: usize, ops: u32, panics: u32, out: &mut Out) -> Stats {
    let mut rng = Rng::new(seed);
    let tags = t(20);
    let (sync, send) = shareable(map.kind());
    if !sync || !send {
        out.issues.push(issue(Class::Other, tags, "the map cannot be shared between threads any more"));
    }
    // Often all of them do the same few things
    let kinds: Vec<u64> = match rng.below(3) {
        0 => (0..rng.range(1, 2)).map(|_| rng.below(READS)).collect(),
        _ => vec![],
    };
    let again = rng.pick(&[0, 0, 3, 12, 40]);
    let what = |rng: &mut Rng| if kinds.is_empty() { rng.next() } else { rng.pick(&kinds) };
    let plans: Vec<Vec<ReadOp>> = (0..n).map(|_| (0..ops).map(|_| ReadOp(what(&mut rng), rng.next())).collect()).collect();
    // What a single reader gets
    let want: Vec<Vec<String>> = plans.iter().map(|v| v.iter().map(|o| read(map, other, p, *o)).collect()).collect();
    let grain = rng.pick(&[1, 1, 2, 5]);
    let panic_in = (0..n).map(|i| if (i as u32) < panics { 1 + rng.u(40) as u32 } else { 0 }).collect();
    let sched = rng.next();
    let baton = Arc::new(Baton {
        m: Mutex::new(BSt { turn: CTRL, done: vec![false; n], rng: Rng::new(rng.next()), grain, panic_in, again, switches: 0 }),
        cv: Condvar::new(),
    });
    with(|c| c.baton = Some(baton.clone()));
    let ctx = CtxPtr(with(|c| c as *mut Ctx));
    let fired0 = with(|c| c.fired_total);
    let (map_p, other_p, probes_p) = (Ptr(map as *const Map), Ptr(other as *const Map), Ptr(p as *const verify::Probes));
    let results: Vec<Vec<Result<String, Option<String>>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(i, plan)| {
                let b = baton.clone();
                let plan = plan.clone();
                sc.spawn(move || {
                    install(ctx.get());
                    b.start(i);
                    set_reader(i);
                    let (map, other, p) = unsafe { (map_p.get(), other_p.get(), probes_p.get()) };
                    let mut res = vec![];
                    for op in plan {
                        res.push(match catch_unwind(AssertUnwindSafe(|| read(map, other, p, op))) {
                            Ok(s) => Ok(s),
                            Err(e) if e.downcast_ref::<Injected>().is_some() => Err(None),
                            Err(_) => Err(Some(take_panic_msg())),
                        });
                    }
                    set_reader(usize::MAX);
                    install(std::ptr::null_mut());
                    b.finish(i);
                    res
                })
            })
            .collect();
        // The scheduler. It prefers one reader for a while, stalls another one, or picks anyone
        let mut rng = Rng::new(sched);
        let mut stalled: Option<usize> = None;
        loop {
            let mut s = baton.m.lock().unwrap();
            let ready: Vec<usize> = (0..n).filter(|i| !s.done[*i]).collect();
            if ready.is_empty() {
                break;
            }
            if rng.chance(1, 8) {
                stalled = if rng.chance(1, 2) { Some(rng.u(n)) } else { None };
            }
            let free: Vec<usize> = ready.iter().copied().filter(|i| Some(*i) != stalled).collect();
            s.turn = if free.is_empty() { rng.pick(&ready) } else { rng.pick(&free) };
            let who = s.turn;
            baton.cv.notify_all();
            let mut waited = 0;
            while s.turn != CTRL {
                let (g, to) = baton.cv.wait_timeout(s, Duration::from_secs(1)).unwrap();
                s = g;
                if to.timed_out() && s.turn != CTRL {
                    waited += 1;
                    if waited >= 10 {
                        crate::run::note_fatal(&format!("reader {who} makes no progress while the others are suspended"));
                        std::process::abort();
                    }
                }
            }
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    with(|c| c.baton = None);
    let switches = baton.m.lock().unwrap().switches;
    for (i, (got, want)) in results.iter().zip(&want).enumerate() {
        for (k, (g, w)) in got.iter().zip(want).enumerate() {
            match g {
                Ok(s) if s == w => {}
                Ok(s) => out.issues.push(issue(Class::Other, tags, format!("reader {i} got {s:?} for read {k} (kind {}), but a single reader gets {w:?}", plans[i][k].0 % READS))),
                Err(None) => {}
                Err(Some(m)) => out.issues.push(issue(Class::Other, tags, format!("reader {i} panicked in read {k} (kind {}): {m}", plans[i][k].0 % READS))),
            }
        }
    }
    Stats { switches, panics: with(|c| c.fired_total) - fired0 }
}
