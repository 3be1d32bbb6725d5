//! Items that break the contracts of `Eq` and `Hash`: nothing may be dropped twice or used after being dropped.
use crate::ctx::{sim, with, take_panic_msg, Injected};
use crate::issue::*;
use crate::map::S;
use crate::model::*;
use crate::op::*;
use crate::rng::{mix, Rng};
use crate::types::{choose_among, focus, It, Stuff, Typed};
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Default)]
struct Plan {
    /// One answer in this many is wrong (0: none)
    lies: u64,
    /// Ids change from time to time, each item's for itself
    drift: u64,
    /// One comparison in this many panics
    eq_panics: u64,
    /// One drop in this many panics
    drop_panics: u64,
    universe: u64,
}
thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan { lies: 0, drift: 0, eq_panics: 0, drop_panics: 0, universe: 1 }) };
    static DICE: Cell<u64> = const { Cell::new(0) };
    static REG: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static FAULT: RefCell<Option<String>> = const { RefCell::new(None) };
    static LIED: Cell<u64> = const { Cell::new(0) };
    static PANICS: Cell<u64> = const { Cell::new(0) };
}
fn roll() -> u64 {
    DICE.with(|d| {
        let x = mix(d.get().wrapping_add(0x9e37_79b9_7f4a_7c15));
        d.set(x);
        x
    })
}
fn one_in(n: u64) -> bool {
    n > 0 && roll() % n == 0
}
fn fault(s: String) {
    FAULT.with(|f| {
        f.borrow_mut().get_or_insert(s);
    })
}

const LIVE: u64 = 0x11fe_11fe_11fe_11fe;

pub struct Wild {
    canary: Cell<u64>,
    id: Cell<u32>,
    serial: u32,
}
impl Wild {
    fn check(&self, what: &str) {
        if self.canary.get() != LIVE || !REG.with(|r| r.borrow().get(self.serial as usize).copied().unwrap_or(false)) {
            fault(format!("an item was {what} that doesn't exist any more"));
            if !std::thread::panicking() {
                // Nothing that follows makes sense
                std::panic::panic_any(Injected);
            }
        }
    }
}
impl Stuff for Wild {
    const N: u32 = 12;
    fn mk(id: u32) -> Self {
        let serial = REG.with(|r| {
            r.borrow_mut().push(true);
            r.borrow().len() as u32 - 1
        });
        Wild { canary: Cell::new(LIVE), id: Cell::new(id), serial }
    }
    fn id(&self) -> u32 {
        self.check("used");
        let p = PLAN.with(|p| p.get());
        if one_in(p.drift) {
            LIED.with(|l| l.set(l.get() + 1));
            self.id.set((roll() % p.universe) as u32);
        }
        if one_in(p.lies) {
            LIED.with(|l| l.set(l.get() + 1));
            return (roll() % p.universe) as u32;
        }
        self.id.get()
    }
    fn on_eq() {
        // (a panic while another one unwinds ends the process, whatever the map does)
        if !std::thread::panicking() && one_in(PLAN.with(|p| p.get()).eq_panics) {
            PANICS.with(|l| l.set(l.get() + 1));
            std::panic::panic_any(Injected);
        }
    }
}
impl Clone for Wild {
    fn clone(&self) -> Self {
        self.check("cloned");
        Self::mk(self.id.get())
    }
}
impl Drop for Wild {
    fn drop(&mut self) {
        if self.canary.get() != LIVE {
            fault("an item was dropped twice, or overwritten".into());
            return;
        }
        let was = REG.with(|r| r.borrow_mut().get_mut(self.serial as usize).map(|x| std::mem::replace(x, false)));
        if was != Some(true) {
            fault("an item was dropped twice".into());
            return;
        }
        // (written so that it isn't optimised away)
        unsafe { std::ptr::write_volatile(self.canary.as_ptr(), 0xdead) };
        if !std::thread::panicking() && one_in(PLAN.with(|p| p.get()).drop_panics) {
            PANICS.with(|l| l.set(l.get() + 1));
            std::panic::panic_any(Injected);
        }
    }
}

fn history<M: Typed<Wild, Wild>>(seed: u64, n: u32, len: u32) -> Result<(), String> {
    let mut rng = Rng::new(seed);
    let kind = M::KIND;
    let h = S::with_cfg(ahash::HashCfg { mode: rng.pick(&[0, 0, 1, 2, 3, 4, 5, 6]), param: 3, seed: rng.next() });
    let plan = loop {
        let p = Plan {
            lies: rng.pick(&[0, 2, 5, 20, 100]),
            drift: rng.pick(&[0, 0, 20, 200]),
            eq_panics: rng.pick(&[0, 0, 20, 200]),
            drop_panics: rng.pick(&[0, 0, 0, 10, 60]),
            universe: n as u64,
        };
        if p.lies + p.drift + p.eq_panics + p.drop_panics > 0 {
            break p;
        }
    };
    DICE.with(|d| d.set(rng.next()));
    let quiet = Plan { universe: n as u64, ..Plan::default() };
    let cap = rng.pick(&[0, 0, 5, 30]);
    let mut maps = vec![M::make(cap, h)];
    let empty = Model::new(kind);
    let sorts = focus(&mut rng);
    // Items that behave at first
    let calm = if rng.chance(1, 2) { len / 3 } else { 0 };
    for k in 0..len {
        PLAN.with(|p| p.set(if k < calm { quiet } else { plan }));
        let op = choose_among(&sorts, kind, &empty, n, n, &mut rng);
        if !Model::supports(kind, &op) || (matches!(op, Op::InsertRemove { .. }) && kind != Kind::Group) {
            continue;
        }
        let i = rng.below(maps.len() as u64) as usize;
        let what = rng.below(30);
        let seed = rng.next();
        let ok = catch_unwind(AssertUnwindSafe(|| match what {
            0 => {
                maps[i].all();
            }
            1 => {
                maps[i].look(seed as u32 % n, (seed >> 32) as u32 % n);
            }
            2 => {
                let c = maps[i].clone();
                c.same(&maps[i]);
                if maps.len() < 3 {
                    maps.push(c);
                } else {
                    maps[(seed % 3) as usize] = c;
                }
            }
            _ => {
                maps[i].apply(&op);
            }
        }));
        take_panic_msg();
        drop(ok);
        if let Some(f) = FAULT.with(|f| f.borrow_mut().take()) {
            std::mem::forget(maps);
            return Err(format!("after {} of {kind:?}: {f}", if what < 3 { ["iterating", "looking up", "cloning"][what as usize] } else { op.name() }));
        }
    }
    PLAN.with(|p| p.set(Plan { drop_panics: plan.drop_panics, ..quiet }));
    while let Some(m) = maps.pop() {
        let _ = catch_unwind(AssertUnwindSafe(|| drop(m)));
        take_panic_msg();
    }
    PLAN.with(|p| p.set(quiet));
    if let Some(f) = FAULT.with(|f| f.borrow_mut().take()) {
        return Err(format!("when a {kind:?} map was dropped: {f}"));
    }
    let left = REG.with(|r| r.borrow().iter().filter(|x| **x).count());
    // (a drop that panics may leave others behind)
    if left > 0 && plan.drop_panics == 0 {
        return Err(format!("{left} items are left when all {kind:?} maps are gone"));
    }
    Ok(())
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
}

thread_local! {
    static CHILD: Cell<Option<i32>> = const { Cell::new(None) };
}

/// Called by the panic hook. That a panic while another one unwinds ends the process is how
/// Rust works, and a map that was lied to may panic whenever it is used.
pub fn panicked(what: &str) {
    let Some(fd) = CHILD.with(|c| c.get()) else { return };
    if what.contains("panic in a destructor during cleanup") || what.contains("thread panicked while") {
        report(fd, "");
        unsafe { _exit(0) }
    }
    // (hashbrown's tables check what their unsafe functions rely on: that comes before undefined behaviour)
    let table = what.contains("(raw/") && !what.contains("capacity overflow");
    if what.contains("unsafe precondition") || table {
        report(fd, what);
        unsafe { _exit(0) }
    }
}

/// Writes what was found, and how many wrong answers and panics there were
fn report(fd: i32, what: &str) {
    // Items that were used after being dropped have been seen already
    let seen = FAULT.with(|f| f.try_borrow_mut().ok().and_then(|mut f| f.take()));
    let text = format!("{} {} {} {}", DICE.with(|d| d.get()), LIED.with(|l| l.get()), PANICS.with(|l| l.get()), seen.as_deref().unwrap_or(what));
    unsafe { write(fd, text.as_ptr().cast(), text.len()) };
}

/// Every history runs in a process of its own, for it may end that
pub fn run(kind: Kind, seed: u64, n: u32, len: u32) -> (Option<Issue>, u64, u64) {
    let n = n.clamp(1, 200);
    type A = It<Wild, 0>;
    type B = It<Wild, 1>;
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            crate::check::fail("there is no pipe");
        }
        let pid = fork();
        if pid < 0 {
            crate::check::fail("there is no further process");
        }
        if pid == 0 {
            close(fds[0]);
            // (it takes some milliseconds)
            alarm(60);
            CHILD.with(|c| c.set(Some(fds[1])));
            let res = match kind {
                Kind::Cycle => history::<CycleMap<A, B, S>>(seed, n, len),
                Kind::Partial => history::<PartialCycleMap<A, B, S>>(seed, n, len),
                Kind::Group => history::<GroupMap<A, B, S>>(seed, n, len),
            };
            report(fds[1], res.as_ref().err().map(|s| s.as_str()).unwrap_or(""));
            _exit(0)
        }
        close(fds[1]);
        let mut text = vec![];
        let mut buf = [0u8; 512];
        loop {
            let n = read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        sim(|| {
            let text = String::from_utf8_lossy(&text);
            let mut it = text.splitn(4, ' ');
            let mut num = || it.next().and_then(|x| x.parse::<u64>().ok());
            if let Some(d) = num() {
                with(|c| c.digest = mix(c.digest ^ d));
            }
            match (num(), num(), status) {
                (Some(lies), Some(panics), 0) => {
                    let what = it.next().unwrap_or("");
                    (if what.is_empty() { None } else { Some(issue(Class::Other, t(24), what.to_string())) }, lies, panics)
                }
                _ => {
                    let how = match status & 0x7f {
                        14 => "a history didn't end".to_string(),
                        0 => format!("the process ended with code {}", status >> 8),
                        s => format!("the process was ended by signal {s}"),
                    };
                    (Some(issue(Class::Other, t(24), format!("{how} when {kind:?} items broke the contracts of Eq and Hash"))), 0, 0)
                }
            }
        })
    }
}
