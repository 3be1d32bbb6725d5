//! The seams: instrumented items (their `Eq`, `Hash`, `Clone`, `Drop`, (de)serialization), the allocator, and the
//! registry of all objects that exist. Everything is owned by one `Ctx` per simulated run.
use crate::rng::mix;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Borrow;
use std::cell::Cell;
use std::fmt;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- allocator

/// The simulated memory: only allocations made by the library ("inside a window") are counted and can fail.
pub struct SimAlloc;

#[derive(Clone, Copy, Default, Debug)]
pub struct Win {
    pub on: bool,
    pub live: i64,
    pub peak: i64,
    pub count: u64,
    /// Bytes requested so far
    pub bytes: u64,
    /// Fail the n-th allocation from now on (0: never)
    pub fail_at: u32,
    pub failed: u32,
    /// No allocation beyond this many live bytes succeeds (0: no limit)
    pub limit: i64,
}

thread_local! {
    static WIN: Cell<Win> = const { Cell::new(Win { on: false, live: 0, peak: 0, count: 0, bytes: 0, fail_at: 0, failed: 0, limit: 0 }) };
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    /// Which reader this thread simulates (C20)
    static READER: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let ok = WIN
            .try_with(|w| {
                let mut s = w.get();
                if !s.on {
                    return true;
                }
                s.count += 1;
                s.bytes += layout.size() as u64;
                if s.fail_at > 0 {
                    s.fail_at -= 1;
                    if s.fail_at == 0 {
                        s.failed += 1;
                        w.set(s);
                        return false;
                    }
                }
                if s.limit > 0 && s.live.saturating_add(layout.size() as i64) > s.limit {
                    s.failed += 1;
                    w.set(s);
                    return false;
                }
                s.live += layout.size() as i64;
                s.peak = s.peak.max(s.live);
                w.set(s);
                true
            })
            .unwrap_or(true);
        if !ok {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let on = WIN
            .try_with(|w| {
                let mut s = w.get();
                if s.on {
                    s.live -= layout.size() as i64;
                    w.set(s);
                }
                s.on
            })
            .unwrap_or(false);
        if on && layout.size() <= 1 << 14 {
            // What is freed is overwritten, so that using it afterwards is noticed
            std::ptr::write_bytes(ptr, 0xdd, layout.size());
        }
        System.dealloc(ptr, layout)
    }
}

/// Bytes the library has requested so far
pub fn requested() -> u64 {
    win().bytes
}
pub fn win() -> Win {
    WIN.with(|w| w.get())
}
pub fn set_win(s: Win) {
    WIN.with(|w| w.set(s))
}

struct WinGuard(bool);
impl Drop for WinGuard {
    fn drop(&mut self) {
        WIN.with(|w| {
            let mut s = w.get();
            s.on = self.0;
            w.set(s);
        })
    }
}
fn switch(on: bool) -> WinGuard {
    WIN.with(|w| {
        let mut s = w.get();
        let old = s.on;
        s.on = on;
        w.set(s);
        WinGuard(old)
    })
}

/// Runs library code: its allocations are counted and may be made to fail
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _g = switch(true);
    f()
}
/// Runs simulator code from within library code
pub fn sim<T>(f: impl FnOnce() -> T) -> T {
    let _g = switch(false);
    f()
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cb {
    Hash = 0,
    Eq = 1,
    Clone = 2,
    Closure = 3,
    Source = 4,
    Ser = 5,
    Debug = 6,
    De = 7,
}
pub const CB_NAMES: [&str; 8] = ["hash", "eq", "clone", "closure", "source", "serialize", "debug", "deserialize"];

#[derive(Clone, Copy, Debug)]
pub struct Obj {
    pub side: u8,
    pub live: bool,
    /// The object may stay alive for ever, as an iterator was leaked on purpose
    pub leakable: bool,
    pub id: u32,
    pub gen: u32,
    pub parent: u32,
}

#[derive(Default)]
pub struct Ctx {
    pub objs: Vec<Obj>,
    pub live: i64,
    pub leaked: i64,
    /// Evidence of memory misuse (double drops, use after drop)
    pub faults: Vec<String>,
    pub args: Vec<u32>,
    pub gen: u32,
    pub salt: bool,
    pub arm_nth: u32,
    pub arm_mask: u8,
    pub fired: Option<Cb>,
    pub fired_total: u64,
    /// How long the log was when the panic was injected
    pub fired_log: usize,
    pub counts: [u64; 8],
    pub digest: u64,
    pub baton: Option<std::sync::Arc<crate::readers::Baton>>,
    /// The ids that were offered to a closure since the last reset (side 0, side 1)
    pub log: Vec<(Option<u32>, Option<u32>)>,
}

/// The payload of panics that the simulator injects
pub struct Injected;

pub fn install(c: *mut Ctx) -> *mut Ctx {
    CTX.with(|p| p.replace(c))
}
pub fn set_reader(i: usize) {
    READER.with(|r| r.set(i))
}
pub fn reader() -> usize {
    READER.with(|r| r.get())
}

/// Access to the context. Nothing called inside may run code of items.
pub fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    let p = CTX.with(|p| p.get());
    assert!(!p.is_null(), "no simulation context");
    let _g = switch(false);
    f(unsafe { &mut *p })
}
fn try_with<T>(f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    let p = CTX.try_with(|p| p.get()).ok()?;
    if p.is_null() {
        return None;
    }
    let _g = switch(false);
    Some(f(unsafe { &mut *p }))
}

/// No more panics are injected until the next step
pub fn disarm() {
    with(|c| {
        c.arm_nth = 0;
        c.arm_mask = 0;
    })
}

pub fn take_panic_msg() -> String {
    PANIC_MSG.with(|m| m.take()).unwrap_or_default()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = switch(false);
        if info.payload().downcast_ref::<Injected>().is_some() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let text = format!("{msg} ({loc})");
        if std::env::var_os("SIM_TRACE").is_some() {
            eprintln!("panic: {text}");
        }
        crate::lawless::panicked(&text);
        PANIC_MSG.with(|m| m.set(Some(text)));
    }));
}

/// A call into user code. This is where the simulator may take over: another reader runs, or a panic is injected.
pub fn callback(kind: Cb, side: u8, id: u32, is_arg: bool) {
    let _g = switch(false);
    let fire = with(|c| {
        c.counts[kind as usize] += 1;
        c.digest = mix(c.digest ^ ((kind as u64) << 40 | (side as u64) << 32 | id as u64));
        if c.arm_nth > 0 && c.arm_mask & (1 << kind as u8) != 0 && is_arg {
            c.arm_nth -= 1;
            if c.arm_nth == 0 {
                c.fired = Some(kind);
                c.fired_total += 1;
                c.fired_log = c.log.len();
                return true;
            }
        }
        false
    });
    if fire {
        std::panic::panic_any(Injected);
    }
    let me = reader();
    if me != usize::MAX {
        let baton = with(|c| c.baton.clone());
        if let Some(b) = baton {
            b.pause(me);
        }
    }
}

// ---------------------------------------------------------------- items

const LIVE: u64 = 0xa11f_e0b1_ec75_0001;
const DEAD: u64 = 0xdead_dead_dead_0002;

/// What items are looked up by
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct Probe<const S: usize> {
    pub id: u32,
}

/// An instrumented item. Two items are equal if they have the same id, but every object has its own serial number.
#[repr(C)]
pub struct Key<const S: usize> {
    canary: u64,
    pub probe: Probe<S>,
    pub serial: u32,
}

fn new_obj(side: usize, id: u32, gen: Option<u32>, parent: u32) -> u32 {
    with(|c| {
        let gen = gen.unwrap_or_else(|| {
            c.gen += 1;
            c.gen
        });
        c.objs.push(Obj { side: side as u8, live: true, leakable: false, id, gen, parent });
        c.live += 1;
        (c.objs.len() - 1) as u32
    })
}

impl<const S: usize> Key<S> {
    /// A new object that is about to be handed to the library
    pub fn new(id: u32) -> Self {
        let serial = new_obj(S, id, None, u32::MAX);
        with(|c| c.args.push(serial));
        Key { canary: LIVE, probe: Probe { id }, serial }
    }
    pub fn id(&self) -> u32 {
        self.probe.id
    }
    fn check(&self, what: &str) {
        let bad = with(|c| {
            if self.canary != LIVE {
                c.faults.push(format!("{what} of a dropped or overwritten {} item (serial {})", side_name(S), self.serial));
                return true;
            }
            match c.objs.get(self.serial as usize) {
                Some(o) if o.live && o.side as usize == S && o.id == self.probe.id => false,
                _ => {
                    c.faults.push(format!("{what} of a dropped {} item (serial {})", side_name(S), self.serial));
                    true
                }
            }
        });
        if bad && reader() == usize::MAX && !std::thread::panicking() {
            panic!("use of a dropped item");
        }
    }
    fn is_arg(&self) -> bool {
        with(|c| c.args.contains(&self.serial))
    }
}

pub fn side_name(s: usize) -> char {
    if s == 0 {
        'L'
    } else {
        'R'
    }
}

impl<const S: usize> Drop for Key<S> {
    fn drop(&mut self) {
        let canary = self.canary;
        try_with(|c| {
            if canary != LIVE {
                c.faults.push(format!("{} item dropped twice, or overwritten (serial {})", side_name(S), self.serial));
                return;
            }
            match c.objs.get_mut(self.serial as usize) {
                Some(o) if o.live && o.side as usize == S => {
                    o.live = false;
                    if o.leakable {
                        c.leaked -= 1;
                    }
                    c.live -= 1;
                }
                _ => c.faults.push(format!("{} item dropped twice (serial {})", side_name(S), self.serial)),
            }
        });
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
    }
}

impl<const S: usize> Hash for Probe<S> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        callback(Cb::Hash, S as u8, self.id, true);
        feed::<S, H>(self.id, state)
    }
}
fn feed<const S: usize, H: Hasher>(id: u32, state: &mut H) {
    let salt = with(|c| c.salt);
    if salt {
        state.write_u32(id.wrapping_mul(2).wrapping_add(S as u32));
    } else {
        state.write_u32(id);
    }
}
impl<const S: usize> Hash for Key<S> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.check("hashing");
        callback(Cb::Hash, S as u8, self.probe.id, self.is_arg());
        feed::<S, H>(self.probe.id, state)
    }
}
impl<const S: usize> PartialEq for Key<S> {
    fn eq(&self, other: &Self) -> bool {
        self.check("comparison");
        other.check("comparison");
        callback(Cb::Eq, S as u8, self.probe.id, true);
        self.probe.id == other.probe.id
    }
}
impl<const S: usize> Eq for Key<S> {}
impl<const S: usize> PartialEq<Key<S>> for Probe<S> {
    fn eq(&self, other: &Key<S>) -> bool {
        other.check("comparison");
        callback(Cb::Eq, S as u8, self.id, true);
        self.id == other.probe.id
    }
}
impl<const S: usize> Borrow<Probe<S>> for Key<S> {
    fn borrow(&self) -> &Probe<S> {
        &self.probe
    }
}
impl<const S: usize> Clone for Key<S> {
    fn clone(&self) -> Self {
        self.check("cloning");
        callback(Cb::Clone, S as u8, self.probe.id, true);
        let gen = with(|c| c.objs[self.serial as usize].gen);
        let serial = new_obj(S, self.probe.id, Some(gen), self.serial);
        Key { canary: LIVE, probe: self.probe, serial }
    }
}
impl<const S: usize> fmt::Debug for Key<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check("printing");
        callback(Cb::Debug, S as u8, self.probe.id, true);
        write!(f, "{}{}#{}", side_name(S), self.probe.id, self.serial)
    }
}
impl<const S: usize> Serialize for Key<S> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.check("serialization");
        callback(Cb::Ser, S as u8, self.probe.id, true);
        z.serialize_u32(self.probe.id)
    }
}
/// Ids beyond this are not valid data
pub const MAX_ID: u32 = 131_071;
pub struct Id(pub u32);
impl<'de> Deserialize<'de> for Id {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let id = u32::deserialize(d)?;
        if id > MAX_ID {
            return Err(serde::de::Error::custom("invalid id"));
        }
        Ok(Id(id))
    }
}
impl<'de, const S: usize> Deserialize<'de> for Key<S> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let id = Id::deserialize(d)?.0;
        callback(Cb::De, S as u8, id, true);
        let serial = new_obj(S, id, Some(0), u32::MAX);
        with(|c| {
            // Only the most recent objects are arguments: the earlier ones have been inserted
            if c.args.len() >= 2 {
                c.args.clear();
            }
            c.args.push(serial)
        });
        Ok(Key { canary: LIVE, probe: Probe { id }, serial })
    }
}
