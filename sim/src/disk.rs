//! Simulated storage, and saving and loading through it.
use crate::ctx::*;
use crate::issue::*;
use crate::map::*;
use crate::model::*;
use crate::op::*;
use crate::rng::Rng;
use crate::simfmt;
use cycle_map::CycleMap;
use serde::Deserialize;
use std::cell::Cell;
use std::io::{self, Read, Write};

#[derive(Default, Clone, Copy)]
pub struct IoStats {
    pub short: u64,
    pub eintr: u64,
    pub werr: u64,
    pub rerr: u64,
    pub crash: u64,
    pub bytes: u64,
}
thread_local! {
    pub static IO: Cell<IoStats> = const { Cell::new(IoStats { short: 0, eintr: 0, werr: 0, rerr: 0, crash: 0, bytes: 0 }) };
}
fn note(f: impl FnOnce(&mut IoStats)) {
    IO.with(|s| {
        let mut x = s.get();
        f(&mut x);
        s.set(x);
    })
}

/// A file on the simulated disk
pub struct File {
    plan: Disk,
    rng: Rng,
    pub data: Vec<u8>,
    pos: usize,
    pub failed: bool,
}
impl File {
    fn new(plan: &Disk, data: Vec<u8>) -> File {
        File { plan: plan.clone(), rng: Rng::new(plan.seed), data, pos: 0, failed: false }
    }
    fn interrupted(&mut self) -> bool {
        if self.plan.eintr > 0 && self.rng.below(self.plan.eintr as u64 + 1) == 0 {
            note(|s| s.eintr += 1);
            return true;
        }
        false
    }
    fn amount(&mut self, n: usize) -> usize {
        if self.plan.chunk == 0 || n == 0 {
            return n;
        }
        let k = (1 + self.rng.u(self.plan.chunk as usize)).min(n);
        if k < n {
            note(|s| s.short += 1);
        }
        k
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sim(|| {
            if self.interrupted() {
                return Err(io::ErrorKind::Interrupted.into());
            }
            let mut n = self.amount(buf.len());
            if let Some((at, how)) = self.plan.werr_at.filter(|_| !(self.failed && self.plan.once)) {
                let room = (at as usize).saturating_sub(self.data.len());
                if room == 0 && n > 0 {
                    self.failed = true;
                    note(|s| s.werr += 1);
                    return match how {
                        WErr::Full => Err(io::Error::new(io::ErrorKind::StorageFull, "disk full")),
                        WErr::Io => Err(io::Error::other("device error")),
                        WErr::Zero => Ok(0),
                    };
                }
                n = n.min(room);
            }
            self.data.extend_from_slice(&buf[..n]);
            note(|s| s.bytes += n as u64);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sim(|| {
            if self.interrupted() {
                return Err(io::ErrorKind::Interrupted.into());
            }
            let mut n = self.amount(buf.len().min(self.data.len() - self.pos));
            if let Some(at) = self.plan.rerr_at {
                let room = (at as usize).saturating_sub(self.pos);
                if room == 0 {
                    self.failed = true;
                    note(|s| s.rerr += 1);
                    return Err(io::Error::other("device error"));
                }
                n = n.min(room);
            }
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            note(|s| s.bytes += n as u64);
            Ok(n)
        })
    }
}

type M = CycleMap<L, R, S>;

fn save(map: &M, fmt: Fmt, f: &mut File, buffered: bool) -> Result<(), String> {
    fn to<W: Write>(map: &M, fmt: Fmt, w: W) -> Result<(), String> {
        match fmt {
            Fmt::Json => serde_json::to_writer(w, map).map_err(|e| e.to_string()),
            Fmt::Bin => {
                use serde::Serialize;
                map.serialize(&mut simfmt::Enc(w)).map_err(|e| e.to_string())
            }
        }
    }
    if buffered {
        let mut w = io::BufWriter::with_capacity(64, f);
        to(map, fmt, &mut w)?;
        w.flush().map_err(|e| e.to_string())
    } else {
        to(map, fmt, f)
    }
}

fn load<T: for<'a> Deserialize<'a>>(fmt: Fmt, f: &mut File) -> Result<T, String> {
    match fmt {
        Fmt::Json => serde_json::from_reader(f).map_err(|e| e.to_string()),
        Fmt::Bin => {
            let mut d = simfmt::Dec(f);
            let x = T::deserialize(&mut d).map_err(|e| e.to_string())?;
            let mut rest = [0];
            match d.0.read_exact(&mut rest) {
                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(x),
                Err(e) => Err(e.to_string()),
                Ok(()) => Err("trailing data".into()),
            }
        }
    }
}

/// The maps made from now on have other hash functions. Collisions are rare if there are many items
fn other_process(hash: u64, items: usize) {
    let mode = if items > 300 { [0, 0, 5, 4][hash as usize % 4] } else { (hash % 8) as u8 };
    ahash::set_default(ahash::HashCfg { mode, param: 3, seed: hash });
}

/// Saves the map and restarts from what storage holds. Returns the restarted map, unless that isn't possible.
pub fn save_load(map: &Map, model: &Model, fmt: Fmt, disk: &Disk, hash: u64, out: &mut Out) -> Option<Map> {
    let Map::C(m) = map else { return None };
    let mut bad = |what: String| out.issues.push(issue(Class::Other, t(16), what));
    let mut f = File::new(&Disk { rerr_at: None, ..disk.clone() }, vec![]);
    let res = lib(|| save(m, fmt, &mut f, disk.buffered));
    match (&res, f.failed) {
        (Ok(()), true) => bad("a failed write was not reported while saving".into()),
        (Err(e), false) => bad(format!("saving failed without a fault: {e}")),
        _ => {}
    }
    let full = f.data.len();
    let saved = res.is_ok();
    let mut data = f.data;
    if let Some(at) = disk.crash_at {
        if (at as usize) < full {
            data.truncate(at as usize);
            note(|s| s.crash += 1);
        }
    }
    let mut complete = saved && data.len() == full;
    if !saved && data.len() == full {
        // A buffer may be written out after all when it is dropped, if the error went away by itself
        disarm();
        let mut f = File::new(&Disk::default(), vec![]);
        complete = lib(|| save(m, fmt, &mut f, false)).is_ok() && f.data == data;
    }
    if complete {
        // What was written is the contents, each pair once
        let mut plain = File::new(&Disk::default(), data.clone());
        match load::<Vec<(Id, Id)>>(fmt, &mut plain) {
            Ok(v) => {
                let mut v: Vec<(u32, u32)> = v.into_iter().map(|(l, r)| (l.0, r.0)).collect();
                v.sort_unstable();
                let want: Vec<(u32, u32)> = model.pairs().iter().map(|(l, r)| (l.unwrap().0, r.unwrap().0)).collect();
                if v != want {
                    bad(format!("saved pairs {v:?}, but the map holds {want:?}"));
                }
            }
            Err(e) => bad(format!("what was saved is not readable: {e}")),
        }
    }
    other_process(hash, model.pairs().len());
    let mut f = File::new(&Disk { werr_at: None, seed: disk.seed ^ 1, ..disk.clone() }, data);
    let res = lib(|| load::<M>(fmt, &mut f));
    match res {
        Ok(m) => {
            if f.failed {
                bad("a failed read was not reported while loading".into());
            } else if !complete {
                bad(format!("loading a truncated file ({} of its bytes) gave a map of {} pairs", f.data.len(), m.len()));
            }
            Some(Map::C(m))
        }
        Err(e) => {
            if complete && !f.failed {
                bad(format!("loading what was saved failed: {e}"));
            }
            None
        }
    }
}

pub struct Loaded {
    pub map: Option<Map>,
    /// The pairs that were delivered, if no error occurred
    pub pairs: Option<Vec<(u32, u32)>>,
    pub error: Option<String>,
}

fn measured<T>(delivered: impl FnOnce() -> usize, f: impl FnOnce() -> T, out: &mut Out) -> T {
    let mut w = win();
    let base = w.live;
    w.peak = w.live;
    w.limit = w.live + (3 << 30);
    set_win(w);
    let x = lib(f);
    let mut w = win();
    w.limit = 0;
    set_win(w);
    let used = w.peak - base;
    let n = delivered() as i64;
    if used > (8 << 20) + 1024 * n {
        out.issues.push(issue(Class::Other, t(17), format!("{used} bytes were reserved for {n} delivered elements")));
    }
    x
}

pub fn load_stream(items: &[(u32, u32)], hint: u64, err_at: Option<u32>, hash: u64, out: &mut Out) -> Loaded {
    other_process(hash, items.len());
    let (delivered, failed) = (Cell::new(0), Cell::new(false));
    let hint = match hint {
        0 => Some(items.len()),
        1 => None,
        h => Some((h - 2) as usize),
    };
    let peer = simfmt::Peer { items, hint, err_at, delivered: &delivered, failed: &failed };
    let res = measured(|| delivered.get(), || M::deserialize(peer), out);
    let lying = hint.is_some_and(|h| h != items.len());
    match res {
        // Stopping before the end does not help: what is left would be lost silently
        Ok(m) => {
            let broken = failed.get() || err_at.is_some_and(|e| (e as usize) < items.len());
            Loaded { map: Some(Map::C(m)), pairs: if broken { None } else { Some(items.to_vec()) }, error: None }
        }
        Err(e) => Loaded { map: None, pairs: if failed.get() || lying { None } else { Some(items.to_vec()) }, error: Some(e.0) },
    }
}

pub fn load_bytes(fmt: Fmt, bytes: &[u8], chunk: u32, rerr_at: Option<u32>, hash: u64, out: &mut Out) -> Loaded {
    // What a plain list makes of the same bytes
    let plan = Disk { seed: hash, chunk, rerr_at, ..Disk::default() };
    let mut plain = File::new(&plan, bytes.to_vec());
    let want: Result<Vec<(Id, Id)>, String> = load(fmt, &mut plain);
    let want: Result<Vec<(u32, u32)>, String> = want.map(|v| v.into_iter().map(|(l, r)| (l.0, r.0)).collect());
    let n = want.as_ref().map(|v| v.len()).unwrap_or(bytes.len() / 3);
    other_process(hash, n);
    let mut f = File::new(&plan, bytes.to_vec());
    let res: Result<M, String> = measured(|| n, || load(fmt, &mut f), out);
    match res {
        Ok(m) => Loaded { map: Some(Map::C(m)), pairs: want.ok(), error: None },
        Err(e) => Loaded { map: None, pairs: want.ok(), error: Some(e) },
    }
}
