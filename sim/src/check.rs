//! Runs many simulations in worker processes, reports and minimises the first violation, and writes the evidence.
use crate::gen;
use crate::issue::*;
use crate::judge;
use crate::op::*;
use crate::rng::mix;
use crate::run::{self, Control};
use crate::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn personality(persona: u64) -> i32;
}
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

/// Limits the memory of this process, and makes its addresses (and those of its children) the same in every run
pub fn confine(memory: bool) {
    unsafe {
        setrlimit(RLIMIT_CORE, &[0, 0]);
        if memory {
            setrlimit(RLIMIT_AS, &[4 << 30, 4 << 30]);
        }
        personality(0x0040000);
    }
}

/// Cells in which the states reached are noted
const CELLS: u64 = 1 << 27;

static mut PROGRESS: Option<File> = None;
#[allow(static_mut_refs)]
fn note(i: u64, at: u64) {
    unsafe {
        if let Some(f) = &PROGRESS {
            let _ = f.write_at(&i.to_le_bytes(), at);
        }
    }
}
fn note_step(i: usize) {
    note(i as u64, 8);
}
#[allow(static_mut_refs)]
fn set_progress(p: &str) {
    unsafe { PROGRESS = File::options().create(true).write(true).truncate(false).open(p).ok() }
}
fn read_progress(p: &Path, at: u64) -> Option<u64> {
    let mut b = [0; 8];
    File::open(p).ok()?.read_exact_at(&mut b, at).ok()?;
    Some(u64::from_le_bytes(b))
}

fn nontrivial(p: u32, s: &run::Stats, sc: &Scenario) -> bool {
    match p {
        1 | 2 | 3 | 4 | 11 => s.steps >= 5,
        18 => s.steps >= 5 * sc.hash.len() as u64,
        _ => s.relevant >= 1,
    }
}
const RULES: [(&str, &str); 3] = [
    ("any", "a run is non-trivial if it executed at least 5 operations against the real map"),
    ("hash", "a run is non-trivial if it executed at least 5 operations against a real map with each of its hash functions"),
    ("class", "a run is non-trivial if at least one operation (or injected fault) of the sort the property speaks about was executed against the real map"),
];
fn rule(p: u32) -> String {
    let r = match p {
        1 | 2 | 3 | 4 | 11 => RULES[0].1,
        18 => RULES[1].1,
        _ => RULES[2].1,
    };
    format!("Each case is one simulated run: a history generated from one seed (kind of map, hash function, sizes, operations, faults), executed step by step with all oracles after every step. {r}; runs are distinct if their event digests (every call into user code, every state reached) differ.")
}

// ---------------------------------------------------------------- worker

pub struct Job {
    pub prop: String,
    pub seed: u64,
    pub from: u64,
    pub total: u64,
    pub stride: u64,
    pub secs: f64,
    pub out: PathBuf,
    pub skip: BTreeSet<u64>,
}

pub fn worker(job: &Job) {
    confine(true);
    set_progress(job.out.with_extension("progress").to_str().unwrap());
    let p = judge::number(&job.prop);
    let t0 = Instant::now();
    let mut bits = vec![0u8; (CELLS / 8) as usize];
    let mut digests = HashSet::new();
    let mut sum = run::Stats::default();
    let (mut runs, mut nontriv, mut capped) = (0u64, 0u64, false);
    let mut foreign: Vec<Value> = vec![];
    let mut samples = vec![];
    let mut violation = Value::Null;
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut modes: BTreeMap<String, u64> = BTreeMap::new();
    let mut digest = 0u64;
    let mut longest = 0;
    let mut sample_size = 0;
    let mut slowest = 0f64;
    let mut i = job.from;
    while i < job.total {
        if t0.elapsed().as_secs_f64() > job.secs {
            capped = true;
            break;
        }
        if job.skip.contains(&i) {
            i += job.stride;
            continue;
        }
        note(i + 1, 0);
        let sc = gen::scenario(&job.prop, gen::run_seed(&job.prop, job.seed, i));
        let t1 = Instant::now();
        let j = judge::judge(&sc);
        let took = t1.elapsed().as_secs_f64();
        if took > 2.0 && std::env::var_os("SIM_COST").is_some() {
            eprintln!("SLOW {took:.2} s: {}", serde_json::to_string(&sc).unwrap_or_default());
        }
        slowest = slowest.max(took);
        runs += 1;
        longest = longest.max(sc.steps.len());
        *kinds.entry(format!("{:?}Map", sc.kind)).or_default() += 1;
        for h in &sc.hash {
            *modes.entry(judge::HASH_NAMES[h.mode as usize % 8].to_string()).or_default() += 1;
        }
        let s = j.stats;
        let d = mix(s.digest ^ mix(i));
        digest = digest.wrapping_add(d);
        if nontrivial(p, &s, &sc) {
            nontriv += 1;
            digests.insert(s.digest);
        }
        if runs <= 200 {
            // A short one of the first
            let size = serde_json::to_string(&sc).unwrap().len();
            if samples.is_empty() || size < sample_size {
                samples = vec![json!({"run": i, "scenario": sc, "operations_executed": s.steps, "event_digest": format!("{:016x}", s.digest)})];
                sample_size = size;
            }
        }
        for x in &s.states {
            let c = x % CELLS;
            bits[(c / 8) as usize] |= 1 << (c % 8);
        }
        add(&mut sum, &s);
        if let Some(f) = j.foreign {
            if foreign.len() < 5 {
                foreign.push(json!({"run": i, "what": f}));
            }
            *sum.faults.entry("(foreign)".into()).or_default() += 1;
        }
        if let Some(v) = j.violation {
            violation = json!({"run": i, "step": v.step, "what": v.what, "scenario": sc});
            break;
        }
        i += job.stride;
    }
    let nforeign = sum.faults.remove("(foreign)").unwrap_or(0);
    let _ = std::fs::write(job.out.with_extension("states"), &bits);
    let mut raw = Vec::with_capacity(digests.len() * 8);
    for d in &digests {
        raw.extend_from_slice(&d.to_le_bytes());
    }
    let _ = std::fs::write(job.out.with_extension("digests"), &raw);
    let v = json!({
        "next": i, "runs": runs, "nontrivial": nontriv, "capped": capped, "foreign": foreign, "nforeign": nforeign, "samples": samples,
        "violation": violation, "steps": sum.steps, "skipped": sum.skipped, "checks": sum.checks, "elements": sum.elements,
        "relevant": sum.relevant, "ops": sum.ops, "faults": sum.faults, "calls": sum.calls, "switches": sum.switches,
        "refused": sum.refused, "digest": digest, "kinds": kinds, "modes": modes, "longest": longest, "slowest": slowest,
    });
    let tmp = job.out.with_extension("tmp");
    std::fs::write(&tmp, v.to_string()).unwrap();
    std::fs::rename(&tmp, &job.out).unwrap();
}

fn add(a: &mut run::Stats, b: &run::Stats) {
    a.steps += b.steps;
    a.skipped += b.skipped;
    a.checks += b.checks;
    a.elements += b.elements;
    a.relevant += b.relevant;
    a.switches += b.switches;
    a.refused += b.refused;
    for (x, y) in a.calls.iter_mut().zip(b.calls) {
        *x += y;
    }
    for (k, n) in &b.ops {
        *a.ops.entry(k).or_default() += n;
    }
    for (k, n) in &b.faults {
        *a.faults.entry(k.clone()).or_default() += n;
    }
}

// ---------------------------------------------------------------- one scenario in a process of its own

/// `how`: judge it, or run it with maps rebuilt before or after the steps listed
pub fn one(file: &str, how: &str) {
    confine(true);
    let sc = load(file);
    set_progress(&format!("{file}.progress"));
    run::on_step(note_step);
    let v = match how {
        "judge" => {
            let j = judge::judge(&sc);
            json!({"violation": j.violation.map(|v| json!({"step": v.step, "what": v.what})), "foreign": j.foreign, "digest": j.stats.digest})
        }
        _ => {
            let mine = class_steps(&sc);
            let c = match how {
                "before" => Control { before: mine, ..Control::default() },
                "after" => Control { after: mine, ..Control::default() },
                _ => Control::default(),
            };
            let o = run::run(&sc, &c);
            json!({"bad": !o.issues.is_empty()})
        }
    };
    println!("{v}");
}

fn class_steps(sc: &Scenario) -> Vec<bool> {
    let p = t(judge::number(&sc.property));
    sc.steps.iter().map(|s| (run::op_tags(&s.op) | if s.panic.is_some() { t(10) } else { 0 }) & p != 0).collect()
}

pub fn load(file: &str) -> Scenario {
    let s = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("cannot read {file}: {e}")));
    let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| fail(&format!("{file}: {e}")));
    let v = if v.get("scenario").is_some() { v["scenario"].clone() } else { v };
    serde_json::from_value(v).unwrap_or_else(|e| fail(&format!("{file}: {e}")))
}
pub fn fail(s: &str) -> ! {
    println!("ERROR: {s}");
    std::process::exit(3)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Fine,
    Violation { step: usize, what: String },
    Foreign(String),
}

enum End {
    Answer(Value),
    /// Killed, or out of time. In which step, and how
    Died(u64, String),
}

fn spawn_one(dir: &Path, sc: &Scenario, how: &str, secs: u64) -> End {
    let f = dir.join("one.json");
    std::fs::write(&f, serde_json::to_string(sc).unwrap()).unwrap();
    let prog = dir.join("one.json.progress");
    let _ = std::fs::write(&prog, [0; 16]);
    let o = dir.join("one.out");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["one", f.to_str().unwrap(), how])
        .stdout(File::create(&o).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| fail(&format!("cannot start a process: {e}")));
    let t0 = Instant::now();
    let mut nap = Duration::from_millis(1);
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if hangs(cpu(&c), t0, secs as f64) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
    };
    let text = std::fs::read_to_string(&o).unwrap_or_default();
    match status {
        Some(s) if s.success() => match serde_json::from_str(&text) {
            Ok(v) => End::Answer(v),
            Err(e) => fail(&format!("unexpected answer {text:?}: {e}")),
        },
        Some(s) => End::Died(read_progress(&prog, 8).unwrap_or(0), format!("the process died ({s})")),
        None => End::Died(read_progress(&prog, 8).unwrap_or(0), format!("no progress within {secs} s")),
    }
}

/// Seconds of processor time a process of ours has had
fn cpu(c: &Child) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", c.id())).unwrap_or_default();
    // The name, in brackets, may contain anything
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}
/// A process that hasn't made progress hangs if it had enough time on a processor, however busy the machine is.
/// If it waits for something that never happens, it needs no processor
fn hangs(cpu: f64, since: Instant, secs: f64) -> bool {
    cpu >= secs || since.elapsed().as_secs_f64() >= 3.0 * secs
}

/// Judges a scenario in a process of its own, which may crash or hang
pub fn judge_apart(dir: &Path, sc: &Scenario) -> Verdict {
    let (step, how) = match spawn_one(dir, sc, "judge", 60) {
        End::Answer(v) => {
            if let Some(x) = v["violation"].as_object() {
                return Verdict::Violation { step: x["step"].as_u64().unwrap_or(0) as usize, what: x["what"].as_str().unwrap_or("").into() };
            }
            return match v["foreign"].as_str() {
                Some(f) => Verdict::Foreign(f.into()),
                None => Verdict::Fine,
            };
        }
        End::Died(step, how) => (step as usize, how),
    };
    let hung = how.starts_with("no progress");
    let p = judge::number(&sc.property);
    let name = sc.steps.get(step).map(|s| s.op.name()).unwrap_or("the end of the history");
    let what = format!("{how} in step {step} ({name})");
    if p == 18 {
        // Not if it does so with every hash function
        let all = sc.hash.iter().all(|h| matches!(spawn_one(dir, &Scenario { hash: vec![*h], ..sc.clone() }, "judge", 20), End::Died(..)));
        return if all { Verdict::Foreign(what) } else { Verdict::Violation { step, what: format!("{what}, but not with every hash function") } };
    }
    let mut tags = content(sc.kind);
    if !hung {
        tags |= t(11);
    }
    if let Some(s) = sc.steps.get(step) {
        tags |= run::op_tags(&s.op);
        if matches!(s.op, Op::Readers { .. } | Op::Eq { .. } | Op::Cursors { .. }) {
            tags &= !content(sc.kind);
        }
        if s.panic.is_some() {
            tags |= t(10);
        }
    }
    if tags & t(p) != 0 {
        return Verdict::Violation { step, what };
    }
    if class_steps(sc).iter().take(step).any(|x| *x) {
        let bad = |e: End| match e {
            End::Answer(v) => v["bad"] == json!(true),
            End::Died(..) => true,
        };
        if bad(spawn_one(dir, sc, "before", 20)) && !bad(spawn_one(dir, sc, "after", 20)) {
            return Verdict::Violation { step, what: format!("{what} (and this doesn't happen if the map is rebuilt after the operations the property is about)") };
        }
    }
    Verdict::Foreign(what)
}

// ---------------------------------------------------------------- minimising

/// In a process of its own, as a candidate may crash it
pub fn shrink_cmd(file: &str, secs: u64) {
    confine(true);
    let sc = load(file);
    let mut b = shrink::Budget { tries: 20000, until: Instant::now() + Duration::from_secs(secs), used: 0 };
    let out = format!("{file}.min");
    shrink::shrink(sc, &mut b, &mut |c| judge::judge(c).violation.is_some(), &mut |c| {
        let tmp = format!("{out}.tmp");
        let _ = std::fs::write(&tmp, serde_json::to_string(c).unwrap());
        let _ = std::fs::rename(&tmp, &out);
    });
}

fn minimise(dir: &Path, sc: &Scenario, crash: bool) -> Scenario {
    if !crash {
        let f = dir.join("shrink.json");
        std::fs::write(&f, serde_json::to_string(sc).unwrap()).unwrap();
        let mut best = sc.clone();
        if let Ok(mut c) = Command::new(std::env::current_exe().unwrap()).args(["shrink", f.to_str().unwrap(), "30"]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            let t0 = Instant::now();
            while c.try_wait().unwrap().is_none() {
                if t0.elapsed().as_secs() > 60 {
                    let _ = c.kill();
                    let _ = c.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        let m = dir.join("shrink.json.min");
        if let Ok(s) = std::fs::read_to_string(&m) {
            if let Ok(x) = serde_json::from_str(&s) {
                best = x;
            }
        }
        return best;
    }
    let mut b = shrink::Budget { tries: 1500, until: Instant::now() + Duration::from_secs(90), used: 0 };
    shrink::shrink(sc.clone(), &mut b, &mut |c| matches!(judge_apart(dir, c), Verdict::Violation { .. }), &mut |_| {})
}

// ---------------------------------------------------------------- the check

pub fn sizes(prop: &str, tier: &str) -> (u64, f64) {
    // Runs that take about 15 seconds on 8 idle cores
    let quick = match prop {
        "C12" => 70_000,
        "C13" => 70_000,
        "C17" => 40_000,
        "C18" => 20_000,
        "C20" => 60_000,
        "C22" => 24_000,
        "C25" => 1_200,
        "C23" => 40_000,
        "C24" => 40_000,
        "C03" | "C10" | "C11" | "C15" => 60_000,
        "C21" => 300_000,
        _ => 80_000,
    };
    if tier == "thorough" {
        (quick * 30, 2400.0)
    } else {
        (quick, 240.0)
    }
}

struct Running {
    child: Child,
    out: PathBuf,
    from: u64,
    last: u64,
    since: Instant,
    /// Processor time it had had by then
    cpu: f64,
}

pub struct Options {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub runs: Option<u64>,
    pub workers: usize,
    pub root: PathBuf,
}

pub fn check(o: &Options) -> i32 {
    confine(false);
    let t0 = Instant::now();
    let (mut total, secs) = sizes(&o.prop, &o.tier);
    if let Some(n) = o.runs {
        total = n;
    }
    println!("property {} seed {} tier {} runs {}", o.prop, o.seed, o.tier, total);
    let dir = o.root.join("scratch").join(format!("{}-{}", o.prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(&format!("cannot create {}: {e}", dir.display())));
    let r = check_in(o, &dir, total, secs, t0);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn start(o: &Options, dir: &Path, k: u64, gen: u32, from: u64, total: u64, secs: f64, skip: &BTreeSet<u64>) -> Running {
    let out = dir.join(format!("w{k}-{gen}.json"));
    let mut skips: Vec<String> = skip.iter().map(|x| x.to_string()).collect();
    skips.push("".into());
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", &o.prop, &o.seed.to_string(), &from.to_string(), &total.to_string(), &o.workers.to_string(), &secs.to_string(), out.to_str().unwrap(), &skips.join(",")])
        .stdout(Stdio::null())
        .stderr(if std::env::var_os("SIM_DEBUG").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .unwrap_or_else(|e| fail(&format!("cannot start a process: {e}")));
    Running { child, out, from, last: 0, since: Instant::now(), cpu: 0.0 }
}

#[derive(Default)]
struct Totals {
    num: BTreeMap<&'static str, u64>,
    maps: BTreeMap<&'static str, BTreeMap<String, u64>>,
    calls: Vec<u64>,
    foreign: Vec<Value>,
    samples: Vec<Value>,
    capped: bool,
    digest: u64,
    longest: u64,
    slowest: f64,
    digests: HashSet<u64>,
    bits: Vec<u8>,
}
impl Totals {
    fn take(&mut self, out: &Path, v: &Value) {
        for k in ["runs", "nontrivial", "steps", "skipped", "checks", "elements", "relevant", "switches", "refused", "nforeign"] {
            *self.num.entry(k).or_default() += v[k].as_u64().unwrap_or(0);
        }
        for k in ["ops", "faults", "kinds", "modes"] {
            let m = self.maps.entry(k).or_default();
            for (a, n) in v[k].as_object().into_iter().flatten() {
                *m.entry(a.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
        }
        for (i, n) in v["calls"].as_array().into_iter().flatten().enumerate() {
            self.calls.resize(8, 0);
            self.calls[i] += n.as_u64().unwrap_or(0);
        }
        self.foreign.extend(v["foreign"].as_array().into_iter().flatten().cloned());
        self.samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        self.capped |= v["capped"] == json!(true);
        self.digest = self.digest.wrapping_add(v["digest"].as_u64().unwrap_or(0));
        self.longest = self.longest.max(v["longest"].as_u64().unwrap_or(0));
        self.slowest = self.slowest.max(v["slowest"].as_f64().unwrap_or(0.0));
        for c in std::fs::read(out.with_extension("digests")).unwrap_or_default().chunks_exact(8) {
            self.digests.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let b = std::fs::read(out.with_extension("states")).unwrap_or_default();
        if self.bits.is_empty() {
            self.bits = b;
        } else {
            for (x, y) in self.bits.iter_mut().zip(b) {
                *x |= y;
            }
        }
        for e in ["digests", "states", "progress", "json"] {
            let _ = std::fs::remove_file(out.with_extension(e));
        }
    }
}

fn check_in(o: &Options, dir: &Path, total: u64, secs: f64, t0: Instant) -> i32 {
    let mut skip = BTreeSet::new();
    let mut tot = Totals::default();
    let mut running: Vec<(u64, u32, Running)> = (0..o.workers as u64).map(|k| (k, 0, start(o, dir, k, 0, k, total, secs, &skip))).collect();
    // The violation with the lowest number: run, scenario, what, whether the process died
    let mut found: Option<(u64, Scenario, String, bool)> = None;
    let mut crashes: Vec<Value> = vec![];
    let mut ncrash = 0u64;
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < running.len() {
            let (k, gen, r) = &mut running[i];
            let (k, gen) = (*k, *gen);
            let at = read_progress(&r.out.with_extension("progress"), 0).unwrap_or(0);
            if at != r.last {
                r.last = at;
                r.since = Instant::now();
                r.cpu = cpu(&r.child);
            }
            let mut hung = false;
            let status = r.child.try_wait().unwrap();
            if status.is_none() {
                // Runs after the violation found are of no interest
                let useless = found.as_ref().is_some_and(|f| at > f.0 + 1);
                hung = hangs(cpu(&r.child) - r.cpu, r.since, 60.0);
                if !useless && !hung {
                    i += 1;
                    continue;
                }
                let _ = r.child.kill();
                let _ = r.child.wait();
                if useless {
                    running.swap_remove(i);
                    continue;
                }
            }
            let out = r.out.clone();
            let answer: Option<Value> = match status {
                Some(s) if s.success() => std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()),
                _ => None,
            };
            if let Some(v) = answer {
                tot.take(&out, &v);
                if let Some(x) = v["violation"].as_object() {
                    let run = x["run"].as_u64().unwrap();
                    if found.as_ref().is_none_or(|f| run < f.0) {
                        let sc = serde_json::from_value(x["scenario"].clone()).unwrap();
                        found = Some((run, sc, x["what"].as_str().unwrap().into(), false));
                    }
                }
                running.swap_remove(i);
                continue;
            }
            // The worker died. Which run was it?
            if at == 0 {
                fail(&format!("a worker died before its first run ({status:?})"));
            }
            let run = at - 1;
            let sc = gen::scenario(&o.prop, gen::run_seed(&o.prop, o.seed, run));
            ncrash += 1;
            match judge_apart(dir, &sc) {
                Verdict::Violation { what, .. } => {
                    if found.as_ref().is_none_or(|f| run < f.0) {
                        let crash = what.contains("the process died (") || what.contains("no progress within");
                        found = Some((run, sc, what, crash));
                    }
                    running.swap_remove(i);
                }
                x => {
                    let what = match x {
                        Verdict::Foreign(f) => f,
                        _ => format!("a worker {} in this run, but the run alone does not", if hung { "hung" } else { "died" }),
                    };
                    if crashes.len() < 5 {
                        crashes.push(json!({"run": run, "what": what}));
                    }
                    skip.insert(run);
                    let from = r.from;
                    if ncrash > 60 {
                        running.swap_remove(i);
                    } else {
                        // Once more, without that run
                        let n = start(o, dir, k, gen + 1, from, total, secs, &skip);
                        running[i] = (k, gen + 1, n);
                    }
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut known = vec![];
    let mut code = 0;
    let mut reports: Vec<(Scenario, String, bool, Option<u64>)> = vec![];
    // What is known to be wrong
    for k in known_findings(&o.root, &o.prop) {
        let sc = load(o.root.join(&k.replay).to_str().unwrap());
        match judge_apart(dir, &sc) {
            Verdict::Fine => {
                println!("note: known finding {} does not fail any more", k.replay);
                known.push(json!({"finding": k.what, "still fails": false}));
            }
            Verdict::Violation { what, .. } if plain(&what) == k.expect => {
                println!("KNOWN-FINDING: property={} {}", o.prop, k.what);
                known.push(json!({"finding": k.what, "still fails": true, "observed": what}));
            }
            Verdict::Violation { what, .. } => {
                if found.is_none() {
                    let crash = what.contains("the process died (") || what.contains("no progress within");
                    reports.push((sc, what, crash, None));
                }
            }
            Verdict::Foreign(f) => {
                println!("note: known finding {} fails otherwise: {f}", k.replay);
            }
        }
    }
    if let Some((run, sc, what, crash)) = found {
        reports.push((sc, what, crash, Some(run)));
    }
    let nviol = reports.len();
    let mut replays = vec![];
    for (sc, what, crash, run) in reports {
        if let Some(run) = run {
            println!("run {run} (seed {}) fails: {what}", sc.seed);
        }
        let mut min = if run.is_some() { minimise(dir, &sc, crash) } else { sc.clone() };
        let mut v = judge_apart(dir, &min);
        if !matches!(v, Verdict::Violation { .. }) {
            min = sc.clone();
            v = judge_apart(dir, &min);
        }
        let (step, what2, again) = match v {
            Verdict::Violation { step, what } => (step, what, true),
            _ => (0, what.clone(), false),
        };
        if !again {
            println!("note: this did not happen again in a process of its own");
        }
        let rdir = o.root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{:016x}.json", o.prop, sc.seed));
        let file = json!({
            "property": o.prop, "what": what2, "step": step, "reproduces": again, "verif_seed": o.seed, "run": run, "run_seed": sc.seed,
            "steps_before_minimising": sc.steps.len(), "faults": faults_of(&min), "scenario": min,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap_or_else(|e| fail(&format!("cannot write {}: {e}", path.display())));
        println!("minimised from {} to {} steps: {}", sc.steps.len(), min.steps.len(), what2);
        for (i, s) in min.steps.iter().enumerate() {
            println!("  {i}: {}{:?}{}", if min.slots > 1 { format!("map {} ", s.slot) } else { String::new() }, s.op, s.panic.map(|(n, m)| format!(" with a panic in call {n} of {}", mask_names(m))).unwrap_or_default());
        }
        println!("VIOLATION property={} replay={}", o.prop, path.display());
        replays.push(path.display().to_string());
        code = 1;
    }
    write_evidence(o, &tot, total, search_s, t0, &crashes, ncrash, &known, nviol, &replays);
    let g = |k: &str| tot.num.get(k).copied().unwrap_or(0);
    println!(
        "{} runs ({} distinct and not trivial), {} steps, digest {:016x}, {} foreign, {:.1} s, slowest run {:.2} s",
        g("runs"), tot.digests.len(), g("steps"), tot.digest, g("nforeign") + ncrash, t0.elapsed().as_secs_f64(), tot.slowest
    );
    for f in tot.foreign.iter().take(3).chain(crashes.iter().take(3)) {
        let t = f.to_string();
        println!("note: not about this property: {}", t.chars().take(300).collect::<String>());
    }
    code
}

fn mask_names(m: u8) -> String {
    let v: Vec<&str> = (0..8).filter(|i| m & (1 << i) != 0).map(|i| crate::ctx::CB_NAMES[i]).collect();
    v.join("/")
}

fn faults_of(sc: &Scenario) -> Vec<String> {
    let mut out = vec![];
    for (i, s) in sc.steps.iter().enumerate() {
        if let Some((n, m)) = s.panic {
            out.push(format!("step {i}: panic in call {n} of {}", mask_names(m)));
        }
        match &s.op {
            Op::Drain { end, take } | Op::DrainFilter { end, take, .. } if *end != crate::op::End::Exhaust => out.push(format!("step {i}: {} ended by {end:?} after {take}", s.op.name())),
            Op::SaveLoad { disk, .. } => out.push(format!("step {i}: storage {disk:?}")),
            Op::LoadStream { hint, err_at, .. } => out.push(format!("step {i}: announced length {hint}, error at {err_at:?}")),
            Op::LoadBytes { rerr_at, chunk, .. } => out.push(format!("step {i}: reads of {chunk} bytes, error at {rerr_at:?}")),
            Op::Extend { hint, abort, .. } | Op::Collect { hint, abort, .. } => out.push(format!("step {i}: size hint {hint}, source panics at {abort:?}")),
            Op::TryReserve { fail, n, .. } => out.push(format!("step {i}: reservation of {n} with failing allocation {fail}")),
            Op::Readers { n, panics, seed, .. } => out.push(format!("step {i}: {n} readers scheduled by {seed}, {panics} of them panic")),
            _ => {}
        }
    }
    out
}

// ---------------------------------------------------------------- known findings

/// Without the serial numbers of objects
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '#' {
            while it.peek().is_some_and(|c| c.is_ascii_digit()) {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub struct Known {
    pub replay: String,
    pub expect: String,
    pub what: String,
}

/// Lines `finding: property=<id> replay=<file> <what>`; the file says how exactly it fails
pub fn known_findings(root: &Path, prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix(&format!("finding: property={prop} replay=")) else { continue };
        let (replay, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let v: Value = std::fs::read_to_string(root.join(replay)).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_else(|| fail(&format!("cannot read {replay}")));
        out.push(Known { replay: replay.into(), expect: v["what"].as_str().unwrap_or("").into(), what: what.into() });
    }
    out
}

// ---------------------------------------------------------------- replay

pub fn replay(file: &str, root: &Path) -> i32 {
    confine(false);
    let sc = load(file);
    let dir = root.join("scratch").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(&format!("cannot create {}: {e}", dir.display())));
    let v = judge_apart(&dir, &sc);
    let _ = std::fs::remove_dir_all(&dir);
    match v {
        Verdict::Fine => {
            println!("the property holds in this run");
            0
        }
        Verdict::Foreign(f) => {
            println!("the property holds in this run; but: {f}");
            0
        }
        Verdict::Violation { step, what } => {
            println!("step {step}: {what}");
            println!("VIOLATION property={} replay={}", sc.property, file);
            1
        }
    }
}

// ---------------------------------------------------------------- evidence

#[allow(clippy::too_many_arguments)]
fn write_evidence(o: &Options, tot: &Totals, planned: u64, search_s: f64, t0: Instant, crashes: &[Value], ncrash: u64, known: &[Value], nviol: usize, replays: &[String]) {
    let g = |k: &str| tot.num.get(k).copied().unwrap_or(0);
    let p = judge::number(&o.prop);
    let cells: u64 = tot.bits.iter().map(|b| b.count_ones() as u64).sum();
    let hours = search_s.max(0.001) / 3600.0;
    let mut samples = tot.samples.clone();
    samples.sort_by_key(|s| s["run"].as_u64());
    samples.truncate(3);
    let mut faults = tot.maps.get("faults").cloned().unwrap_or_default();
    faults.retain(|_, n| *n > 0);
    let calls: BTreeMap<&str, u64> = crate::ctx::CB_NAMES.iter().copied().zip(tot.calls.iter().copied()).collect();
    let v = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": g("runs"),
            "distinct_nontrivial": tot.digests.len(),
            "nontrivial_runs": g("nontrivial"),
            "rule": rule(p),
            "samples": samples,
            "planned_runs": planned,
            "stopped_by_time_limit": tot.capped,
            "worker_processes": o.workers,
            "simulated_runs_per_hour": (g("runs") as f64 / hours) as u64,
            "seeds_per_hour": (g("runs") as f64 / hours) as u64,
            "simulated_time": "the library has no clock; simulated time is counted in operations and in calls into user code",
            "operations_executed": g("steps"),
            "operations_skipped": g("skipped"),
            "operations_by_kind": tot.maps.get("ops"),
            "operations_the_property_is_about": g("relevant"),
            "refused_operations": g("refused"),
            "longest_history": tot.longest,
            "calls_into_user_code": calls,
            "reader_switches": g("switches"),
            "oracle_evaluations": g("checks"),
            "faults_injected": faults,
            "runs_by_kind_of_map": tot.maps.get("kinds"),
            "hash_functions": tot.maps.get("modes"),
            "distinct_states_at_least": cells,
            "distinct_states_measure": format!("cells hit among {CELLS} by hashes of (operation, contents with pairings after it); a lower bound on the number of distinct ones"),
            "event_digest": format!("{:016x}", tot.digest),
            "real_components": "all of cycle_map (CycleMap, PartialCycleMap, GroupMap, OptionalPair, their iterators and serde support), hashbrown 0.12.3, serde, serde_json",
            "stubbed_components": "ahash (replaced by a hash function the simulator chooses), the items stored (instrumented), the allocator (counts and fails on request), storage and peers (in memory), thread scheduling of readers",
            "known_findings": known,
            "failures_not_about_this_property": {"count": g("nforeign") + ncrash, "examples": tot.foreign.iter().take(3).chain(crashes.iter().take(3)).collect::<Vec<_>>()},
            "replays": replays,
        },
        "assumptions": [
            "Eq and Hash of the items agree with each other and do not change while an item is stored",
            "hashbrown 0.12.3 and serde_json are correct; hashing of stored items while a table grows does not panic",
            "a clean batch of sampled histories is evidence, not a proof"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let e = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&e);
    let f = e.join(format!("{}.json", o.prop));
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap_or_else(|x| fail(&format!("cannot write {}: {x}", f.display())));
}
