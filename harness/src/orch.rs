//! Orchestration: forks one child per run, aggregates, minimises and reports.
use crate::scen;
use crate::sim::{self, *};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::time::Instant;

#[derive(Clone)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(Vec<u64>, Vec<Override>)>, // choices, schedule
    pub sched_seed: Option<u64>,                   // with replayed choices: search schedules
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub class: String, // "ok" or a violation class
    pub msg: String,
    pub phase: String,
}
impl Outcome {
    fn ok(&self) -> bool {
        self.class == "ok"
    }
    fn key(&self) -> String {
        format!("{}|{}", self.class, self.phase)
    }
}

/// What the recorded schedule of this run strategy looks like, for the evidence.
fn config_for(seed: u64, ctx: &mut Ctx) -> Config {
    let mut r = Rng(mix(seed ^ 0x5EED_5EED));
    let k = r.below(100);
    let (strategy, gap, depth, len) = if k < 8 {
        (0, 0, 0, 0)
    } else if k < 68 {
        (1, [1, 2, 4, 8, 20, 60, 200, 1000, 5000][r.below(9) as usize], 0, 0)
    } else {
        (2, 0, 1 + r.below(8), [300, 1000, 3000, 10_000, 40_000][r.below(5) as usize])
    };
    // environment choices belong to the (shrinkable) choice sequence
    let cpus = {
        let c = ctx.draw(0, 11);
        [1, 2, 3, 4, 2, 3, 4, 5, 6, 8, 12, 16][c as usize]
    };
    let rnd = ctx.draw(0, 1 << 40);
    Config {
        sched_seed: r.next(),
        strategy, gap, pct_depth: depth, pct_len: len,
        cpus, rnd_seed: mix(rnd),
        max_steps: 60_000_000, fair_after: 20_000_000,
    }
}

/// Processor seconds after which a run counts as an unbounded loop (lower while shrinking one).
static CPU_LIMIT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(45);

/// Processor milliseconds of the last run.
static LAST_CPU: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn child(case: &Case) -> ! {
    let cpu = CPU_LIMIT.load(std::sync::atomic::Ordering::Relaxed);
    let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 10 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::alarm(if cpu > 45 { 600 } else { 300 });
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        put(&mut shared().h.panic_msg, &format!("{m} at {loc}"));
        on_panic(&m);
    }));
    let (choices, ovs) = match &case.replay {
        Some((c, o)) => (Some(c.clone()), Some(o.clone())),
        None => (None, None),
    };
    let mut ctx = Ctx::new(case.seed, choices, case.thorough);
    let mut cfg = config_for(case.sched_seed.unwrap_or(case.seed), &mut ctx);
    let mut ovv: Vec<Override> = Vec::new();
    if let Some(o) = ovs
        && case.sched_seed.is_none()
    {
        cfg.strategy = 3;
        ovv = o;
    }
    unsafe { sim_mem_on_refuse(on_refused) };
    let f = scen::lookup(&case.prop).unwrap_or_else(|| harness_error("no such scenario"));
    let sh = shared();
    unsafe {
        sim_begin(&cfg, &mut sh.s, ovv.as_ptr(), ovv.len() as u64);
    }
    // The scenario runs in a fresh simulated thread with an ordinary main-thread stack.
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = catch(|| f(&mut ctx));
            if let Err(m) = r {
                // nothing a scenario does panics while the library keeps its promises
                violation("panic", &format!("unexpected panic: {m}"));
            }
        })
        .expect("spawn");
    let _ = h.join();
    unsafe { sim_end() };
    sh.h.verdict = 1;
    unsafe { libc::_exit(0) }
}

/// The file a C19 run reads: written by another build from its own seed, and made on demand by running that build.
fn prepare(case: &Case, fresh: bool) -> Result<(), String> {
    let r = mix(case.seed ^ 0xF11E);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let bin = exe.parent().unwrap();
    let peer = ["full", "lean", "par", "ser"][(r % 4) as usize];
    let wseed = (r >> 8) % if case.thorough { 4000 } else { 250 };
    let dir = bin.parent().unwrap().join("port").join(peer);
    let f = dir.join(format!("{wseed}.par"));
    if fresh {
        let _ = std::fs::remove_file(&f);
    }
    if !f.exists() {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let st = std::process::Command::new(bin.join(format!("psim-{peer}")))
            .args(["one", "--prop", "C19.write", "--seed", &wseed.to_string()])
            .env("C19_OUT", &f)
            .output()
            .map_err(|e| format!("running psim-{peer}: {e}"))?;
        if !f.exists() {
            return Err(format!("psim-{peer} wrote no file for seed {wseed}: {}", String::from_utf8_lossy(&st.stdout)));
        }
    }
    scen::port::set(peer, wseed, std::fs::read(&f).map_err(|e| e.to_string())?);
    Ok(())
}

pub fn run_case(case: &Case) -> Outcome {
    reset_shared();
    if case.prop == "C19"
        && let Err(e) = prepare(case, false)
    {
        // (a build that cannot write its file is a violation of the same property)
        return Outcome { class: "peer-failed".into(), msg: e, phase: "write".into() };
    }
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            child(case);
        }
        let mut st = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        while libc::wait4(pid, &mut st, 0, &mut ru) < 0 {}
        let ms = |t: libc::timeval| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000;
        let used = ms(ru.ru_utime) + ms(ru.ru_stime);
        LAST_CPU.store(used, std::sync::atomic::Ordering::Relaxed);
        if used > 5000 && std::env::var_os("PSIM_SLOW").is_some() {
            eprintln!("slow: {} seed {} used {used} ms, {} switches, {}", case.prop, case.seed, shared().s.switches, get(&shared().h.desc));
        }
        let sh = shared();
        let phase = get(&sh.h.phase);
        let mk = |class: &str, msg: String| Outcome { class: class.into(), msg, phase: phase.clone() };
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let extra = get(&sh.h.panic_msg);
            return match s {
                libc::SIGXCPU => mk("hang", "CPU limit exceeded (unbounded loop)".into()),
                libc::SIGALRM => mk("hang", "no progress in real time".into()),
                _ => mk(
                    &format!("process-death-signal-{s}"),
                    format!(
                        "process killed by signal {s}; last panic: {extra}; refused allocations: {} (last of {} bytes)",
                        sh.s.mem_refused, sh.s.mem_refuse_size
                    ),
                ),
            };
        }
        match libc::WEXITSTATUS(st) {
            0 if sh.h.verdict == 1 => mk("ok", String::new()),
            79 => Outcome { class: get(&sh.h.class), msg: get(&sh.h.msg), phase },
            77 => {
                let m = get(&sh.s.end_msg);
                match sh.s.end_code {
                    1 => mk("deadlock", m),
                    2 => mk("livelock", m),
                    _ => mk("harness-error", m),
                }
            }
            c => mk("harness-error", format!("exit {c}: {} {}", get(&sh.h.class), get(&sh.h.msg))),
        }
    }
}

fn recorded() -> (Vec<u64>, Vec<Override>) {
    let sh = shared();
    (
        sh.h.choices[..sh.h.n_choices as usize].to_vec(),
        sh.s.ov[..sh.s.n_ov as usize].to_vec(),
    )
}

// ------------------------------------------------------------------ minimisation
struct Mini {
    prop: String,
    thorough: bool,
    seed: u64,
    key: String,
    best: (Vec<u64>, Vec<Override>),
    out: Outcome,
    tries: u64,
    start: Instant,
    budget_s: u64,
}
impl Mini {
    fn left(&self) -> bool {
        self.start.elapsed().as_secs() < self.budget_s && self.tries < 3000
    }
    fn attempt(&mut self, c: Vec<u64>, o: Vec<Override>, sched: Option<u64>) -> bool {
        self.tries += 1;
        let case = Case { prop: self.prop.clone(), seed: self.seed, thorough: self.thorough, replay: Some((c, o)), sched_seed: sched };
        let r = run_case(&case);
        if r.ok() || r.class == "harness-error" || r.key() != self.key {
            return false;
        }
        let rec = recorded();
        if sched.is_some() {
            // confirm by replaying the recorded schedule
            let case2 = Case { replay: Some(rec.clone()), sched_seed: None, ..case };
            let r2 = run_case(&case2);
            if r2.key() != self.key {
                return false;
            }
        }
        self.best = rec;
        self.out = r;
        true
    }
    fn try_choices(&mut self, c: Vec<u64>) -> bool {
        let o = self.best.1.clone();
        if o.is_empty() {
            return self.attempt(c, o, None);
        }
        if self.attempt(c.clone(), vec![], None) || self.attempt(c.clone(), o, None) {
            return true;
        }
        for k in 0..6 {
            if !self.left() {
                return false;
            }
            if self.attempt(c.clone(), vec![], Some(mix(self.seed ^ k))) {
                return true;
            }
        }
        false
    }
    fn shrink_sched(&mut self) {
        if self.best.1.is_empty() {
            return;
        }
        let c = self.best.0.clone();
        if self.attempt(c.clone(), vec![], None) {
            return;
        }
        let mut chunk = self.best.1.len().div_ceil(2).max(1);
        while self.left() && !self.best.1.is_empty() {
            let mut i = 0;
            let mut any = false;
            while i < self.best.1.len() && self.left() {
                let mut o = self.best.1.clone();
                let e = (i + chunk).min(o.len());
                o.drain(i..e);
                if self.attempt(self.best.0.clone(), o, None) {
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            if !any || chunk > self.best.1.len() {
                chunk = (chunk / 2).max(1);
            }
        }
    }
    fn shrink_choices(&mut self) {
        loop {
            let before = (self.best.0.len(), self.best.0.iter().map(|&x| x as u128).sum::<u128>());
            // truncate trailing zeros / delete blocks
            for sz in [16usize, 8, 4, 2, 1] {
                let mut i = self.best.0.len();
                while i > 0 && self.left() {
                    i = i.saturating_sub(sz);
                    if i + sz <= self.best.0.len() {
                        let mut c = self.best.0.clone();
                        c.drain(i..i + sz);
                        self.try_choices(c);
                    }
                }
            }
            // lower values
            let mut i = 0;
            while i < self.best.0.len() && self.left() {
                if self.best.0[i] != 0 {
                    let mut c = self.best.0.clone();
                    c[i] = 0;
                    if !self.try_choices(c) {
                        let (mut lo, mut hi) = (0u64, self.best.0[i]);
                        let mut n = 0;
                        while lo + 1 < hi && n < 12 && self.left() && i < self.best.0.len() {
                            let mid = lo + (hi - lo) / 2;
                            let mut c = self.best.0.clone();
                            c[i] = mid;
                            if self.try_choices(c) {
                                hi = mid;
                            } else {
                                lo = mid;
                            }
                            n += 1;
                        }
                    }
                }
                i += 1;
            }
            let after = (self.best.0.len(), self.best.0.iter().map(|&x| x as u128).sum::<u128>());
            if after == before || !self.left() {
                return;
            }
        }
    }
}

fn minimise(case: &Case, first: &Outcome, rec: (Vec<u64>, Vec<Override>), budget_s: u64) -> (Outcome, (Vec<u64>, Vec<Override>), u64, bool) {
    let mut m = Mini {
        prop: case.prop.clone(), thorough: case.thorough, seed: case.seed,
        key: first.key(), best: rec.clone(), out: first.clone(),
        tries: 0, start: Instant::now(), budget_s,
    };
    // exact replay first
    let ok = m.attempt(rec.0.clone(), rec.1.clone(), None);
    if !ok {
        return (first.clone(), rec, m.tries, false);
    }
    let hang = first.class == "hang";
    if hang {
        CPU_LIMIT.store(15, std::sync::atomic::Ordering::Relaxed);
    }
    m.shrink_sched();
    m.shrink_choices();
    m.shrink_sched();
    CPU_LIMIT.store(45, std::sync::atomic::Ordering::Relaxed);
    let best = m.best.clone();
    // the final description must come from a run of the final case
    if !m.attempt(best.0.clone(), best.1.clone(), None) {
        // (shrunk below the time limit: keep the execution as it was found)
        return (first.clone(), rec, m.tries, true);
    }
    (m.out, best, m.tries, true)
}

// ------------------------------------------------------------------ replay files
fn write_replay(path: &str, case: &Case, o: &Outcome, rec: &(Vec<u64>, Vec<Override>), exact: bool, tries: u64) {
    let v = json!({
        "property": case.prop, "build": build_name(), "seed": case.seed, "thorough": case.thorough,
        "class": o.class, "phase": o.phase, "message": o.msg, "description": get(&shared().h.desc),
        "exact_replay": exact, "minimisation_runs": tries,
        "choices": rec.0,
        "schedule": rec.1.iter().map(|x| json!([x.step, x.what])).collect::<Vec<_>>(),
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
}
fn read_replay(path: &str) -> (Case, String) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let ch = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let ov = v["schedule"].as_array().unwrap().iter()
        .map(|x| Override { step: x[0].as_u64().unwrap(), what: x[1].as_u64().unwrap() }).collect();
    (
        Case {
            prop: v["property"].as_str().unwrap().into(),
            seed: v["seed"].as_u64().unwrap(),
            thorough: v["thorough"].as_bool().unwrap_or(false),
            replay: Some((ch, ov)),
            sched_seed: None,
        },
        format!("{}|{}", v["class"].as_str().unwrap(), v["phase"].as_str().unwrap()),
    )
}
pub fn build_name() -> &'static str {
    if cfg!(feature = "full") {
        "full"
    } else if cfg!(feature = "parallel") {
        "par"
    } else if cfg!(feature = "mmap") {
        "ser"
    } else {
        "lean"
    }
}

// ------------------------------------------------------------------ aggregation
#[derive(Default)]
struct Agg {
    n: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += v;
    }
    fn max(&mut self, k: &str, v: u64) {
        let e = self.n.entry(k.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    fn take(&mut self, case: &Case) {
        let sh = shared();
        let s = &sh.s;
        self.add("runs", 1);
        self.add("oracle_evaluations", sh.h.evals);
        self.add("steps", s.steps);
        self.add("switches", s.switches);
        self.add("preemptions", s.preemptions);
        self.add("threads", s.threads);
        self.max("max_threads_in_a_run", s.threads);
        self.max("max_steps_in_a_run", s.steps);
        self.add("simulated_ns", s.sim_ns.saturating_sub(1_000_000_000) + s.steps * 10);
        self.add("timer_fires", s.timer_fires);
        for (i, n) in OP_NAMES.iter().enumerate() {
            if s.io[i] > 0 {
                self.add(&format!("io.{n}"), s.io[i]);
            }
            if s.f_err[i] > 0 {
                self.add(&format!("fault.error_on_{n}"), s.f_err[i]);
            }
        }
        if s.f_eintr > 0 { self.add("fault.eintr", s.f_eintr); }
        if s.f_short > 0 { self.add("fault.short_transfer", s.f_short); }
        if s.f_enospc > 0 { self.add("fault.disk_full", s.f_enospc); }
        if s.mem_refused > 0 { self.add("fault.memory_refused", s.mem_refused); }
        for i in 0..sh.h.n_probes as usize {
            self.add(&format!("probe.{}", get(&sh.h.probe_names[i])), sh.h.probes[i]);
        }
        let mut h = s.state_hash;
        for &c in &sh.h.choices[..sh.h.n_choices as usize] {
            h = mix(h ^ c);
        }
        let nontrivial = s.switches > 2 || s.fired_total > 0 || s.f_enospc > 0 || s.f_short > 0
            || (0..sh.h.n_probes as usize).any(|i| get(&sh.h.probe_names[i]).starts_with("fault."));
        if nontrivial {
            self.hashes.insert(h);
        }
        if sh.h.n_known > 0 {
            for k in get(&sh.h.known).split('\n') {
                *self.known.entry(k.to_string()).or_insert(0) += 1;
            }
        }
        if self.samples.len() < 3 {
            self.samples.push(json!({
                "seed": case.seed, "scenario": case.prop, "case": get(&sh.h.desc), "steps": s.steps, "threads": s.threads,
                "switches": s.switches, "preemptions": s.preemptions, "schedule_decisions": s.n_ov,
            }));
        }
    }
}

pub fn args() -> BTreeMap<String, String> {
    let a: Vec<String> = std::env::args().skip(2).collect();
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            if i + 1 < a.len() && !a[i + 1].starts_with("--") {
                m.insert(k.to_string(), a[i + 1].clone());
                i += 2;
            } else {
                m.insert(k.to_string(), "1".into());
                i += 1;
            }
        } else {
            m.insert("_".into(), a[i].clone());
            i += 1;
        }
    }
    m
}
fn num(m: &BTreeMap<String, String>, k: &str, d: u64) -> u64 {
    m.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn seed_for(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(base);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i) >> 1
}

pub fn main() -> i32 {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let a = args();
    map_shared();
    match mode.as_str() {
        "check" => check(&a),
        "replay" => replay(&a),
        "one" => one(&a),
        "det" => det(&a),
        "list" => {
            for p in scen::names() {
                println!("{p}");
            }
            0
        }
        _ => {
            eprintln!("usage: psim check|replay|one|det ...");
            2
        }
    }
}

fn one(a: &BTreeMap<String, String>) -> i32 {
    let case = Case { prop: a["prop"].clone(), seed: num(a, "seed", 1), thorough: a.contains_key("thorough"), replay: None, sched_seed: None };
    let t = Instant::now();
    let o = run_case(&case);
    let sh = shared();
    println!("{} phase={} msg={}", o.class, o.phase, o.msg);
    println!(
        "steps={} switches={} preempt={} threads={} choices={} overrides={} hash={:x} wall={:?}\n{}",
        sh.s.steps, sh.s.switches, sh.s.preemptions, sh.s.threads, sh.h.n_choices, sh.s.n_ov, sh.s.state_hash, t.elapsed(), get(&sh.h.desc)
    );
    for i in 0..sh.h.n_probes as usize {
        println!("probe {} {}", get(&sh.h.probe_names[i]), sh.h.probes[i]);
    }
    if o.ok() { 0 } else { 1 }
}

/// Prints one line per seed: everything observable about the run. Diffing two outputs proves determinism.
fn det(a: &BTreeMap<String, String>) -> i32 {
    let n = num(a, "runs", 100);
    let base = num(a, "seed", 1);
    let props: Vec<String> = match a.get("prop") {
        Some(p) if p != "all" => vec![p.clone()],
        _ => scen::names().iter().map(|s| s.to_string()).collect(),
    };
    let from = num(a, "from", 0);
    for p in props {
        let n = if p.ends_with(".huge") { n.min(1) } else { n };
        for i in from..n {
            let case = Case { prop: p.clone(), seed: seed_for(base, &p, i), thorough: false, replay: None, sched_seed: None };
            let o = run_case(&case);
            let sh = shared();
            let mut h = 0u64;
            for x in &sh.s.ov[..sh.s.n_ov as usize] {
                h = mix(h ^ x.step ^ (x.what << 40));
            }
            let mut pr = String::new();
            for i in 0..sh.h.n_probes as usize {
                pr += &format!(" {}={}", get(&sh.h.probe_names[i]), sh.h.probes[i]);
            }
            println!(
                "{p} {i} {} {} steps={} sw={} th={} ov={}:{h:x} state={:x} io={:?} written={} evals={} {pr}",
                o.class, o.phase, sh.s.steps, sh.s.switches, sh.s.threads, sh.s.n_ov, sh.s.state_hash, &sh.s.io[..11], sh.s.bytes_written, sh.h.evals
            );
        }
    }
    0
}

fn replay(a: &BTreeMap<String, String>) -> i32 {
    let path = &a["_"];
    let (case, key) = read_replay(path);
    if case.prop == "C19" {
        let _ = prepare(&case, true);
    }
    let o = run_case(&case);
    println!("replayed {path}: class={} phase={}\n{}\n{}", o.class, o.phase, o.msg, get(&shared().h.desc));
    if o.ok() {
        println!("no violation");
        0
    } else {
        println!("same failure as recorded: {}", o.key() == key);
        println!("VIOLATION property={} replay={path}", case.prop.split('.').next().unwrap());
        1
    }
}

struct WorkerOut {
    agg: Agg,
    violation: Option<Value>,
    error: Option<String>,
}

fn worker(prop: &str, scens: &[(String, u64)], w: u64, jobs: u64, base: u64, thorough: bool, start: Instant, secs: u64, stop: *mut u64, replay_dir: &str) -> WorkerOut {
    map_shared(); // private area for this worker
    let mut agg = Agg::default();
    // interleave scenarios so that a time cap cuts all of them evenly
    let total: u64 = scens.iter().map(|s| s.1).sum();
    let mut done = vec![0u64; scens.len()];
    let mut k = 0u64;
    while k < total {
        // pick the scenario that is most behind
        let mut b = 0;
        let mut bv = f64::MAX;
        for (i, s) in scens.iter().enumerate() {
            if done[i] < s.1 {
                let v = (done[i] as f64 + 0.5) / s.1 as f64;
                if v < bv {
                    bv = v;
                    b = i;
                }
            }
        }
        let idx = done[b];
        done[b] += 1;
        k += 1;
        if idx % jobs != w {
            continue;
        }
        if start.elapsed().as_secs() >= secs || unsafe { std::ptr::read_volatile(stop) } != 0 {
            agg.add("stopped_early", 1);
            break;
        }
        let name = &scens[b].0;
        let case = Case { prop: name.clone(), seed: seed_for(base, name, idx), thorough, replay: None, sched_seed: None };
        let mut o = run_case(&case);
        if o.class == "hang" {
            // merely slow? then it ends with more time
            CPU_LIMIT.store(100, std::sync::atomic::Ordering::Relaxed);
            o = run_case(&case);
            CPU_LIMIT.store(45, std::sync::atomic::Ordering::Relaxed);
            agg.add("slow_runs_repeated", 1);
        }
        if o.ok() {
            agg.max("max_run_cpu_ms", LAST_CPU.load(std::sync::atomic::Ordering::Relaxed));
            agg.take(&case);
            agg.add(&format!("runs.{name}"), 1);
            continue;
        }
        if o.class == "harness-error" {
            return WorkerOut { agg, violation: None, error: Some(format!("{name} seed {}: {} ({})", case.seed, o.msg, o.phase)) };
        }
        unsafe {
            if std::ptr::read_volatile(stop) != 0 {
                break;
            }
            std::ptr::write_volatile(stop, 1);
        }
        let rec = recorded();
        let (mo, mrec, tries, exact) = minimise(&case, &o, rec, if thorough { 120 } else { 45 });
        let path = format!("{replay_dir}/{prop}-{:x}.json", case.seed);
        write_replay(&path, &case, &mo, &mrec, exact, tries);
        agg.add("runs", 1);
        return WorkerOut {
            agg,
            violation: Some(json!({"replay": path, "class": mo.class, "phase": mo.phase, "message": mo.msg, "scenario": name,
                "seed": case.seed, "choices": mrec.0.len(), "schedule": mrec.1.len(), "exact": exact, "case": get(&shared().h.desc)})),
            error: None,
        };
    }
    WorkerOut { agg, violation: None, error: None }
}

fn check(a: &BTreeMap<String, String>) -> i32 {
    let prop = a["prop"].clone();
    let thorough = a.get("tier").map(|s| s == "thorough").unwrap_or(false);
    let base = num(a, "seed", 1);
    let jobs = num(a, "jobs", 8).max(1);
    let secs = num(a, "secs", 60);
    let scale = num(a, "scale", 100);
    let replay_dir = a.get("replays").cloned().unwrap_or("/tmp".into());
    let out = a["out"].clone();
    let mut scens: Vec<(String, u64)> = scen::plan(&prop);
    if scens.is_empty() {
        eprintln!("no scenario for {prop} in this build");
        return 3;
    }
    for s in &mut scens {
        s.1 = (s.1 * scale / 100).max(1);
    }
    let start = Instant::now();
    let stop = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64
    };
    let mut pipes = Vec::new();
    for w in 0..jobs {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                let r = worker(&prop, &scens, w, jobs, base, thorough, start, secs, stop, &replay_dir);
                let v = json!({"n": r.agg.n, "hashes": r.agg.hashes.iter().collect::<Vec<_>>(), "samples": r.agg.samples,
                    "known": r.agg.known, "violation": r.violation, "error": r.error});
                use std::os::fd::FromRawFd;
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(serde_json::to_string(&v).unwrap().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut tot = Agg::default();
    let mut viol: Vec<Value> = vec![];
    let mut err: Vec<String> = vec![];
    for (pid, fd) in pipes {
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let Ok(v) = serde_json::from_str::<Value>(&s) else {
            err.push(format!("worker died: status {st}"));
            continue;
        };
        for (k, x) in v["n"].as_object().unwrap() {
            if k.starts_with("max_") { tot.max(k, x.as_u64().unwrap()) } else { tot.add(k, x.as_u64().unwrap()) }
        }
        for h in v["hashes"].as_array().unwrap() {
            tot.hashes.insert(h.as_u64().unwrap());
        }
        if tot.samples.len() < 6 {
            tot.samples.extend(v["samples"].as_array().unwrap().iter().cloned().take(2));
        }
        for (k, x) in v["known"].as_object().unwrap() {
            *tot.known.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
        }
        if !v["violation"].is_null() {
            viol.push(v["violation"].clone());
        }
        if let Some(e) = v["error"].as_str() {
            err.push(e.into());
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let res = json!({"n": tot.n, "distinct": tot.hashes.len(), "samples": tot.samples, "known": tot.known,
        "violations": viol, "errors": err, "wall_s": wall, "build": build_name(), "jobs": jobs});
    std::fs::write(&out, serde_json::to_string_pretty(&res).unwrap()).expect("write out");
    if !viol.is_empty() {
        return 1;
    }
    if !err.is_empty() {
        for e in &err {
            eprintln!("ERROR {e}");
        }
        return 3;
    }
    0
}

#[allow(dead_code)]
pub fn unused() {
    let _ = sim::OP_MMAP;
}
