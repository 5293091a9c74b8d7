//! Runs simulations, one process per run, and turns what they report into verdicts.
//!
//! A *plan* is a JSON value: it holds everything that determines one run (workload, faults, schedule seed).
//! `orch` never looks inside except for the array fields it may shorten while minimising.
use crate::{
    fam,
    rng::mix,
    sim::{SchedSpec, Sim, SimEnv, SimStats},
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::Write,
    os::fd::RawFd,
    time::{Duration, Instant},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    /// Number of oracle comparisons made.
    pub checks: u64,
    /// Whether the run exercised something beyond set-up.
    pub nontrivial: bool,
    /// Named counters: faults, crash points, rare situations reached.
    pub probes: BTreeMap<String, u64>,
    /// Hashes of distinct situations reached.
    pub states: BTreeSet<u64>,
    /// Digest of everything observed: equal for equal plans.
    pub digest: u64,
    pub stats: SimStats,
    pub sample: String,
}

impl Outcome {
    pub fn fail(&mut self, class: &str, detail: impl Into<String>) {
        if self.violations.len() < 8 {
            let mut detail = detail.into();
            if detail.len() > 4000 {
                let mut n = 4000;
                while !detail.is_char_boundary(n) {
                    n -= 1;
                }
                detail.truncate(n);
            }
            self.violations.push(Violation { class: class.into(), detail });
        }
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.into()).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.probes.entry(name.into()).or_insert(0) += n;
        }
    }
    pub fn see(&mut self, bytes: &[u8]) {
        self.digest = fnv(self.digest, bytes);
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 64 {
            self.states.insert(h);
        }
    }
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    if h == 0 {
        h = 0xcbf29ce484222325;
    }
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    fnv(0, s.as_bytes())
}

// ---------------------------------------------------------------------------------------------
// One run.

fn write_all(fd: RawFd, mut data: &[u8]) {
    while !data.is_empty() {
        let n = unsafe { libc::write(fd, data.as_ptr() as *const _, data.len()) };
        if n <= 0 {
            return;
        }
        data = &data[n as usize..];
    }
}

static STORY: parking_lot::Mutex<Vec<String>> = parking_lot::Mutex::new(Vec::new());

/// What a client is about to do, for the account of a run that does not end.
pub fn story(client: usize, what: &str) {
    let mut s = STORY.lock();
    if s.len() <= client {
        s.resize(client + 1, String::new());
    }
    s[client] = what.chars().take(300).collect();
}

fn child(plan: &Value, out_fd: RawFd, err_fd: RawFd) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::dup2(err_fd, 1);
        libc::dup2(err_fd, 2);
    }
    let out = std::sync::Arc::new(parking_lot::Mutex::new(Outcome::default()));
    let sim = Sim::leak();
    axmosdb::verif::install(Box::leak(Box::new(SimEnv(sim))));
    let seed = plan["seed"].as_u64().unwrap_or(1);
    crate::sim::reseed_random(mix(&[seed, 77]));
    let sched: SchedSpec = serde_json::from_value(plan["sched"].clone()).unwrap_or(SchedSpec {
        seed,
        preempt: 0,
        script: None,
        max_steps: 60_000_000,
    });
    let mut sched = sched;
    // A minimised schedule overrides the recorded one.
    if let Some(d) = plan.get("deviations").filter(|d| d.is_array()) {
        sched.script = serde_json::from_value(d.clone()).ok();
    }
    sim.configure(sched);
    let out2 = out.clone();
    sim.on_stuck(Box::new(move |m, stats| {
        // The stuck run may hold the lock.
        let mut o = match out2.try_lock() {
            Some(o) => o.clone(),
            None => Outcome::default(),
        };
        let told: String = STORY.lock().iter().enumerate().filter(|(_, s)| !s.is_empty()).map(|(i, s)| format!("\n   T{i} was at: {s}")).collect();
        o.fail("hang", format!("{m}{told}"));
        o.stats = stats;
        o.nontrivial = true;
        write_all(out_fd, serde_json::to_string(&o).unwrap().as_bytes());
        unsafe { libc::_exit(0) }
    }));
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if let Ok(path) = std::env::var("AXSIM_PANICS") {
            let text = format!("PANIC {msg} at {loc}\n{}\n", std::backtrace::Backtrace::force_capture());
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(path).and_then(|mut f| std::io::Write::write_all(&mut f, text.as_bytes()));
        }
        sim.record_panic(format!("{msg} at {loc}"));
    }));
    let plan2 = plan.clone();
    let out3 = out.clone();
    sim.run(Box::new(move || {
        let mut o = Outcome::default();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fam::run(sim, &plan2, &mut o)));
        if r.is_err() {
            let p = sim.take_panics();
            o.fail("panic", p.last().cloned().unwrap_or_else(|| "panic".into()));
        }
        *out3.lock() = o;
    }));
    let mut o = out.lock().clone();
    o.stats = sim.stats();
    let panics = sim.take_panics();
    if !panics.is_empty() {
        o.probe_n("panics recorded", panics.len() as u64);
    }
    write_all(out_fd, serde_json::to_string(&o).unwrap().as_bytes());
    unsafe { libc::_exit(0) }
}

struct Running {
    idx: usize,
    pid: i32,
    fd: RawFd,
    err: RawFd,
    buf: Vec<u8>,
    started: Instant,
}

fn spawn(idx: usize, plan: &Value) -> Running {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let err = libc::memfd_create(c"axsim".as_ptr(), 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            child(plan, fds[1], err);
        }
        libc::close(fds[1]);
        Running { idx, pid, fd: fds[0], err, buf: Vec::new(), started: Instant::now() }
    }
}

fn finish(mut r: Running, timed_out: bool) -> Outcome {
    let mut status = 0;
    unsafe {
        if timed_out {
            libc::kill(r.pid, libc::SIGKILL);
        }
        libc::waitpid(r.pid, &mut status, 0);
        libc::close(r.fd);
    }
    let parsed: Option<Outcome> = serde_json::from_slice(&r.buf).ok();
    let o = match parsed {
        Some(o) => o,
        None => {
            let mut o = Outcome { nontrivial: true, ..Outcome::default() };
            let mut tail = vec![0u8; 2000];
            unsafe {
                let len = libc::lseek(r.err, 0, libc::SEEK_END);
                let off = (len - 2000).max(0);
                let n = libc::pread(r.err, tail.as_mut_ptr() as *mut _, 2000, off);
                tail.truncate(n.max(0) as usize);
            }
            let tail = String::from_utf8_lossy(&tail).to_string();
            if timed_out {
                o.fail("hang", format!("the run made no progress within its wall clock limit; last output: {tail}"));
            } else {
                o.fail("process-death", format!("the process died (wait status {status}); last output: {tail}"));
            }
            o
        }
    };
    unsafe {
        libc::close(r.err);
    }
    r.buf.clear();
    o
}

pub struct Limits {
    pub jobs: usize,
    pub per_run: Duration,
    pub deadline: Instant,
}

/// Runs plans with `next` as the source until it returns None, the deadline passes or `done` returns false.
pub fn run_many(
    lim: &Limits,
    mut next: impl FnMut() -> Option<(usize, Value)>,
    mut done: impl FnMut(usize, &Value, Outcome) -> bool,
) {
    let mut running: Vec<(Running, Value)> = Vec::new();
    let mut stop = false;
    loop {
        while !stop && running.len() < lim.jobs && Instant::now() < lim.deadline {
            match next() {
                Some((i, p)) => {
                    let r = spawn(i, &p);
                    running.push((r, p));
                }
                None => stop = true,
            }
        }
        if Instant::now() >= lim.deadline {
            stop = true;
        }
        if running.is_empty() {
            return;
        }
        let mut pfds: Vec<libc::pollfd> =
            running.iter().map(|(r, _)| libc::pollfd { fd: r.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 200) };
        let mut finished = Vec::new();
        for (k, p) in pfds.iter().enumerate() {
            if p.revents != 0 {
                let mut chunk = vec![0u8; 1 << 16];
                let n = unsafe { libc::read(p.fd, chunk.as_mut_ptr() as *mut _, chunk.len()) };
                if n > 0 {
                    running[k].0.buf.extend_from_slice(&chunk[..n as usize]);
                } else {
                    finished.push((k, false));
                }
            } else if running[k].0.started.elapsed() > lim.per_run {
                finished.push((k, true));
            }
        }
        for (k, timeout) in finished.into_iter().rev() {
            let (r, p) = running.swap_remove(k);
            let idx = r.idx;
            let o = finish(r, timeout);
            if !done(idx, &p, o) {
                stop = true;
            }
        }
    }
}

pub fn run_one(plan: &Value, per_run: Duration) -> Outcome {
    let lim = Limits { jobs: 1, per_run, deadline: Instant::now() + per_run + Duration::from_secs(5) };
    let mut given = false;
    let mut out = Outcome::default();
    run_many(
        &lim,
        || {
            if given {
                None
            } else {
                given = true;
                Some((0, plan.clone()))
            }
        },
        |_, _, o| {
            out = o;
            true
        },
    );
    out
}

// ---------------------------------------------------------------------------------------------
// Minimisation.

/// Runs all candidates and returns the index of the first one that still shows a violation of the class.
fn first_failing(cands: &[Value], class: &str, per_run: Duration, deadline: Instant) -> Option<usize> {
    let jobs = 8;
    let mut base = 0;
    while base < cands.len() {
        if Instant::now() > deadline {
            return None;
        }
        let batch = &cands[base..(base + jobs).min(cands.len())];
        let mut ok = vec![false; batch.len()];
        let lim = Limits { jobs, per_run, deadline: deadline + per_run };
        let mut i = 0;
        run_many(
            &lim,
            || {
                let r = batch.get(i).map(|p| (i, p.clone()));
                i += 1;
                r
            },
            |k, _, o| {
                ok[k] = o.violations.iter().any(|v| v.class == class);
                true
            },
        );
        if let Some(k) = ok.iter().position(|x| *x) {
            return Some(base + k);
        }
        base += jobs;
    }
    None
}

fn shrink_array(plan: &mut Value, field: &str, class: &str, per_run: Duration, deadline: Instant) {
    let mut n = 2usize;
    loop {
        let items = match plan.pointer(field).and_then(|v| v.as_array()) {
            Some(a) if !a.is_empty() => a.clone(),
            _ => return,
        };
        if Instant::now() > deadline {
            return;
        }
        n = n.min(items.len());
        let size = items.len().div_ceil(n);
        let mut cands = Vec::new();
        for c in 0..n {
            let lo = c * size;
            let hi = ((c + 1) * size).min(items.len());
            if lo >= hi {
                continue;
            }
            let mut rest = items.clone();
            rest.drain(lo..hi);
            let mut p = plan.clone();
            *p.pointer_mut(field).unwrap() = Value::Array(rest);
            cands.push(p);
        }
        match first_failing(&cands, class, per_run, deadline) {
            Some(k) => {
                *plan = cands[k].clone();
                n = n.saturating_sub(1).max(2);
            }
            None => {
                if size == 1 {
                    return;
                }
                n = (n * 2).min(items.len());
            }
        }
    }
}

pub fn minimise(plan: &Value, class: &str, per_run: Duration, budget: Duration) -> Value {
    let deadline = Instant::now() + budget;
    let mut best = plan.clone();
    // Fix the schedule to an explicit list of deviations first, if that keeps the failure.
    if best["sched"]["preempt"].as_u64().unwrap_or(0) > 0 || best["threads"].is_array() {
        let o = run_one(&best, per_run);
        if o.violations.iter().any(|v| v.class == class) {
            let mut p = best.clone();
            p["sched"]["script"] = json!(o.stats.deviations);
            if first_failing(&[p.clone()], class, per_run, deadline).is_some() {
                best = p;
                // Deviations live in a nested field: shorten them through a top level alias.
                best["deviations"] = best["sched"]["script"].clone();
                let n = best["deviations"].as_array().map(|a| a.len()).unwrap_or(0);
                let _ = n;
                shrink_array(&mut best, "/deviations", class, per_run, Instant::now() + budget / 3);
            }
        }
    }
    for _ in 0..2 {
        let before = best.to_string().len();
        // The last lives of a process first, and where it dies before what it does.
        if let Some(n) = best["lives"].as_array().map(|a| a.len()) {
            for l in (0..n).rev() {
                shrink_array(&mut best, &format!("/lives/{l}/points"), class, per_run, deadline);
            }
            for l in (0..n).rev() {
                shrink_array(&mut best, &format!("/lives/{l}/ops"), class, per_run, deadline);
            }
        }
        for field in ["/faults", "/crashes", "/ops", "/threads", "/setup"] {
            shrink_array(&mut best, field, class, per_run, deadline);
        }
        // Each thread's operations.
        let n = best["threads"].as_array().map(|a| a.len()).unwrap_or(0);
        for t in 0..n {
            let alias = best["threads"][t].clone();
            if !alias.is_array() {
                continue;
            }
            let mut i = 0;
            while i < best["threads"][t].as_array().map(|a| a.len()).unwrap_or(0) {
                let mut p = best.clone();
                p["threads"][t].as_array_mut().unwrap().remove(i);
                if first_failing(&[p.clone()], class, per_run, deadline).is_some() {
                    best = p;
                } else {
                    i += 1;
                }
                if Instant::now() > deadline {
                    break;
                }
            }
        }
        if best.to_string().len() == before {
            break;
        }
    }
    best
}

// ---------------------------------------------------------------------------------------------
// Checks.

pub struct Part {
    pub family: &'static str,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub parts: &'static [Part],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Debug)]
struct Known {
    prop: String,
    file: String,
    what: String,
}

fn known_findings(root: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.trim().strip_prefix("known: ") {
            let mut parts = rest.splitn(3, ' ');
            let prop = parts.next().unwrap_or("").trim_start_matches("property=").to_string();
            let file = parts.next().unwrap_or("").trim_start_matches("reproducer=").to_string();
            let what = parts.next().unwrap_or("").to_string();
            out.push(Known { prop, file, what });
        }
    }
    out
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    checks: u64,
    steps: u64,
    sim_ns: u128,
    switches: u64,
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    scheds: BTreeSet<u64>,
    states: BTreeSet<u64>,
    by_family: BTreeMap<String, u64>,
    samples: Vec<Value>,
    fs: [u64; 3],
}

impl Agg {
    fn add(&mut self, fam: &str, plan: &Value, o: &Outcome) {
        self.runs += 1;
        *self.by_family.entry(fam.into()).or_insert(0) += 1;
        if o.nontrivial {
            self.nontrivial.insert(o.digest ^ hash_str(&plan.to_string()));
        }
        self.checks += o.checks;
        self.steps += o.stats.steps;
        self.sim_ns += o.stats.sim_ns as u128;
        self.switches += o.stats.switches;
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.stats.fired {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        self.scheds.insert(o.stats.sched_hash);
        if self.states.len() < 2_000_000 {
            self.states.extend(o.states.iter().copied());
        }
        self.fs[0] += o.stats.fs_reads;
        self.fs[1] += o.stats.fs_writes;
        self.fs[2] += o.stats.fs_syncs;
        let have = self.samples.iter().filter(|s| s["family"] == *fam).count();
        if have < 2 && o.nontrivial && !o.sample.is_empty() {
            self.samples.push(json!({"family": fam, "seed": plan["seed"], "run": o.sample, "checks": o.checks, "digest": format!("{:016x}", o.digest)}));
        }
    }
}

pub fn check(prop: &Prop, thorough: bool, root: &str) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap = std::env::var("AXSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 420 });
    let jobs = std::env::var("AXSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let per_run = Duration::from_secs(if thorough { 240 } else { 60 });
    let mut code = 0;
    let mut agg = Agg::default();
    let mut known_reported = Vec::new();
    let mut violations = 0;

    // Findings on record: each has a fixed reproducer.
    for k in known_findings(root).iter().filter(|k| k.prop == prop.id) {
        let plan: Value = match std::fs::read_to_string(format!("{root}/{}", k.file)).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            Some(p) => p,
            None => {
                eprintln!("cannot read {}", k.file);
                return 2;
            }
        };
        let o = run_one(&plan["plan"], per_run);
        let class = plan["class"].as_str().unwrap_or("");
        if o.violations.iter().any(|v| v.class == class) {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
            known_reported.push(json!({"what": k.what, "reproducer": k.file, "reproduced": true}));
        } else {
            eprintln!("note: the finding of {} no longer shows ({:?})", k.file, o.violations);
            known_reported.push(json!({"what": k.what, "reproducer": k.file, "reproduced": false}));
        }
    }

    // Seeded search.
    let mut found: Option<(usize, Value, Violation)> = None;
    let mut capped = false;
    let mut planned = 0;
    let mut determinism = [0u64; 2];
    let only = std::env::var("AXSIM_FAMILY").ok();
    let total: u64 = prop.parts.iter().map(|p| if thorough { p.thorough } else { p.quick }).sum();
    let mut spent = 0.0;
    for part in prop.parts {
        if only.as_deref().is_some_and(|f| f != part.family) {
            continue;
        }
        let runs = if thorough { part.thorough } else { part.quick };
        planned += runs;
        let share = cap as f64 * runs as f64 / total.max(1) as f64;
        spent += share;
        let lim = Limits { jobs, per_run, deadline: started + Duration::from_secs_f64(spent + 5.0) };
        let mut i = 0u64;
        let mut seen = 0u64;
        let famh = hash_str(part.family) ^ hash_str(prop.id).rotate_left(7);
        let mut first: Vec<(Value, Outcome)> = Vec::new();
        run_many(
            &lim,
            || {
                if i >= runs {
                    return None;
                }
                let s = mix(&[seed, famh, i]) >> 1;
                let p = fam::generate(part.family, prop.id, s, i, thorough);
                i += 1;
                Some((i as usize - 1, p))
            },
            |idx, plan, o| {
                seen += 1;
                agg.add(part.family, plan, &o);
                if let Some(v) = o.violations.first() {
                    if found.as_ref().is_none_or(|(j, _, _)| idx < *j) {
                        found = Some((idx, plan.clone(), v.clone()));
                    }
                    return false;
                }
                if first.len() < 2 && o.nontrivial {
                    first.push((plan.clone(), o));
                }
                true
            },
        );
        if seen < runs && found.is_none() {
            capped = true;
        }
        // The same plan must give the same observations.
        for (p, o) in first {
            let again = run_one(&p, per_run);
            determinism[0] += 1;
            if again.digest != o.digest || again.stats.sched_hash != o.stats.sched_hash {
                determinism[1] += 1;
                eprintln!("warning: the plan with seed {} is not repeatable", p["seed"]);
            }
        }
        if found.is_some() {
            break;
        }
    }

    let search_wall = started.elapsed().as_secs_f64();
    if let Some((idx, plan, v)) = found {
        violations = 1;
        let budget = Duration::from_secs(std::env::var("AXSIM_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 240 } else { 40 }));
        // What is slow in small, or hangs, is not waited for in full until the end.
        let small = minimise(&plan, &v.class, per_run.min(Duration::from_secs(if v.detail.contains("wall clock limit") { 10 } else { 30 })), budget);
        let again = run_one(&small, per_run);
        let (final_plan, final_v) = match again.violations.iter().find(|x| x.class == v.class) {
            Some(x) => (small, x.clone()),
            None => (plan.clone(), v.clone()),
        };
        let dir = format!("{root}/evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.json", prop.id, plan["seed"]);
        let doc = json!({
            "property": prop.id, "class": final_v.class, "detail": final_v.detail,
            "verif_seed": seed, "run": idx, "plan": final_plan, "original_plan": plan,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        eprintln!("{}: {}", final_v.class, final_v.detail);
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
    }

    let wall = started.elapsed().as_secs_f64();
    let real = "the whole engine: SQL front end, planner, executors, catalog, coordinator, B+trees, page cache, pager, WAL, recovery, worker pool, sessions (and, for the wire family, the protocol code and the server's result conversion)";
    let stub = "operating system threads (one runs at a time, chosen by the seeded scheduler), locks and condition variables, clock, random source, file system (in memory)";
    let evidence = json!({
        "property": prop.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": prop.rule,
            "samples": agg.samples,
            "runs_planned": planned,
            "stopped_by_time_cap": capped,
            "runs_by_family": agg.by_family,
            "oracle_comparisons": agg.checks,
            "runs_per_hour": (agg.runs as f64 / search_wall.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (agg.runs as f64 / search_wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "scheduling_steps": agg.steps,
            "context_switches": agg.switches,
            "distinct_schedules": agg.scheds.len(),
            "distinct_states": agg.states.len(),
            "distinct_states_measure": "hash of the model state (or of the log/tree/row/frame shape) at each checked point, at most 64 per run",
            "io_faults_injected": agg.faults,
            "situations_reached": agg.probes,
            "file_operations": {"reads": agg.fs[0], "writes": agg.fs[1], "syncs": agg.fs[2]},
            "repeatability": {"plans_run_twice": determinism[0], "different": determinism[1]},
            "real_code": real,
            "simulated": stub,
            "known_findings": known_reported,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", prop.id), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    if code == 0 {
        println!("ok property={} runs={} checks={} wall={:.1}s", prop.id, agg.runs, agg.checks, wall);
    }
    code
}

pub fn replay(file: &str) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let plan = if doc["plan"].is_object() { doc["plan"].clone() } else { doc.clone() };
    let o = run_one(&plan, Duration::from_secs(240));
    println!("digest {:016x} checks {} schedule {:016x}", o.digest, o.checks, o.stats.sched_hash);
    for (k, v) in &o.probes {
        println!("  {k}: {v}");
    }
    for v in &o.violations {
        println!("{}: {}", v.class, v.detail);
    }
    let class = doc["class"].as_str();
    match o.violations.iter().find(|v| class.is_none_or(|c| c == v.class)) {
        Some(_) => {
            println!("VIOLATION property={} replay={}", doc["property"].as_str().unwrap_or("?"), file);
            1
        }
        None => 0,
    }
}
