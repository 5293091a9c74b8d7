//! The simulator: scheduler, clock, disk and randomness of one run.
//!
//! Simulated threads are real OS threads of which exactly one holds the token at any moment.
//! The token changes hands only at the scheduling points of the seams in the engine
//! (lock acquisitions, channel operations, condition variables, sleeps, thread start and end) and
//! the choice of the next thread is a pure function of the schedule seed (or of the recorded
//! schedule when replaying).
use crate::rng::Rng;
use std::{
    cell::Cell,
    collections::BTreeMap,
    io,
    path::{Path, PathBuf},
    sync::{
        Arc, Condvar, Mutex, MutexGuard,
        atomic::{AtomicU64, Ordering},
    },
    time::Duration,
};

thread_local! {
    static TID: Cell<Option<usize>> = const { Cell::new(None) };
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Status {
    Runnable,
    Blocked {
        key: usize,
        site: &'static str,
        deadline: Option<u64>,
    },
    Done,
}

struct Th {
    status: Status,
    timed_out: bool,
    panicked: bool,
    /// A thread the liveness argument is about (clients), as opposed to idle pool workers.
    essential: bool,
    joiners: bool,
    cv: Arc<Condvar>,
}

/// A file system mutation, in the order it reached the (simulated) operating system.
#[derive(Clone, Debug)]
pub enum FsOp {
    Create(PathBuf),
    Write(PathBuf, u64, Vec<u8>),
    SetLen(PathBuf, u64),
    Sync(PathBuf),
    Remove(PathBuf),
}

/// A write that is cut short ends at a multiple of this.
pub const SECTOR: usize = 512;

impl FsOp {
    /// The operation, cut short if it is a write.
    pub fn first(&self, bytes: usize) -> FsOp {
        match self {
            FsOp::Write(p, at, d) => FsOp::Write(p.clone(), *at, d[..bytes.min(d.len())].to_vec()),
            o => o.clone(),
        }
    }
    pub fn path(&self) -> &Path {
        match self {
            FsOp::Create(p) | FsOp::Write(p, ..) | FsOp::SetLen(p, _) | FsOp::Sync(p) | FsOp::Remove(p) => p,
        }
    }
    pub fn short(&self) -> String {
        let name = |p: &PathBuf| p.file_name().unwrap().to_string_lossy().to_string();
        match self {
            FsOp::Create(p) => format!("create {}", name(p)),
            FsOp::Write(p, o, d) => format!("write {}@{}+{}", name(p), o, d.len()),
            FsOp::SetLen(p, l) => format!("set_len {} {}", name(p), l),
            FsOp::Sync(p) => format!("sync {}", name(p)),
            FsOp::Remove(p) => format!("remove {}", name(p)),
        }
    }
}

pub type Image = BTreeMap<PathBuf, Vec<u8>>;

/// Applies a mutation to an image.
pub fn apply(image: &mut Image, op: &FsOp) {
    match op {
        FsOp::Create(p) => {
            image.insert(p.clone(), Vec::new());
        }
        FsOp::Write(p, off, data) => {
            let f = image.entry(p.clone()).or_default();
            let end = *off as usize + data.len();
            if f.len() < end {
                f.resize(end, 0);
            }
            f[*off as usize..end].copy_from_slice(data);
        }
        FsOp::SetLen(p, len) => {
            image.entry(p.clone()).or_default().resize(*len as usize, 0);
        }
        FsOp::Sync(_) => {}
        FsOp::Remove(p) => {
            image.remove(p);
        }
    }
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct IoFault {
    /// Ordinal of the (eligible) file operation to hit, counted from the moment faults are armed.
    pub at: u64,
    /// read | write | sync | len
    pub op: String,
    /// eio | enospc | short | intr
    pub kind: String,
    /// How many consecutive operations are hit.
    pub count: u64,
}

#[derive(Default)]
pub struct Fs {
    pub files: Image,
    handles: Vec<PathBuf>,
    pub log: Vec<FsOp>,
    pub logging: bool,
    /// Only operations on paths below this directory are logged and subject to faults.
    pub log_root: Option<PathBuf>,
    pub faults: Vec<IoFault>,
    pub armed: bool,
    pub op_counts: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub capacity: Option<u64>,
    pub reads: u64,
    pub writes: u64,
    pub syncs: u64,
    pub misaligned: u64,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct SchedSpec {
    pub seed: u64,
    /// Probability (per mille) of preempting at a scheduling point.
    pub preempt: u64,
    /// Replay: explicit deviations from the default choice, as (decision number, thread).
    pub script: Option<Vec<(u64, usize)>>,
    pub max_steps: u64,
}

struct State {
    threads: Vec<Th>,
    current: usize,
    rng: Rng,
    spec: SchedSpec,
    decisions: u64,
    deviations: Vec<(u64, usize)>,
    script: BTreeMap<u64, usize>,
    now: u64, // ns
    steps: u64,
    wakes: u64,
    idle_jumps: u64,
    fs: Fs,
    panics: Vec<String>,
    sched_hash: u64,
    switches: u64,
    finished: bool,
    handles: Vec<std::thread::JoinHandle<()>>,
    random: u64,
    on_stuck: Option<Box<dyn FnMut(String, SimStats) + Send>>,
    step_trace: Option<Vec<(u64, usize, &'static str)>>,
    sched_points: u64,
    enabled_preempt: bool,
}

pub struct Sim {
    m: Mutex<State>,
    done: Condvar,
}

static RANDOM: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def0);

/// All the randomness the process can get hold of (hash map keys, the rand crate).
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut x = RANDOM.fetch_add(0x9E3779B97F4A7C15, Ordering::SeqCst);
    let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
    for chunk in out.chunks_mut(8) {
        let v = crate::rng::splitmix(&mut x).to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    len as libc::ssize_t
}

pub fn reseed_random(seed: u64) {
    RANDOM.store(seed, Ordering::SeqCst);
}

fn mixh(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(17)
}

impl Sim {
    pub fn leak() -> &'static Sim {
        Box::leak(Box::new(Sim {
            m: Mutex::new(State {
                threads: Vec::new(),
                current: 0,
                rng: Rng::new(0),
                spec: SchedSpec::default(),
                decisions: 0,
                deviations: Vec::new(),
                script: BTreeMap::new(),
                now: 1_700_000_000_000_000_000,
                steps: 0,
                wakes: 0,
                idle_jumps: 0,
                fs: Fs::default(),
                panics: Vec::new(),
                sched_hash: 0xcbf29ce484222325,
                switches: 0,
                finished: false,
                handles: Vec::new(),
                random: 0,
                on_stuck: None,
                step_trace: None,
                sched_points: 0,
                enabled_preempt: true,
            }),
            done: Condvar::new(),
        }))
    }

    fn lock(&self) -> MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn configure(&self, spec: SchedSpec) {
        let mut s = self.lock();
        s.rng = Rng::new(spec.seed);
        s.script = spec.script.clone().unwrap_or_default().into_iter().collect();
        s.spec = spec;
    }

    pub fn on_stuck(&self, f: Box<dyn FnMut(String, SimStats) + Send>) {
        self.lock().on_stuck = Some(f);
    }

    /// Runs `main` as simulated thread 0 and returns when it has finished.
    pub fn run(&'static self, main: Box<dyn FnOnce() + Send + 'static>) {
        {
            let mut s = self.lock();
            assert!(s.threads.is_empty());
            Self::add_thread(&mut s, true);
            s.current = 0;
        }
        let h = self.start(0, main, 8 << 20);
        self.lock().handles.push(h);
        let mut s = self.lock();
        while !s.finished {
            s = self.done.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn add_thread(s: &mut State, essential: bool) -> usize {
        s.threads.push(Th {
            status: Status::Runnable,
            timed_out: false,
            panicked: false,
            essential,
            joiners: false,
            cv: Arc::new(Condvar::new()),
        });
        s.threads.len() - 1
    }

    fn start(&'static self, tid: usize, f: Box<dyn FnOnce() + Send + 'static>, stack: usize) -> std::thread::JoinHandle<()> {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                TID.with(|t| t.set(Some(tid)));
                {
                    let mut s = self.lock();
                    let cv = s.threads[tid].cv.clone();
                    while s.current != tid {
                        s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
                    }
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let mut s = self.lock();
                s.threads[tid].panicked = r.is_err();
                s.threads[tid].status = Status::Done;
                // Wake the joiners.
                for t in 0..s.threads.len() {
                    if let Status::Blocked { key, site: "join", .. } = s.threads[t].status {
                        if key == tid {
                            s.threads[t].status = Status::Runnable;
                        }
                    }
                }
                s.wakes += 1;
                if tid == 0 {
                    s.finished = true;
                    self.done.notify_all();
                    return;
                }
                self.dispatch(s, None);
            })
            .expect("thread")
    }

    /// Chooses who runs next; the caller is no longer runnable (or voluntarily yields when `me` is set).
    /// Returns with the token handed over. If `me` is set, waits until it is handed back.
    fn dispatch(&self, mut s: MutexGuard<'_, State>, me: Option<usize>) {
        loop {
            let runnable: Vec<usize> = (0..s.threads.len()).filter(|i| s.threads[*i].status == Status::Runnable).collect();
            if runnable.is_empty() {
                // Discrete event time: jump to the next deadline.
                let next = (0..s.threads.len())
                    .filter_map(|i| match s.threads[i].status {
                        Status::Blocked { deadline: Some(d), .. } => Some((d, i)),
                        _ => None,
                    })
                    .min();
                let essential_blocked = s.threads.iter().any(|t| t.essential && matches!(t.status, Status::Blocked { .. }));
                s.idle_jumps += 1;
                let stuck = match next {
                    None => true,
                    // Every worker of the pool has timed out many times over without anything else happening.
                    Some(_) => essential_blocked && s.idle_jumps > 2000,
                };
                if stuck {
                    let msg = self.describe_blocked(&s);
                    let stats = Self::stats_of(&s);
                    if let Some(mut cb) = s.on_stuck.take() {
                        cb(msg, stats);
                    }
                    // The callback terminates the process.
                    std::process::abort();
                }
                let (d, i) = next.unwrap();
                s.now = s.now.max(d);
                s.threads[i].status = Status::Runnable;
                s.threads[i].timed_out = true;
                continue;
            }
            let n = s.decisions;
            s.decisions += 1;
            let default = match me {
                Some(m) if s.threads[m].status == Status::Runnable => m,
                _ => runnable[0],
            };
            let choice = if s.spec.script.is_some() {
                match s.script.get(&n) {
                    Some(t) if runnable.contains(t) => *t,
                    _ => default,
                }
            } else {
                let k = s.rng.usize(runnable.len());
                runnable[k]
            };
            if choice != default {
                s.deviations.push((n, choice));
            }
            let (hash, cur) = (s.sched_hash, choice as u64);
            s.sched_hash = mixh(hash, (n << 8) ^ cur);
            if s.current != choice {
                s.switches += 1;
            }
            s.current = choice;
            if Some(choice) == me {
                return;
            }
            s.threads[choice].cv.notify_one();
            if let Some(m) = me {
                let cv = s.threads[m].cv.clone();
                while s.current != m {
                    s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
                }
            }
            return;
        }
    }

    fn describe_blocked(&self, s: &State) -> String {
        let mut keys: BTreeMap<usize, usize> = BTreeMap::new();
        let mut out = String::new();
        for (i, t) in s.threads.iter().enumerate() {
            if let Status::Blocked { key, site, .. } = &t.status {
                let n = keys.len();
                let k = *keys.entry(*key).or_insert(n);
                if *site == "condvar.wait" && !t.essential {
                    continue;
                }
                out.push_str(&format!("thread {i} waits in {site} on object #{k}; "));
            }
        }
        out
    }

    fn step(&self, s: &mut State, site: &'static str) {
        s.steps += 1;
        s.now += 1000;
        if let Some(t) = s.step_trace.as_mut() {
            let tid = s.current;
            t.push((s.steps, tid, site));
        }
        if s.spec.max_steps > 0 && s.steps > s.spec.max_steps {
            let msg = format!("no completion within {} scheduling steps (livelock)", s.spec.max_steps);
            let stats = Self::stats_of(s);
            if let Some(mut cb) = s.on_stuck.take() {
                cb(msg, stats);
            }
            std::process::abort();
        }
    }

    pub fn spawn_client(&'static self, f: Box<dyn FnOnce() + Send + 'static>) -> u64 {
        self.spawn_inner(f, true, 8 << 20)
    }

    fn spawn_inner(&'static self, f: Box<dyn FnOnce() + Send + 'static>, essential: bool, stack: usize) -> u64 {
        let tid = {
            let mut s = self.lock();
            Self::add_thread(&mut s, essential)
        };
        let h = self.start(tid, f, stack);
        self.lock().handles.push(h);
        tid as u64
    }

    pub fn join_thread(&self, id: u64) -> bool {
        loop {
            let mut s = self.lock();
            if s.threads[id as usize].status == Status::Done {
                return !s.threads[id as usize].panicked;
            }
            let me = TID.with(|t| t.get()).unwrap();
            s.threads[me].status = Status::Blocked { key: id as usize, site: "join", deadline: None };
            self.dispatch(s, Some(me));
        }
    }

    pub fn set_preemption(&self, on: bool) {
        self.lock().enabled_preempt = on;
    }

    pub fn record_panic(&self, msg: String) {
        if let Ok(mut s) = self.m.try_lock() {
            s.panics.push(msg);
        }
    }
    pub fn take_panics(&self) -> Vec<String> {
        std::mem::take(&mut self.lock().panics)
    }
    pub fn fs<R>(&self, f: impl FnOnce(&mut Fs) -> R) -> R {
        f(&mut self.lock().fs)
    }
    pub fn log_len(&self) -> usize {
        self.lock().fs.log.len()
    }
    pub fn stats(&self) -> SimStats {
        Self::stats_of(&self.lock())
    }
    fn stats_of(s: &State) -> SimStats {
        SimStats {
            steps: s.steps,
            switches: s.switches,
            sim_ns: s.now - 1_700_000_000_000_000_000,
            sched_hash: s.sched_hash,
            deviations: s.deviations.clone(),
            threads: s.threads.len(),
            fired: s.fs.fired.clone(),
            fs_reads: s.fs.reads,
            fs_writes: s.fs.writes,
            fs_syncs: s.fs.syncs,
            misaligned: s.fs.misaligned,
        }
    }
    pub fn step_count(&self) -> u64 {
        self.lock().steps
    }
    pub fn now_ns(&self) -> u64 {
        self.lock().now
    }
    pub fn advance_clock(&self, ns: i64) {
        let mut s = self.lock();
        s.now = s.now.saturating_add_signed(ns);
    }
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct SimStats {
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub deviations: Vec<(u64, usize)>,
    pub threads: usize,
    pub fired: BTreeMap<String, u64>,
    pub fs_reads: u64,
    pub fs_writes: u64,
    pub fs_syncs: u64,
    pub misaligned: u64,
}

impl Fs {
    /// Decides whether a fault hits this operation.
    fn fault(&mut self, op: &str, path: &Path) -> Option<&'static str> {
        if !self.armed {
            return None;
        }
        if let Some(root) = &self.log_root {
            if !path.starts_with(root) {
                return None;
            }
        }
        let n = self.op_counts.entry(op.to_string()).or_insert(0);
        let idx = *n;
        *n += 1;
        for f in &self.faults {
            if f.op == op && idx >= f.at && idx < f.at + f.count.max(1) {
                let kind = match f.kind.as_str() {
                    "eio" => "eio",
                    "enospc" => "enospc",
                    "short" => "short",
                    _ => "intr",
                };
                *self.fired.entry(format!("{op}.{kind}")).or_insert(0) += 1;
                return Some(kind);
            }
        }
        None
    }

    fn tracked(&self, p: &Path) -> bool {
        self.logging && self.log_root.as_ref().is_none_or(|r| p.starts_with(r))
    }

    fn record(&mut self, op: FsOp) {
        apply(&mut self.files, &op);
        if self.tracked(op.path()) {
            self.log.push(op);
        }
    }

    /// Replaces everything below `dir` by an image whose paths are relative.
    pub fn mount(&mut self, dir: &Path, image: &Image) {
        let gone: Vec<PathBuf> = self.files.keys().filter(|p| p.starts_with(dir)).cloned().collect();
        for p in gone {
            self.files.remove(&p);
        }
        for (p, d) in image {
            self.files.insert(dir.join(p), d.clone());
        }
    }

    /// The files below `dir`, with relative paths.
    pub fn image(&self, dir: &Path) -> Image {
        self.files
            .iter()
            .filter_map(|(p, d)| p.strip_prefix(dir).ok().map(|r| (r.to_path_buf(), d.clone())))
            .collect()
    }

    pub fn start_log(&mut self, root: &Path) {
        self.log.clear();
        self.logging = true;
        self.log_root = Some(root.to_path_buf());
    }

    pub fn stop_log(&mut self) -> Vec<FsOp> {
        self.logging = false;
        std::mem::take(&mut self.log)
    }

    pub fn arm(&mut self, faults: Vec<IoFault>) {
        self.faults = faults;
        self.op_counts.clear();
        self.armed = true;
    }
    pub fn disarm(&mut self) {
        self.armed = false;
    }
}

/// Rewrites the logged operations so that their paths are relative to `dir`.
pub fn relative(log: Vec<FsOp>, dir: &Path) -> Vec<FsOp> {
    let rel = |p: PathBuf| p.strip_prefix(dir).map(|x| x.to_path_buf()).unwrap_or(p);
    log.into_iter()
        .map(|op| match op {
            FsOp::Create(p) => FsOp::Create(rel(p)),
            FsOp::Write(p, o, d) => FsOp::Write(rel(p), o, d),
            FsOp::SetLen(p, l) => FsOp::SetLen(rel(p), l),
            FsOp::Sync(p) => FsOp::Sync(rel(p)),
            FsOp::Remove(p) => FsOp::Remove(rel(p)),
        })
        .collect()
}

fn err(kind: &str) -> io::Error {
    match kind {
        "enospc" => io::Error::from_raw_os_error(libc::ENOSPC),
        "intr" => io::Error::from_raw_os_error(libc::EINTR),
        _ => io::Error::from_raw_os_error(libc::EIO),
    }
}

pub struct SimEnv(pub &'static Sim);

impl axmosdb::verif::Env for SimEnv {
    fn active(&self) -> bool {
        TID.with(|t| t.get()).is_some()
    }

    fn yield_point(&self, site: &'static str, _key: usize) {
        let me = TID.with(|t| t.get()).unwrap();
        let mut s = self.0.lock();
        self.0.step(&mut s, site);
        s.sched_points += 1;
        if !s.enabled_preempt || std::thread::panicking() {
            return;
        }
        if s.spec.script.is_some() {
            let n = s.decisions;
            if !s.script.contains_key(&n) {
                // Same decision numbering as the recorded run.
                if s.spec.preempt > 0 {
                    s.decisions += 1;
                    let h = s.sched_hash;
                    s.sched_hash = mixh(h, (n << 8) ^ me as u64);
                }
                return;
            }
            self.0.dispatch(s, Some(me));
            return;
        }
        if s.spec.preempt == 0 {
            return;
        }
        let p = s.spec.preempt;
        if s.rng.chance(p) {
            self.0.dispatch(s, Some(me));
        } else {
            let n = s.decisions;
            s.decisions += 1;
            let h = s.sched_hash;
            s.sched_hash = mixh(h, (n << 8) ^ me as u64);
        }
    }

    fn block(&self, site: &'static str, key: usize, timeout: Option<Duration>) -> bool {
        let me = TID.with(|t| t.get()).unwrap();
        let mut s = self.0.lock();
        self.0.step(&mut s, site);
        let deadline = timeout.map(|t| s.now + t.as_nanos() as u64);
        s.threads[me].timed_out = false;
        s.threads[me].status = Status::Blocked { key, site, deadline };
        self.0.dispatch(s, Some(me));
        let s = self.0.lock();
        s.threads[me].timed_out
    }

    fn wake(&self, key: usize, all: bool) {
        let mut s = self.0.lock();
        let waiting: Vec<usize> = (0..s.threads.len())
            .filter(|i| matches!(&s.threads[*i].status, Status::Blocked { key: k, site, .. } if *k == key && *site != "join"))
            .collect();
        if waiting.is_empty() {
            return;
        }
        s.wakes += 1;
        s.idle_jumps = 0;
        if all {
            for i in waiting {
                s.threads[i].status = Status::Runnable;
            }
        } else {
            let k = if s.spec.script.is_some() {
                let n = s.decisions;
                match s.script.get(&n) {
                    Some(t) => waiting.iter().position(|w| w == t).unwrap_or(0),
                    None => 0,
                }
            } else {
                s.rng.usize(waiting.len())
            };
            let n = s.decisions;
            s.decisions += 1;
            if k != 0 {
                s.deviations.push((n, waiting[k]));
            }
            let h = s.sched_hash;
            s.sched_hash = mixh(h, (n << 8) ^ waiting[k] as u64 ^ 0x80);
            s.threads[waiting[k]].status = Status::Runnable;
        }
    }

    fn spawn(&self, f: Box<dyn FnOnce() + Send + 'static>) -> u64 {
        self.0.spawn_inner(f, false, 2 << 20)
    }

    fn join(&self, id: u64) -> bool {
        self.0.join_thread(id)
    }

    fn now(&self) -> Duration {
        Duration::from_nanos(self.0.lock().now)
    }

    fn fs_exists(&self, path: &Path) -> bool {
        self.0.lock().fs.files.contains_key(path)
    }

    fn fs_open(&self, path: &Path, create: bool, truncate: bool) -> io::Result<u64> {
        let mut s = self.0.lock();
        let fs = &mut s.fs;
        if let Some(k) = fs.fault("open", path) {
            return Err(err(k));
        }
        if !fs.files.contains_key(path) {
            if !create {
                return Err(io::Error::from(io::ErrorKind::NotFound));
            }
            fs.record(FsOp::Create(path.to_path_buf()));
        } else if truncate {
            fs.record(FsOp::SetLen(path.to_path_buf(), 0));
        }
        fs.handles.push(path.to_path_buf());
        Ok(fs.handles.len() as u64 - 1)
    }

    fn fs_len(&self, file: u64) -> io::Result<u64> {
        let s = self.0.lock();
        let p = &s.fs.handles[file as usize];
        Ok(s.fs.files.get(p).map(|d| d.len() as u64).unwrap_or(0))
    }

    fn fs_read(&self, file: u64, offset: u64, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.lock();
        let fs = &mut s.fs;
        fs.reads += 1;
        let p = fs.handles[file as usize].clone();
        let fault = fs.fault("read", &p);
        if let Some(k @ ("eio" | "intr" | "enospc")) = fault {
            return Err(err(k));
        }
        if offset % 512 != 0 || buf.len() % 512 != 0 || (buf.as_ptr() as usize) % 512 != 0 {
            fs.misaligned += 1;
        }
        let data = fs.files.get(&p).map(|d| d.as_slice()).unwrap_or(&[]);
        if offset as usize >= data.len() {
            return Ok(0);
        }
        let mut n = buf.len().min(data.len() - offset as usize);
        if fault == Some("short") && n > 512 {
            n = (n / 2) / 512 * 512;
            n = n.max(512);
        }
        buf[..n].copy_from_slice(&data[offset as usize..offset as usize + n]);
        Ok(n)
    }

    fn fs_write(&self, file: u64, offset: u64, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock();
        let fs = &mut s.fs;
        fs.writes += 1;
        let p = fs.handles[file as usize].clone();
        let fault = fs.fault("write", &p);
        if let Some(k @ ("eio" | "intr" | "enospc")) = fault {
            return Err(err(k));
        }
        if offset % 512 != 0 || buf.len() % 512 != 0 || (buf.as_ptr() as usize) % 512 != 0 {
            fs.misaligned += 1;
        }
        let mut n = buf.len();
        if fault == Some("short") && n > 512 {
            n = ((n / 2) / 512 * 512).max(512);
        }
        if let Some(cap) = fs.capacity {
            let len = fs.files.get(&p).map(|d| d.len() as u64).unwrap_or(0);
            let total: u64 = fs.files.iter().filter(|(q, _)| q.parent() == p.parent()).map(|(_, d)| d.len() as u64).sum();
            let grow = (offset + n as u64).saturating_sub(len);
            if grow > 0 && total + grow > cap {
                *fs.fired.entry("disk_full".into()).or_insert(0) += 1;
                return Err(err("enospc"));
            }
        }
        fs.record(FsOp::Write(p, offset, buf[..n].to_vec()));
        Ok(n)
    }

    fn fs_set_len(&self, file: u64, len: u64) -> io::Result<()> {
        let mut s = self.0.lock();
        let fs = &mut s.fs;
        let p = fs.handles[file as usize].clone();
        if let Some(k) = fs.fault("len", &p) {
            return Err(err(k));
        }
        fs.record(FsOp::SetLen(p, len));
        Ok(())
    }

    fn fs_sync(&self, file: u64) -> io::Result<()> {
        let mut s = self.0.lock();
        let fs = &mut s.fs;
        fs.syncs += 1;
        let p = fs.handles[file as usize].clone();
        if let Some(k) = fs.fault("sync", &p) {
            return Err(err(k));
        }
        fs.record(FsOp::Sync(p));
        Ok(())
    }

    fn fs_remove(&self, path: &Path) -> io::Result<()> {
        let mut s = self.0.lock();
        if !s.fs.files.contains_key(path) {
            return Err(io::Error::from(io::ErrorKind::NotFound));
        }
        s.fs.record(FsOp::Remove(path.to_path_buf()));
        Ok(())
    }
}
