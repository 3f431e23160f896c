//! The runtime: sequential histories against a model (C16), concurrent histories (C17), stores (C18)
//! and the runtime's compilation routes (C13).

use super::{
    comp::Scratch,
    diff::{self, check_one},
};
use crate::{
    exec::{Cmp, Ctx},
    gens,
    progs::{self, GENERAL},
    runner::{Info, fnv},
    src::Src,
};
use revmc::{
    OptimizationLevel, SpecId,
    context_interface::cfg::GasParams,
    eyre,
    primitives::{B256, Bytes, keccak256},
    revm_bytecode::opcode as op,
    runtime::{
        AotRequest, ArtifactKey, ArtifactManifest, ArtifactStore, BackendSelection, CompilationKind, CompiledProgram,
        InterpretReason, JitBackend, JitMode, LookupDecision, LookupRequest, ProgramKind, RuntimeArtifactStore,
        RuntimeCacheKey, RuntimeConfig, RuntimeStatsSnapshot, RuntimeTuning, StoredArtifact,
    },
};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
    sync::{
        Arc, Barrier, Mutex,
        atomic::{AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

/// Upper bound on anything that must happen eventually.
const PATIENCE: Duration = Duration::from_secs(25);

// ---------------------------------------------------------------- programs

#[derive(Clone)]
pub struct P {
    key: RuntimeCacheKey,
    code: Bytes,
    ctx: Vec<Ctx>,
}

impl P {
    fn req(&self) -> LookupRequest {
        LookupRequest { key: self.key, code: self.code.clone() }
    }
    fn aot(&self) -> AotRequest {
        AotRequest { code_hash: self.key.code_hash, code: self.code.clone(), spec_id: self.key.spec_id }
    }
}

/// A small program that tells who it is, and whose gas tells the hardfork.
fn marker(s: &mut Src) -> Vec<u8> {
    let mut c = vec![op::PUSH8];
    c.extend(s.bytes(8));
    c.extend([op::PUSH1, 0, op::MSTORE]);
    for _ in 0..s.below(4) {
        match s.below(6) {
            0 => c.extend([op::PUSH1, s.byte(), op::SLOAD, op::POP]),
            1 => c.extend([op::PUSH1, s.byte() & 7, op::BALANCE, op::POP]),
            2 => c.extend([op::CHAINID, op::POP]),
            3 => c.extend([op::PUSH0, op::POP]),
            4 => c.extend([op::PUSH1, s.byte(), op::PUSH1, s.byte() & 3, op::SSTORE]),
            _ => c.extend([op::PUSH1, s.byte(), op::PUSH1, 2, op::EXP, op::PUSH1, 32, op::MSTORE]),
        }
    }
    c.extend([op::PUSH1, 64, op::PUSH1, 0, op::RETURN]);
    c
}

/// A program that is not too long for a runtime with the usual limit.
fn fitting(s: &mut Src, p: progs::Profile, spec: SpecId) -> Bytes {
    let c = progs::program(s, p, spec, 0);
    if c.len() > 24 * 1024 { marker(s).into() } else { c.into() }
}

fn pool(s: &mut Src, n: usize, gp: &Option<GasParams>, spec0: SpecId) -> Vec<P> {
    let mut out: Vec<P> = vec![];
    let synth = s.chance(1, 4).then(|| match s.below(3) {
        0 => B256::ZERO,
        1 => B256::repeat_byte(0xff),
        _ => B256::from_slice(&s.bytes(32)),
    });
    for i in 0..n {
        let mut spec = if gp.is_some() { spec0 } else { progs::spec(s) };
        let code: Bytes = match s.weighted(&[10, 4, if i > 0 && gp.is_none() { 5 } else { 0 }]) {
            0 => marker(s).into(),
            1 => {
                let p = *s.pick(&[gens::TINY, gens::TINY, gens::HOST, gens::CALLS]);
                fitting(s, p, spec)
            }
            // The same code for another hardfork.
            _ => out[s.below(i)].code.clone(),
        };
        let mut hash = keccak256(&code);
        if let Some(b) = synth {
            hash = b;
            hash.0[*s.pick(&[0usize, 31, 1, 15, 16, 30])] ^= 1 << s.below(8);
        }
        let mut tries = 0;
        while out.iter().any(|p| p.key == RuntimeCacheKey { code_hash: hash, spec_id: spec }) {
            tries += 1;
            if gp.is_some() || tries > 8 {
                hash = keccak256(hash);
            } else {
                spec = progs::spec(s);
            }
        }
        let ctx = (0..2)
            .map(|j| {
                let mut c = if j == 0 { Ctx::plain(spec) } else { Ctx::generate(s, spec) };
                if let Some(g) = gp {
                    c.host.gas_params = g.clone();
                }
                c
            })
            .collect();
        out.push(P { key: RuntimeCacheKey { code_hash: hash, spec_id: spec }, code, ctx });
    }
    out
}

fn list(pool: &[P]) -> String {
    pool.iter()
        .enumerate()
        .map(|(i, p)| format!("program {i}: {:?} {} code 0x{}\n", p.key.spec_id, p.key.code_hash, hex::encode(&p.code)))
        .collect()
}

/// The program handed out for `p` is `p`'s.
fn verify(p: &P, c: &CompiledProgram, cmp: Cmp, info: &mut Info) -> Result<(), String> {
    if c.key != p.key {
        return Err(format!("asked for {:?}, given the program of {:?}", p.key, c.key));
    }
    for ctx in &p.ctx {
        check_one(c.func, &p.code, ctx, cmp, info).map_err(|e| format!("program handed out for {:?} misbehaves: {e}", p.key))?;
    }
    Ok(())
}

fn opt(s: &mut Src) -> OptimizationLevel {
    *s.pick(&[
        OptimizationLevel::None,
        OptimizationLevel::Less,
        OptimizationLevel::Default,
        OptimizationLevel::Aggressive,
    ])
}

fn settings(s: &mut Src) -> (RuntimeConfig, Cmp) {
    let mut c = RuntimeConfig::default();
    c.single_error = !s.chance(1, 3);
    c.no_dedup = s.chance(1, 5);
    c.no_dse = s.chance(1, 5);
    c.debug_assertions = s.chance(1, 8);
    let mut t = RuntimeTuning::default();
    t.event_drain_interval = Duration::from_millis(1 + s.below(3) as u64);
    t.shutdown_timeout = PATIENCE;
    // A job given to a helper that is just dying may only end with this.
    t.jit_timeout = Duration::from_secs(10);
    t.jit_worker_count = s.range(1, 2);
    t.jit_opt_level = opt(s);
    t.aot_opt_level = opt(s);
    if s.chance(1, 3) {
        t.compiler_recycle_threshold = s.range(1, 3);
    }
    c.tuning = t;
    let cmp = Cmp { stack: false, cause: !c.single_error };
    (c, cmp)
}

fn wait_for(what: &str, mut f: impl FnMut() -> Option<String>) -> Result<(), String> {
    let t0 = Instant::now();
    let mut nap = 50;
    loop {
        let Some(m) = f() else { return Ok(()) };
        if t0.elapsed() > PATIENCE {
            return Err(format!("{what}: {m}"));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    }
}

/// Helper processes started by this one.
fn helpers() -> Vec<i32> {
    let me = std::process::id();
    let mut out = vec![];
    for t in std::fs::read_dir(format!("/proc/{me}/task")).into_iter().flatten().flatten() {
        if let Ok(c) = std::fs::read_to_string(t.path().join("children")) {
            out.extend(c.split_whitespace().filter_map(|x| x.parse::<i32>().ok()));
        }
    }
    out
}

/// Whether the helpers that are alive are stopped.
fn stopped() -> Vec<bool> {
    helpers()
        .into_iter()
        .filter_map(|pid| {
            let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
            let st = t.rsplit_once(')')?.1.trim().chars().next()?;
            (st != 'Z' && st != 'X').then_some(st == 'T')
        })
        .collect()
}

// ---------------------------------------------------------------- stores

/// A store that can fail on request, around the real one.
struct FaultStore {
    inner: RuntimeArtifactStore,
    /// Calls to fail: load_all, load, store, clear.
    fail: [AtomicU64; 4],
}

impl FaultStore {
    fn new() -> Self {
        Self { inner: RuntimeArtifactStore::new().unwrap(), fail: Default::default() }
    }
    fn hit(&self, i: usize) -> eyre::Result<()> {
        let r = self.fail[i].fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1));
        if r.is_ok() {
            eyre::bail!("injected fault");
        }
        Ok(())
    }
}

impl ArtifactStore for FaultStore {
    fn load_all(&self) -> eyre::Result<Vec<(ArtifactKey, StoredArtifact)>> {
        self.hit(0)?;
        self.inner.load_all()
    }
    fn load(&self, key: &ArtifactKey) -> eyre::Result<Option<StoredArtifact>> {
        self.hit(1)?;
        self.inner.load(key)
    }
    fn store(&self, key: &ArtifactKey, manifest: &ArtifactManifest, dylib_bytes: &[u8]) -> eyre::Result<()> {
        self.hit(2)?;
        self.inner.store(key, manifest, dylib_bytes)
    }
    fn delete(&self, key: &ArtifactKey) -> eyre::Result<()> {
        self.inner.delete(key)
    }
    fn clear(&self) -> eyre::Result<()> {
        self.hit(3)?;
        self.inner.clear()
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Copy, PartialEq, Debug)]
enum Flavour {
    Jit,
    Blocking,
    Aot,
    AotNoStore,
    OutOfProcess,
    /// The helper cannot be started: every compilation fails.
    BadHelper,
    /// No worker, no queue, or no pending jobs allowed: nothing can be compiled.
    Stuck,
}

/// What the runtime should be like.
#[derive(Default)]
struct Model {
    enabled: bool,
    started: bool,
    resident: BTreeMap<usize, ProgramKind>,
    hot: BTreeMap<usize, u64>,
    persisted: BTreeSet<usize>,
    depth: usize,
    hits: u64,
    misses: u64,
    dispatched: u64,
    succeeded: u64,
    failed: u64,
    events: u64,
}

struct Case {
    b: JitBackend,
    pool: Vec<P>,
    m: Model,
    flavour: Flavour,
    threshold: u64,
    max_len: usize,
    store: bool,
    log: Arc<Mutex<Vec<(B256, SpecId, CompilationKind, bool)>>>,
    want_log: Vec<(B256, SpecId, CompilationKind)>,
    cmp: Cmp,
    held: Vec<(usize, Arc<CompiledProgram>)>,
}

impl Case {
    fn eligible(&self, k: usize) -> bool {
        let n = self.pool[k].code.len();
        n > 0 && (self.max_len == 0 || n <= self.max_len)
    }
    fn kind(&self) -> CompilationKind {
        if matches!(self.flavour, Flavour::Aot | Flavour::AotNoStore) { CompilationKind::Aot } else { CompilationKind::Jit }
    }
    /// A request reaches the backend.
    fn admit(&mut self, k: usize, kind: CompilationKind, explicit: bool) {
        if self.m.resident.contains_key(&k) || !self.eligible(k) {
            return;
        }
        if self.flavour == Flavour::Stuck && !explicit {
            return;
        }
        if kind == CompilationKind::Aot && self.m.persisted.contains(&k) {
            self.m.resident.insert(k, ProgramKind::Aot);
            return;
        }
        if !explicit {
            let h = self.m.hot.entry(k).or_default();
            *h += 1;
            if *h < self.threshold {
                return;
            }
        }
        if self.flavour == Flavour::Stuck {
            return;
        }
        self.m.dispatched += 1;
        self.m.events += 1;
        self.m.hot.remove(&k);
        self.want_log.push((self.pool[k].key.code_hash, self.pool[k].key.spec_id, kind));
        let ok = match kind {
            CompilationKind::Aot => self.store,
            CompilationKind::Jit => self.flavour != Flavour::BadHelper,
        };
        if ok {
            self.m.succeeded += 1;
            match kind {
                CompilationKind::Aot => {
                    self.m.persisted.insert(k);
                    self.m.resident.insert(k, ProgramKind::Aot);
                }
                CompilationKind::Jit => {
                    self.m.resident.insert(k, ProgramKind::Jit);
                }
            }
        } else {
            self.m.failed += 1;
        }
    }

    fn diff(&self) -> Option<String> {
        let st: RuntimeStatsSnapshot = self.b.stats();
        let m = &self.m;
        let logged = self.log.lock().unwrap().len() as u64;
        for (what, want, got) in [
            ("lookup_hits", m.hits, st.lookup_hits),
            ("lookup_misses", m.misses, st.lookup_misses),
            ("compilations_dispatched", m.dispatched, st.compilations_dispatched),
            ("compilations_succeeded", m.succeeded, st.compilations_succeeded),
            ("compilations_failed", m.failed, st.compilations_failed),
            ("pending_jobs", 0, st.pending_jobs),
            ("resident_entries", m.resident.len() as u64, st.resident_entries),
            ("events_dropped", 0, st.events_dropped),
            ("commands_dropped", 0, st.commands_dropped),
            ("evictions", 0, st.evictions),
            ("events_queued", 0, st.events_queued),
            ("compilation events", m.events, logged),
        ] {
            if want != got {
                return Some(format!("{what} is {got}, should be {want}"));
            }
        }
        None
    }

    /// Waits until the backend has caught up, and compares everything with the model.
    fn settle(&mut self, s: &mut Src, info: &mut Info) -> Result<(), String> {
        if self.m.started && !(self.m.depth > 0 && self.flavour == Flavour::OutOfProcess) {
            // Goes through the command queue behind everything sent so far.
            let none = LookupRequest {
                key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER },
                code: Bytes::new(),
            };
            for _ in 0..2 {
                self.b.compile_jit_sync(none.clone()).map_err(|e| format!("request refused: {e}"))?;
            }
            wait_for("the counters do not agree with the history", || self.diff())?;
            info.evals += 1;
        }
        if self.b.enabled() != self.m.enabled {
            return Err(format!("enabled() is {}, should be {}", self.b.enabled(), self.m.enabled));
        }
        if self.b.is_paused() != (self.m.depth > 0) {
            return Err(format!("is_paused() is {} at depth {}", self.b.is_paused(), self.m.depth));
        }
        let all = s.chance(1, 4);
        for k in 0..self.pool.len() {
            if !all && !s.chance(1, 3) {
                continue;
            }
            let p = &self.pool[k];
            let got = self.b.get_compiled(p.key.code_hash, p.key.spec_id);
            match (got, self.m.resident.get(&k)) {
                (None, None) => {}
                (Some(c), Some(kind)) => {
                    if c.kind != *kind {
                        return Err(format!("program {k} is {:?}, should be {kind:?}", c.kind));
                    }
                    verify(p, &c, self.cmp, info)?;
                    if self.held.len() < 4 && s.chance(1, 4) {
                        self.held.push((k, c));
                    }
                }
                (g, w) => {
                    return Err(format!("program {k} is {}resident, but should {}be", if g.is_some() { "" } else { "not " }, if w.is_some() { "" } else { "not " }));
                }
            }
        }
        for (k, c) in &self.held {
            if s.chance(1, 3) {
                verify(&self.pool[*k], c, self.cmp, info).map_err(|e| format!("held program: {e}"))?;
            }
        }
        Ok(())
    }

    fn decision(&self, k: usize, d: LookupDecision, want: Result<(), InterpretReason>, info: &mut Info) -> Result<(), String> {
        match (d, want) {
            (LookupDecision::Compiled(c), Ok(())) => verify(&self.pool[k], &c, self.cmp, info),
            (LookupDecision::Interpret(r), Err(w)) if r == w => Ok(()),
            (LookupDecision::Compiled(_), Err(w)) => Err(format!("lookup of program {k} gave compiled code, should be {w:?}")),
            (LookupDecision::Interpret(r), w) => Err(format!("lookup of program {k} gave {r:?}, should be {w:?}")),
        }
    }

    fn lookup_blocking(&mut self, k: usize, through_lookup: bool, info: &mut Info) -> Result<(), String> {
        let r = self.pool[k].req();
        let d = if through_lookup { self.b.lookup(r) } else { self.b.lookup_blocking(r) };
        if !self.eligible(k) {
            return self.decision(k, d, Err(InterpretReason::Ineligible), info);
        }
        self.m.started = true;
        if self.m.resident.contains_key(&k) {
            self.m.hits += 1;
            return self.decision(k, d, Ok(()), info);
        }
        self.m.misses += 1;
        let kind = self.kind();
        self.admit(k, kind, true);
        if self.m.resident.contains_key(&k) {
            self.m.hits += 1;
            self.decision(k, d, Ok(()), info)
        } else {
            self.m.misses += 1;
            self.decision(k, d, Err(InterpretReason::JitFailed), info)
        }
    }
}

pub fn c16(s: &mut Src, info: &mut Info) -> Result<(), String> {
    match s.weighted(&[180, 10, 20, 10, 1, 10]) {
        4 => return long_pause(s, info),
        5 => return cleared(s, info),
        1 => return idle(s, info),
        2 => return budget(s, info),
        3 => return crowded(s, info),
        _ => {}
    }
    let spec0 = progs::spec(s);
    let flavour = [
        Flavour::Jit,
        Flavour::Blocking,
        Flavour::Aot,
        Flavour::AotNoStore,
        Flavour::OutOfProcess,
        Flavour::BadHelper,
        Flavour::Stuck,
    ][s.weighted(&[14, 4, 3, 1, 2, 1, 1])];
    let gp = s.chance(1, 8).then(|| diff::gas_params(s, spec0));
    let n = s.range(2, 5);
    let mut pool = pool(s, n, &gp, spec0);
    let (mut c, cmp) = settings(s);
    c.gas_params = gp;
    c.enabled = !s.chance(1, 5);
    c.blocking = flavour == Flavour::Blocking;
    let mut store = None;
    match flavour {
        Flavour::Aot => c.aot = true,
        Flavour::AotNoStore => c.aot = true,
        Flavour::OutOfProcess => {
            c.jit_mode = JitMode::OutOfProcess;
            c.tuning.jit_helper_cpu_count = s.below(3);
        }
        Flavour::BadHelper => {
            c.jit_mode = JitMode::OutOfProcess;
            c.jit_helper_path = Some(PathBuf::from("/nonexistent/helper"));
            if s.bool() {
                // Failed jobs do not stay in the queue.
                c.tuning.jit_worker_queue_capacity = 4;
            }
        }
        Flavour::Stuck => match s.below(3) {
            0 => c.tuning.jit_worker_count = 0,
            1 => c.tuning.jit_worker_queue_capacity = 0,
            _ => c.tuning.jit_max_pending_jobs = 0,
        },
        _ => {}
    }
    let with_store = flavour == Flavour::Aot || (flavour != Flavour::AotNoStore && s.chance(1, 3));
    if with_store {
        let st = Arc::new(FaultStore::new());
        c.store = Some(st.clone());
        store = Some(st);
    }
    let threshold = *s.pick(&[2usize, 0, 1, 3, 8]);
    c.tuning.jit_hot_threshold = threshold;
    // A command queue that fills at once: calls wait, but none may wait forever.
    let narrow = flavour != Flavour::OutOfProcess && s.chance(1, 5);
    if narrow {
        c.tuning.channel_capacity = s.range(1, 3);
    }
    // A limit at, just below or just above the size of one of the programs.
    c.tuning.jit_max_bytecode_len = match s.below(4) {
        0 => 0,
        1 => {
            let l = pool[s.below(n)].code.len();
            (l + s.below(3)).saturating_sub(1)
        }
        _ => 24 * 1024,
    };
    if s.chance(1, 10) {
        pool[0].code = Bytes::new();
    }
    let dumps = (matches!(flavour, Flavour::Jit) && s.chance(1, 10)).then(Scratch::new);
    c.dump_dir = dumps.as_ref().map(|d| d.0.clone());
    let log: Arc<Mutex<Vec<_>>> = Default::default();
    let l2 = log.clone();
    c.on_compilation = Some(Arc::new(move |e| l2.lock().unwrap().push((e.code_hash, e.spec_id, e.kind, e.success))));
    let mut trace = format!("{flavour:?} {:?}\n{}", c, list(&pool));
    info.desc = trace.clone();
    info.tag(match flavour {
        Flavour::Jit => "histories_jit",
        Flavour::Blocking => "histories_blocking",
        Flavour::Aot | Flavour::AotNoStore => "histories_aot",
        Flavour::OutOfProcess | Flavour::BadHelper => "histories_helper",
        Flavour::Stuck => "histories_no_capacity",
    });
    let enabled = c.enabled || c.blocking;
    let max_len = c.tuning.jit_max_bytecode_len;
    let threshold = if c.blocking { 0 } else { threshold as u64 };
    let cpus = c.tuning.jit_helper_cpu_count;
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    let m = Model { enabled, started: enabled, ..Default::default() };
    let mut t = Case { b, pool, m, flavour, threshold, max_len, store: with_store, log, want_log: vec![], cmp, held: vec![] };
    let steps = s.range(3, if flavour == Flavour::BadHelper { 24 } else { 14 });
    for step in 0..steps {
        let k = s.below(n);
        macro_rules! note {
            ($($a:tt)*) => {{ trace.push_str(&format!("{step}: {}\n", format!($($a)*))); info.desc = trace.clone(); }};
        }
        match s.weighted(&[12, 3, 4, 4, 3, 2, 2, 3, 3, 2, 1]) {
            0 => {
                let times = *s.pick(&[1usize, 2, 3, 9]);
                note!("lookup({k}) x{times}");
                for i in 0..times {
                    if !t.m.enabled {
                        let d = t.b.lookup(t.pool[k].req());
                        t.decision(k, d, Err(InterpretReason::Disabled), info)?;
                    } else if flavour == Flavour::Blocking {
                        t.lookup_blocking(k, true, info)?;
                    } else {
                        let d = t.b.lookup(t.pool[k].req());
                        let want = if !t.eligible(k) {
                            Err(InterpretReason::Ineligible)
                        } else if t.m.resident.contains_key(&k) {
                            Ok(())
                        } else {
                            Err(InterpretReason::NotReady)
                        };
                        t.decision(k, d, want, info)?;
                        match want {
                            Ok(()) => t.m.hits += 1,
                            Err(InterpretReason::NotReady) => {
                                t.m.misses += 1;
                                let kind = t.kind();
                                t.admit(k, kind, false);
                            }
                            _ => {}
                        }
                        if i + 1 < times {
                            t.settle(s, info)?;
                        }
                    }
                }
            }
            1 => {
                note!("lookup_blocking({k})");
                t.lookup_blocking(k, false, info)?;
            }
            2 => {
                let times = s.range(1, 3);
                note!("compile_jit({k}) x{times}");
                t.m.started = true;
                for _ in 0..times {
                    t.b.compile_jit(t.pool[k].req());
                }
                // Requests made while one is under way join it; one made after a failure tries again.
                let kind = t.kind();
                if times > 1 && (flavour == Flavour::BadHelper || flavour == Flavour::AotNoStore) {
                    resync(&mut t, times)?;
                    if t.eligible(k) {
                        t.m.hot.remove(&k);
                    }
                } else {
                    t.admit(k, kind, true);
                }
            }
            3 => {
                note!("compile_jit_sync({k})");
                t.m.started = true;
                t.b.compile_jit_sync(t.pool[k].req()).map_err(|e| format!("compile_jit_sync: {e}"))?;
                let kind = t.kind();
                t.admit(k, kind, true);
                if t.m.resident.contains_key(&k) && t.b.get_compiled(t.pool[k].key.code_hash, t.pool[k].key.spec_id).is_none() {
                    return Err(format!("compile_jit_sync of program {k} returned but it is not resident"));
                }
            }
            4 => {
                let mut ks: Vec<usize> = vec![];
                for _ in 0..s.range(1, 4) {
                    let k = s.below(n);
                    // Doubles only where the outcome does not depend on timing.
                    if !ks.contains(&k) || with_store {
                        ks.push(k);
                    }
                }
                note!("prepare_aot({ks:?})");
                t.m.started = true;
                if ks.len() == 1 {
                    t.b.prepare_aot(t.pool[ks[0]].aot());
                } else {
                    t.b.prepare_aot_batch(ks.iter().map(|k| t.pool[*k].aot()).collect());
                }
                for k in ks {
                    t.admit(k, CompilationKind::Aot, true);
                }
            }
            5 => {
                let which = s.below(3);
                let times = *s.pick(&[1usize, 1, 5]);
                note!("clear {} x{times}", ["resident", "persisted", "all"][which]);
                // Work of the last operation is done: a clear does not meet it.
                t.settle(s, info)?;
                let b = t.b.clone();
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || {
                    for _ in 0..times {
                        match which {
                            0 => b.clear_resident(),
                            1 => b.clear_persisted(),
                            _ => b.clear_all(),
                        }
                    }
                    drop(b);
                    let _ = tx.send(());
                });
                if rx.recv_timeout(PATIENCE).is_err() {
                    return Err("clearing never returns".into());
                }
                if which != 0
                    && !t.m.started
                    && let Some(st) = &store
                    && !st.inner.is_empty()
                {
                    return Err("artifacts are left after clearing them".into());
                }
                if which != 1 {
                    t.m.resident.clear();
                    t.m.hot.clear();
                }
                if which != 0 {
                    t.m.persisted.clear();
                }
            }
            6 => {
                let on = s.bool();
                note!("set_enabled({on})");
                t.b.set_enabled(on).map_err(|e| format!("set_enabled: {e}"))?;
                t.m.enabled = on;
                t.m.started |= on;
            }
            7 => {
                if narrow {
                    // A full queue drops these, as documented.
                    continue;
                }
                note!("pause, requests, resume");
                let deep = s.range(1, 3);
                // (A runtime that was not started yet does not take notice of a pause.)
                let heeded = flavour == Flavour::OutOfProcess && t.m.started;
                for _ in 0..deep {
                    t.b.pause();
                    t.m.depth += 1;
                    if !t.b.is_paused() {
                        return Err("not paused after pause()".into());
                    }
                }
                let request = s.bool();
                if request {
                    t.m.started = true;
                    t.b.compile_jit(t.pool[k].req());
                    let kind = t.kind();
                    let was = t.m.resident.contains_key(&k);
                    let dispatched = t.m.dispatched;
                    t.admit(k, kind, true);
                    if heeded && !was && t.m.dispatched > dispatched {
                        note!("(held up by {deep} pauses)");
                        info.tag("requests_while_paused");
                        wait_for("a request while paused does not start a helper", || stopped().is_empty().then(|| "none".into()))?;
                        if s.chance(1, 3) {
                            std::thread::sleep(Duration::from_millis(s.range(1, 30) as u64));
                        }
                        wait_for("the helper is not stopped by a pause", || stopped().contains(&false).then(|| format!("{deep} pauses")))?;
                        if t.b.get_compiled(t.pool[k].key.code_hash, t.pool[k].key.spec_id).is_some() {
                            return Err(format!("program {k} was compiled during a pause"));
                        }
                    }
                }
                let running = heeded && !stopped().is_empty();
                if running {
                    wait_for("the helper is not stopped by a pause", || stopped().contains(&false).then(|| format!("{deep} pauses")))?;
                    if deep > 1 {
                        for _ in 1..deep {
                            t.b.resume();
                            t.m.depth -= 1;
                        }
                        std::thread::sleep(Duration::from_millis(15));
                        if stopped().contains(&false) {
                            return Err(format!("{deep} pauses, {} resumes, and the helper runs", deep - 1));
                        }
                    }
                }
                let left = t.m.depth;
                for i in 0..left {
                    t.b.resume();
                    t.m.depth -= 1;
                    if t.b.is_paused() != (i + 1 < left) {
                        return Err("wrong pause state after resume()".into());
                    }
                }
                if running {
                    wait_for("the helper does not go on after a pause", || stopped().contains(&true).then(|| "stopped".into()))?;
                }
                if s.bool() {
                    // One too many is harmless.
                    t.b.resume();
                }
            }
            8 => {
                let q = &t.pool[k];
                let tracked = s.bool();
                note!("get_compiled{}({k})", if tracked { "_tracked" } else { "" });
                let r = if tracked {
                    t.b.get_compiled_tracked(q.key.code_hash, q.key.spec_id)
                } else {
                    t.b.get_compiled(q.key.code_hash, q.key.spec_id)
                };
                if r.is_some() != t.m.resident.contains_key(&k) {
                    return Err(format!("get_compiled({k}) gave {}", if r.is_some() { "a program" } else { "nothing" }));
                }
                if tracked {
                    if r.is_some() {
                        t.m.hits += 1;
                    } else {
                        t.m.misses += 1;
                    }
                }
            }
            9 => {
                // The right hash, the wrong hardfork.
                let q = &t.pool[k];
                let other = progs::spec(s);
                if !t.pool.iter().any(|p| p.key == RuntimeCacheKey { code_hash: q.key.code_hash, spec_id: other })
                    && t.b.get_compiled(q.key.code_hash, other).is_some()
                {
                    return Err(format!("program {k} is also handed out for {other:?}"));
                }
                if !t.held.is_empty() {
                    let i = s.below(t.held.len());
                    t.held.remove(i);
                }
            }
            _ => {
                if flavour == Flavour::OutOfProcess {
                    let j = (k + 1) % n;
                    if !t.eligible(k) || !t.eligible(j) || t.pool[k].key == t.pool[j].key {
                        continue;
                    }
                    note!("the helper dies");
                    // So that the request below needs the helper.
                    t.b.clear_resident();
                    t.m.resident.clear();
                    t.m.hot.clear();
                    t.m.started = true;
                    t.settle(s, info)?;
                    t.b.compile_jit_sync(t.pool[j].req()).map_err(|e| format!("compile_jit_sync: {e}"))?;
                    if t.b.get_compiled(t.pool[j].key.code_hash, t.pool[j].key.spec_id).is_none() {
                        return Err(format!("program {j} is not resident after a synchronous request"));
                    }
                    t.m.resident.entry(j).or_insert(ProgramKind::Jit);
                    if helpers().is_empty() {
                        return Err("no helper is running after it compiled a program".into());
                    }
                    for pid in helpers() {
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                    }
                    // It may take a failed request to notice; after that everything works again.
                    t.m.started = true;
                    for _ in 0..3 {
                        t.b.compile_jit_sync(t.pool[k].req()).map_err(|e| format!("compile_jit_sync: {e}"))?;
                    }
                    if t.b.get_compiled(t.pool[k].key.code_hash, t.pool[k].key.spec_id).is_none() {
                        return Err(format!("program {k} cannot be compiled any more after the helper died"));
                    }
                    t.m.resident.entry(k).or_insert(ProgramKind::Jit);
                    resync(&mut t, 4)?;
                    info.tag("helper_killed");
                }
            }
        }
        t.settle(s, info).map_err(|e| format!("after step {step}: {e}"))?;
        if flavour == Flavour::OutOfProcess && cpus > 0 {
            for pid in helpers() {
                if let Some(n) = cpus_of(pid)
                    && n > cpus
                {
                    return Err(format!("the helper may use {n} CPUs, the limit is {cpus}"));
                }
            }
        }
    }
    // The events told the same story.
    {
        let mut got: Vec<_> = t.log.lock().unwrap().iter().map(|x| (x.0, x.1, x.2 == CompilationKind::Aot)).collect();
        let mut want: Vec<_> = t.want_log.iter().map(|x| (x.0, x.1, x.2 == CompilationKind::Aot)).collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("compilation events {got:?}, should be {want:?}"));
        }
        if t.m.failed == 0 && t.log.lock().unwrap().iter().any(|x| !x.3) {
            return Err("an event reports a failure that the counters do not".into());
        }
    }
    if let Some(d) = &dumps {
        for x in &t.want_log {
            if x.2 == CompilationKind::Jit {
                let p = d.0.join(format!("{:?}", x.1)).join(format!("{}", x.0));
                if std::fs::read_dir(&p).map(|r| r.count()).unwrap_or(0) == 0 {
                    return Err(format!("no dump in {p:?}"));
                }
            }
        }
    }
    let (b, held, pool) = (t.b, t.held, t.pool);
    drop(b);
    // What callers still hold outlives the runtime.
    for (k, c) in &held {
        verify(&pool[*k], c, cmp, info).map_err(|e| format!("held program after shutdown: {e}"))?;
    }
    if t.m.dispatched > 0 {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    Ok(())
}

fn cpus_of(pid: i32) -> Option<usize> {
    let st = std::fs::read_to_string(format!("/proc/{pid}/status")).ok()?;
    let l = st.lines().find(|l| l.starts_with("Cpus_allowed:"))?;
    Some(l.chars().skip(13).filter_map(|c| c.to_digit(16)).map(|d| d.count_ones() as usize).sum())
}

/// Takes over counters whose exact value depends on timing, within what is possible.
fn resync(t: &mut Case, at_most: usize) -> Result<(), String> {
    let none = LookupRequest {
        key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER },
        code: Bytes::new(),
    };
    t.b.compile_jit_sync(none).map_err(|e| format!("request refused: {e}"))?;
    wait_for("work does not drain", || {
        let st = t.b.stats();
        (st.pending_jobs != 0 || st.command_queue_len != 0).then(|| format!("{st:?}"))
    })?;
    let st = t.b.stats();
    let d = st.compilations_dispatched - t.m.dispatched;
    if d > at_most as u64 || st.compilations_dispatched != st.compilations_succeeded + st.compilations_failed {
        return Err(format!("{at_most} requests, but {d} compilations dispatched: {st:?}"));
    }
    t.m.dispatched = st.compilations_dispatched;
    t.m.succeeded = st.compilations_succeeded;
    t.m.failed = st.compilations_failed;
    let log = t.log.lock().unwrap();
    t.m.events = log.len() as u64;
    t.want_log = log.iter().map(|x| (x.0, x.1, x.2)).collect();
    Ok(())
}

/// Jobs whose results nobody wants any more do not count as pending for ever.
fn cleared(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec0 = progs::spec(s);
    let n = s.range(2, 4);
    let pool = pool(s, n, &None, spec0);
    let (mut c, cmp) = settings(s);
    c.enabled = true;
    c.tuning.jit_hot_threshold = 100;
    c.tuning.jit_max_pending_jobs = s.range(1, 3);
    let helper = s.chance(1, 8);
    if helper {
        c.jit_mode = JitMode::OutOfProcess;
    }
    let rounds = s.range(2, 6);
    info.desc = format!("{rounds} rounds of requests and clears, {} pending jobs allowed, helper {helper}\n{}", c.tuning.jit_max_pending_jobs, list(&pool));
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    for _ in 0..rounds {
        for _ in 0..s.range(1, 3) {
            b.compile_jit(pool[s.below(n)].req());
        }
        if s.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(s.below(4000) as u64));
        }
        if s.chance(1, 4) { b.clear_all() } else { b.clear_resident() }
    }
    drain(&b)?;
    let before = b.stats();
    for p in &pool {
        b.compile_jit_sync(p.req()).map_err(|e| e.to_string())?;
        let Some(c) = b.get_compiled(p.key.code_hash, p.key.spec_id) else {
            return Err(format!("a program is no longer compiled after requests and clears: {before:?}, then {:?}", b.stats()));
        };
        verify(p, &c, cmp, info)?;
    }
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    info.tag("cleared");
    if before.compilations_dispatched > before.compilations_succeeded + before.compilations_failed {
        info.tag("cleared_in_flight");
    }
    Ok(())
}

/// A pause is not held against the jobs it holds up.
fn long_pause(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec0 = progs::spec(s);
    let n = s.range(2, 4);
    let pool = pool(s, n, &None, spec0);
    let (mut c, cmp) = settings(s);
    c.enabled = true;
    c.jit_mode = JitMode::OutOfProcess;
    c.tuning.jit_hot_threshold = 100;
    c.tuning.jit_opt_level = OptimizationLevel::None;
    c.tuning.jit_timeout = Duration::from_secs(4);
    let warm = s.bool();
    info.desc = format!("a pause longer than the time limit of a job, helper {}\n{}", if warm { "running" } else { "not started" }, list(&pool));
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    if warm {
        b.compile_jit_sync(pool[0].req()).map_err(|e| e.to_string())?;
    }
    b.pause();
    for p in &pool[1..] {
        b.compile_jit(p.req());
    }
    std::thread::sleep(Duration::from_millis(4500));
    let st = b.stats();
    if st.resident_entries != warm as u64 || st.compilations_failed != 0 || stopped().contains(&false) {
        return Err(format!("during a pause: {st:?}, helpers stopped {:?}", stopped()));
    }
    b.resume();
    wait_for("what a pause held up is not compiled", || {
        let st = b.stats();
        (st.resident_entries != (n - 1) as u64 + warm as u64).then(|| format!("{st:?}"))
    })?;
    let st = b.stats();
    if st.compilations_failed != 0 || st.jit_helper_timeouts != 0 {
        return Err(format!("a pause made jobs fail: {st:?}"));
    }
    for p in &pool[1..] {
        let c = b.get_compiled(p.key.code_hash, p.key.spec_id).ok_or("not resident")?;
        verify(p, &c, cmp, info)?;
    }
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    info.tag("long_pause");
    Ok(())
}

/// Idle programs go, programs in use stay.
fn idle(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec0 = progs::spec(s);
    let n = s.range(2, 4);
    let pool = pool(s, n, &None, spec0);
    let (mut c, cmp) = settings(s);
    c.enabled = true;
    c.tuning.jit_hot_threshold = 100;
    let idle = Duration::from_millis(400);
    c.tuning.idle_evict_duration = Some(idle);
    c.tuning.eviction_sweep_interval = Duration::from_millis(10);
    let preloaded = s.bool();
    info.desc = format!("idle eviction, preloaded {preloaded}\n{}", list(&pool));
    if preloaded {
        c.store = Some(Arc::new(FaultStore::new()));
        let mut c = c.clone();
        c.tuning.idle_evict_duration = None;
        let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
        b.prepare_aot_batch(pool.iter().map(|p| p.aot()).collect());
        drain(&b)?;
    }
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    let mut held = vec![];
    for p in &pool {
        if !preloaded {
            b.compile_jit_sync(p.req()).map_err(|e| e.to_string())?;
        }
        held.push(b.get_compiled(p.key.code_hash, p.key.spec_id).ok_or("not resident after a synchronous request")?);
    }
    // Keep program 0 in use.
    let t0 = Instant::now();
    let mut last = Instant::now();
    let mut gap = Duration::ZERO;
    let mut kept = true;
    while t0.elapsed() < Duration::from_millis(1000) {
        kept &= matches!(b.lookup(pool[0].req()), LookupDecision::Compiled(_));
        gap = gap.max(last.elapsed());
        last = Instant::now();
        std::thread::sleep(Duration::from_millis(15));
    }
    if gap < Duration::from_millis(150) {
        info.evals += 1;
        if !kept {
            return Err("a program that was in use all the time was evicted as idle".into());
        }
    }
    wait_for("idle programs are not evicted", || {
        let _ = b.lookup(pool[0].req());
        let left: Vec<_> = pool[1..].iter().filter(|p| b.get_compiled(p.key.code_hash, p.key.spec_id).is_some()).collect();
        (!left.is_empty()).then(|| format!("{} left", left.len()))
    })?;
    wait_for("idle programs are not evicted", || {
        let st = b.stats();
        (st.resident_entries != 0 || st.evictions != n as u64).then(|| format!("{st:?}"))
    })?;
    info.evals += 2;
    for (p, c) in pool.iter().zip(&held) {
        verify(p, c, cmp, info).map_err(|e| format!("evicted program: {e}"))?;
        b.compile_jit_sync(p.req()).map_err(|e| e.to_string())?;
        verify(p, c, cmp, info).map_err(|e| format!("evicted program: {e}"))?;
    }
    if s.bool() {
        // What was cleared is not there to be evicted.
        b.clear_resident();
        drain(&b)?;
        let before = b.stats();
        std::thread::sleep(idle + Duration::from_millis(150));
        drain(&b)?;
        let after = b.stats();
        info.evals += 1;
        if before.resident_entries != 0 || after.resident_entries != 0 || after.evictions != before.evictions {
            return Err(format!("all programs were cleared; then {before:?}, and later {after:?}"));
        }
    }
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    info.tag("idle_eviction");
    Ok(())
}

/// As many programs seen as the runtime keeps count of (ten per pending job allowed): those it
/// counts still become hot.
fn crowded(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec0 = progs::spec(s);
    let n = 10 + s.below(3);
    let pool = pool(s, n, &None, spec0);
    let (mut c, cmp) = settings(s);
    c.enabled = true;
    let hot = s.range(2, 4);
    c.tuning.jit_hot_threshold = hot;
    c.tuning.jit_max_pending_jobs = 1;
    info.desc = format!("{n} programs seen, threshold {hot}\n{}", list(&pool));
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    let see = |k: usize| -> Result<(), String> {
        if !matches!(b.lookup(pool[k].req()), LookupDecision::Interpret(_)) {
            return Err(format!("program {k} is compiled before it is hot"));
        }
        wait_for("events are not processed", || (b.stats().events_queued > 0).then(|| "still queued".into()))?;
        // Whatever was taken off the queue has been dealt with once a request is answered.
        let none = LookupRequest { key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER }, code: Bytes::new() };
        b.compile_jit_sync(none).map_err(|e| e.to_string())
    };
    for k in 0..n {
        see(k)?;
    }
    let mut left: Vec<usize> = (0..10).collect();
    for _ in 0..s.range(1, 4) {
        let k = left.remove(s.below(left.len()));
        info.desc.push_str(&format!("use {k}\n"));
        for _ in 1..hot {
            see(k)?;
        }
        wait_for("a program seen as often as the threshold asks is not compiled", || {
            b.get_compiled(pool[k].key.code_hash, pool[k].key.spec_id).is_none().then(|| format!("program {k}: {:?}", b.stats()))
        })?;
        wait_for("the job does not end", || {
            let none = LookupRequest { key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER }, code: Bytes::new() };
            b.compile_jit_sync(none).err().map(|e| e.to_string())
        })?;
        let c = b.get_compiled(pool[k].key.code_hash, pool[k].key.spec_id).ok_or("not resident")?;
        verify(&pool[k], &c, cmp, info)?;
    }
    let mut compiled = 10 - left.len();
    // Those that are compiled are no longer counted, which leaves room for others.
    if n > 10 {
        let k = 10 + s.below(n - 10);
        info.desc.push_str(&format!("use {k}\n"));
        for _ in 0..hot {
            see(k)?;
        }
        wait_for("a program seen as often as the threshold asks is not compiled though there is room again", || {
            b.get_compiled(pool[k].key.code_hash, pool[k].key.spec_id).is_none().then(|| format!("program {k}: {:?}", b.stats()))
        })?;
        compiled += 1;
    }
    let st = b.stats();
    if st.resident_entries != compiled as u64 {
        return Err(format!("{compiled} programs became hot, but {} are resident", st.resident_entries));
    }
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    info.tag("crowded");
    Ok(())
}

/// The memory budget evicts the least recently used, and only as many as needed.
fn budget(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec0 = progs::spec(s);
    let n = s.range(3, 6);
    // Programs that were compiled ahead of time take none of the budget.
    let ahead = if s.bool() { s.range(1, 2) } else { 0 };
    let pool = pool(s, n + ahead, &None, spec0);
    let (mut c, cmp) = settings(s);
    c.enabled = true;
    c.tuning.jit_hot_threshold = 1000;
    c.tuning.jit_worker_count = 1;
    if ahead > 0 {
        c.store = Some(Arc::new(FaultStore::new()));
    }
    let base = revmc::llvm::jit_memory_usage().map(|u| u.total_bytes()).unwrap_or(0);
    // Every module counts the same here (see llvm/shim.cpp).
    let unit = 4096 + 512;
    let room = s.range(1, n);
    let budget = base + room * unit + if s.bool() { 0 } else { s.below(unit) };
    c.tuning.resident_code_cache_bytes = budget;
    if s.bool() {
        c.tuning.idle_evict_duration = None;
    }
    info.desc = format!("memory budget for {room} of {n}, {ahead} ahead of time\n{}", list(&pool));
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    if ahead > 0 {
        b.prepare_aot_batch(pool[n..].iter().map(|p| p.aot()).collect());
        drain(&b)?;
        std::thread::sleep(Duration::from_millis(2));
    }
    // Least recently used first.
    let mut lru: Vec<usize> = vec![];
    let mut evictions = 0;
    let mut trace = info.desc.clone();
    for step in 0..s.range(3, 10) {
        let k = s.below(n);
        let resident = lru.contains(&k);
        trace.push_str(&format!("{step}: use {k}\n"));
        info.desc = trace.clone();
        if resident {
            if !matches!(b.lookup(pool[k].req()), LookupDecision::Compiled(_)) {
                return Err(format!("program {k} was evicted though there was room"));
            }
            wait_for("events are not processed", || (b.stats().events_queued > 0).then(|| "still queued".into()))?;
            let none = LookupRequest { key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER }, code: Bytes::new() };
            b.compile_jit_sync(none).map_err(|e| e.to_string())?;
            lru.retain(|x| *x != k);
            lru.push(k);
        } else {
            b.compile_jit_sync(pool[k].req()).map_err(|e| e.to_string())?;
            lru.push(k);
            while lru.len() > room {
                lru.remove(0);
                evictions += 1;
            }
        }
        // Time stamps of successive uses differ.
        std::thread::sleep(Duration::from_millis(2));
        // (Looking at the programs would keep them alive, so only the counters are watched.)
        wait_for("the memory budget is not kept the way it should be", || {
            let st = b.stats();
            let want = (lru.len() + ahead) as u64;
            (st.resident_entries != want || st.evictions != evictions)
                .then(|| format!("{} resident, {} evictions; should be {want} and {evictions}", st.resident_entries, st.evictions))
        })?;
        let got: Vec<usize> = (0..n + ahead).filter(|k| b.get_compiled(pool[*k].key.code_hash, pool[*k].key.spec_id).is_some()).collect();
        let mut want = lru.clone();
        want.extend(n..n + ahead);
        want.sort();
        if got != want {
            return Err(format!("the budget should leave {want:?}, but left {got:?}"));
        }
        info.evals += 1;
    }
    for k in lru {
        let p = &pool[k];
        let c = b.get_compiled(p.key.code_hash, p.key.spec_id).ok_or("not resident")?;
        verify(p, &c, cmp, info)?;
    }
    if evictions > 0 {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    info.tag("budget_eviction");
    Ok(())
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug)]
enum Op {
    Lookup(usize),
    LookupBlocking(usize),
    Compile(usize),
    CompileSync(usize),
    Prepare(Vec<usize>),
    ClearResident,
    ClearPersisted,
    ClearAll,
    PauseResume(u64),
    Toggle,
    RunHeld,
    DropHeld,
    Stats,
    Nap(u64),
    CloneDrop,
}

struct Shared {
    b: JitBackend,
    pool: Vec<P>,
    cmp: Cmp,
    blocking: bool,
    /// Nothing but a clear by thread 0 removes or refuses a program.
    dependable: bool,
    /// Somebody else may clear, too.
    free_for_all: bool,
    clears: bool,
    toggles: bool,
}

type Held = Vec<(usize, Arc<CompiledProgram>)>;

fn worker(sh: &Shared, id: usize, ops: &[Op], info: &mut Info) -> Result<Held, String> {
    let mut held: Held = vec![];
    let b = sh.b.clone();
    // After its own clears, thread 0 knows what is resident; without clears, everybody does.
    let sure = sh.dependable && (!sh.clears || (id == 0 && !sh.free_for_all));
    for (i, o) in ops.iter().enumerate() {
        let at = |e: String| format!("thread {id}, operation {i} {o:?}: {e}");
        match o {
            Op::Lookup(k) => match b.lookup(sh.pool[*k].req()) {
                LookupDecision::Compiled(c) => {
                    verify(&sh.pool[*k], &c, sh.cmp, info).map_err(at)?;
                    held.push((*k, c));
                }
                LookupDecision::Interpret(r) => {
                    let ok = match r {
                        InterpretReason::NotReady => !sh.blocking,
                        InterpretReason::JitFailed => sh.blocking && !sure,
                        InterpretReason::Disabled => sh.toggles,
                        InterpretReason::Ineligible => false,
                    };
                    if !ok {
                        return Err(at(format!("interpret: {r:?}")));
                    }
                }
            },
            Op::LookupBlocking(k) => match b.lookup_blocking(sh.pool[*k].req()) {
                LookupDecision::Compiled(c) => {
                    verify(&sh.pool[*k], &c, sh.cmp, info).map_err(at)?;
                    held.push((*k, c));
                }
                LookupDecision::Interpret(r) => {
                    if sure || r != InterpretReason::JitFailed {
                        return Err(at(format!("a blocking lookup came back without code: {r:?}")));
                    }
                }
            },
            Op::Compile(k) => b.compile_jit(sh.pool[*k].req()),
            Op::CompileSync(k) => {
                b.compile_jit_sync(sh.pool[*k].req()).map_err(|e| at(e.to_string()))?;
                match b.get_compiled(sh.pool[*k].key.code_hash, sh.pool[*k].key.spec_id) {
                    Some(c) => {
                        verify(&sh.pool[*k], &c, sh.cmp, info).map_err(at)?;
                        held.push((*k, c));
                    }
                    None if sure => return Err(at("a synchronous request returned before its code was compiled".into())),
                    None => {}
                }
            }
            Op::Prepare(ks) => b.prepare_aot_batch(ks.iter().map(|k| sh.pool[*k].aot()).collect()),
            Op::ClearResident => b.clear_resident(),
            Op::ClearPersisted => b.clear_persisted(),
            Op::ClearAll => b.clear_all(),
            Op::PauseResume(us) => {
                b.pause();
                std::thread::sleep(Duration::from_micros(*us));
                b.resume();
            }
            Op::Toggle => {
                b.set_enabled(false).map_err(|e| at(e.to_string()))?;
                b.set_enabled(true).map_err(|e| at(e.to_string()))?;
            }
            Op::RunHeld => {
                for (k, c) in &held {
                    verify(&sh.pool[*k], c, sh.cmp, info).map_err(at)?;
                }
            }
            Op::DropHeld => held.clear(),
            Op::Stats => {
                let st = b.stats();
                if st.compilations_succeeded + st.compilations_failed > st.compilations_dispatched + 8 {
                    return Err(at(format!("more finished than dispatched: {st:?}")));
                }
            }
            Op::Nap(us) => std::thread::sleep(Duration::from_micros(*us)),
            Op::CloneDrop => drop(b.clone()),
        }
        while held.len() > 6 {
            held.remove(0);
        }
    }
    Ok(held)
}

unsafe extern "C" {
    /// In llvm/shim.cpp.
    fn vp_set_pause(us: u32);
}

/// Holds threads up before they enter the JIT.
struct Pauses;
impl Drop for Pauses {
    fn drop(&mut self) {
        unsafe { vp_set_pause(0) }
    }
}

pub fn c17(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 30) {
        return cold_start(s, info);
    }
    let _pauses = s.chance(1, 4).then(|| {
        unsafe { vp_set_pause([50, 500, 3000][s.below(3)]) };
        Pauses
    });
    let spec0 = progs::spec(s);
    let n = s.range(1, 4);
    let pool = pool(s, n, &None, spec0);
    let (mut c, cmp) = settings(s);
    c.enabled = true;
    c.blocking = s.chance(1, 8);
    c.tuning.jit_worker_count = s.range(1, 4);
    c.tuning.jit_hot_threshold = s.below(4);
    c.tuning.jit_opt_level = *s.pick(&[OptimizationLevel::None, OptimizationLevel::Default]);
    let mut dependable = true;
    if s.chance(1, 4) {
        c.tuning.channel_capacity = s.range(1, 4);
    }
    if s.chance(1, 4) {
        c.tuning.max_events_per_drain = s.range(1, 3);
    }
    if s.chance(1, 6) {
        c.tuning.jit_worker_queue_capacity = s.range(1, 2);
        dependable = false;
    }
    if s.chance(1, 8) {
        c.tuning.jit_max_pending_jobs = s.range(1, 2);
        dependable = false;
    }
    let evict = s.chance(1, 8);
    if evict {
        c.tuning.idle_evict_duration = Some(Duration::from_millis(s.range(1, 10) as u64));
        c.tuning.eviction_sweep_interval = Duration::from_millis(1);
        dependable = false;
    }
    if s.chance(1, 10) {
        // Less room than everything needs.
        c.tuning.resident_code_cache_bytes = revmc::llvm::jit_memory_usage().map(|u| u.total_bytes()).unwrap_or(0) + 5000 * s.range(1, 3);
        dependable = false;
    }
    let out = s.chance(1, 10);
    if out {
        c.jit_mode = JitMode::OutOfProcess;
        c.tuning.jit_worker_count = s.range(1, 2);
        // A full command queue may swallow a resume (as documented).
        c.tuning.channel_capacity = 4096;
        // A request that was under way when the helper was stopped by a clear fails: only the
        // requests of later generations are dependable, and those are thread 0's.
    }
    let store = s.chance(1, 3);
    if store {
        c.store = Some(Arc::new(FaultStore::new()));
        c.aot = s.chance(1, 3);
    }
    let clears = s.chance(3, 5);
    let free_for_all = clears && s.chance(1, 3);
    let toggles = s.chance(1, 6);
    let log: Arc<Mutex<BTreeMap<(B256, SpecId), u64>>> = Default::default();
    let l2 = log.clone();
    c.on_compilation = Some(Arc::new(move |e| *l2.lock().unwrap().entry((e.code_hash, e.spec_id)).or_default() += 1));
    let threads = s.range(1, 4);
    let mut scripts: Vec<Vec<Op>> = vec![];
    for t in 0..threads {
        let may_clear = clears && (t == 0 || free_for_all);
        let len = s.range(2, 12);
        let mut v = vec![];
        for _ in 0..len {
            let k = s.below(n);
            let w = [
                6,
                4,
                6,
                6,
                if store { 3 } else { 0 },
                if may_clear { 6 } else { 0 },
                if may_clear && store { 1 } else { 0 },
                if may_clear { 1 } else { 0 },
                1,
                if toggles { 1 } else { 0 },
                3,
                2,
                1,
                2,
                1,
            ];
            v.push(match s.weighted(&w) {
                0 => Op::Lookup(k),
                1 => Op::LookupBlocking(k),
                2 => Op::Compile(k),
                3 => Op::CompileSync(k),
                4 => Op::Prepare((0..s.range(1, 3)).map(|_| s.below(n)).collect()),
                5 => Op::ClearResident,
                6 => Op::ClearPersisted,
                7 => Op::ClearAll,
                8 => Op::PauseResume(s.below(2000) as u64),
                9 => Op::Toggle,
                10 => Op::RunHeld,
                11 => Op::DropHeld,
                12 => Op::Stats,
                13 => Op::Nap(s.below(8000) as u64),
                _ => Op::CloneDrop,
            });
        }
        scripts.push(v);
    }
    info.desc = format!("{:?}\n{}{}", c, list(&pool), scripts.iter().enumerate().map(|(i, v)| format!("thread {i}: {v:?}\n")).collect::<String>());
    let aot = c.aot;
    let blocking = c.blocking;
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    let sh = Shared { b, pool, cmp, blocking, dependable, free_for_all, clears, toggles };
    let gate = Barrier::new(threads);
    let results: Vec<(Result<Held, String>, Info)> = std::thread::scope(|sc| {
        let hs: Vec<_> = scripts
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let (sh, gate) = (&sh, &gate);
                sc.spawn(move || {
                    let mut info = Info::default();
                    gate.wait();
                    let r = worker(sh, i, v, &mut info);
                    (r, info)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Err("a thread panicked".into()), Info::default()))).collect()
    });
    let mut held: Held = vec![];
    let mut evals = 0;
    for (r, i) in results {
        evals += i.evals;
        held.extend(r?);
    }
    info.evals += evals;
    let none = LookupRequest { key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER }, code: Bytes::new() };
    let Shared { b, pool, .. } = sh;
    let ending = s.below(3);
    if ending == 0 {
        // Let everything finish, then use it all again.
        b.compile_jit_sync(none.clone()).map_err(|e| e.to_string())?;
        wait_for("work does not drain", || {
            let st = b.stats();
            (st.pending_jobs != 0 || st.events_queued != 0 || st.command_queue_len != 0).then(|| format!("{st:?}"))
        })?;
        info.evals += 1;
        if dependable && !clears && !out {
            for ((h, sp), times) in log.lock().unwrap().iter() {
                if *times > 1 {
                    return Err(format!("{h} {sp:?} was compiled {times} times"));
                }
            }
        }
    } else {
        // With work under way: what was asked for before the clear does not come back after it.
        for p in &pool {
            if s.bool() {
                b.compile_jit(p.req());
            }
        }
        b.clear_resident();
        b.compile_jit_sync(none.clone()).map_err(|e| e.to_string())?;
        wait_for("work does not drain after a clear", || {
            let st = b.stats();
            (st.pending_jobs != 0 || st.events_queued != 0 || st.command_queue_len != 0).then(|| format!("{st:?}"))
        })?;
        let st = b.stats();
        info.evals += 1;
        if st.resident_entries != 0 {
            return Err(format!("{} programs are resident though all were cleared: {st:?}", st.resident_entries));
        }
    }
    if ending < 2 {
        for (k, p) in pool.iter().enumerate() {
            if !dependable || evict {
                break;
            }
            let c = match b.lookup_blocking(p.req()) {
                LookupDecision::Compiled(c) => c,
                LookupDecision::Interpret(r) => return Err(format!("program {k} cannot be compiled at the end: {r:?}")),
            };
            verify(p, &c, cmp, info)?;
            held.push((k, c));
        }
        if dependable && !evict {
            let st = b.stats();
            if st.resident_entries != pool.len() as u64 {
                return Err(format!("{} programs resident at the end, should be {}: {st:?}", st.resident_entries, pool.len()));
            }
        }
    } else {
        // Shut down in the middle of work.
        for p in &pool {
            b.compile_jit(p.req());
        }
        if out && s.bool() {
            b.pause();
        }
    }
    let _ = aot;
    let t0 = Instant::now();
    drop(b);
    if t0.elapsed() >= PATIENCE {
        return Err("shutting down did not finish".into());
    }
    for (k, c) in &held {
        verify(&pool[*k], c, cmp, info).map_err(|e| format!("held program after shutdown: {e}"))?;
    }
    if evals > 0 {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    info.tag(if out { "helper_histories" } else if clears { "histories_with_clears" } else { "histories_without_clears" });
    Ok(())
}

/// A program that needs many of the run-time functions.
fn busy(s: &mut Src) -> Vec<u8> {
    let mut c = marker(s);
    c.truncate(12);
    let ops: &[(u8, u8, u8)] = &[
        (op::EXP, 2, 1), (op::KECCAK256, 2, 1), (op::BALANCE, 1, 1), (op::ORIGIN, 0, 1), (op::CALLDATALOAD, 1, 1),
        (op::CALLDATACOPY, 3, 0), (op::CODECOPY, 3, 0), (op::GASPRICE, 0, 1), (op::EXTCODESIZE, 1, 1),
        (op::EXTCODECOPY, 4, 0), (op::RETURNDATACOPY, 3, 0), (op::EXTCODEHASH, 1, 1), (op::BLOCKHASH, 1, 1),
        (op::COINBASE, 0, 1), (op::TIMESTAMP, 0, 1), (op::NUMBER, 0, 1), (op::DIFFICULTY, 0, 1), (op::GASLIMIT, 0, 1),
        (op::CHAINID, 0, 1), (op::SELFBALANCE, 0, 1), (op::BASEFEE, 0, 1), (op::BLOBHASH, 1, 1), (op::BLOBBASEFEE, 0, 1),
        (op::SLOAD, 1, 1), (op::SSTORE, 2, 0), (op::TLOAD, 1, 1), (op::TSTORE, 2, 0), (op::MCOPY, 3, 0), (op::LOG0, 2, 0),
        (op::LOG2, 4, 0), (op::CALL, 7, 1), (op::CREATE, 3, 1), (op::DIV, 2, 1), (op::SDIV, 2, 1), (op::MOD, 2, 1),
        (op::SMOD, 2, 1), (op::ADDMOD, 3, 1), (op::MULMOD, 3, 1), (op::MSTORE, 2, 0), (op::MLOAD, 1, 1),
    ];
    let from = s.below(ops.len());
    for i in 0..ops.len() {
        let (o, ins, outs) = ops[(from + i) % ops.len()];
        if s.chance(1, 4) {
            continue;
        }
        for _ in 0..ins {
            c.extend([op::CALLDATASIZE, op::PUSH1, 3, op::AND]);
        }
        c.push(o);
        for _ in 0..outs {
            c.push(op::POP);
        }
    }
    c.extend([op::PUSH1, 64, op::PUSH1, 0, op::RETURN]);
    c
}

/// In a process of its own, the very first uses of the compiler all at once. Returns what went wrong.
pub fn first_use(threads: usize, through_runtime: bool, seed: u64) -> Result<u64, String> {
    let mut s = Src::random(seed);
    let s = &mut s;
    let pool: Vec<P> = (0..threads)
        .map(|_| {
            let code: Bytes = busy(s).into();
            let mut ctx = Ctx::plain(SpecId::CANCUN);
            ctx.gas_limit = 2_000_000;
            P { key: RuntimeCacheKey { code_hash: keccak256(&code), spec_id: SpecId::CANCUN }, code, ctx: vec![ctx] }
        })
        .collect();
    let mut c = RuntimeConfig { enabled: true, ..Default::default() };
    c.tuning.jit_worker_count = threads;
    c.tuning.jit_opt_level = OptimizationLevel::None;
    let b = through_runtime.then(|| JitBackend::new(c).unwrap());
    let gate = Barrier::new(threads);
    let cmp = Cmp { stack: false, cause: false };
    let results: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = pool
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let (b, gate) = (&b, &gate);
                sc.spawn(move || {
                    let mut info = Info::default();
                    gate.wait();
                    if let Some(b) = b {
                        b.compile_jit_sync(p.req()).map_err(|e| e.to_string())?;
                        match b.get_compiled(p.key.code_hash, p.key.spec_id) {
                            Some(c) => verify(p, &c, cmp, &mut info).map_err(|e| format!("thread {i}: {e}"))?,
                            None => return Err(format!("thread {i}: the first request failed to compile (0x{})", hex::encode(&p.code))),
                        }
                    } else {
                        let cfg = crate::exec::Cfg { opt: OptimizationLevel::None, ..Default::default() };
                        let c = crate::exec::compile(&cfg, &p.code, p.key.spec_id)
                            .map_err(|e| format!("thread {i}: the first compilation failed: {e} (0x{})", hex::encode(&p.code)))?;
                        check_one(c.f, &p.code, &p.ctx[0], cmp, &mut info).map_err(|e| format!("thread {i}: {e}"))?;
                    }
                    Ok(info.evals)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut n = 0;
    for r in results {
        n += r?;
    }
    Ok(n)
}

/// Runs [`first_use`] in fresh processes.
fn cold_start(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let threads = s.range(2, 8);
    let through_runtime = s.bool();
    let seed = s.u64();
    let hide = s.bool();
    let pause = if s.bool() { 20000 } else { 0 };
    info.desc = format!(
        "first use of a process by {threads} threads at once ({}), seed {seed}, builtins exported {}, held up by up to {pause} us",
        if through_runtime { "through the runtime" } else { "one compiler each" },
        !hide
    );
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let kids: Vec<_> = (0..4)
        .map(|i| {
            std::process::Command::new(&exe)
                .envs(hide.then_some(("VP_HIDE_BUILTINS", "1")))
                .env("VP_PAUSE", pause.to_string())
                .args(["first-use", &threads.to_string(), &through_runtime.to_string(), &(seed ^ i).to_string()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
        })
        .collect();
    for k in kids {
        let o = k.and_then(|k| k.wait_with_output()).map_err(|e| e.to_string())?;
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        match t.strip_prefix("OK ") {
            Some(n) if o.status.success() => info.evals += n.trim().parse::<u64>().unwrap_or(0),
            _ => return Err(format!("{}: {}", o.status, t.trim())),
        }
    }
    info.tag("cold_starts");
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------- C18

fn artifact_key(s: &mut Src, base: B256) -> ArtifactKey {
    let mut h = base;
    match s.below(4) {
        0 => {}
        1 => h.0[*s.pick(&[0usize, 31, 15, 16, 7, 8])] ^= 1 << s.below(8),
        2 => h = B256::with_last_byte(s.byte() & 3),
        _ => h.0[0] = s.byte() & 0x11,
    }
    ArtifactKey {
        runtime: RuntimeCacheKey { code_hash: h, spec_id: *s.pick(&[SpecId::OSAKA, SpecId::CANCUN, SpecId::FRONTIER, SpecId::PRAGUE]) },
        backend: *s.pick(&[BackendSelection::Llvm, BackendSelection::Auto]),
        opt_level: opt(s),
    }
}

fn manifest(s: &mut Src, key: &ArtifactKey, len: usize) -> ArtifactManifest {
    ArtifactManifest {
        artifact_key: key.clone(),
        symbol_name: format!("sym{}", s.below(1000)),
        bytecode_len: s.below(5000),
        artifact_len: len,
        created_at_unix_secs: s.below(1_000_000) as u64,
        content_hash: B256::from_slice(&s.bytes(32)).0,
    }
}

fn same(a: &ArtifactManifest, b: &ArtifactManifest) -> bool {
    a.artifact_key == b.artifact_key
        && a.symbol_name == b.symbol_name
        && a.bytecode_len == b.bytecode_len
        && a.artifact_len == b.artifact_len
        && a.created_at_unix_secs == b.created_at_unix_secs
        && a.content_hash == b.content_hash
}

/// The store alone, against a map.
fn store_alone(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let base = B256::from_slice(&s.bytes(32));
    let n = s.range(1, 6);
    let keys: Vec<ArtifactKey> = (0..n).map(|_| artifact_key(s, base)).collect();
    let mut stores: Vec<RuntimeArtifactStore> = vec![RuntimeArtifactStore::new().map_err(|e| e.to_string())?];
    if s.chance(1, 3) {
        stores.push(RuntimeArtifactStore::new().map_err(|e| e.to_string())?);
    }
    let mut model: Vec<std::collections::HashMap<ArtifactKey, (ArtifactManifest, Vec<u8>)>> = vec![Default::default(); stores.len()];
    let mut trace = format!("{keys:?}\n");
    let mut dirs: Vec<PathBuf> = vec![];
    // Files opened before an overwrite keep their contents.
    let mut open: Vec<(std::fs::File, Vec<u8>)> = vec![];
    let steps = s.range(2, 20);
    for step in 0..steps {
        let i = s.below(stores.len());
        let (st, m) = (&stores[i], &mut model[i]);
        let k = keys[s.below(n)].clone();
        match s.weighted(&[8, 3, 1, 2]) {
            0 => {
                let len = *s.pick(&[0usize, 1, 5, 40, 5000]);
                let data = s.bytes(len);
                let man = manifest(s, &k, len);
                trace.push_str(&format!("{step}: store{i}.store({k:?}, {len} bytes)\n"));
                st.store(&k, &man, &data).map_err(|e| format!("store failed: {e}"))?;
                m.insert(k, (man, data));
            }
            1 => {
                trace.push_str(&format!("{step}: store{i}.delete({k:?})\n"));
                st.delete(&k).map_err(|e| format!("delete failed: {e}"))?;
                m.remove(&k);
            }
            2 => {
                trace.push_str(&format!("{step}: store{i}.clear()\n"));
                st.clear().map_err(|e| format!("clear failed: {e}"))?;
                m.clear();
            }
            _ => {
                if let Ok(Some(a)) = st.load(&k)
                    && let Some((_, d)) = m.get(&k)
                {
                    trace.push_str(&format!("{step}: open file of {k:?}\n"));
                    open.push((std::fs::File::open(&a.dylib_path).map_err(|e| e.to_string())?, d.clone()));
                }
            }
        }
        info.desc = trace.clone();
        info.evals += 1;
        for (st, m) in stores.iter().zip(&model) {
            if st.len() != m.len() || st.is_empty() != m.is_empty() {
                return Err(format!("len is {}, should be {}", st.len(), m.len()));
            }
            for k in &keys {
                match (st.load(k).map_err(|e| format!("load failed: {e}"))?, m.get(k)) {
                    (None, None) => {}
                    (Some(a), Some((man, data))) => {
                        if !same(&a.manifest, man) {
                            return Err(format!("load of {k:?} gives the manifest {:?}, should be {man:?}", a.manifest));
                        }
                        if std::fs::read(&a.dylib_path).map_err(|e| format!("stored file: {e}"))? != *data {
                            return Err(format!("load of {k:?} gives other bytes than were stored"));
                        }
                        dirs.push(a.dylib_path.parent().unwrap().to_path_buf());
                    }
                    (a, w) => return Err(format!("load of {k:?} gives {}, should give {}", a.is_some(), w.is_some())),
                }
            }
            let all = st.load_all().map_err(|e| format!("load_all failed: {e}"))?;
            if all.len() != m.len() || all.iter().any(|(k, a)| m.get(k).is_none_or(|(man, _)| !same(&a.manifest, man))) {
                return Err(format!("load_all gives {} artifacts, should give {}", all.len(), m.len()));
            }
            for (k, a) in all {
                if std::fs::read(&a.dylib_path).map_err(|e| format!("stored file: {e}"))? != m[&k].1 {
                    return Err(format!("load_all gives other bytes for {k:?} than were stored"));
                }
            }
        }
        for (f, d) in &open {
            use std::os::unix::fs::FileExt;
            let mut b = vec![0; d.len() + 1];
            let n = f.read_at(&mut b, 0).map_err(|e| e.to_string())?;
            if b[..n] != d[..] {
                return Err("an artifact that is in use changed under its user".into());
            }
        }
    }
    drop(stores);
    if let Some(d) = dirs.iter().find(|d| d.exists()) {
        return Err(format!("{d:?} is left behind"));
    }
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    info.tag("store_histories");
    Ok(())
}

pub fn c18(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(3, 5) {
        return store_alone(s, info);
    }
    // Runtimes on a store.
    let spec0 = progs::spec(s);
    let n = s.range(2, 5);
    let pool = pool(s, n, &None, spec0);
    let (c0, cmp) = settings(s);
    let level = c0.tuning.aot_opt_level;
    let store = Arc::new(FaultStore::new());
    let akey = |k: usize| ArtifactKey { runtime: pool[k].key, backend: BackendSelection::Llvm, opt_level: level };
    let mut trace = list(&pool);
    let mut files = vec![File::Absent; n];
    // Runtimes: (backend, resident, is it in AOT mode).
    let mut rts: Vec<(JitBackend, BTreeMap<usize, ProgramKind>, bool)> = vec![];
    let mut held: Held = vec![];
    let mut loaded = 0;
    let mut rebuilt = 0;
    let steps = s.range(4, 12);
    for step in 0..steps {
        macro_rules! note {
            ($($a:tt)*) => {{ trace.push_str(&format!("{step}: {}\n", format!($($a)*))); info.desc = trace.clone(); }};
        }
        let what = if rts.is_empty() { 0 } else { s.weighted(&[3, 6, 4, 2, 2, 2, 2]) };
        match what {
            0 => {
                // Start a runtime.
                let mut c = c0.clone();
                c.enabled = true;
                c.store = Some(store.clone());
                c.aot = s.bool();
                c.tuning.jit_hot_threshold = 1000;
                let late = s.chance(1, 4);
                c.enabled = !late;
                let faulty = s.chance(1, 6);
                note!("start a runtime (aot {}, late {late}, faulty {faulty})", c.aot);
                if faulty {
                    store.fail[0].store(1, Ordering::SeqCst);
                }
                let aot = c.aot;
                let mut b = JitBackend::new(c.clone());
                if late {
                    let r = b.as_ref().map_err(|e| format!("a disabled runtime does not start: {e}"))?.set_enabled(true);
                    if r.is_err() != faulty {
                        return Err(format!("enabling with faulty store {faulty}: {r:?}"));
                    }
                    if faulty {
                        b.as_ref().unwrap().set_enabled(true).map_err(|e| format!("enabling again: {e}"))?;
                    }
                } else {
                    if b.is_err() != faulty {
                        return Err(format!("starting with faulty store {faulty}: {:?}", b.err()));
                    }
                    if faulty {
                        b = JitBackend::new(c);
                    }
                }
                let b = b.map_err(|e| format!("the runtime does not start: {e}"))?;
                let res: BTreeMap<usize, ProgramKind> = (0..n)
                    .filter(|k| match loadable(&files, &rts, &held, *k) {
                        Some(x) => x,
                        None => b.get_compiled(pool[*k].key.code_hash, pool[*k].key.spec_id).is_some(),
                    })
                    .map(|k| (k, ProgramKind::Aot))
                    .collect();
                loaded += res.len();
                if b.stats().compilations_dispatched != 0 {
                    return Err("a fresh runtime compiled something".into());
                }
                rts.push((b, res, aot));
            }
            1 => {
                // Ask for programs ahead of time.
                let i = s.below(rts.len());
                let ks: BTreeSet<usize> = (0..s.range(1, 3)).map(|_| s.below(n)).collect();
                let fault = s.weighted(&[8, 1, 1]);
                note!("runtime {i}: prepare {ks:?}{}", ["", ", store fails", ", load fails"][fault]);
                // How many have to be built.
                let (mut least, mut most) = (0, 0);
                let mut build = vec![];
                for &k in &ks {
                    if rts[i].1.contains_key(&k) {
                        continue;
                    }
                    match loadable(&files, &rts, &held, k) {
                        Some(true) => {}
                        Some(false) => {
                            least += 1;
                            most += 1;
                            build.push(k);
                        }
                        None => most += 1,
                    }
                }
                let (b, res, aot) = &mut rts[i];
                if fault == 1 {
                    store.fail[2].store(1, Ordering::SeqCst);
                } else if fault == 2 {
                    store.fail[1].store(1, Ordering::SeqCst);
                }
                let before = b.stats();
                if *aot && fault == 0 && s.bool() {
                    for k in &ks {
                        match b.lookup_blocking(pool[*k].req()) {
                            LookupDecision::Compiled(c) => verify(&pool[*k], &c, cmp, info)?,
                            LookupDecision::Interpret(r) => return Err(format!("runtime {i} cannot provide program {k}: {r:?}")),
                        }
                    }
                } else {
                    b.prepare_aot_batch(ks.iter().map(|k| pool[*k].aot()).collect());
                }
                drain(b)?;
                let after = b.stats();
                if fault == 0 {
                    let d = after.compilations_dispatched - before.compilations_dispatched;
                    if d < least || d > most {
                        return Err(format!("{d} compilations, should be {least} to {most}: an intact artifact is reused, another one rebuilt"));
                    }
                    if after.compilations_failed != before.compilations_failed {
                        return Err(format!("a compilation failed: {after:?}"));
                    }
                    rebuilt += build.len();
                    for &k in &ks {
                        let was = res.insert(k, ProgramKind::Aot).is_some();
                        if build.contains(&k) {
                            files[k] = File::Good;
                        } else if !was && files[k] == File::Bad && file_ok(&store, &akey(k)) {
                            files[k] = File::Good;
                        }
                    }
                } else {
                    store.fail[1].store(0, Ordering::SeqCst);
                    store.fail[2].store(0, Ordering::SeqCst);
                    // One of them may be missing now; take over which.
                    let mut missing = 0;
                    for &k in &ks {
                        if b.get_compiled(pool[k].key.code_hash, pool[k].key.spec_id).is_some() {
                            res.insert(k, ProgramKind::Aot);
                        } else {
                            missing += 1;
                        }
                        if file_ok(&store, &akey(k)) {
                            files[k] = File::Good;
                        }
                    }
                    if missing > 1 {
                        return Err(format!("one fault of the store lost {missing} programs"));
                    }
                }
            }
            2 => {
                // Damage a file, or all of them.
                let only = s.below(n);
                let all = s.chance(1, 4);
                for k in (0..n).filter(|k| all || *k == only) {
                let Ok(Some(a)) = store.inner.load(&akey(k)) else { continue };
                    if held.iter().any(|(h, _)| *h == k) || rts.iter().any(|r| r.1.contains_key(&k)) {
                        // Not under a running program: replacing the file from outside is on the user,
                        // but removing it is fine.
                        note!("remove the file of {k}");
                        let _ = std::fs::remove_file(&a.dylib_path);
                    } else {
                        let how = s.below(4);
                        note!("damage the file of {k} ({how})");
                        let _ = std::fs::remove_file(&a.dylib_path);
                        match how {
                            0 => {}
                            1 => std::fs::write(&a.dylib_path, b"").unwrap(),
                            2 => {
                                let len = s.range(1, 300);
                                let mut g = s.bytes(len);
                                g[0] = 0;
                                std::fs::write(&a.dylib_path, g).unwrap();
                            }
                            _ => std::fs::create_dir(&a.dylib_path).unwrap(),
                        }
                        if how == 3 {
                            // A directory cannot be replaced by storing again.
                            std::fs::remove_dir(&a.dylib_path).unwrap();
                        }
                    }
                    files[k] = File::Bad;
                }
            }
            3 => {
                // Through the store itself.
                let k = s.below(n);
                match s.below(3) {
                    0 => {
                        note!("delete the artifact of {k}");
                        store.delete(&akey(k)).map_err(|e| e.to_string())?;
                        files[k] = File::Absent;
                    }
                    1 => {
                        if files[k] == File::Good {
                            note!("store the artifact of {k} again");
                            let a = store.inner.load(&akey(k)).unwrap().ok_or("artifact lost")?;
                            let data = std::fs::read(&a.dylib_path).map_err(|e| e.to_string())?;
                            store.inner.store(&akey(k), &a.manifest, &data).map_err(|e| e.to_string())?;
                        }
                    }
                    _ => {
                        // Something else under the same key, and removed again.
                        if store.inner.load(&akey(k)).unwrap().is_some() {
                            note!("overwrite the artifact of {k} with nonsense");
                            let m = manifest(s, &akey(k), 3);
                            store.inner.store(&akey(k), &m, b"abc").map_err(|e| e.to_string())?;
                            files[k] = File::Bad;
                        }
                    }
                }
            }
            4 => {
                let i = s.below(rts.len());
                let which = s.below(3);
                let faulty = which == 1 && s.chance(1, 4);
                note!("runtime {i}: clear {}{}", ["resident", "persisted", "all"][which], if faulty { ", failing" } else { "" });
                if faulty {
                    store.fail[3].store(1, Ordering::SeqCst);
                }
                let (b, res, _) = &mut rts[i];
                match which {
                    0 => b.clear_resident(),
                    1 => b.clear_persisted(),
                    _ => b.clear_all(),
                }
                drain(b)?;
                if which != 1 {
                    res.clear();
                }
                if which != 0 && !faulty {
                    files.fill(File::Absent);
                    if !store.inner.is_empty() {
                        return Err("artifacts are left after clearing them".into());
                    }
                }
            }
            5 => {
                let i = s.below(rts.len());
                note!("drop runtime {i}");
                rts.remove(i);
            }
            _ => {
                // An artifact for another optimization level is a different one.
                let k = s.below(n);
                let mut ak = akey(k);
                ak.opt_level = opt(s);
                ak.backend = *s.pick(&[BackendSelection::Llvm, BackendSelection::Auto]);
                if ak != akey(k) && store.inner.load(&ak).map_err(|e| e.to_string())?.is_some() {
                    return Err(format!("an artifact nobody stored: {ak:?}"));
                }
                if !held.is_empty() && s.bool() {
                    let i = s.below(held.len());
                    held.remove(i);
                }
            }
        }
        // Everybody still has exactly what they should, and it works.
        for (i, (b, res, _)) in rts.iter().enumerate() {
            let st = b.stats();
            if st.resident_entries != res.len() as u64 {
                return Err(format!("after step {step}: runtime {i} has {} programs, should have {res:?}", st.resident_entries));
            }
            for k in 0..n {
                let c = b.get_compiled(pool[k].key.code_hash, pool[k].key.spec_id);
                if c.is_some() != res.contains_key(&k) {
                    return Err(format!("after step {step}: runtime {i} {} program {k}", if c.is_some() { "has" } else { "lacks" }));
                }
                if let Some(c) = c {
                    if c.kind != ProgramKind::Aot {
                        return Err(format!("program {k} is not an ahead-of-time one"));
                    }
                    if s.chance(1, 2) {
                        verify(&pool[k], &c, cmp, info).map_err(|e| format!("after step {step}: {e}"))?;
                    }
                    if held.len() < 4 && s.chance(1, 6) {
                        held.push((k, c));
                    }
                }
            }
            info.evals += 1;
        }
        for (k, c) in &held {
            verify(&pool[*k], c, cmp, info).map_err(|e| format!("after step {step}: held program {k}: {e}"))?;
        }
        for k in 0..n {
            match (store.inner.load(&akey(k)).map_err(|e| e.to_string())?, files[k]) {
                (None, File::Absent) | (Some(_), File::Bad) => {}
                (Some(a), File::Good) => {
                    let m = &a.manifest;
                    let data = std::fs::read(&a.dylib_path).map_err(|e| format!("artifact of program {k}: {e}"))?;
                    if m.artifact_key != akey(k)
                        || m.artifact_len != data.len()
                        || m.bytecode_len != pool[k].code.len()
                        || m.content_hash != keccak256(&data).0
                    {
                        return Err(format!("after step {step}: the manifest of program {k} does not describe it: {m:?}"));
                    }
                }
                (a, f) => return Err(format!("after step {step}: artifact of program {k} present: {}, should be {f:?}", a.is_some())),
            }
        }
    }
    drop(rts);
    drop(store);
    for (k, c) in &held {
        verify(&pool[*k], c, cmp, info).map_err(|e| format!("held program after everything is gone: {e}"))?;
    }
    if loaded + rebuilt > 0 {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    info.tag("runtime_histories");
    Ok(())
}

fn file_ok(store: &FaultStore, key: &ArtifactKey) -> bool {
    match store.inner.load(key) {
        Ok(Some(a)) => std::fs::read(&a.dylib_path).is_ok_and(|d| keccak256(&d).0 == a.manifest.content_hash && !d.is_empty()),
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum File {
    Absent,
    Good,
    Bad,
}

/// Can the artifact of a program be loaded? Unknown if its file is damaged but the library is still
/// in memory: the dynamic loader may hand out the one it has.
fn loadable(files: &[File], rts: &[(JitBackend, BTreeMap<usize, ProgramKind>, bool)], held: &Held, k: usize) -> Option<bool> {
    match files[k] {
        File::Good => Some(true),
        File::Absent => Some(false),
        File::Bad if held.iter().any(|h| h.0 == k) || rts.iter().any(|r| r.1.contains_key(&k)) => None,
        File::Bad => Some(false),
    }
}

fn drain(b: &JitBackend) -> Result<(), String> {
    let none = LookupRequest { key: RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::FRONTIER }, code: Bytes::new() };
    for _ in 0..2 {
        b.compile_jit_sync(none.clone()).map_err(|e| e.to_string())?;
        wait_for("work does not drain", || {
            let st = b.stats();
            (st.pending_jobs != 0 || st.events_queued != 0 || st.command_queue_len != 0).then(|| format!("{st:?}"))
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13, the runtime's routes

pub fn routes(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let n = s.range(2, 5);
    let spec0 = progs::spec(s);
    let gp = s.chance(1, 4).then(|| diff::gas_params(s, spec0));
    let mut pool: Vec<P> = vec![];
    for i in 0..n {
        let spec = if gp.is_some() { spec0 } else { progs::spec(s) };
        let p = *s.pick(&[gens::TINY, gens::HOST, gens::CALLS, GENERAL, gens::ARITH, gens::MEMORY, gens::JUMPS, gens::STACK]);
        let code: Bytes = if i > 0 && s.chance(1, 4) { pool[s.below(pool.len())].code.clone() } else { fitting(s, p, spec) };
        let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: spec };
        if pool.iter().any(|p| p.key == key) {
            continue;
        }
        let ctx = (0..3)
            .map(|_| {
                let mut c = Ctx::generate(s, spec);
                if let Some(g) = &gp {
                    c.host.gas_params = g.clone();
                }
                c
            })
            .collect();
        pool.push(P { key, code, ctx });
    }
    let (mut c, cmp) = settings(s);
    c.gas_params = gp;
    c.enabled = true;
    let route = s.weighted(&[5, 2, 2]);
    match route {
        0 => c.jit_mode = JitMode::OutOfProcess,
        1 => {
            c.store = Some(Arc::new(RuntimeArtifactStore::new().map_err(|e| e.to_string())?));
            c.aot = true;
        }
        _ => {}
    }
    c.tuning.jit_worker_count = s.range(1, 3);
    info.desc = format!("{:?} route, {:?}\n{}", ["helper", "ahead of time", "in process"][route], c, list(&pool));
    let b = JitBackend::new(c).map_err(|e| format!("the runtime does not start: {e}"))?;
    if s.bool() {
        for p in &pool {
            b.compile_jit(p.req());
        }
    }
    let mut held = vec![];
    for (i, p) in pool.iter().enumerate() {
        let c = match b.lookup_blocking(p.req()) {
            LookupDecision::Compiled(c) => c,
            LookupDecision::Interpret(r) => return Err(format!("program {i} was not compiled: {r:?}")),
        };
        verify(p, &c, cmp, info).map_err(|e| format!("program {i}: {e}"))?;
        held.push((i, c));
    }
    let st = b.stats();
    if st.compilations_failed != 0 || (route == 0 && st.jit_helper_spawns == 0) {
        return Err(format!("not the route asked for: {st:?}"));
    }
    drop(b);
    for (k, c) in &held {
        verify(&pool[*k], c, cmp, info).map_err(|e| format!("program {k} after shutdown: {e}"))?;
    }
    info.tag(["route_helper", "route_store", "route_in_process"][route]);
    Ok(())
}
