//! Orchestration: worlds, workers, references, verdicts, minimisation, replay, evidence.
#![allow(static_mut_refs)]
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Instant;

use serde::{Deserialize, Serialize};

use crate::alloc;
use crate::exec::{self, Exec, Out, Stats};
use crate::model;
use crate::multi;
use crate::plan::*;
use crate::proc::{self, isolated, Died, Shm};
use crate::props::{self, Ctx, Key, RefOuts, Viol};
use crate::rng;
use crate::rt::{self, HarnGuard, SchedPlan, Switch};
use crate::vfs::{Bytes, DirSpec, Node};

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub runs: Option<u64>,
    pub from: u64,
    pub wall: Option<u64>,
    pub workers: usize,
    pub replay: Option<String>,
    pub out: String,
    pub digests: Option<String>,
    pub quiet: bool,
    pub show: bool,
    pub prices: bool,
}

// ------------------------------------------------------------------------------------------------ answers of children

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RunRec {
    pub viol: Option<Viol>,
    pub nontrivial: bool,
    pub digest: u64,
    pub stats: Stats,
    pub switches: Vec<Vec<Switch>>,
    pub log: Vec<String>,
}
#[derive(Serialize, Deserialize)]
enum Ans {
    Run(RunRec),
    Outs(Vec<((usize, usize, usize), Out)>, Stats),
    Solo(Out),
    Priced(Out, u64),
    Fatal(Viol, Vec<Vec<Switch>>),
}

static mut FATAL_SHM: *const Shm = std::ptr::null();

fn on_fatal(kind: &str, detail: &str) -> ! {
    unsafe {
        let mut sw = vec![];
        if let Some(w) = exec::W.as_ref() {
            sw = w.switches.clone();
            if let Some(s) = rt::S.as_ref() {
                sw.push(s.log.clone());
            }
        }
        let a = Ans::Fatal(Viol { kind: kind.into(), detail: detail.into() }, sw);
        if !FATAL_SHM.is_null() {
            (*FATAL_SHM).put(&serde_json::to_vec(&a).unwrap_or_default());
        }
        libc::_exit(0)
    }
}
fn child_setup(shm: &Shm) {
    unsafe {
        FATAL_SHM = shm;
        rt::ON_FATAL = Some(on_fatal);
        alloc::LIMIT.store(alloc::live() + (2 << 30), Ordering::Relaxed);
    }
}
fn answer(shm: &Shm, a: &Ans) {
    let _g = HarnGuard::new();
    shm.put(&serde_json::to_vec(a).expect("answer"));
}
fn ask(r: Result<Vec<u8>, Died>) -> Result<Ans, Died> {
    serde_json::from_slice(&r?).map_err(|_| Died::Silent(92))
}

/// Steps of a call that is not used by the workloads any more.
const DEAR: u64 = 200_000;

/// CPU seconds of one child.
const CPU: u64 = 60;

/// Like `isolated`, a second time with more CPU time if the child ran out of it or was killed from outside.
fn child(shm: &Shm, f: impl Fn(&Shm)) -> Result<Ans, Died> {
    let r = isolated(shm, CPU, |s| {
        child_setup(s);
        f(s)
    });
    match r {
        Err(Died::Signal(libc::SIGXCPU | libc::SIGALRM | libc::SIGKILL)) | Err(Died::Silent(-1)) => ask(isolated(shm, CPU * 4, |s| {
            child_setup(s);
            f(s)
        })),
        r => ask(r),
    }
}

fn digest(ex: &Exec) -> u64 {
    let mut h = 0u64;
    for r in &ex.recs {
        h = rng::mix(h ^ rng::hash_str(&format!("{} {} {} {:?} {}", r.phase, r.tid, r.op, r.out, r.vops)));
    }
    for l in &ex.storage_log {
        h = rng::mix(h ^ rng::hash_str(l));
    }
    rng::mix(h ^ ex.stats.steps ^ rng::mix(ex.stats.sched) ^ rng::mix(ex.stats.sim_ns))
}

// ------------------------------------------------------------------------------------------------ one run

pub struct Env {
    /// isolated outcomes of calls, found so far
    pub expect: BTreeMap<Key, Out>,
    pub refs: u64,
    pub solos: u64,
}

fn reference(q: &Plan, shm: &Shm) -> Result<Ans, Died> {
    child(shm, |s| {
        let ex = exec::execute(q);
        let _g = HarnGuard::new();
        let outs = ex.recs.iter().map(|r| ((r.phase, r.tid, r.op), r.out.clone())).collect();
        answer(s, &Ans::Outs(outs, ex.stats));
    })
}
fn blank_rec(v: Viol) -> RunRec {
    RunRec { viol: Some(v), nontrivial: true, digest: 0, stats: Stats::default(), switches: vec![], log: vec![] }
}
fn died(d: Died, what: &str, allocs_fail: bool) -> Result<RunRec, String> {
    match d {
        Died::Signal(libc::SIGXCPU) | Died::Signal(libc::SIGALRM) => {
            Ok(blank_rec(Viol { kind: "hang".into(), detail: format!("{what} did not end in any reasonable time") }))
        }
        Died::Signal(libc::SIGKILL) => Err(format!("{what}: killed from outside")),
        Died::Signal(libc::SIGABRT | libc::SIGILL) if allocs_fail => {
            // running out of memory may end the process (an allocation error, or a second one while the first unwinds)
            let mut r = blank_rec(Viol { kind: String::new(), detail: String::new() });
            r.viol = None;
            r.nontrivial = false;
            *r.stats.extra.entry("aborted-out-of-memory".into()).or_insert(0) += 1;
            Ok(r)
        }
        Died::Signal(s) => Ok(blank_rec(Viol { kind: "crash".into(), detail: format!("{what} crashed with signal {s}") })),
        Died::Silent(c) => Err(format!("{what}: no answer, exit status {c}")),
    }
}
fn failing_allocs(p: &Plan) -> bool {
    p.phases.iter().flat_map(|x| &x.threads).flatten().any(|o| matches!(o, Op::Call { fail: Some(_), .. } | Op::Load { fail: Some(_), .. }))
}
fn add(a: &mut Stats, b: &Stats) {
    a.ops += b.ops;
    a.calls += b.calls;
    a.fills += b.fills;
    a.steps += b.steps;
    a.preempts += b.preempts;
    a.conflicts += b.conflicts;
    a.newedges += b.newedges;
    a.futex_waits += b.futex_waits;
    a.stalls += b.stalls;
    a.sim_ns += b.sim_ns;
    a.injected_allocs += b.injected_allocs;
    a.panics += b.panics;
    a.storage_ops += b.storage_ops;
    a.rand_calls += b.rand_calls;
    a.clock_calls += b.clock_calls;
    a.threads += b.threads;
    a.loads_ok += b.loads_ok;
    a.loads_err += b.loads_err;
    for (k, v) in &b.fired {
        *a.fired.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &b.extra {
        *a.extra.entry(k.clone()).or_insert(0) += v;
    }
}

pub fn eval(p: &Plan, env: &mut Env, shm: &Shm) -> Result<RunRec, String> {
    if p.prop == "C12" {
        return match multi::run(p, shm, CPU) {
            Ok(o) => Ok(RunRec {
                viol: o.verdict.viol,
                nontrivial: o.verdict.nontrivial,
                digest: o.digest,
                stats: o.stats,
                switches: vec![],
                log: vec![],
            }),
            Err(d) => died(d, "a saving or restoring process", false),
        };
    }
    let mut refs: RefOuts = vec![];
    let mut rstats = Stats::default();
    for (i, q) in props::references(p).iter().enumerate() {
        env.refs += 1;
        let what = if p.prop == "C13" { format!("replica {i}") } else { format!("undisturbed run {i}") };
        match reference(q, shm) {
            Ok(Ans::Outs(o, s)) => {
                refs.push(o);
                add(&mut rstats, &s);
            }
            Ok(Ans::Fatal(v, _)) => return Ok(blank_rec(Viol { kind: v.kind, detail: format!("{what}: {}", v.detail) })),
            Ok(_) => return Err(format!("{what}: wrong answer")),
            Err(d) => return died(d, &what, false),
        }
    }
    let mut expect = BTreeMap::new();
    for k in props::needed(p) {
        if p.prop == "C13" {
            break;
        }
        if !env.expect.contains_key(&k) {
            env.solos += 1;
            let o = match child(shm, |s| answer(s, &Ans::Solo(exec::solo(&k.0, &p.texts, &k.1)))) {
                Ok(Ans::Solo(o)) => o,
                Ok(_) => Out::Skip,
                Err(Died::Signal(_)) => Out::Skip,
                Err(d) => return Err(format!("{k:?} alone: {d:?}")),
            };
            env.expect.insert(k.clone(), o);
        }
        let o = env.expect[&k].clone();
        if o != Out::Skip {
            expect.insert(k, o);
        }
    }
    if p.prop == "C13" {
        let ex = Exec {
            recs: vec![],
            ends: vec![],
            stats: rstats,
            switches: vec![],
            mutations: vec![],
            outside: vec![],
            open_handles: 0,
            storage_log: vec![],
        };
        let v = props::check(p, &refs, &expect, &ex);
        let d = rng::hash_str(&format!("{refs:?}"));
        return Ok(RunRec { viol: v.viol, nontrivial: v.nontrivial, digest: d, stats: ex.stats, switches: vec![], log: vec![] });
    }
    let r = child(shm, |s| {
        let ex = exec::execute(p);
        let _g = HarnGuard::new();
        let v = props::check(p, &refs, &expect, &ex);
        let bad = v.viol.is_some();
        let rec = RunRec {
            digest: digest(&ex),
            viol: v.viol,
            nontrivial: v.nontrivial,
            stats: ex.stats,
            switches: if bad || p.idx == u64::MAX { ex.switches } else { vec![] },
            log: if bad { ex.storage_log } else { vec![] },
        };
        answer(s, &Ans::Run(rec));
    });
    match r {
        Ok(Ans::Run(r)) => Ok(r),
        Ok(Ans::Fatal(v, sw)) => {
            let mut r = blank_rec(v);
            r.switches = sw;
            Ok(r)
        }
        Ok(_) => Err("wrong answer".into()),
        Err(d) => died(d, "the run", failing_allocs(p)),
    }
}

// ------------------------------------------------------------------------------------------------ many runs

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    stats: Stats,
    keys: Vec<u64>,
    scheds: Vec<u64>,
    kinds: BTreeMap<String, u64>,
    refs: u64,
    solos: u64,
    viol: Option<(u64, Plan, RunRec)>,
    error: Option<String>,
    digests: Vec<(u64, u64)>,
    samples: Vec<String>,
    cut: bool,
    /// most steps of a run, in thousandths of the cap; the run
    tight: (u64, u64),
}

/// Runs f in n forked processes; their answers.
fn parallel(n: usize, f: impl Fn(usize) -> Vec<u8>) -> Vec<Option<Vec<u8>>> {
    let shms: Vec<Shm> = (0..n).map(|_| Shm::new(1 << 28)).collect();
    let mut pids = vec![];
    for (i, s) in shms.iter().enumerate() {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            proc::pin(i);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
            if let Ok(b) = r {
                s.put(&b);
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {} };
    }
    shms.iter().map(|s| s.get()).collect()
}

pub fn load_cc() -> DirSpec {
    let mut d = DirSpec::default();
    for e in std::fs::read_dir("/repo/test_assets/cc-rules").expect("cc-rules") {
        let e = e.expect("cc-rules");
        let b = std::fs::read(e.path()).expect("cc-rules");
        d.entries.insert(e.file_name().to_string_lossy().to_string(), Node::File(Bytes(b)));
    }
    d
}

fn make_ctx(a: &Args, prop: &str) -> Ctx {
    let n = props::needs(prop);
    unsafe {
        exec::CC_DIR = Some(load_cc());
    }
    let mut ctx = Ctx {
        prop: prop.into(),
        seed: a.seed,
        thorough: a.thorough,
        texts: vec![],
        pool: vec![],
        expect: Default::default(),
        cc: None,
    };
    let files = crate::gen::files_of(&DirSpec { base: Some("cc".into()), ..Default::default() });
    ctx.cc = model::load(&mut files.clone()).ok().map(std::sync::Arc::new);
    alloc::init();
    if !props::cold(prop) {
        if n.cc {
            exec::preload_cc();
        }
        if n.embedded {
            exec::preload_embedded();
        }
    }
    props::make_pool(&mut ctx, &n);
    // outcomes of the pool's calls, each alone in a process of its own
    let keys: Vec<Key> = ctx.pool.iter().flat_map(|(e, c)| c.iter().map(move |c| (e.clone(), c.clone()))).collect();
    if !keys.is_empty() && a.replay.is_none() {
        let texts = ctx.texts.clone();
        let parts = parallel(a.workers, |w| {
            let shm = Shm::new(1 << 26);
            let mut v: Vec<(usize, Out, u64)> = vec![];
            for i in (w..keys.len()).step_by(a.workers) {
                let k = &keys[i];
                if let Ok(Ans::Priced(o, steps)) = child(&shm, |s| {
                    let before = unsafe { rt::SOLO_STEPS };
                    let o = exec::solo(&k.0, &texts, &k.1);
                    answer(s, &Ans::Priced(o, unsafe { rt::SOLO_STEPS } - before))
                }) {
                    v.push((i, o, steps));
                }
            }
            serde_json::to_vec(&v).unwrap()
        });
        let mut expect = BTreeMap::new();
        for p in parts.into_iter().flatten() {
            let v: Vec<(usize, Out, u64)> = serde_json::from_slice(&p).unwrap_or_default();
            for (i, o, steps) in v {
                if a.prices {
                    println!("{steps} {:?}", keys[i]);
                }
                if steps <= DEAR || crate::gen::is_bm(&keys[i].0) && steps <= 20 * DEAR {
                    expect.insert(keys[i].clone(), o);
                }
            }
        }
        // calls too dear to be repeated many times tell no more than cheap ones
        for (e, c) in &mut ctx.pool {
            c.retain(|c| expect.contains_key(&(e.clone(), c.clone())));
        }
        ctx.expect = std::sync::Arc::new(expect);
        ctx.pool.retain(|x| !x.1.is_empty());
    }
    ctx
}

fn plan_key(p: &Plan, sched: u64) -> u64 {
    let mut q = p.clone();
    q.seed = 0;
    q.idx = 0;
    rng::mix(rng::hash_bytes(&serde_json::to_vec(&q).unwrap_or_default()) ^ sched)
}

fn sample(p: &Plan, r: &RunRec) -> String {
    let mut q = p.clone();
    // file contents would drown the rest
    let dirs: Vec<String> = q
        .dirs
        .iter()
        .map(|d| {
            let e = exec::resolve(d);
            let n: usize = e.entries.values().map(|n| if let Node::File(b) = n { b.0.len() } else { 0 }).sum();
            format!("{} entries, {n} bytes, order {}, max_read {}", e.entries.len(), d.order, d.max_read)
        })
        .collect();
    q.dirs = vec![];
    q.texts = q.texts.iter().map(|t| t.chars().take(60).collect()).collect();
    let mut s = serde_json::to_string(&q).unwrap_or_default();
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    format!("run {} ({}): dirs {dirs:?}, {} steps, {} preemptions, fired {:?}; plan {s}", p.idx, p.kind, r.stats.steps, r.stats.preempts, r.stats.fired)
}

pub fn main(a: Args) -> i32 {
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
    alloc::install_hook();
    std::panic::set_hook(Box::new(|i| unsafe {
        // panics of the code under test are outcomes; those of the simulator are errors
        if !rt::active() || std::env::var("RPH_PANICS").is_ok() {
            rt::HARN += 1;
            eprintln!("{i}");
            rt::HARN -= 1;
        }
    }));
    if let Some(f) = &a.replay {
        return replay(&a, f);
    }
    let t0 = Instant::now();
    rt::make_shared_edges();
    let ctx = make_ctx(&a, &a.prop);
    let setup = t0.elapsed().as_secs_f64();
    let n = props::needs(&a.prop);
    let runs = a.runs.unwrap_or(if a.thorough { n.runs.1 } else { n.runs.0 });
    let wall = a.wall.unwrap_or(if a.thorough { 2400 } else { 420 });
    let ctl = Shm::new(4096);
    let least = unsafe { &*(ctl.word() as *const AtomicI64) };
    least.store(i64::MAX, Ordering::SeqCst);
    let nw = a.workers;
    let parts = parallel(nw, |w| {
        let shm = Shm::new(1 << 28);
        let mut env = Env { expect: (*ctx.expect).clone(), refs: 0, solos: 0 };
        let mut o = WorkerOut::default();
        let mut scheds = BTreeSet::new();
        let mut idx = a.from + w as u64;
        while idx < a.from + runs {
            if idx as i64 > least.load(Ordering::SeqCst) {
                break;
            }
            if t0.elapsed().as_secs() > wall {
                o.cut = true;
                break;
            }
            let p = props::gen(&ctx, idx);
            if a.show {
                eprintln!("{idx} {}", p.kind);
            }
            match eval(&p, &mut env, &shm) {
                Ok(r) => {
                    o.runs += 1;
                    *o.kinds.entry(p.kind.split('+').next().unwrap_or("").to_string()).or_insert(0) += 1;
                    add(&mut o.stats, &r.stats);
                    o.tight = o.tight.max((r.stats.peak.saturating_mul(1000) / p.cap.max(1), idx));
                    if r.nontrivial {
                        o.nontrivial += 1;
                        o.keys.push(plan_key(&p, r.stats.sched));
                        if o.samples.is_empty() && idx >= a.from + nw as u64 {
                            o.samples.push(sample(&p, &r));
                        }
                    }
                    if r.stats.preempts > 0 {
                        scheds.insert(r.stats.sched);
                    }
                    if a.digests.is_some() {
                        o.digests.push((idx, r.digest));
                    }
                    if r.viol.is_some() {
                        least.fetch_min(idx as i64, Ordering::SeqCst);
                        o.viol = Some((idx, p, r));
                        break;
                    }
                }
                Err(e) => {
                    o.error = Some(format!("run {idx} ({}): {e}", p.kind));
                    least.fetch_min(idx as i64, Ordering::SeqCst);
                    break;
                }
            }
            idx += nw as u64;
        }
        o.refs = env.refs;
        o.solos = env.solos;
        o.scheds = scheds.into_iter().collect();
        serde_json::to_vec(&o).unwrap()
    });
    let mut tot = WorkerOut::default();
    let mut keys = BTreeSet::new();
    let mut scheds = BTreeSet::new();
    let mut digests = vec![];
    for (w, p) in parts.into_iter().enumerate() {
        let o: WorkerOut = match p.and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(o) => o,
            None => {
                eprintln!("worker {w} gave no answer");
                return 2;
            }
        };
        tot.runs += o.runs;
        tot.nontrivial += o.nontrivial;
        tot.refs += o.refs;
        tot.solos += o.solos;
        tot.cut |= o.cut;
        add(&mut tot.stats, &o.stats);
        tot.tight = tot.tight.max(o.tight);
        keys.extend(o.keys);
        scheds.extend(o.scheds);
        for (k, v) in o.kinds {
            *tot.kinds.entry(k).or_insert(0) += v;
        }
        digests.extend(o.digests);
        if tot.samples.len() < 3 {
            tot.samples.extend(o.samples);
        }
        if let Some(e) = o.error {
            tot.error = Some(e);
        }
        if let Some(v) = o.viol {
            if tot.viol.as_ref().map_or(true, |x| v.0 < x.0) {
                tot.viol = Some(v);
            }
        }
    }
    let search = t0.elapsed().as_secs_f64() - setup;
    if let Some(f) = &a.digests {
        digests.sort();
        let s: String = digests.iter().map(|d| format!("{} {:016x}\n", d.0, d.1)).collect();
        let _ = std::fs::write(f, s);
    }
    let mut code = 0;
    let mut found = None;
    if let Some((idx, p, r)) = tot.viol.take() {
        let (p, r, how) = minimise(&a, &ctx, p, r);
        let v = r.viol.clone().unwrap();
        let file = format!("{}/replay/{}-{}-{}.json", a.out, a.prop, a.seed, idx);
        let _ = std::fs::create_dir_all(format!("{}/replay", a.out));
        write_replay(&file, &a, idx, &p, &r);
        let again = confirm(&file);
        println!("{}: run {idx} of seed {} ({}): {}: {}", a.prop, a.seed, p.kind, v.kind, one_line(&v.detail));
        println!("minimised: {how}; replayed in a fresh process: {}", if again { "same violation" } else { "NOT reproduced" });
        println!("VIOLATION property={} replay={}", a.prop, file);
        found = Some(file);
        code = 1;
    } else if let Some(e) = &tot.error {
        eprintln!("error of the check: {e}");
        return 2;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let st = &tot.stats;
    let mut fired = st.fired.clone();
    for (k, v) in [
        ("thread stalled for ever", st.stalls),
        ("allocation failed", st.injected_allocs),
        ("call ended by panic", st.panics),
        ("preemption", st.preempts),
    ] {
        if v > 0 {
            fired.insert(k.into(), v);
        }
    }
    let ev = serde_json::json!({
        "property": a.prop,
        "tier": if a.thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": keys.len(),
            "rule": rule(&a.prop),
            "samples": tot.samples,
            "kinds_of_runs": tot.kinds,
            "undisturbed_reference_runs": tot.refs,
            "calls_evaluated_alone_in_a_fresh_process": tot.solos + ctx.expect.len() as u64,
            "runs_per_hour": (tot.runs as f64 / search.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (tot.runs as f64 / search.max(0.001) * 3600.0) as u64,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "operations": st.ops,
            "verified_calls": st.calls,
            "filler_calls": st.fills,
            "scheduler_steps": st.steps,
            "most_steps_of_a_run_in_percent_of_its_cap": tot.tight.0 as f64 / 10.0,
            "simulated_threads": st.threads,
            "faults_injected": fired,
            "accesses_to_memory_shared_between_threads": st.conflicts,
            "first_executions_of_code_by_threads": st.newedges,
            "futex_waits": st.futex_waits,
            "storage_operations": st.storage_ops,
            "random_numbers_served": st.rand_calls,
            "clock_readings_served": st.clock_calls,
            "loads": { "succeeded": st.loads_ok, "failed": st.loads_err },
            "distinct_interleavings": scheds.len(),
            "basic_blocks_reached": rt::shared_edge_count(),
            "basic_blocks_instrumented": unsafe { rt::GUARDS },
            "other": st.extra,
            "real_code": ["rphonetic (all of it, instrumented)", "regex, regex-automata, lazy_static, either (instrumented)", "nom, serde, thiserror", "the Rust standard library"],
            "stubs": ["storage (in-memory file system below libc)", "clock", "getrandom", "scheduling (one thread at a time, chosen by the simulator)", "futex", "heap (counting, failing on command)"],
            "stopped_by_time_limit": tot.cut,
            "replay": found,
        },
        "assumptions": assumptions(&a.prop),
        "wall_s": wall_s,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", a.out));
    let f = format!("{}/evidence/{}.json", a.out, a.prop);
    if std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write {f}");
        return 2;
    }
    if !a.quiet {
        println!(
            "{}: {} runs ({} non-trivial, {} distinct), {} reference runs, {} calls alone, {:.1}G steps, {} preemptions, {} blocks; set-up {:.1} s, search {:.1} s, at most {:.1} % of the step cap (run {}){}",
            a.prop,
            tot.runs,
            tot.nontrivial,
            keys.len(),
            tot.refs,
            tot.solos + ctx.expect.len() as u64,
            st.steps as f64 / 1e9,
            st.preempts,
            rt::shared_edge_count(),
            setup,
            search,
            tot.tight.0 as f64 / 10.0,
            tot.tight.1,
            if tot.cut { " (stopped by the time limit)" } else { "" }
        );
        println!("{}: kinds {:?}", a.prop, tot.kinds);
        println!("{}: faults {:?} extra {:?} loads {}/{}", a.prop, fired, st.extra, st.loads_ok, st.loads_err);
    }
    code
}

// ------------------------------------------------------------------------------------------------ replay

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    violation: Viol,
    plan: Plan,
    storage_trace: Vec<String>,
}

fn write_replay(file: &str, a: &Args, idx: u64, p: &Plan, r: &RunRec) {
    let rp = Replay {
        property: a.prop.clone(),
        seed: a.seed,
        run: idx,
        violation: r.viol.clone().unwrap(),
        plan: p.clone(),
        storage_trace: r.log.clone(),
    };
    let _ = std::fs::write(file, serde_json::to_string_pretty(&rp).unwrap());
}
fn confirm(file: &str) -> bool {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return false,
    };
    matches!(
        std::process::Command::new(exe).args(["--replay", file]).stdout(std::process::Stdio::null()).status(),
        Ok(s) if s.code() == Some(1)
    )
}
fn replay(a: &Args, file: &str) -> i32 {
    let rp: Replay = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let _ = make_ctx(a, &rp.property);
    proc::pin(0);
    let shm = Shm::new(1 << 28);
    let mut env = Env { expect: BTreeMap::new(), refs: 0, solos: 0 };
    match eval(&rp.plan, &mut env, &shm) {
        Ok(r) => {
            if a.show {
                eprintln!("steps {} preemptions {} digest {:016x} switches {:?}", r.stats.steps, r.stats.preempts, r.digest, r.switches);
            }
            match r.viol {
            Some(v) if v.kind == rp.violation.kind => {
                println!("{}: {}: {}", rp.property, v.kind, one_line(&v.detail));
                if v != rp.violation {
                    println!("(recorded: {})", one_line(&rp.violation.detail));
                }
                println!("VIOLATION property={} replay={file}", rp.property);
                1
            }
            Some(v) => {
                println!("{}: another violation: {}: {}", rp.property, v.kind, one_line(&v.detail));
                3
            }
            None => {
                println!("{}: no violation", rp.property);
                0
            }
            }
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

// ------------------------------------------------------------------------------------------------ minimisation

struct Mini<'a> {
    env: Env,
    shm: Shm,
    end: Instant,
    kind: String,
    tries: u64,
    best: (Plan, RunRec),
    _c: &'a Ctx,
}
impl Mini<'_> {
    fn over(&self) -> bool {
        Instant::now() >= self.end
    }
    /// Keeps the candidate if it fails in the same way.
    fn test(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best.0 {
            return false;
        }
        self.tries += 1;
        match eval(&p, &mut self.env, &self.shm) {
            Ok(r) if r.viol.as_ref().map_or(false, |v| v.kind == self.kind) => {
                self.best = (p, r);
                true
            }
            _ => false,
        }
    }
    /// Removes as many elements as possible of a list inside the plan.
    fn ddmin<T: Clone>(&mut self, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
        let mut chunk = get(&self.best.0).len().div_ceil(2);
        while chunk > 0 {
            let mut at = 0;
            while at < get(&self.best.0).len() {
                if self.over() {
                    return;
                }
                let mut l = get(&self.best.0);
                let to = (at + chunk).min(l.len());
                l.drain(at..to);
                let mut p = self.best.0.clone();
                set(&mut p, l);
                if !self.test(p) {
                    at += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    fn try_with(&mut self, f: impl Fn(&mut Plan)) -> bool {
        let mut p = self.best.0.clone();
        f(&mut p);
        self.test(p)
    }
}

fn minimise(a: &Args, ctx: &Ctx, p: Plan, r: RunRec) -> (Plan, RunRec, String) {
    proc::pin(0);
    let budget = if a.thorough { 180 } else { 60 };
    let mut m = Mini {
        env: Env { expect: (*ctx.expect).clone(), refs: 0, solos: 0 },
        shm: Shm::new(1 << 28),
        end: Instant::now() + std::time::Duration::from_secs(budget),
        kind: r.viol.as_ref().unwrap().kind.clone(),
        tries: 0,
        best: (p.clone(), r.clone()),
        _c: ctx,
    };
    let size0 = serde_json::to_vec(&p).map(|v| v.len()).unwrap_or(0);
    // schedules: none at all first
    for round in 0..2 {
        m.ddmin(|p| p.faults.clone(), |p, l| p.faults = l);
        m.try_with(|p| p.window = None);
        m.ddmin(|p| p.snaps.clone(), |p, l| p.snaps = l);
        m.ddmin(|p| p.replicas.clone(), |p, l| p.replicas = l);
        for i in 0..m.best.0.snaps.len() {
            m.ddmin(|p| p.snaps[i].versions.clone(), move |p, l| {
                if !l.is_empty() {
                    p.snaps[i].versions = l
                }
            });
            m.try_with(|p| p.snaps[i].generations = 1);
        }
        m.ddmin(|p| p.phases.clone(), |p, l| p.phases = l);
        for i in 0..m.best.0.phases.len() {
            m.ddmin(|p| p.phases[i].stalls.clone(), |p, l| p.phases[i].stalls = l);
            for t in 0..m.best.0.phases[i].threads.len() {
                m.try_with(|p| p.phases[i].threads[t].clear());
            }
            for t in 0..m.best.0.phases[i].threads.len() {
                m.ddmin(|p| p.phases[i].threads[t].clone(), |p, l| p.phases[i].threads[t] = l);
                for o in 0..m.best.0.phases[i].threads[t].len() {
                    for _ in 0..12 {
                        let ok = m.try_with(|p| {
                            if let Op::Fill { n, .. } | Op::Again { n, .. } = &mut p.phases[i].threads[t][o] {
                                *n /= 2;
                            }
                        });
                        if !ok {
                            break;
                        }
                    }
                }
            }
        }
        for i in 0..m.best.0.probes.len() {
            m.ddmin(|p| p.probes[i].clone(), |p, l| p.probes[i] = l);
        }
        for i in 0..m.best.0.dm_probes.len() {
            m.ddmin(|p| p.dm_probes[i].clone(), |p, l| p.dm_probes[i] = l);
        }
        m.try_with(|p| p.knobs = Knobs::default());
        for i in 0..m.best.0.replicas.len() {
            m.try_with(|p| p.replicas[i].warm = 0);
            m.try_with(|p| p.replicas[i].loads_before = 0);
            m.try_with(|p| p.replicas[i].knobs = Knobs::default());
            m.try_with(|p| p.replicas[i].shuffle = 0);
            m.try_with(|p| {
                let x = &mut p.replicas[i];
                x.order = 0;
                x.max_read = 0;
                x.no_dtype = false;
                x.spell = 0;
            });
        }
        for d in 0..m.best.0.dirs.len() {
            m.try_with(|p| {
                let x = &mut p.dirs[d];
                x.max_read = 0;
                x.size_lie = 0;
                x.stamp = 0;
                x.no_dtype = false;
            });
            m.try_with(|p| p.dirs[d].order = 0);
            let names: Vec<String> = m.best.0.dirs[d].entries.keys().cloned().collect();
            for n in &names {
                m.try_with(|p| {
                    p.dirs[d].entries.remove(n);
                });
            }
            for n in &names {
                let lines = |p: &Plan| -> Vec<Vec<u8>> {
                    match p.dirs[d].entries.get(n) {
                        Some(Node::File(b)) if b.0.len() < 20_000 => b.0.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect(),
                        _ => vec![],
                    }
                };
                m.ddmin(lines, |p, l| {
                    p.dirs[d].entries.insert(n.clone(), Node::File(Bytes(l.concat())));
                });
            }
        }
        if m.best.0.encs.iter().all(|e| !matches!(e, EncSpec::Dm(Some(_), _))) {
            for t in 0..m.best.0.texts.len() {
                m.ddmin(
                    |p| p.texts[t].split_inclusive('\n').map(|s| s.to_string()).collect::<Vec<_>>(),
                    |p, l| p.texts[t] = l.concat(),
                );
            }
        }
        if round == 0 {
            // simpler inputs
            for i in 0..m.best.0.phases.len() {
                for t in 0..m.best.0.phases[i].threads.len() {
                    for o in 0..m.best.0.phases[i].threads[t].len() {
                        if let Op::Call { call: Call::Encode(s), .. } = m.best.0.phases[i].threads[t][o].clone() {
                            if s.chars().count() > 12 {
                                continue;
                            }
                            m.ddmin(
                                |p| match &p.phases[i].threads[t][o] {
                                    Op::Call { call: Call::Encode(s), .. } => s.chars().collect::<Vec<_>>(),
                                    _ => vec![],
                                },
                                |p, l| {
                                    if let Op::Call { call: Call::Encode(s), .. } = &mut p.phases[i].threads[t][o] {
                                        *s = l.into_iter().collect();
                                    }
                                },
                            );
                        }
                    }
                }
            }
        }
        if m.over() {
            break;
        }
    }
    // the schedule: exactly the switches that matter
    let scheduled = m.best.0.phases.iter().any(|x| matches!(x.sched, Some(SchedPlan::Explore { .. })));
    if scheduled && !m.best.1.switches.is_empty() {
        m.end = m.end.max(Instant::now() + std::time::Duration::from_secs(20));
        let q = exec::explicit(&m.best.0, &m.best.1.switches);
        if m.test(q) {
            for i in 0..m.best.0.phases.len() {
                let get = |p: &Plan| match &p.phases[i].sched {
                    Some(SchedPlan::Explicit { switches }) => switches.clone(),
                    _ => vec![],
                };
                m.ddmin(get, |p, l| p.phases[i].sched = Some(SchedPlan::Explicit { switches: l }));
            }
        }
    }
    let size1 = serde_json::to_vec(&m.best.0).map(|v| v.len()).unwrap_or(0);
    let how = format!("{} attempts, plan of {} bytes from {} bytes", m.tries, size1, size0);
    (m.best.0, m.best.1, how)
}

// ------------------------------------------------------------------------------------------------ texts

fn rule(p: &str) -> String {
    let s = match p {
        "C01" => "A run builds a simulated rule directory (generated or the commons-codec rules), loads it while the plan's storage faults (errno, failed or vanished entries, failing windows, failed listings, unreadable files) fire, also in several threads at once, and compares the codes of probes with an undisturbed load in a fresh process. Non-trivial: at least one fault fired.",
        "C02" => "A run loads a well-formed simulated directory in a harmless but unusual way (listing order, split and interrupted reads, wrong sizes, missing entry types, other spellings of the path, other files beside the rules, other threads) and compares with a plain load in a fresh process. Every run counts.",
        "C03" => "A run makes a history of loads and builds of several directories and texts (twins, broken ones, repaired ones; sequential and concurrent under a seeded schedule; with storage faults and failing allocations) and compares each with the same load alone in a fresh process. Non-trivial: more than one load, or interleaved threads.",
        "C04" => "A run loads a directory, then breaks, removes, damages or exchanges the storage, and encodes (also from several threads); every storage operation made by an encoding is a violation and codes are compared with an undisturbed process. Every run counts.",
        "C05" => "A run loads a directory under faults, damage, include cycles, chains and diamonds, and counts handles, storage operations, attempted modifications and heap bytes left. Every run counts.",
        "C06" => "A run loads files or builds from text with one bad line (or torn text) and compares the location in the error with the one an independent reading of the text gives. Non-trivial: the error carries a location or must.",
        "C07" => "A run loads files as a disk could hand them back (torn, truncated, zero-filled, bit-flipped, duplicated, stale, misdirected, changed while read) or builds from such text and compares acceptance and codes with an independent model of the rule language. Every run counts.",
        "C08" => "A run lets 2-6 simulated threads encode through shared, cloned and fresh encoders under a seeded schedule that preempts inside calls; every result is compared with the same call alone in a fresh process. Non-trivial: at least one preemption or wait.",
        "C09" => "A run starts in a process in which no code of the library has run and lets 2-6 simulated threads make the first calls and loads under a seeded schedule; results are compared with the same call alone in a fresh process. Non-trivial: at least one preemption or wait.",
        "C10" => "A run makes a history of calls (other inputs, other settings, many distinct inputs, panicking calls, calls cut short by a failed allocation, rebuilt encoders, short-lived threads, clock jumps) and compares results with the same call alone in a fresh process. Non-trivial: more than one operation.",
        "C11" => "A run stalls a thread for ever in the middle of a call or load (or in a storage operation that hangs, or lets it die by a panic) and requires all others, and newcomers, to finish within a step bound. Non-trivial: a stall, a wait or a preemption happened.",
        "C12" => "A run saves versions of values in one simulated process, lets the crash tear the file, and restores them in later processes over several generations and formats. Every run counts.",
        "C13" => "A run lets 2-4 processes with different hash keys, layouts, clocks, directory listings, work orders and previous work load the same rules and compute the same codes. Every run with at least two replicas counts.",
        "C14" => "A run repeats the same kind of work (distinct inputs, short-lived threads, panics, failed allocations, loads, failed loads, builds, clones) in rounds and measures the live heap after each. Every run counts.",
        _ => "",
    };
    format!("{s} Two runs are distinct if their plans (everything but seed and number) or the schedules taken differ.")
}
fn assumptions(_p: &str) -> Vec<String> {
    vec![
        "Sequentially consistent memory: one simulated thread runs at a time, so weak-memory effects are not explored.".into(),
        "Preemption points are the basic blocks, loads and stores of rphonetic, regex, regex-automata, lazy_static and either, and system calls; code of the standard library and of the other dependencies runs without preemption inside.".into(),
        "The library is compiled for x86-64 Linux with debug assertions, features embedded_bm and embedded_dm.".into(),
    ]
}

/// Without line ends and other control characters, for the terminal.
fn one_line(s: &str) -> String {
    let mut t = String::new();
    for c in s.chars() {
        if c.is_control() {
            t.extend(c.escape_default());
        } else {
            t.push(c);
        }
    }
    t
}
