//! The properties: for each, how a seed becomes a plan (workload, faults, schedule), which undisturbed runs it is
//! compared with, and the oracle.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use crate::exec::{self, Exec, Out, Rec};
use crate::gen;
use crate::model::{self, Bm, Config, Ls, MErr, NT};
use crate::plan::*;
use crate::rng::Rng;
use crate::rt::{End, SchedPlan};
use crate::vfs::{Act, Bytes, Change, DirSpec, Fault, Node};

pub type Key = (EncSpec, Call);

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub texts: Vec<String>,
    pub pool: Vec<(EncSpec, Vec<Call>)>,
    /// what each call of the pool gives alone in a fresh process
    pub expect: Arc<BTreeMap<Key, Out>>,
    pub cc: Option<Arc<Config>>,
}
/// The same with few calls of each encoder, so that calls come again within one run.
fn focus(ctx: &Ctx, r: &mut Rng) -> Ctx {
    let few = r.logu(16) as usize + 1;
    let at = r.below(1000);
    let odd = r.chance(1, 2);
    let pool = ctx
        .pool
        .iter()
        .map(|(e, c)| {
            let (names, last): (Vec<&Call>, Vec<&Call>) = c.iter().partition(|c| !matches!(c, Call::Encode(s) if PANIC.contains(&s.as_str())));
            let n = names.len();
            let mut v: Vec<Call> = (0..few.min(n)).map(|k| names[(at + k) % n].clone()).collect();
            if odd || v.is_empty() {
                v.extend(last.into_iter().cloned());
            }
            (e.clone(), v)
        })
        .collect();
    Ctx {
        prop: ctx.prop.clone(),
        seed: ctx.seed,
        thorough: ctx.thorough,
        texts: ctx.texts.clone(),
        pool,
        expect: ctx.expect.clone(),
        cc: ctx.cc.clone(),
    }
}
/// Strings on which this or that encoder panics.
const PANIC: &[&str] = &["é", "éa", "aé", "日本", "ß1"];

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Viol {
    pub kind: String,
    pub detail: String,
}
fn viol(kind: &str, detail: String) -> Option<Viol> {
    Some(Viol { kind: kind.into(), detail })
}

#[derive(Default)]
pub struct Needs {
    pub cc: bool,
    pub embedded: bool,
    /// calls per encoder in the pool; 0: none
    pub pool: usize,
    pub runs: (u64, u64),
}
pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
];
pub fn needs(p: &str) -> Needs {
    // quick runs, thorough runs
    match p {
        "C01" => Needs { runs: (10_000, 200_000), ..Default::default() },
        "C02" => Needs { runs: (8000, 150_000), ..Default::default() },
        "C03" => Needs { runs: (3000, 60_000), ..Default::default() },
        "C04" => Needs { embedded: false, pool: 30, runs: (4000, 60_000), ..Default::default() },
        "C05" => Needs { runs: (4000, 150_000), ..Default::default() },
        "C06" => Needs { runs: (20_000, 300_000), ..Default::default() },
        "C07" => Needs { runs: (16_000, 300_000), ..Default::default() },
        "C08" => Needs { cc: true, embedded: true, pool: 150, runs: (12_000, 150_000) },
        "C09" => Needs { pool: 30, runs: (6000, 100_000), ..Default::default() },
        "C10" => Needs { cc: true, embedded: true, pool: 150, runs: (20_000, 300_000) },
        "C11" => Needs { cc: true, embedded: true, pool: 80, runs: (4000, 150_000) },
        "C12" => Needs { runs: (25_000, 100_000), ..Default::default() },
        "C13" => Needs { runs: (1500, 20_000), pool: 0, ..Default::default() },
        "C14" => Needs { cc: true, embedded: true, pool: 40, runs: (600, 10_000) },
        _ => Needs::default(),
    }
}
pub fn cold(p: &str) -> bool {
    matches!(p, "C09" | "C13" | "C12")
}

// ------------------------------------------------------------------------------------------------ pool

pub fn make_pool(ctx: &mut Ctx, n: &Needs) {
    let mut r = Rng::derive(ctx.seed, "pool", rhash(&ctx.prop));
    while ctx.texts.len() < 3 {
        let t = gen::dm_text(&mut r);
        if model::dm_load(&t, true).is_ok() {
            ctx.texts.push(t);
        }
    }
    if n.pool == 0 {
        return;
    }
    let mut cfgs = vec![];
    if n.cc {
        cfgs.push(Cfg::Cc);
    }
    cfgs.push(Cfg::Embedded);
    let encs = gen::all_encs(&mut r, ctx.texts.len(), &cfgs);
    let base: Vec<String> = (0..n.pool * 2).map(|_| gen::input(&mut r)).collect();
    for e in encs {
        let bm = gen::is_bm(&e);
        let mut calls: Vec<Call> = vec![];
        let d = std::mem::discriminant(&e);
        let kin: Vec<Call> = ctx.pool.iter().rev().find(|x| std::mem::discriminant(&x.0) == d).map(|x| x.1.clone()).unwrap_or_default();
        for k in 0..n.pool {
            let a = match k % 8 {
                0..=3 => r.pick(&base).clone(),
                4 | 5 => {
                    let b = r.pick(&base).clone();
                    gen::near(&mut r, &b)
                }
                6 if !bm => gen::long_input(&mut r),
                _ => gen::input(&mut r),
            };
            let mut b = if r.chance(1, 2) { gen::near(&mut r, &a) } else { r.pick(&base).clone() };
            let mut a = a;
            if bm {
                if r.chance(1, 6) {
                    a = gen::prefixed(&mut r);
                }
                a = gen::truncate_chars(&a, 14);
                b = gen::truncate_chars(&b, 10);
            }
            let mut c = gen::call_for(&mut r, &e, a, b);
            // other settings, the same words
            if r.chance(1, 2) {
                match kin.get(k) {
                    Some(Call::Langs(..)) | None => {}
                    Some(x) => c = x.clone(),
                }
            }
            if !calls.contains(&c) {
                calls.push(c);
            }
        }
        for s in PANIC {
            calls.push(Call::Encode(s.to_string()));
        }
        ctx.pool.push((e, calls));
    }
}
fn rhash(s: &str) -> u64 {
    crate::rng::hash_str(s)
}

// ------------------------------------------------------------------------------------------------ plans

fn blank(ctx: &Ctx, idx: u64, kind: &str) -> Plan {
    Plan {
        prop: ctx.prop.clone(),
        seed: ctx.seed,
        idx,
        kind: kind.into(),
        dirs: vec![],
        texts: vec![],
        encs: vec![],
        probes: vec![],
        dm_probes: vec![],
        faults: vec![],
        changes: vec![],
        window: None,
        knobs: Knobs::default(),
        replicas: vec![],
        phases: vec![],
        snaps: vec![],
        cap: 2_000_000_000,
        cold: cold(&ctx.prop),
    }
}
fn main_phase(ops: Vec<Op>) -> Phase {
    Phase { threads: vec![ops], sched: None, stalls: vec![] }
}
/// A schedule: slice lengths from single steps to whole calls, a window of fine interleaving, preemption at accesses
/// to shared memory and in code that runs for the first time.
pub fn sched(r: &mut Rng) -> SchedPlan {
    if r.chance(1, 3) {
        // few preemptions, in code that is seldom executed or at shared memory, after which the thread stays off for long
        return SchedPlan::Explore {
            seed: r.next() >> 12,
            mean: if r.chance(1, 3) { 200_000 } else { 0 },
            fine: 0,
            fine_at: 0,
            fine_len: 0,
            conflict: if r.chance(1, 3) { *r.pick(&[1, 8, 32]) } else { 0 },
            newedge: *r.pick(&[1, 1, 2, 4, 8, 20]),
            rare: r.logu(60) as u8,
            starve: *r.pick(&[32, 64]),
        };
    }
    let mean = match r.below(6) {
        0 => 0,
        1 => r.logu(60),
        2 | 3 => r.logu(3000),
        _ => r.logu(100_000),
    };
    let fine = if r.chance(1, 3) { r.logu(12) } else { 0 };
    SchedPlan::Explore {
        seed: r.next() >> 12,
        mean,
        fine,
        fine_at: if r.chance(1, 3) { 0 } else { r.logu(300_000) },
        fine_len: r.logu(4000),
        conflict: if r.chance(1, 2) { *r.pick(&[1, 4, 16, 48]) } else { 0 },
        newedge: if r.chance(1, 2) { *r.pick(&[4, 16, 40]) } else { 0 },
        rare: if r.chance(1, 2) { r.logu(200) as u8 } else { 1 },
        starve: if r.chance(1, 2) { *r.pick(&[1, 4, 16, 48, 64]) } else { 0 },
    }
}
fn knobs(r: &mut Rng) -> Knobs {
    Knobs {
        rand: r.next() >> 12,
        pad: if r.chance(1, 2) { 16 * r.below(64) } else { 0 },
        clock: 1_000_000_000_000_000_000 + (r.next() % 1_000_000_000_000_000_000),
        junk: 0,
    }
}
fn load(dir: usize, slot: usize) -> Op {
    Op::Load { dir, slot, spell: 0, fail: None }
}
fn names(d: &DirSpec) -> Vec<String> {
    exec::resolve(d).entries.iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(k, _)| k.clone()).collect()
}
fn cc_dir() -> DirSpec {
    DirSpec { base: Some("cc".into()), ..Default::default() }
}
/// A rule directory and its meaning.
fn a_dir(ctx: &Ctx, r: &mut Rng, cc: bool) -> (DirSpec, Config) {
    if cc {
        if let Some(c) = &ctx.cc {
            return (cc_dir(), (**c).clone());
        }
    }
    loop {
        let d = gen::rule_dir(r);
        if let Ok(c) = model::load(&mut gen::files_of(&d)) {
            return (d, c);
        }
    }
}
fn cc_probes(r: &mut Rng, n: usize) -> Vec<Probe> {
    (0..n)
        .map(|_| {
            let b = gen::bm(r);
            let a = gen::truncate_chars(&gen::input(r), 10);
            let c = gen::call_for(r, &EncSpec::Bm(Cfg::Cc, b.clone()), a, String::new());
            let c = if matches!(c, Call::Equal(..)) { Call::Encode("Ceauşescu".into()) } else { c };
            (b, c)
        })
        .collect()
}
fn probes_for(r: &mut Rng, c: &Config, cc: bool) -> Vec<Probe> {
    if cc {
        cc_probes(r, 10)
    } else {
        let n = r.range(4, 10);
        gen::probes(r, c, n)
    }
}

pub fn gen(ctx: &Ctx, idx: u64) -> Plan {
    let mut r = Rng::derive(ctx.seed, &ctx.prop, idx);
    let r = &mut r;
    let mut p = match ctx.prop.as_str() {
        "C01" => g01(ctx, r, idx),
        "C02" => g02(ctx, r, idx),
        "C03" => g03(ctx, r, idx),
        "C04" => g04(ctx, r, idx),
        "C05" => g05(ctx, r, idx),
        "C06" => g06(ctx, r, idx),
        "C07" => g07(ctx, r, idx),
        "C08" => g08(ctx, r, idx),
        "C09" => g09(ctx, r, idx),
        "C10" => g10(ctx, r, idx),
        "C11" => g11(ctx, r, idx),
        "C12" => g12(ctx, r, idx),
        "C13" => g13(ctx, r, idx),
        "C14" => g14(ctx, r, idx),
        _ => panic!("no such property"),
    };
    if p.prop != "C13" {
        p.knobs = knobs(r);
    }
    p
}

/// Undisturbed runs, each in its own fresh process, the run is compared with.
pub fn references(p: &Plan) -> Vec<Plan> {
    let bare = |dirs: Vec<DirSpec>, probes: Vec<Vec<Probe>>, ops: Vec<Op>| {
        let mut q = p.clone();
        q.dirs = dirs.iter().map(plain).collect();
        q.probes = probes;
        q.faults = vec![];
        q.window = None;
        q.changes = vec![];
        q.replicas = vec![];
        q.knobs = Knobs::default();
        q.phases = vec![main_phase(ops)];
        q.cap = p.cap;
        q
    };
    match p.prop.as_str() {
        "C01" | "C02" | "C04" => {
            if p.dirs.is_empty() {
                return vec![];
            }
            vec![bare(vec![undecoy(&p.dirs[0])], p.probes.clone(), vec![load(0, 0), Op::Probe { slot: 0, set: 0 }])]
        }
        "C03" | "C08" | "C09" | "C10" => {
            let (states, _) = load_states(p);
            let mut v: Vec<Plan> = states
                .iter()
                .map(|s| {
                    let mut ops = vec![load(0, 0)];
                    for k in 0..p.probes.len() {
                        ops.push(Op::Probe { slot: 0, set: k });
                    }
                    bare(vec![s.clone()], p.probes.clone(), ops)
                })
                .collect();
            for t in 0..p.texts.len() {
                if p.dm_probes.is_empty() {
                    break;
                }
                for folding in [false, true] {
                    let mut ops = vec![Op::BuildDm { text: t, folding, slot: 0 }];
                    for k in 0..p.dm_probes.len() {
                        ops.push(Op::ProbeDm { slot: 0, set: k });
                    }
                    v.push(bare(vec![], vec![], ops));
                }
            }
            v
        }
        "C13" => (0..p.replicas.len()).map(|i| replica(p, i)).collect(),
        _ => vec![],
    }
}
/// The directory behaving as plainly as can be.
fn plain(d: &DirSpec) -> DirSpec {
    DirSpec { order: 0, no_dtype: false, size_lie: 0, max_read: 0, inode: 0, ..d.clone() }
}
/// Without the files beside the rules (their names are kept apart by the generator in `removed` of a marker).
fn undecoy(d: &DirSpec) -> DirSpec {
    let mut d = d.clone();
    if d.base.is_none() {
        // links as what they lead to
        let all = d.entries.clone();
        for n in d.entries.values_mut() {
            for _ in 0..8 {
                if let Node::Link(t) = n {
                    *n = all.get(t).cloned().unwrap_or(Node::Dir);
                }
            }
        }
    }
    d.entries.retain(|k, _| rule_name(k));
    d
}
/// Could this be the name of a rule file of a complete directory?
pub fn rule_name(n: &str) -> bool {
    let ok = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_');
    if NT.iter().any(|t| n == format!("{t}_languages.txt") || n == format!("{t}_lang.txt")) {
        return true;
    }
    match n.strip_suffix(".txt") {
        Some(s) if s.ends_with("_languages") || s.ends_with("_lang") => false,
        Some(s) => NT.iter().any(|t| s.starts_with(&format!("{t}_"))) && ok(s),
        None => false,
    }
}

type OpId = (usize, usize, usize);
/// States of directories in which loads find them, and which load finds which.
fn load_states(p: &Plan) -> (Vec<DirSpec>, BTreeMap<OpId, usize>) {
    let mut dirs: Vec<DirSpec> = p.dirs.iter().map(plain).collect();
    let mut states: Vec<DirSpec> = vec![];
    let mut at = BTreeMap::new();
    for (pi, ph) in p.phases.iter().enumerate() {
        for (ti, ops) in ph.threads.iter().enumerate() {
            for (oi, op) in ops.iter().enumerate() {
                match op {
                    Op::Change(n) => {
                        if let Some(c) = p.changes.get(*n) {
                            if let Some(d) = dirs.get_mut(c.dir) {
                                match &c.node {
                                    Some(n) => {
                                        d.entries.insert(c.name.clone(), n.clone());
                                    }
                                    None => {
                                        d.entries.remove(&c.name);
                                    }
                                }
                            }
                        }
                    }
                    Op::Load { dir, .. } => {
                        if let Some(d) = dirs.get(*dir) {
                            let k = match states.iter().position(|s| s == d) {
                                Some(k) => k,
                                None => {
                                    states.push(d.clone());
                                    states.len() - 1
                                }
                            };
                            at.insert((pi, ti, oi), k);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    (states, at)
}

// ------------------------------------------------------------------------------------------------ C01..C07

fn g01(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let cc = r.chance(1, 40);
    let (mut d, c) = a_dir(ctx, r, cc);
    let kind = *r.pick(&["one", "one", "one", "many", "window", "vanish", "missing", "listing", "threads", "unreadable", "torn", "torn", "torn"]);
    let mut p = blank(ctx, idx, kind);
    p.probes = vec![probes_for(r, &c, cc)];
    let files = names(&d);
    let ops = vec![load(0, 0), Op::Probe { slot: 0, set: 0 }];
    if r.chance(1, 3) {
        gen::dress(r, &mut d);
        d.size_lie = 0;
    }
    match kind {
        "one" | "threads" => p.faults = vec![gen::hard_fault(r, 0, &files)],
        "many" => {
            for _ in 0..r.range(1, 4) {
                p.faults.push(gen::hard_fault(r, 0, &files));
            }
            for _ in 0..r.below(4) {
                p.faults.push(gen::soft_fault(r, 0, &files));
            }
        }
        "window" => {
            let n = (c.visits.len() * 5 + 60) as u64;
            let a = r.below(n as usize) as u64;
            p.window = Some((a, a + r.logu(12), *r.pick(gen::ERRNOS)));
        }
        "vanish" => {
            // something disappears, or becomes something else, while the load is under way
            let f = r.pick(&files).clone();
            let g = r.pick(&files).clone();
            let (op, path) = match r.below(4) {
                0 => ("readdir", "d0".to_string()),
                1 => ("stat", format!("d0/{g}")),
                2 => ("read", format!("d0/{g}")),
                _ => ("open", format!("d0/{g}")),
            };
            let node = match r.below(4) {
                0 => Some(Node::Dir),
                1 => Some(Node::Link("nowhere".into())),
                _ => None,
            };
            p.changes = vec![Change { dir: 0, name: f, node }];
            let nth = if op == "readdir" { r.below(files.len() + 1) as u32 } else { r.below(2) as u32 };
            p.faults = vec![Fault { op: op.into(), path, nth, act: Act::Change(0) }];
        }
        "missing" => {
            // gone before the load begins (the change fires at its first operation)
            for _ in 0..r.range(1, 3) {
                let f = r.pick(&files).clone();
                p.faults.push(Fault {
                    op: "opendir".into(),
                    path: "d0".into(),
                    nth: 0,
                    act: Act::Change(p.changes.len()),
                });
                p.changes.push(Change {
                    dir: 0,
                    name: f,
                    node: if r.chance(1, 5) { Some(Node::Dir) } else { None },
                });
            }
        }
        "torn" => {
            // part of a file, often up to where it could be taken for the whole or go on with something else, then an error
            let mut cands: Vec<(String, usize)> = vec![];
            let mut odd: Vec<(String, usize)> = vec![];
            let mut other: Vec<(String, usize)> = vec![];
            let all = exec::resolve(&d);
            for f in &files {
                if let Some(Node::File(b)) = all.entries.get(f) {
                    let mut at = 0;
                    for l in b.0.split_inclusive(|c| *c == b'\n') {
                        let special = l.starts_with(b"#") || l.starts_with(b"/");
                        cands.push((f.clone(), at + l.len()));
                        cands.push((f.clone(), at + r.below(l.len() + 1)));
                        for k in 1..if special { 6 } else { 0 } {
                            odd.push((f.clone(), at + l.len().saturating_sub(k)));
                        }
                        for g in &files {
                            let inc = format!("#include {}", g.trim_end_matches(".txt"));
                            if l.starts_with(inc.as_bytes()) && l.get(inc.len()).is_some_and(|c| c.is_ascii_alphanumeric() || b"-_".contains(c)) {
                                other.push((f.clone(), at + inc.len()));
                            }
                        }
                        at += l.len();
                    }
                }
            }
            if !cands.is_empty() {
                let from = if !other.is_empty() && r.chance(1, 3) { &other } else if !odd.is_empty() && r.chance(2, 3) { &odd } else { &cands };
                let (f, mut k) = r.pick(from).clone();
                if let Some(Node::File(b)) = d.entries.get_mut(&f) {
                    // what comes after the part, if the file is read again, begins with the end of a line
                    let head: &[u8] = *r.pick(&[&b""[..], b"", b"\n", b"\n", b"\n\n", b"// x\n"]);
                    b.0.splice(0..0, head.iter().cloned());
                    k += head.len();
                }
                let path = format!("d0/{f}");
                let e = *r.pick(gen::ERRNOS);
                // files included several times are read several times
                let nth = if r.chance(2, 3) { 0 } else { r.below(4) as u32 };
                p.faults.push(Fault { op: "read".into(), path: path.clone(), nth, act: Act::Short(k.max(1)) });
                p.faults.push(Fault { op: "read".into(), path, nth: nth + 1, act: Act::Err(e) });
                d.max_read = 0;
            }
        }
        "listing" => {
            let act = match r.below(3) {
                0 => Act::Eof,
                _ => Act::Err(*r.pick(gen::ERRNOS)),
            };
            p.faults = vec![Fault { op: "readdir".into(), path: "d0".into(), nth: r.below(files.len() + 4) as u32, act }];
        }
        _ => {
            // a file nobody may read, however often it is tried
            let f = r.pick(&files).clone();
            let e = *r.pick(&[libc::EACCES, libc::EPERM, libc::EIO]);
            for nth in 0..40 {
                p.faults.push(Fault { op: "open".into(), path: format!("d0/{f}"), nth, act: Act::Err(e) });
            }
        }
    }
    if kind == "threads" {
        let n = r.range(2, 3);
        let threads = (0..n).map(|t| vec![load(0, t), Op::Probe { slot: t, set: 0 }]).collect();
        p.phases = vec![Phase { threads, sched: Some(sched(r)), stalls: vec![] }];
        for f in &mut p.faults {
            f.nth += r.below(3) as u32;
        }
    } else {
        p.phases = vec![main_phase(ops)];
    }
    p.dirs = vec![d];
    p
}

fn g02(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let cc = r.chance(1, 40);
    let (mut d, c) = a_dir(ctx, r, cc);
    let kind = *r.pick(&["dress", "soft", "decoys", "decoys", "spell", "all", "all", "threads"]);
    let mut p = blank(ctx, idx, kind);
    p.probes = vec![probes_for(r, &c, cc)];
    let files = names(&d);
    if matches!(kind, "dress" | "all" | "threads") {
        gen::dress(r, &mut d);
    }
    if matches!(kind, "decoys" | "all") {
        if d.base.is_some() {
            let mut full = exec::resolve(&d);
            let before: BTreeSet<String> = full.entries.keys().cloned().collect();
            gen::decoys(r, &mut full);
            for (k, n) in full.entries {
                if !before.contains(&k) {
                    d.entries.insert(k, n);
                }
            }
        } else {
            gen::decoys(r, &mut d);
        }
        if d.order == 0 {
            d.order = r.next() >> 16;
        }
        d.no_dtype |= r.chance(1, 4);
    }
    if matches!(kind, "soft" | "all" | "threads") {
        for _ in 0..r.range(1, 8) {
            p.faults.push(gen::soft_fault(r, 0, &files));
        }
    }
    let sp = if matches!(kind, "spell" | "all") { r.below(exec::SPELLINGS) as u8 } else { 0 };
    p.dirs = vec![d];
    if kind == "threads" {
        let n = r.range(2, 3);
        let threads = (0..n).map(|t| vec![load(0, t), Op::Probe { slot: t, set: 0 }]).collect();
        p.phases = vec![Phase { threads, sched: Some(sched(r)), stalls: vec![] }];
    } else {
        p.phases = vec![main_phase(vec![Op::Load { dir: 0, slot: 0, spell: sp, fail: None }, Op::Probe { slot: 0, set: 0 }])];
    }
    p
}

/// A rule whose last part has another letter.
fn same_length(r: &mut Rng, line: &str) -> String {
    let mut c: Vec<char> = line.chars().collect();
    let q: Vec<usize> = (0..c.len()).filter(|&i| c[i] == '"').collect();
    if q.len() >= 8 {
        let mut at: Vec<usize> = vec![];
        let mut inside = false;
        for i in q[6] + 1..q[7] {
            match c[i] {
                '[' => inside = true,
                ']' => inside = false,
                x if x.is_ascii_lowercase() && !inside => at.push(i),
                x if x.is_ascii_digit() && !inside => at.push(i),
                _ => {}
            }
        }
        if !at.is_empty() {
            let i = *r.pick(&at);
            c[i] = if c[i].is_ascii_digit() {
                (b'0' + (c[i] as u8 - b'0' + 1 + r.below(9) as u8) % 10) as char
            } else {
                (b'a' + (c[i] as u8 - b'a' + 1 + r.below(25) as u8) % 26) as char
            };
        }
    }
    c.into_iter().collect()
}

/// Text with one line exchanged for another well-formed one of the same kind, or moved.
fn vary(r: &mut Rng, name: &str, text: &str) -> String {
    let mut l: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
    let rules: Vec<usize> = (0..l.len()).filter(|&i| l[i].starts_with('"') && !gen::in_comment(&l, i)).collect();
    if rules.is_empty() {
        if !name.contains("lang") {
            l.insert(0, "\"a\" \"\" \"\" \"zz\"".into());
        }
    } else {
        let i = *r.pick(&rules);
        match r.below(5) {
            0 => {
                l.remove(i);
            }
            // as long as before
            3 | 4 => l[i] = same_length(r, &l[i]),
            1 => l.insert(i, format!("\"{}\" \"\" \"\" \"{}\"", r.pick(&["a", "s", "b", "é"]), r.pick(&["q", "w", ""]))),
            _ => {
                let x = l.remove(i);
                l.insert(0, x);
            }
        }
    }
    l.join("\n")
}

/// Files of a directory are rewritten, often as long as before, and the directory is loaded again.
fn rewrite(r: &mut Rng, mut p: Plan, d0: DirSpec, c0: Config) -> Plan {
    p.probes = vec![gen::probes(r, &c0, 6)];
    let files = names(&d0);
    let mut d = d0.clone();
    let mut v = vec![load(0, 0), Op::Probe { slot: 0, set: 0 }];
    for k in 1..=r.range(1, 4) {
        let all = r.chance(1, 3);
        let same = r.chance(2, 3);
        // a load that fails part-way comes first
        let mut mend = None;
        if r.chance(1, 2) {
            let f = r.pick(&files).clone();
            if let Some(Node::File(b)) = d.entries.get(&f).cloned() {
                let bad = match r.below(3) {
                    0 => None,
                    1 => Some(Node::File(Bytes([&b.0[..], b"\n\"a\" \"b\n"].concat()))),
                    _ => Some(Node::File(Bytes([&b.0[..], b"\n#include nosuch\n"].concat()))),
                };
                v.push(Op::Change(p.changes.len()));
                p.changes.push(Change { dir: 0, name: f.clone(), node: bad });
                for _ in 0..r.range(1, 2) {
                    v.push(load(0, 6));
                }
                mend = Some(f);
            }
        }
        for f in &files {
            if f.contains("_lang") || !(all || r.chance(1, 6)) {
                continue;
            }
            let Some(Node::File(b)) = d.entries.get(f).cloned() else { continue };
            let Ok(t) = String::from_utf8(b.0) else { continue };
            let t = if same {
                let mut l: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
                for i in 0..l.len() {
                    if l[i].starts_with('"') && !gen::in_comment(&l, i) && (all || r.chance(1, 2)) {
                        l[i] = same_length(r, &l[i]);
                    }
                }
                l.join("\n")
            } else {
                vary(r, f, &t)
            };
            let n = Node::File(Bytes(t.into_bytes()));
            d.entries.insert(f.clone(), n.clone());
            v.push(Op::Change(p.changes.len()));
            p.changes.push(Change { dir: 0, name: f.clone(), node: Some(n) });
        }
        if let Some(f) = mend {
            v.push(Op::Change(p.changes.len()));
            p.changes.push(Change { dir: 0, name: f.clone(), node: d.entries.get(&f).cloned() });
        }
        if let Ok(c) = model::load(&mut gen::files_of(&d)) {
            p.probes.push(gen::probes(r, &c, 4));
        }
        v.push(load(0, k % 4));
        v.push(Op::Probe { slot: k % 4, set: p.probes.len() - 1 });
        v.push(Op::Probe { slot: 0, set: 0 });
        if r.chance(1, 3) {
            // changed back
            for f in &files {
                if d.entries.get(f) != d0.entries.get(f) {
                    v.push(Op::Change(p.changes.len()));
                    p.changes.push(Change { dir: 0, name: f.clone(), node: d0.entries.get(f).cloned() });
                }
            }
            d = d0.clone();
            v.push(load(0, 5));
            v.push(Op::Probe { slot: 5, set: 0 });
        }
    }
    p.dirs = vec![d0];
    p.phases = vec![main_phase(v)];
    p
}

/// Many loads that fail (or succeed), then a repair.
fn burst(r: &mut Rng, mut p: Plan, d0: DirSpec, c0: Config) -> Plan {
    p.probes = vec![gen::probes(r, &c0, 4)];
    let files = names(&d0);
    let mut v = vec![load(0, 7), Op::Probe { slot: 7, set: 0 }];
    let rounds = r.range(1, 2);
    for k in 0..rounds {
        let f = r.pick(&files).clone();
        let old = d0.entries.get(&f).cloned();
        let new = match (r.below(4), &old) {
            (0, _) => None,
            (1, Some(Node::File(b))) => Some(Node::File(Bytes([&b.0[..], b"\n\"a\" \"b\n"].concat()))),
            (2, Some(Node::File(b))) => Some(Node::File(Bytes([&b"\"a\" \"[\" \"\" \"b\"\n"[..], &b.0[..]].concat()))),
            _ => Some(Node::File(Bytes(vec![b'"', 0xff, 0xfe]))),
        };
        p.changes.push(Change { dir: 0, name: f.clone(), node: new });
        p.changes.push(Change { dir: 0, name: f, node: old });
        v.push(Op::Change(2 * k));
        let n = if r.chance(1, 3) { r.range(60, 300) } else { r.range(5, 60) };
        for i in 0..n {
            v.push(load(0, i % 3));
        }
        v.push(Op::Change(2 * k + 1));
        v.push(load(0, 4));
        v.push(Op::Probe { slot: 4, set: 0 });
        v.push(Op::Probe { slot: 7, set: 0 });
    }
    p.dirs = vec![d0];
    p.phases = vec![main_phase(v)];
    p
}

/// Loads enough for a counter of one byte to come round, then the files change and are loaded again.
fn turnover(r: &mut Rng, mut p: Plan) -> Plan {
    let (d0, c0) = loop {
        let d = gen::rule_dir_of(r, true);
        if let Ok(c) = model::load(&mut gen::files_of(&d)) {
            break (d, c);
        }
    };
    let early = r.range(1, 6);
    let total = match r.below(4) {
        0 => r.range(20, 120),
        1 => *r.pick(&[64, 128, 129]),
        _ => 256,
    };
    p.probes = vec![gen::probes(r, &c0, 4)];
    let mut v = vec![];
    for i in 0..early {
        v.push(load(0, i % 3));
    }
    v.push(Op::Probe { slot: 0, set: 0 });
    // what is loaded most of the time has few files
    let mut d1 = DirSpec::default();
    d1.stamp = d0.stamp;
    for n in ["ash", "gen", "sep"] {
        let mut put = |f: String, t: &str| d1.entries.insert(f, Node::File(Bytes::text(t)));
        put(format!("{n}_languages.txt"), "any\n");
        put(format!("{n}_lang.txt"), "");
        for t in ["approx", "exact"] {
            put(format!("{n}_{t}_any.txt"), "\"a\" \"\" \"\" \"b\"\n");
            put(format!("{n}_{t}_common.txt"), "");
        }
        put(format!("{n}_rules_any.txt"), "\"a\" \"\" \"\" \"a\"\n");
    }
    for _ in early..total.saturating_sub(r.below(3)) {
        v.push(load(1, 4));
    }
    let mut d = d0.clone();
    for f in names(&d0) {
        if f.contains("_lang") || r.chance(1, 4) {
            continue;
        }
        if let Some(Node::File(b)) = d0.entries.get(&f) {
            let mut l: Vec<String> = String::from_utf8_lossy(&b.0).split('\n').map(|s| s.to_string()).collect();
            for i in 0..l.len() {
                if l[i].starts_with('"') && !gen::in_comment(&l, i) {
                    l[i] = same_length(r, &l[i]);
                }
            }
            let n = Node::File(Bytes(l.join("\n").into_bytes()));
            d.entries.insert(f.clone(), n.clone());
            v.push(Op::Change(p.changes.len()));
            p.changes.push(Change { dir: 0, name: f, node: Some(n) });
        }
    }
    if let Ok(c) = model::load(&mut gen::files_of(&d)) {
        p.probes.push(gen::probes(r, &c, 4));
    }
    for i in 0..8 {
        let s = if i % 2 == 0 { 5 } else { 6 };
        v.push(load(0, s));
        v.push(Op::Probe { slot: s, set: i % p.probes.len() });
    }
    p.dirs = vec![d0, d1];
    p.phases = vec![main_phase(v)];
    p
}

fn g03(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    if r.chance(1, 25) {
        let p = blank(ctx, idx, "turnover");
        return turnover(r, p);
    }
    let kind = *r.pick(&["history", "history", "concurrent", "concurrent", "repair", "dm", "mixed", "burst", "rewrite", "rewrite"]);
    let mut p = blank(ctx, idx, kind);
    let (mut d0, c0) = a_dir(ctx, r, false);
    d0.stamp = *r.pick(&[0, 0, 1, 2, 3]);
    if kind == "burst" {
        return burst(r, p, d0, c0);
    }
    if kind == "rewrite" {
        return rewrite(r, p, d0, c0);
    }
    let mut dirs = vec![d0.clone()];
    let mut cfgs = vec![c0.clone()];
    // a near twin with the same file names
    for _ in 0..r.range(1, 2) {
        let mut d = d0.clone();
        for _ in 0..r.range(1, 4) {
            let f = r.pick(&names(&d)).clone();
            if f.contains("_lang") {
                continue;
            }
            if let Some(Node::File(b)) = d.entries.get(&f) {
                let t = vary(r, &f, &String::from_utf8_lossy(&b.0));
                d.entries.insert(f, Node::File(Bytes(t.into_bytes())));
            }
        }
        if let Ok(c) = model::load(&mut gen::files_of(&d)) {
            dirs.push(d);
            cfgs.push(c);
        }
    }
    if r.chance(1, 2) {
        let (d, c) = a_dir(ctx, r, false);
        dirs.push(d);
        cfgs.push(c);
    }
    // one that cannot be loaded
    if r.chance(1, 2) {
        let mut d = dirs[r.below(dirs.len())].clone();
        let f = r.pick(&names(&d)).clone();
        if r.chance(1, 3) {
            d.entries.remove(&f);
        } else if let Some(Node::File(b)) = d.entries.get(&f) {
            let mut t = b.0.clone();
            t.extend(b"\n\"a\" \"b\n");
            d.entries.insert(f, Node::File(Bytes(t)));
        }
        dirs.push(d);
        cfgs.push(c0.clone());
    }
    let n = dirs.len();
    for c in &cfgs {
        p.probes.push(gen::probes(r, c, 3));
    }
    // texts of Daitch-Mokotoff encoders
    if matches!(kind, "dm" | "mixed") {
        let t = loop {
            let t = gen::dm_text(r);
            if model::dm_load(&t, true).is_ok() {
                break t;
            }
        };
        let m = model::dm_load(&t, true).unwrap();
        p.texts.push(t.clone());
        p.texts.push(vary(r, "dm", &t));
        p.texts.push(format!("{t}\n\"a\" \"b\n"));
        for _ in 0..r.below(3) {
            // another text of the same length
            let mut l: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
            for i in 0..l.len() {
                if l[i].starts_with('"') && !gen::in_comment(&l, i) && r.chance(1, 2) {
                    l[i] = same_length(r, &l[i]);
                }
            }
            p.texts.push(l.join("\n"));
        }
        p.dm_probes = vec![gen::dm_inputs(r, &m.pats, 8)];
    }
    // changes: damage or alteration, and its repair
    for _ in 0..r.range(1, 3) {
        let di = r.below(n);
        let f = r.pick(&names(&dirs[di])).clone();
        let old = dirs[di].entries.get(&f).cloned();
        let new = match r.below(3) {
            0 => None,
            1 => Some(Node::File(Bytes::text("\"a\" \"b\n"))),
            _ => match &old {
                Some(Node::File(b)) => {
                    Some(Node::File(Bytes(vary(r, &f, &String::from_utf8_lossy(&b.0)).into_bytes())))
                }
                _ => None,
            },
        };
        p.changes.push(Change { dir: di, name: f.clone(), node: new });
        p.changes.push(Change { dir: di, name: f, node: old });
    }
    for _ in 0..r.below(3) {
        let di = r.below(n);
        let mut f = gen::hard_fault(r, di, &names(&dirs[di]));
        f.nth += r.below(4) as u32;
        p.faults.push(f);
    }
    if r.chance(1, 4) {
        let a = r.below(800) as u64;
        p.window = Some((a, a + r.logu(60), *r.pick(gen::ERRNOS)));
    }
    p.dirs = dirs;
    let np = p.probes.len();
    let some = |r: &mut Rng, p: &Plan, slot: usize, out: &mut Vec<Op>| {
        if !p.texts.is_empty() && r.chance(1, 2) {
            out.push(Op::BuildDm { text: r.below(p.texts.len()), folding: r.chance(2, 3), slot });
            out.push(Op::ProbeDm { slot, set: 0 });
            return;
        }
        let fail = if r.chance(1, 12) { Some(r.logu(4000) as i64) } else { None };
        out.push(Op::Load { dir: r.below(n), slot, spell: r.below(exec::SPELLINGS) as u8, fail });
        out.push(Op::Probe { slot, set: r.below(np) });
        if r.chance(1, 5) {
            out.push(Op::Probe { slot, set: r.below(np) });
        }
    };
    let nph = r.range(1, 4);
    for k in 0..nph {
        let conc = match kind {
            "concurrent" | "mixed" => k % 2 == 0,
            _ => false,
        };
        if conc {
            let nt = r.range(2, 4);
            let mut threads = vec![];
            for t in 0..nt {
                let mut v = vec![];
                for _ in 0..r.range(1, 3) {
                    some(r, &p, t, &mut v);
                }
                // an older configuration used by all at once
                if k > 0 && r.chance(1, 2) {
                    v.push(Op::Probe { slot: 7, set: r.below(np) });
                }
                threads.push(v);
            }
            p.phases.push(Phase { threads, sched: Some(sched(r)), stalls: vec![] });
        } else {
            let mut v = vec![];
            if k == 0 || r.chance(1, 3) {
                v.push(load(0, 7));
            }
            for _ in 0..r.range(1, 4) {
                match r.below(8) {
                    0..=2 => v.push(Op::Change(r.below(p.changes.len()))),
                    3 => v.push(Op::CloneCfg { from: 7, to: 6 }),
                    4 => v.push(Op::Probe { slot: 6, set: r.below(np) }),
                    5 => v.push(Op::DropCfg { slot: r.below(6) }),
                    _ => {}
                }
                let s = r.below(6);
                some(r, &p, s, &mut v);
                v.push(Op::Probe { slot: 7, set: r.below(np) });
            }
            p.phases.push(main_phase(v));
        }
    }
    p
}

fn g04(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let kind = *r.pick(&["break", "remove", "damage", "exchange", "threads", "embedded"]);
    let cc = r.chance(1, 30) && kind != "embedded";
    let mut p = blank(ctx, idx, kind);
    if kind == "embedded" {
        p.texts = ctx.texts.clone();
        let (encs, ops) = calls(ctx, r, 4, 3, 8, &[How::Shared, How::Fresh, How::Clone]);
        p.encs = encs;
        let mut first = vec![Op::Break(Some(*r.pick(gen::ERRNOS)))];
        if r.chance(1, 2) {
            first.push(Op::Embed { slot: 0 });
        }
        let mut it = ops.into_iter();
        first.extend(it.next().unwrap());
        p.phases = vec![main_phase(first)];
        let rest: Vec<Vec<Op>> = it.collect();
        if !rest.is_empty() {
            p.phases.push(Phase { threads: rest, sched: Some(sched(r)), stalls: vec![] });
        }
        return p;
    }
    let (d, c) = a_dir(ctx, r, cc);
    p.probes = vec![probes_for(r, &c, cc)];
    let files = names(&d);
    let mut later = vec![];
    match kind {
        "break" | "threads" => later.push(Op::Break(Some(*r.pick(gen::ERRNOS)))),
        "remove" => {
            for f in &files {
                if r.chance(3, 4) {
                    later.push(Op::Change(p.changes.len()));
                    p.changes.push(Change { dir: 0, name: f.clone(), node: None });
                }
            }
        }
        "damage" => {
            for f in &files {
                if r.chance(1, 2) {
                    later.push(Op::Change(p.changes.len()));
                    p.changes.push(Change {
                        dir: 0,
                        name: f.clone(),
                        node: Some(Node::File(Bytes::text("\"a\" \"\" \"\" \"qq\"\n"))),
                    });
                }
            }
        }
        _ => {
            let (e, _) = a_dir(ctx, r, false);
            for f in &files {
                later.push(Op::Change(p.changes.len()));
                p.changes.push(Change { dir: 0, name: f.clone(), node: e.entries.get(f).cloned() });
            }
        }
    }
    p.dirs = vec![d];
    let mut first = vec![load(0, 0)];
    if r.chance(1, 2) {
        first.push(Op::Probe { slot: 0, set: 0 });
    }
    if r.chance(1, 4) {
        first.push(Op::CloneCfg { from: 0, to: 1 });
    }
    first.extend(later);
    first.push(Op::Clock(r.logu(1 << 50) as i64));
    if r.chance(1, 4) {
        first.push(Op::CloneCfg { from: 0, to: 1 });
        if r.chance(1, 2) {
            first.push(Op::DropCfg { slot: 0 });
        }
    }
    first.push(Op::Probe { slot: 0, set: 0 });
    first.push(Op::Probe { slot: 1, set: 0 });
    p.phases = vec![main_phase(first)];
    if kind == "threads" || r.chance(1, 3) {
        let n = r.range(2, 3);
        let threads = (0..n).map(|t| vec![Op::Probe { slot: t % 2, set: 0 }]).collect();
        p.phases.push(Phase { threads, sched: Some(sched(r)), stalls: vec![] });
    }
    p
}

/// Makes rule files include each other in cycles or long chains.
fn tangle(r: &mut Rng, d: &mut DirSpec) -> &'static str {
    let rules: Vec<String> = names(d).into_iter().filter(|n| !n.contains("_lang")).collect();
    let put = |d: &mut DirSpec, f: &str, inc: &str, top: bool| {
        if let Some(Node::File(b)) = d.entries.get(f) {
            let mut t = b.0.clone();
            if top {
                let mut x = format!("#include {inc}\n").into_bytes();
                x.extend(t);
                t = x;
            } else {
                if !t.is_empty() && !t.ends_with(b"\n") {
                    t.push(b'\n');
                }
                t.extend(format!("#include {inc}\n").bytes());
            }
            d.entries.insert(f.into(), Node::File(Bytes(t)));
        }
    };
    let stem = |s: &String| s.trim_end_matches(".txt").to_string();
    match r.below(4) {
        0 => {
            let f = r.pick(&rules).clone();
            put(d, &f, &stem(&f), r.chance(1, 2));
            "self"
        }
        1 => {
            let n = r.range(2, 4);
            let v: Vec<String> = (0..n).map(|_| r.pick(&rules).clone()).collect();
            for i in 0..n {
                let t = r.chance(1, 2);
                put(d, &v[i], &stem(&v[(i + 1) % n]), t);
            }
            "cycle"
        }
        2 => {
            let n = r.range(10, 200);
            for i in 0..n {
                let body = if i + 1 < n { format!("#include chain_{}\n\"a\" \"\" \"\" \"x\"\n", i + 1) } else { "\n".into() };
                d.entries.insert(format!("chain_{i}.txt"), Node::File(Bytes(body.into_bytes())));
            }
            let f = r.pick(&rules).clone();
            put(d, &f, "chain_0", false);
            "chain"
        }
        _ => {
            // diamonds: the number of visits doubles at every level
            let n = r.range(3, 7);
            for i in 0..n {
                let body = if i + 1 < n {
                    format!("#include dia_{0}\n#include dia_{0}\n", i + 1)
                } else {
                    "\"a\" \"\" \"\" \"x\"\n".into()
                };
                d.entries.insert(format!("dia_{i}.txt"), Node::File(Bytes(body.into_bytes())));
            }
            let f = r.pick(&rules).clone();
            put(d, &f, "dia_0", false);
            "diamond"
        }
    }
}

fn g05(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let kind = *r.pick(&["plain", "faults", "faults", "window", "damage", "includes", "includes", "threads", "vanish"]);
    let cc = r.chance(1, 60);
    let (mut d, _) = a_dir(ctx, r, cc);
    let mut p = blank(ctx, idx, kind);
    p.cap = 2_000_000_000;
    let files = names(&d);
    if r.chance(1, 2) {
        gen::dress(r, &mut d);
    }
    if r.chance(1, 4) && d.base.is_none() {
        gen::decoys(r, &mut d);
    }
    match kind {
        "faults" | "threads" => {
            for _ in 0..r.range(1, 3) {
                p.faults.push(gen::hard_fault(r, 0, &files));
            }
            for _ in 0..r.below(3) {
                p.faults.push(gen::soft_fault(r, 0, &files));
            }
        }
        "window" => {
            let a = r.below(400) as u64;
            let e = if r.chance(1, 2) { *r.pick(&[libc::EAGAIN, libc::ETIMEDOUT, libc::ESTALE, libc::EMFILE, libc::EIO]) } else { *r.pick(gen::ERRNOS) };
            // for a while or for good
            p.window = Some((a, if r.chance(1, 2) { u64::MAX } else { a + r.logu(300) }, e));
        }
        "damage" => {
            let f = r.pick(&files).clone();
            let full = exec::resolve(&d);
            if let Some(Node::File(b)) = full.entries.get(&f) {
                let (x, _) = gen::damage(r, &b.0, b"");
                d.entries.insert(f, Node::File(Bytes(x)));
            }
        }
        "includes" => {
            if d.base.is_none() {
                let k = tangle(r, &mut d);
                p.kind = format!("includes:{k}");
            }
        }
        "vanish" => {
            let f = r.pick(&files).clone();
            p.changes = vec![Change { dir: 0, name: f.clone(), node: None }];
            let op = r.pick(&["open", "read", "close", "stat"]).to_string();
            p.faults = vec![Fault { op, path: format!("d0/{f}"), nth: 0, act: Act::Change(0) }];
        }
        _ => {}
    }
    p.dirs = vec![d];
    if kind == "threads" {
        let n = r.range(2, 3);
        let threads = (0..n).map(|t| vec![load(0, t), Op::DropCfg { slot: t }]).collect();
        p.phases = vec![
            main_phase(vec![load(0, 0), Op::DropCfg { slot: 0 }]),
            Phase { threads, sched: Some(sched(r)), stalls: vec![] },
        ];
    } else {
        let mut v = vec![];
        let n = if cc { 2 } else { 3 };
        for _ in 0..n {
            v.push(Op::Load { dir: 0, slot: 0, spell: r.below(exec::SPELLINGS) as u8, fail: None });
            v.push(Op::DropCfg { slot: 0 });
            v.push(Op::Measure);
        }
        // the same once more with everything in order: what an earlier load left behind shows
        p.phases = vec![main_phase(v)];
    }
    p
}

/// Lines that are no rules, or rules that cannot be.
fn bad_line(r: &mut Rng, file: &str) -> String {
    let any = |r: &mut Rng| {
        r.pick(&[
            "garbage", "\"a\" \"b\" \"c\"", "\"a\" \"b\" \"c", "\"a\" \"b\" \"c\" \"d\" x", "a b c d", "\"", "/", "/ x", "#", "# x",
            "*/", "==", "\"a\"\"b\" \"c\" \"d\"", "\u{feff}\"a\" \"\" \"\" \"b\"", "?", "\"a\" \"b\" \"c\" d", "/* never closed", "é",
            "\0", "\u{a0}", "\u{2028}\"a\" \"\" \"\" \"b\"", "\u{b}", "\"a\"\u{a0}\"b\" \"c\" \"d\"", "\"a\" \"b\" \"c\" \"d\"\u{3000}",
            "\u{85}", "\r\"a\" \"\" \"\" \"b\"", "* x", "// /* */ \r x\"", "\\",
        ])
        .to_string()
    };
    if file.contains("_languages") {
        return r.pick(&["fr ench", "1", "a_b", "french,german", "français", "-", "any any", "fr-ench", "any;", "= x"]).to_string();
    }
    if file.ends_with("_lang.txt") {
        return match r.below(3) {
            0 => any(r),
            1 => r.pick(&["[ french true", "( french false", "a{2,1} french true", "*a french true", "(?z) any true"]).to_string(),
            _ => r.pick(&["a french maybe", "a french", "a", "a french TRUE", "a french true x", "true", "a  true", " x any true"])
                .to_string(),
        };
    }
    if file == "dm" {
        return match r.below(3) {
            0 => any(r),
            1 => format!("\"\" \"{}\" \"1\" \"2\"", r.below(10)),
            _ => r.pick(&["a=bc", "ab=c", "=a", "a=", "a = b", "\"a\" \"1\"", "#include dm", "x==y"]).to_string(),
        };
    }
    match r.below(6) {
        0 => any(r),
        1 => r.pick(&["a=b", "#include", "#include ", "#include a b", "#includes x", "#include a.txt", "#Include gen_x"]).to_string(),
        2 => format!("#include no_such_file{}", r.below(3)),
        3 => r.pick(&["\"\" \"\" \"\" \"x\"", "\"\" \"a\" \"b\" \"x\" // c"]).to_string(),
        4 => r.pick(&["\"a\" \"[x\" \"\" \"b\"", "\"a\" \"\" \"([b\" \"b\"", "\"a\" \"*[b]c\" \"\" \"b\""]).to_string(),
        _ => r.pick(&["\"a\" \"\" \"\" \"(b\"", "\"a\" \"\" \"\" \"b[x\"", "\"a\" \"\" \"\" \"(b|c[d)\""]).to_string(),
    }
}
fn insert_bad(r: &mut Rng, text: &str, bad: &str) -> String {
    let crlf = text.contains("\r\n");
    let mut l: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
    for _ in 0..20 {
        let at = r.below(l.len());
        if gen::in_comment(&l, at) {
            continue;
        }
        let b = if crlf { format!("{bad}\r") } else { bad.to_string() };
        if r.chance(1, 3) && !l[at].starts_with("/*") {
            l[at] = b;
        } else {
            l.insert(at, b);
        }
        let t = l.join("\n");
        // far down
        return if r.chance(1, 20) { gen::bulk(r, &t, Some(at)) } else { t };
    }
    l.insert(0, bad.to_string());
    l.join("\n")
}

fn g06(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let kind = *r.pick(&["rules", "rules", "include", "lang", "languages", "dm", "dm", "torn"]);
    let mut p = blank(ctx, idx, kind);
    if kind == "dm" || (kind == "torn" && r.chance(1, 3)) {
        let t = if r.chance(1, 30) { exec_dm_rules() } else { gen::dm_text(r) };
        let t = if kind == "dm" {
            let b = bad_line(r, "dm");
            insert_bad(r, &t, &b)
        } else {
            let (x, _) = gen::damage(r, t.as_bytes(), b"");
            String::from_utf8_lossy(&x).to_string()
        };
        p.texts = vec![t];
        p.phases = vec![main_phase(vec![Op::BuildDm { text: 0, folding: r.chance(1, 2), slot: 0 }])];
        return p;
    }
    let cc = r.chance(1, 60);
    let (mut d, _) = a_dir(ctx, r, cc);
    let all = names(&d);
    let files: Vec<String> = all
        .iter()
        .filter(|f| match kind {
            "lang" => f.ends_with("_lang.txt"),
            "languages" => f.ends_with("_languages.txt"),
            "torn" => true,
            _ => !f.contains("_lang"),
        })
        .cloned()
        .collect();
    let f = r.pick(&files).clone();
    let full = exec::resolve(&d);
    if let Some(Node::File(b)) = full.entries.get(&f) {
        let t = if kind == "torn" {
            let (x, _) = gen::damage(r, &b.0, b"");
            x
        } else {
            let bad = if kind == "include" { format!("#include missing{}", r.below(9)) } else { bad_line(r, &f) };
            insert_bad(r, &String::from_utf8_lossy(&b.0), &bad).into_bytes()
        };
        d.entries.insert(f, Node::File(Bytes(t)));
    }
    if kind == "include" && r.chance(1, 3) {
        // an include that is right and whose file cannot be read
        p.kind = "include-unreadable".into();
    }
    if r.chance(1, 4) {
        gen::dress(r, &mut d);
    }
    p.dirs = vec![d];
    p.phases = vec![main_phase(vec![load(0, 0)])];
    p
}
fn exec_dm_rules() -> String {
    std::fs::read_to_string("/repo/rules/dmrules.txt").unwrap_or_else(|_| "\"a\" \"0\" \"1\" \"2\"\n".into())
}

fn g07(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let kind = *r.pick(&["one", "one", "two", "many", "served", "dm", "dm", "includes"]);
    let mut p = blank(ctx, idx, kind);
    if kind == "dm" {
        let t = if r.chance(1, 20) { exec_dm_rules() } else { gen::dm_text(r) };
        let o = gen::dm_text(r);
        let mut b = t.into_bytes();
        for _ in 0..r.range(1, 2) {
            b = gen::damage(r, &b, o.as_bytes()).0;
        }
        let t = String::from_utf8_lossy(&b).to_string();
        let folding = r.chance(2, 3);
        if let Ok(m) = model::dm_load(&t, folding) {
            p.dm_probes = vec![gen::dm_inputs(r, &m.pats, 12)];
        }
        p.texts = vec![t];
        let mut v = vec![Op::BuildDm { text: 0, folding, slot: 0 }];
        if !p.dm_probes.is_empty() {
            v.push(Op::ProbeDm { slot: 0, set: 0 });
        }
        p.phases = vec![main_phase(v)];
        return p;
    }
    let cc = r.chance(1, 60);
    let (mut d, c) = a_dir(ctx, r, cc);
    let files = names(&d);
    let full = exec::resolve(&d);
    let n = match kind {
        "one" | "served" => 1,
        "two" => 2,
        "includes" => 0,
        _ => r.range(2, 5),
    };
    if kind == "includes" && d.base.is_none() {
        let k = tangle(r, &mut d);
        p.kind = format!("includes:{k}");
    }
    for _ in 0..n {
        let f = r.pick(&files).clone();
        let g = r.pick(&files).clone();
        let cur = |d: &DirSpec, f: &String| match d.entries.get(f).or(full.entries.get(f)) {
            Some(Node::File(b)) => b.0.clone(),
            _ => vec![],
        };
        let (b, o) = (cur(&d, &f), cur(&d, &g));
        if kind == "served" {
            // the disk cuts the file short, or another writer exchanges it while the load is under way
            if c.visits.iter().filter(|v| **v == f).count() > 1 {
                continue;
            }
            if r.chance(1, 2) {
                p.faults.push(Fault { op: "read".into(), path: format!("d0/{f}"), nth: r.below(3) as u32, act: Act::Eof });
                d.max_read = r.logu(200) as usize;
            } else {
                let (x, _) = gen::damage(r, &b, &o);
                p.changes.push(Change { dir: 0, name: f.clone(), node: Some(Node::File(Bytes(x))) });
                let op = r.pick(&["open", "stat", "read"]).to_string();
                p.faults.push(Fault { op, path: format!("d0/{f}"), nth: 0, act: Act::Change(0) });
            }
        } else {
            let (x, _) = gen::damage(r, &b, &o);
            d.entries.insert(f, Node::File(Bytes(x)));
        }
    }
    let mut files = gen::files_of(&d);
    let probes = match model::load(&mut files) {
        Ok(c) => gen::probes(r, &c, 8),
        Err(_) => gen::probes(r, &c, 4),
    };
    p.probes = vec![probes];
    p.dirs = vec![d];
    p.phases = vec![main_phase(vec![load(0, 0), Op::Probe { slot: 0, set: 0 }])];
    p
}

// ------------------------------------------------------------------------------------------------ C08..C11

/// n encoders of the pool and a list of calls through them for each of k threads.
fn calls(ctx: &Ctx, r: &mut Rng, n: usize, k: usize, len: usize, how: &[How]) -> (Vec<EncSpec>, Vec<Vec<Op>>) {
    let mut ids: Vec<usize> = vec![];
    for _ in 0..n {
        let i = r.below(ctx.pool.len());
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    // settings that differ little are likely to be mixed up
    if n > 1 && r.chance(1, 3) {
        let i = ids[0];
        let j = if i + 1 < ctx.pool.len() { i + 1 } else { i - 1 };
        if !ids.contains(&j) {
            ids.push(j);
        }
    }
    let encs: Vec<EncSpec> = ids.iter().map(|&i| ctx.pool[i].0.clone()).collect();
    let mut th = vec![];
    for _ in 0..k {
        let l = r.range(1, len);
        let mut v = vec![];
        for _ in 0..l {
            let e = r.below(ids.len());
            let c = r.pick(&ctx.pool[ids[e]].1).clone();
            v.push(Op::Call { enc: e, how: *r.pick(how), call: c, fail: None });
        }
        th.push(v);
    }
    (encs, th)
}
/// Encoders of one algorithm with different settings, each thread mostly with one of them.
fn family(ctx: &Ctx, r: &mut Rng, k: usize, len: usize, how: &[How]) -> (Vec<EncSpec>, Vec<Vec<Op>>) {
    let bm = r.chance(1, 3);
    let v: Vec<usize> = (0..ctx.pool.len()).filter(|&i| !bm || gen::is_bm(&ctx.pool[i].0)).collect();
    let d = std::mem::discriminant(&ctx.pool[*r.pick(&v)].0);
    let mut ids: Vec<usize> = (0..ctx.pool.len()).filter(|&i| std::mem::discriminant(&ctx.pool[i].0) == d).collect();
    r.shuffle(&mut ids);
    ids.truncate(r.range(2, 6));
    // names with prefixes take other ways
    let spaced = r.chance(1, 3);
    let th = (0..k)
        .map(|_| {
            let own = r.below(ids.len());
            let h = *r.pick(how);
            (0..r.range(1, len))
                .map(|_| {
                    let e = if r.chance(3, 4) { own } else { r.below(ids.len()) };
                    let cs = &ctx.pool[ids[e]].1;
                    let sp: Vec<&Call> =
                        cs.iter().filter(|c| matches!(c, Call::Encode(s) if s.contains([' ', '\'']))).collect();
                    let call = if spaced && !sp.is_empty() { (*r.pick(&sp)).clone() } else { r.pick(cs).clone() };
                    Op::Call { enc: e, how: if r.chance(2, 3) { h } else { *r.pick(how) }, call, fail: None }
                })
                .collect()
        })
        .collect();
    (ids.iter().map(|&i| ctx.pool[i].0.clone()).collect(), th)
}
fn pool_of(ctx: &Ctx, e: &EncSpec) -> Vec<Call> {
    ctx.pool.iter().find(|x| &x.0 == e).map(|x| x.1.clone()).unwrap_or_default()
}
fn panics(ctx: &Ctx, e: &EncSpec) -> Vec<Call> {
    pool_of(ctx, e).into_iter().filter(|c| matches!(ctx.expect.get(&(e.clone(), c.clone())), Some(Out::Panic(_)))).collect()
}
/// Pool index of an encoder that panics on some input.
fn panicky(ctx: &Ctx, r: &mut Rng) -> Option<EncSpec> {
    let v: Vec<&EncSpec> = ctx.pool.iter().map(|x| &x.0).filter(|e| !panics(ctx, e).is_empty()).collect();
    if v.is_empty() {
        None
    } else {
        Some((*r.pick(&v)).clone())
    }
}
fn fill_size(r: &mut Rng, e: &EncSpec, big: u64) -> u32 {
    if gen::is_bm(e) {
        r.logu((big / 60).max(4)) as u32
    } else {
        r.logu(big) as u32
    }
}

/// One or two small directories, loaded by a first phase; returns names to encode with them (sets of one probe each).
fn small_dirs(r: &mut Rng, p: &mut Plan, few: bool) -> Vec<Op> {
    let mut v = vec![];
    let mut ops = vec![];
    let theme = r.below(4);
    let nt = r.below(3);
    for i in 0..if theme == 2 { 1 } else { r.range(1, 2) } {
        let (d, c) = loop {
            let d = gen::rule_dir_of(r, true);
            if let Ok(c) = model::load(&mut gen::files_of(&d)) {
                break (d, c);
            }
        };
        p.dirs.push(d);
        ops.push(load(i, i));
        for x in gen::themed(r, &c, theme, nt) {
            p.probes.push(vec![x]);
        }
    }
    p.phases.push(main_phase(ops));
    for i in 0..p.dirs.len() {
        for k in 0..p.probes.len() {
            // those of the other directory as well
            v.push(Op::Probe { slot: i, set: k });
        }
    }
    if few {
        r.shuffle(&mut v);
        v.truncate(r.range(2, 6));
    }
    v
}

fn g08(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let few;
    let mut ctx = ctx;
    if r.chance(2, 3) {
        few = focus(ctx, r);
        ctx = &few;
    }
    let kind = *r.pick(&["mix", "mix", "one", "one", "twins", "twins", "panics", "after-fill", "same-call", "lockstep", "family", "family", "dir", "dir", "dir", "crowd", "crowd"]);
    let mut p = blank(ctx, idx, kind);
    p.texts = ctx.texts.clone();
    // tables with a place for every thread have 8, 16, 32 or 64 places
    let nt = if kind == "crowd" { *r.pick(&[9, 9, 10, 12, 17, 17, 18, 20, 20, 33, 34, 65, 70]) } else { r.range(2, 6) };
    let how = [How::Shared, How::Shared, How::Shared, How::Clone, How::Fresh];
    let n = if matches!(kind, "mix" | "lockstep") { r.range(2, 4) } else { 1 };
    let len = match kind {
        "one" | "twins" => r.range(2, 14),
        "crowd" if nt > 30 => 2,
        "crowd" => 4,
        _ => r.range(1, 8),
    };
    let (mut encs, mut th) = calls(ctx, r, n, nt, len, &how);
    match kind {
        "family" => (encs, th) = family(ctx, r, nt, len, &how),
        "dir" => {
            let few = r.chance(3, 4);
            let all = small_dirs(r, &mut p, few);
            encs = vec![];
            let len = r.logu(24) as usize;
            for t in &mut th {
                *t = (0..r.range(1, len)).map(|_| r.pick(&all).clone()).collect();
            }
        }
        "twins" | "same-call" => {
            let c = pool_of(ctx, &encs[0]);
            let a = r.pick(&c).clone();
            let b = if kind == "twins" { r.pick(&c).clone() } else { a.clone() };
            for t in &mut th {
                for op in t.iter_mut() {
                    if let Op::Call { call, enc, .. } = op {
                        *enc = 0;
                        *call = if r.chance(1, 2) { a.clone() } else { b.clone() };
                    }
                }
            }
        }
        "panics" => {
            if let Some(e) = panicky(ctx, r) {
                let ps = panics(ctx, &e);
                let all = pool_of(ctx, &e);
                encs = vec![e];
                for t in &mut th {
                    for op in t.iter_mut() {
                        if let Op::Call { call, enc, .. } = op {
                            *enc = 0;
                            *call = if r.chance(1, 3) { r.pick(&ps).clone() } else { r.pick(&all).clone() };
                        }
                    }
                }
            }
        }
        "after-fill" => {
            let ops = (0..encs.len())
                .map(|e| Op::Fill { enc: e, n: fill_size(r, &encs[e], 3000), seed: r.next() >> 12 })
                .collect();
            p.phases.push(main_phase(ops));
            for (i, t) in th.iter_mut().enumerate() {
                if i % 2 == 1 {
                    t.insert(0, Op::Fill { enc: 0, n: fill_size(r, &encs[0], 200), seed: r.next() >> 12 });
                }
            }
        }
        _ => {}
    }
    p.encs = encs;
    p.phases.push(Phase { threads: th, sched: Some(sched(r)), stalls: vec![] });
    if r.chance(1, 4) {
        // afterwards everything is as before
        let v: Vec<Op> = p.phases.last().unwrap().threads.iter().flatten().filter(|o| matches!(o, Op::Call { .. })).cloned().collect();
        p.phases.push(main_phase(v));
    }
    p
}

fn g09(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let few;
    let mut ctx = ctx;
    if r.chance(2, 3) {
        few = focus(ctx, r);
        ctx = &few;
    }
    let kind = *r.pick(&["first", "first", "embedded", "embedded", "load", "load", "mixed", "failing-first", "same-call", "family", "family", "family", "dir", "dir", "dir", "dir", "dir"]);
    let mut p = blank(ctx, idx, kind);
    p.texts = ctx.texts.clone();
    let nt = r.range(2, 6);
    let how = [How::Shared, How::Fresh, How::Fresh, How::Clone];
    let n = r.range(1, 4);
    let (mut encs, mut th) = calls(ctx, r, n, nt, 3, &how);
    if matches!(kind, "load" | "mixed" | "failing-first") {
        let (d, c) = a_dir(ctx, r, false);
        p.probes = vec![gen::probes(r, &c, 3)];
        p.dirs = vec![d];
    }
    match kind {
        "family" => (encs, th) = family(ctx, r, nt, 3, &how),
        "dir" => {
            let few = r.chance(1, 2);
            let all = small_dirs(r, &mut p, few);
            encs = vec![];
            for t in &mut th {
                *t = (0..r.range(1, 3)).map(|_| r.pick(&all).clone()).collect();
            }
        }
        "embedded" => {
            let e: Vec<&(EncSpec, Vec<Call>)> = ctx.pool.iter().filter(|x| gen::is_bm(&x.0) || matches!(x.0, EncSpec::Dm(None, _))).collect();
            let (s, cs) = *r.pick(&e);
            encs = vec![s.clone()];
            let other = *r.pick(&e);
            encs.push(other.0.clone());
            for t in &mut th {
                t.truncate(2);
                for op in t.iter_mut() {
                    if let Op::Call { call, enc, .. } = op {
                        *enc = r.below(2);
                        *call = r.pick(if *enc == 0 { cs } else { &other.1 }).clone();
                    }
                }
            }
        }
        "same-call" => {
            let (s, cs) = r.pick(&ctx.pool);
            encs = vec![s.clone()];
            let c = r.pick(cs).clone();
            let h = *r.pick(&how);
            for t in &mut th {
                *t = vec![Op::Call { enc: 0, how: h, call: c.clone(), fail: None }];
            }
        }
        "load" => {
            for (i, t) in th.iter_mut().enumerate() {
                *t = vec![load(0, i), Op::Probe { slot: i, set: 0 }];
            }
        }
        "mixed" => {
            for (i, t) in th.iter_mut().enumerate() {
                if r.chance(1, 2) {
                    t.insert(0, load(0, i));
                    t.push(Op::Probe { slot: i, set: 0 });
                }
            }
        }
        "failing-first" => {
            let mut v = vec![];
            match r.below(3) {
                0 => {
                    if let Some(e) = panicky(ctx, r) {
                        let ps = panics(ctx, &e);
                        encs.push(e.clone());
                        let all = pool_of(ctx, &e);
                        let k = encs.len() - 1;
                        v.push(Op::Call { enc: k, how: *r.pick(&how), call: r.pick(&ps).clone(), fail: None });
                        for t in &mut th {
                            t.push(Op::Call { enc: k, how: *r.pick(&how), call: r.pick(&all).clone(), fail: None });
                        }
                    }
                }
                1 => {
                    let f = names(&p.dirs[0]);
                    p.faults = vec![gen::hard_fault(r, 0, &f)];
                    p.faults[0].nth = 0;
                    v.push(load(0, 7));
                }
                _ => {
                    p.texts.push("\"a\" \"1\n".into());
                    let t = p.texts.len() - 1;
                    v.push(Op::BuildDm { text: t, folding: true, slot: 7 });
                }
            }
            for (i, t) in th.iter_mut().enumerate() {
                if r.chance(1, 3) {
                    t.push(load(0, i));
                    t.push(Op::Probe { slot: i, set: 0 });
                }
            }
            if r.chance(1, 2) {
                th.insert(0, v);
            } else {
                p.phases.push(main_phase(v));
            }
        }
        _ => {}
    }
    p.encs = encs;
    let mut s = sched(r);
    if let SchedPlan::Explore { newedge, fine_at, .. } = &mut s {
        if r.chance(2, 3) {
            *newedge = *r.pick(&[2, 8, 20, 44]);
        }
        if r.chance(1, 2) {
            *fine_at = r.logu(20_000);
        }
    }
    p.phases.push(Phase { threads: th, sched: Some(s), stalls: vec![] });
    // later calls
    if r.chance(1, 2) {
        let v: Vec<Op> = p.phases.last().unwrap().threads.iter().flatten().filter(|o| matches!(o, Op::Call { .. })).cloned().collect();
        p.phases.push(main_phase(v));
    }
    p
}

fn g10(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let all = ctx;
    let few;
    let mut ctx = ctx;
    if r.chance(2, 3) {
        few = focus(ctx, r);
        ctx = &few;
    }
    let kind = *r.pick(&[
        "history", "history", "fill", "fill", "settings", "panics", "alloc", "alloc", "rebuild", "threads", "clock", "repeat", "dir", "dir", "wrap",
    ]);
    let mut p = blank(ctx, idx, kind);
    p.texts = ctx.texts.clone();
    let how = [How::Shared, How::Shared, How::Clone, How::Fresh];
    let n = match kind {
        "fill" | "repeat" | "wrap" => 1,
        "settings" => 6,
        _ => r.range(1, 4),
    };
    let (mut encs, th) = calls(ctx, r, n, 1, if kind == "history" { 80 } else { 24 }, &how);
    if kind == "panics" || (kind == "threads" && r.chance(1, 2)) {
        if let Some(e) = panicky(ctx, r) {
            encs.push(e);
        }
    }
    if kind == "settings" {
        // all settings of one kind of encoder, on the same inputs
        let d = std::mem::discriminant(&encs[0]);
        encs = ctx.pool.iter().map(|x| x.0.clone()).filter(|e| std::mem::discriminant(e) == d).collect();
    }
    p.encs = encs.clone();
    let pick = |r: &mut Rng| {
        let e = r.below(encs.len());
        let c = pool_of(ctx, &encs[e]);
        Op::Call { enc: e, how: *r.pick(&how), call: r.pick(&c).clone(), fail: None }
    };
    let mut v: Vec<Op> = th.into_iter().flatten().filter(|o| matches!(o, Op::Call { enc, .. } if *enc < encs.len())).collect();
    if kind == "settings" {
        v.clear();
        for _ in 0..r.range(4, 40) {
            v.push(pick(r));
        }
    }
    match kind {
        "history" | "settings" => {}
        "dir" => {
            let few = r.chance(1, 3);
            let all = small_dirs(r, &mut p, few);
            v = vec![];
            let mut n = r.logu(3000);
            while n > 0 {
                n -= 1;
                if r.chance(1, 40) {
                    let slot = r.below(p.dirs.len());
                    match r.below(4) {
                        0 => v.push(load(slot, slot)),
                        1 => v.push(Op::DropCfg { slot: slot + 2 }),
                        2 => v.push(Op::CloneCfg { from: slot, to: slot + 2 }),
                        _ => v.push(pick(r)),
                    }
                } else if r.chance(1, 40) {
                    // the same again and again, up to where counters wrap
                    let o = r.pick(&all).clone();
                    let k = *r.pick(&[1, 2, 7, 16, 100, 254, 255, 256, 257]);
                    for _ in 0..k {
                        v.push(o.clone());
                    }
                } else {
                    match r.pick(&all).clone() {
                        Op::Probe { slot, set } if r.chance(1, 8) => v.push(Op::Probe { slot: slot + 2, set }),
                        o => v.push(o),
                    }
                }
            }
        }
        "wrap" => {
            // calls at a distance at which a counter of one byte or two comes round, cheap ones in between
            let bm = gen::is_bm(&encs[0]);
            let mut cs = pool_of(if bm { ctx } else { all }, &encs[0]);
            if r.chance(7, 8) {
                // those that count once
                let one: Vec<Call> = cs.iter().filter(|c| !matches!(c, Call::Equal(..) | Call::Diff(..) | Call::DmEqual(..))).cloned().collect();
                if !one.is_empty() {
                    cs = one;
                }
            }
            let period = if bm || r.chance(3, 4) { 256 } else { 65536 };
            let m = r.logu(if period == 256 { 30 } else { 400 }) as usize;
            let cheap = |c: &Call| match c {
                Call::Encode(s) | Call::Alt(s) | Call::Branches(s) => s.len(),
                _ => 1000,
            };
            let call = cs.iter().min_by_key(|c| cheap(c)).unwrap().clone();
            let n = period + r.range(0, 2) - m - 1;
            let one = |r: &mut Rng| Op::Call { enc: 0, how: How::Shared, call: r.pick(&cs).clone(), fail: None };
            v = (0..m).map(|_| one(r)).collect();
            for _ in 0..r.range(1, 2) {
                v.push(Op::Again { enc: 0, call: call.clone(), n: n as u32 });
                v.extend((0..m).map(|_| one(r)));
            }
        }
        "repeat" => {
            let a = pick(r);
            let b = pick(r);
            v = vec![];
            for _ in 0..r.range(10, 300) {
                v.push(if r.chance(1, 2) { a.clone() } else { b.clone() });
            }
        }
        "fill" => {
            let head = v.clone();
            let big = if r.chance(1, 30) { 120_000 } else { 6000 };
            let mut n = fill_size(r, &encs[0], big);
            if r.chance(1, 3) && big == 6000 {
                n = n.max(if gen::is_bm(&encs[0]) { 30 } else { 2500 });
            }
            v.push(Op::Fill { enc: 0, n, seed: r.next() >> 12 });
            v.extend(head);
            for _ in 0..10 {
                v.push(pick(r));
            }
        }
        "panics" => {
            let e = encs.len() - 1;
            let ps = panics(ctx, &encs[e]);
            let mut w = vec![];
            for o in v {
                if !ps.is_empty() && r.chance(1, 2) {
                    w.push(Op::Call { enc: e, how: *r.pick(&how), call: r.pick(&ps).clone(), fail: None });
                }
                w.push(o);
                if r.chance(1, 2) {
                    let c = pool_of(ctx, &encs[e]);
                    w.push(Op::Call { enc: e, how: *r.pick(&how), call: r.pick(&c).clone(), fail: None });
                }
            }
            v = w;
        }
        "alloc" => {
            // first everything with memory to spare, so that one-time initialisation is over
            let mut w = v.clone();
            for o in &v {
                let mut f = o.clone();
                if let Op::Call { fail, enc, .. } = &mut f {
                    let most = if gen::is_bm(&encs[*enc]) { 3000 } else { 40 };
                    *fail = Some(r.logu(most) as i64 - 1);
                }
                if r.chance(2, 3) {
                    w.push(f);
                }
                w.push(o.clone());
            }
            v = w;
        }
        "rebuild" => {
            let mut w = vec![];
            for o in v {
                if r.chance(1, 4) {
                    w.push(Op::Embed { slot: r.below(4) });
                }
                if r.chance(1, 4) {
                    w.push(Op::DropCfg { slot: r.below(4) });
                }
                if r.chance(1, 6) {
                    w.push(Op::BuildDm { text: r.below(2), folding: true, slot: 0 });
                }
                w.push(o);
            }
            v = w;
        }
        "clock" => {
            let mut w = vec![];
            for o in v {
                if r.chance(1, 2) {
                    let d = r.logu(1 << 56) as i64;
                    w.push(Op::Clock(if r.chance(1, 2) { d } else { -d }));
                }
                w.push(o);
            }
            v = w;
        }
        _ => {}
    }
    if kind == "threads" {
        // one thread after the other, each with a few calls
        for _ in 0..r.range(2, 12) {
            let ops: Vec<Op> = (0..r.range(1, 4)).map(|_| pick(r)).collect();
            let ex = SchedPlan::Explore { seed: 1, mean: 0, fine: 0, fine_at: 0, fine_len: 0, conflict: 0, newedge: 0, rare: 0, starve: 0 };
            p.phases.push(Phase { threads: vec![ops], sched: Some(ex), stalls: vec![] });
        }
    }
    p.phases.push(main_phase(v));
    p
}

fn g11(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let few;
    let mut ctx = ctx;
    if r.chance(2, 3) {
        few = focus(ctx, r);
        ctx = &few;
    }
    let kind = *r.pick(&["stall", "stall", "stall-all", "hang-load", "stall-load", "dying", "lockstep", "slow"]);
    let mut p = blank(ctx, idx, kind);
    p.texts = ctx.texts.clone();
    p.cap = if kind.ends_with("-load") || kind == "slow" { 2_000_000_000 } else { 200_000_000 };
    let nt = r.range(2, 5);
    let how = [How::Shared, How::Shared, How::Shared, How::Clone, How::Fresh];
    let n = r.range(1, 3);
    let (mut encs, mut th) = calls(ctx, r, n, nt, 5, &how);
    if kind == "dying" {
        if let Some(e) = panicky(ctx, r) {
            let ps = panics(ctx, &e);
            let all = pool_of(ctx, &e);
            encs.push(e);
            let k = encs.len() - 1;
            for (i, t) in th.iter_mut().enumerate() {
                for _ in 0..r.range(1, 3) {
                    let c = if i == 0 { r.pick(&ps).clone() } else { r.pick(&all).clone() };
                    let at = r.below(t.len() + 1);
                    t.insert(at, Op::Call { enc: k, how: How::Shared, call: c, fail: None });
                }
            }
        }
    }
    // once-only initialisation happens here
    let warm: Vec<Op> = th.iter().flatten().cloned().collect();
    let mut warm2 = vec![];
    let loads = matches!(kind, "hang-load" | "stall-load" | "slow");
    if loads {
        let (d, c) = a_dir(ctx, r, false);
        p.probes = vec![gen::probes(r, &c, 2)];
        let files = names(&d);
        p.dirs = vec![d];
        if r.chance(1, 2) {
            let (d, c) = a_dir(ctx, r, false);
            p.probes.push(gen::probes(r, &c, 2));
            p.dirs.push(d);
        }
        warm2.push(load(0, 7));
        warm2.push(Op::Probe { slot: 7, set: 0 });
        let nd = p.dirs.len();
        for (i, t) in th.iter_mut().enumerate() {
            let d = if i == 0 { 0 } else { r.below(nd) };
            if i == 0 || r.chance(2, 3) {
                let at = if i == 0 { 0 } else { r.below(t.len() + 1) };
                t.insert(at, load(d, i));
                t.insert(at + 1, Op::Probe { slot: i, set: d });
            }
            if r.chance(1, 3) {
                t.push(Op::Probe { slot: 7, set: 0 });
            }
        }
        let f = r.pick(&files).clone();
        if kind == "hang-load" {
            let op = *r.pick(&["open", "read", "read", "stat", "close"]);
            // the warm load used the first of each
            p.faults = vec![Fault { op: op.into(), path: format!("d0/{f}"), nth: r.range(1, 3) as u32, act: Act::Hang }];
            if r.chance(1, 6) {
                p.faults[0] = Fault { op: "readdir".into(), path: "d0".into(), nth: (files.len() + r.range(1, files.len())) as u32, act: Act::Hang };
            }
        } else if kind == "slow" {
            for _ in 0..6 {
                let f = r.pick(&files).clone();
                p.faults.push(Fault {
                    op: "read".into(),
                    path: format!("d0/{f}"),
                    nth: r.range(1, 3) as u32,
                    act: Act::Delay(r.logu(1 << 42)),
                });
            }
        }
    }
    let mut w = warm;
    w.extend(warm2);
    p.encs = encs;
    p.phases.push(main_phase(w));
    let mut stalls = vec![];
    let at = |r: &mut Rng, load: bool| {
        if load {
            r.logu(3_000_000)
        } else {
            r.logu(300_000)
        }
    };
    match kind {
        "stall" => stalls.push((0, at(r, false))),
        "stall-all" => {
            for t in 0..nt - 1 {
                stalls.push((t, at(r, false)));
            }
        }
        "stall-load" => stalls.push((0, at(r, true))),
        _ => {}
    }
    let again: Vec<Vec<Op>> = th.iter().take(2).cloned().collect();
    p.phases.push(Phase { threads: th, sched: Some(sched(r)), stalls });
    if r.chance(2, 3) {
        // newcomers
        let again = again
            .into_iter()
            .enumerate()
            .map(|(i, t)| {
                t.into_iter()
                    .map(|o| match o {
                        Op::Load { dir, spell, .. } => Op::Load { dir, slot: 5 + i, spell, fail: None },
                        Op::Probe { slot, set } if slot != 7 => Op::Probe { slot: 5 + i, set },
                        o => o,
                    })
                    .collect()
            })
            .collect();
        p.phases.push(Phase { threads: again, sched: Some(sched(r)), stalls: vec![] });
    }
    p
}

// ------------------------------------------------------------------------------------------------ C12..C14

fn g12(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let mut p = blank(ctx, idx, "");
    p.texts = ctx.texts.clone();
    let one = |r: &mut Rng| -> Saved {
        match r.below(12) {
            0..=6 => {
                let v: Vec<EncSpec> = gen::all_encs(r, 0, &[])
                    .into_iter()
                    .filter(|e| !matches!(e, EncSpec::Dm(..) | EncSpec::Bm(..)))
                    .collect();
                let mut e = r.pick(&v).clone();
                if r.chance(1, 3) {
                    gen::odd_settings(r, &mut e);
                }
                Saved::Enc(e)
            }
            7 => Saved::Name(r.below(3) as u8),
            8 => Saved::Rule(r.below(2) as u8),
            9 => {
                let k = r.below(3) as u8;
                let mut l = vec![];
                if k == 2 {
                    for _ in 0..r.range(1, 4) {
                        l.push(r.pick(gen::LANGS).to_string());
                    }
                }
                Saved::Langs(k, l)
            }
            10 => {
                let a = gen::input(r);
                let m = if r.chance(1, 2) { None } else { Some(r.range(1, 12)) };
                Saved::Result(a, m)
            }
            _ => {
                let t = gen::dm_text(r);
                let b = bad_line(r, "dm");
                Saved::Error(insert_bad(r, &t, &b))
            }
        }
    };
    for _ in 0..r.range(1, 3) {
        let first = one(r);
        let d = std::mem::discriminant(&first);
        let mut versions = vec![first];
        for _ in 0..r.range(0, 4) {
            for _ in 0..40 {
                let v = one(r);
                let same = std::mem::discriminant(&v) == d
                    && match (&v, &versions[0]) {
                        (Saved::Enc(a), Saved::Enc(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
                        _ => true,
                    };
                if same {
                    versions.push(v);
                    break;
                }
            }
        }
        let torn = match r.below(8) {
            0 => Some(Tear::Prefix(r.below(1000) as u32)),
            1 => Some(Tear::Zeros(r.below(1000) as u32)),
            2 => Some(Tear::Lost),
            3 => Some(Tear::Empty),
            4 => Some(Tear::Overlap),
            _ => None,
        };
        p.snaps.push(Snap { versions, torn, generations: r.logu(5) as u32 });
    }
    p.kind = p.snaps.iter().map(|s| format!("{}", s.torn.as_ref().map_or("whole".to_string(), |t| format!("{t:?}").split('(').next().unwrap().to_lowercase()))).collect::<Vec<_>>().join("+");
    // inputs on which codes are compared
    p.dm_probes = vec![(0..12).map(|_| gen::truncate_chars(&gen::input(r), 24)).collect()];
    p
}

fn g13(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    let cc = r.chance(1, 12);
    let kind = if cc { "cc" } else { *r.pick(&["rules", "rules", "embedded", "mixed"]) };
    let mut p = blank(ctx, idx, kind);
    p.texts = ctx.texts.clone();
    let (d, c) = a_dir(ctx, r, cc);
    p.probes = vec![if cc { cc_probes(r, 24) } else { gen::probes(r, &c, 12) }];
    p.dirs = vec![d];
    let bm_cfg: Vec<Cfg> = if cc { vec![] } else { vec![Cfg::Embedded] };
    let all = gen::all_encs(r, 2, &bm_cfg);
    let mut encs = vec![];
    let mut v = vec![];
    for _ in 0..r.range(2, 8) {
        let e = match kind {
            "embedded" => all.iter().rev().nth(r.below(6)).unwrap().clone(),
            _ => r.pick(&all).clone(),
        };
        encs.push(e.clone());
        for _ in 0..r.range(2, 10) {
            let (mut a, mut b) = (gen::input(r), gen::input(r));
            if gen::is_bm(&e) {
                a = gen::truncate_chars(&a, 12);
                b = gen::truncate_chars(&b, 10);
            }
            let call = gen::call_for(r, &e, a, b);
            v.push(Op::Call { enc: encs.len() - 1, how: How::Shared, call, fail: None });
        }
    }
    p.encs = encs;
    p.phases = vec![main_phase(v)];
    for k in 0..r.range(2, 4) {
        p.replicas.push(Replica {
            knobs: Knobs { junk: r.logu(2000) as u32, ..knobs(r) },
            order: if k == 0 { 0 } else { r.next() >> 16 },
            no_dtype: r.chance(1, 3),
            max_read: if r.chance(1, 2) { r.logu(400) as usize } else { 0 },
            spell: r.below(exec::SPELLINGS) as u8,
            warm: if r.chance(1, 2) { r.logu(40) as u32 } else { 0 },
            warm_seed: r.next() >> 12,
            shuffle: if k == 0 { 0 } else { r.next() >> 12 },
            loads_before: r.below(3) as u32,
        });
    }
    p
}
fn perm(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if seed != 0 {
        Rng::new(seed).shuffle(&mut v);
    }
    v
}
/// The plan one replica executes.
fn replica(p: &Plan, i: usize) -> Plan {
    let rp = &p.replicas[i];
    let mut q = p.clone();
    q.replicas = vec![];
    q.knobs = rp.knobs.clone();
    for d in &mut q.dirs {
        d.order = rp.order;
        d.no_dtype = rp.no_dtype;
        d.max_read = rp.max_read;
    }
    let calls = p.phases.first().map(|x| x.threads[0].clone()).unwrap_or_default();
    let pr = p.probes.first().cloned().unwrap_or_default();
    q.probes = vec![perm(pr.len(), rp.shuffle).into_iter().map(|k| pr[k].clone()).collect()];
    let mut before = vec![];
    for _ in 0..rp.loads_before {
        before.push(load(0, 6));
    }
    for e in 0..q.encs.len() {
        if rp.warm > 0 {
            before.push(Op::Fill {
                enc: e,
                n: if gen::is_bm(&q.encs[e]) { rp.warm / 6 } else { rp.warm },
                seed: rp.warm_seed,
            });
        }
    }
    let mut ops = vec![];
    if !q.dirs.is_empty() {
        ops.push(Op::Load { dir: 0, slot: 0, spell: rp.spell, fail: None });
        ops.push(Op::Probe { slot: 0, set: 0 });
    }
    ops.extend(perm(calls.len(), rp.shuffle).into_iter().map(|k| calls[k].clone()));
    // a new thread draws its own hash keys
    let s = SchedPlan::Explore { seed: 1, mean: 0, fine: 0, fine_at: 0, fine_len: 0, conflict: 0, newedge: 0, rare: 0, starve: 0 };
    q.phases = vec![];
    if !before.is_empty() {
        q.phases.push(main_phase(before));
    }
    q.phases.push(Phase { threads: vec![ops], sched: Some(s), stalls: vec![] });
    q
}
/// Outcomes of a replica in the order of the plan.
fn unshuffle(p: &Plan, i: usize, outs: &[(OpId, Out)]) -> Option<Vec<(String, Out)>> {
    let rp = &p.replicas[i];
    let last = outs.iter().map(|o| o.0 .0).max()?;
    let o: Vec<&Out> = outs.iter().filter(|o| o.0 .0 == last).map(|o| &o.1).collect();
    let mut res = vec![];
    let mut k = 0;
    if !p.dirs.is_empty() {
        res.push(("load".to_string(), match o.first()? {
            Out::Ok => Out::Ok,
            _ => Out::Skip,
        }));
        let pr = p.probes.first()?;
        match o.get(1)? {
            Out::Many(m) => {
                let pm = perm(pr.len(), rp.shuffle);
                let mut v: Vec<Option<&Out>> = vec![None; pr.len()];
                for (at, &orig) in pm.iter().enumerate() {
                    v[orig] = m.get(at);
                }
                for (x, y) in v.into_iter().enumerate() {
                    res.push((format!("probe {:?}", pr[x]), y?.clone()));
                }
            }
            x => res.push(("probe".into(), (*x).clone())),
        }
        k = 2;
    }
    let calls = p.phases.first().map(|x| x.threads[0].clone()).unwrap_or_default();
    let pm = perm(calls.len(), rp.shuffle);
    let mut v: Vec<Option<&Out>> = vec![None; calls.len()];
    for (at, &orig) in pm.iter().enumerate() {
        v[orig] = o.get(k + at).copied();
    }
    for (x, y) in v.into_iter().enumerate() {
        let what = match &calls[x] {
            Op::Call { enc, call, .. } => format!("{:?} {:?}", p.encs[*enc], call),
            o => format!("{o:?}"),
        };
        res.push((what, y?.clone()));
    }
    Some(res)
}

/// A directory whose contexts are all plain strings.
fn plain_dir(r: &mut Rng) -> DirSpec {
    let mut d = DirSpec::default();
    let mut put = |n: String, s: String| {
        d.entries.insert(n, Node::File(Bytes(s.into_bytes())));
    };
    for nt in ["ash", "gen", "sep"] {
        let langs: &[&str] = r.pick(&[&["any"][..], &["any", "english"], &["any", "english", "french"]]);
        put(format!("{nt}_languages.txt"), langs.join("\n"));
        put(format!("{nt}_lang.txt"), "// none\n".into());
        for ty in ["approx", "exact", "rules"] {
            for l in langs.iter().chain(&["common"]) {
                if ty == "rules" && *l == "common" {
                    continue;
                }
                let mut s = String::new();
                for c in 'a'..='z' {
                    if ty != "rules" && r.chance(1, 2) {
                        continue;
                    }
                    if r.chance(1, 3) {
                        s += &format!("\"{c}{}\" \"\" \"\" \"{c}\"\n", (b'a' + r.below(26) as u8) as char);
                    }
                    if r.chance(1, 3) {
                        s += &format!("\"{c}\" \"^\" \"{}\" \"{}\"\n", (b'a' + r.below(26) as u8) as char, c.to_ascii_uppercase());
                    }
                    s += &match r.below(4) {
                        0 => format!("\"{c}\" \"\" \"\" \"({c}|{})\"\n", c.to_ascii_uppercase()),
                        1 => format!("\"{c}\" \"\" \"$\" \"\"\n\"{c}\" \"\" \"\" \"{c}\"\n"),
                        _ => format!("\"{c}\" \"\" \"\" \"{c}\"\n"),
                    };
                }
                put(format!("{nt}_{ty}_{l}.txt"), s);
            }
        }
    }
    d
}

fn g14(ctx: &Ctx, r: &mut Rng, idx: u64) -> Plan {
    // every kind of encoder in turn
    let ids: Vec<usize> = (0..ctx.pool.len()).collect();
    let kinds =
        ["distinct", "distinct", "distinct", "threads", "panics", "alloc", "loads", "failed-loads", "dm-builds", "clones", "embed", "same"];
    let kind = kinds[(idx as usize) % kinds.len()];
    let mut p = blank(ctx, idx, kind);
    p.texts = ctx.texts.clone();
    p.cap = 20_000_000_000;
    let e = ids[(idx as usize / 3) % ids.len()];
    let mut enc = ctx.pool[e].0.clone();
    let calls = pool_of(ctx, &enc);
    let rounds = 32;
    let ex = || SchedPlan::Explore { seed: 1, mean: 20_000, fine: 0, fine_at: 0, fine_len: 0, conflict: 0, newedge: 0, rare: 0, starve: 0 };
    let bm = gen::is_bm(&enc);
    if bm && matches!(kind, "distinct" | "threads" | "alloc" | "same" | "clones") && r.chance(3, 4) {
        // no expressions: their caches (one per thread that came along, grown lazily) would blur the picture
        p.dirs = vec![plain_dir(r)];
        if let EncSpec::Bm(_, b) = enc.clone() {
            enc = EncSpec::Bm(Cfg::Slot(0), b);
        }
        p.phases.push(main_phase(vec![load(0, 0)]));
        for _ in 0..3 {
            let t = (0..8).map(|_| vec![Op::Fill { enc: 0, n: 6, seed: r.next() >> 12 }]).collect();
            p.phases.push(Phase { threads: t, sched: Some(ex()), stalls: vec![] });
        }
    }
    let n = if bm { r.range(30, 60) as u32 } else { r.range(300, 1000) as u32 };
    match kind {
        "distinct" => {
            for _ in 0..rounds {
                p.phases.push(main_phase(vec![Op::Fill { enc: 0, n, seed: r.next() >> 12 }, Op::Measure]));
            }
        }
        "threads" => {
            for _ in 0..rounds {
                let k = r.range(2, 4);
                let threads = (0..k).map(|_| vec![Op::Fill { enc: 0, n: (n / 12).max(3), seed: r.next() >> 12 }]).collect();
                p.phases.push(Phase { threads, sched: Some(ex()), stalls: vec![] });
                p.phases.push(main_phase(vec![Op::Measure]));
            }
        }
        "panics" => {
            if let Some(e) = panicky(ctx, r) {
                enc = e;
            }
            let ps = panics(ctx, &enc);
            for _ in 0..rounds {
                let mut v = vec![];
                for _ in 0..30 {
                    if ps.is_empty() {
                        break;
                    }
                    v.push(Op::Call { enc: 0, how: *r.pick(&[How::Shared, How::Fresh]), call: r.pick(&ps).clone(), fail: None });
                }
                v.push(Op::Measure);
                p.phases.push(main_phase(v));
            }
        }
        "alloc" | "same" | "clones" => {
            let few: Vec<Call> = (0..6).map(|_| r.pick(&calls).clone()).collect();
            let k = if bm { 12 } else { 60 };
            for _ in 0..rounds {
                let mut v = vec![];
                for i in 0..k {
                    let call = few[i % few.len()].clone();
                    let how = match kind {
                        "clones" => [How::Clone, How::Fresh][i % 2],
                        _ => How::Shared,
                    };
                    if kind == "alloc" {
                        v.push(Op::Call { enc: 0, how, call: call.clone(), fail: Some(r.logu(if bm { 2000 } else { 30 }) as i64 - 1) });
                    }
                    v.push(Op::Call { enc: 0, how, call, fail: None });
                }
                v.push(Op::Measure);
                p.phases.push(main_phase(v));
            }
        }
        "loads" | "failed-loads" => {
            let (mut d, c) = a_dir(ctx, r, false);
            p.probes = vec![gen::probes(r, &c, 2)];
            if kind == "failed-loads" {
                let f = names(&d);
                let f = r.pick(&f).clone();
                if let Some(Node::File(b)) = d.entries.get(&f) {
                    let b = b.0.clone();
                    let mut x = b.clone();
                    x.extend(b"\n\"a\" \"b\n");
                    d.entries.insert(f, Node::File(Bytes(x)));
                }
            }
            p.dirs = vec![d];
            for _ in 0..rounds {
                let mut v = vec![];
                for _ in 0..3 {
                    v.push(load(0, 0));
                    if kind == "loads" {
                        v.push(Op::Probe { slot: 0, set: 0 });
                        v.push(Op::CloneCfg { from: 0, to: 1 });
                        v.push(Op::DropCfg { slot: 1 });
                    }
                    v.push(Op::DropCfg { slot: 0 });
                }
                v.push(Op::Measure);
                p.phases.push(main_phase(v));
            }
        }
        "dm-builds" => {
            p.texts.push("\"a\" \"1\n".into());
            for _ in 0..rounds {
                let mut v = vec![];
                for k in 0..6 {
                    v.push(Op::BuildDm { text: k % p.texts.len(), folding: k % 2 == 0, slot: 0 });
                }
                v.push(Op::Measure);
                p.phases.push(main_phase(v));
            }
        }
        _ => {
            for _ in 0..rounds {
                let mut v = vec![];
                for _ in 0..2 {
                    v.push(Op::Embed { slot: 0 });
                    v.push(Op::DropCfg { slot: 0 });
                }
                v.push(Op::Measure);
                p.phases.push(main_phase(v));
            }
        }
    }
    p.encs = vec![enc];
    p
}

// ------------------------------------------------------------------------------------------------ oracles

pub struct Verdict {
    pub viol: Option<Viol>,
    pub nontrivial: bool,
}

pub type RefOuts = Vec<Vec<(OpId, Out)>>;

fn op_of<'a>(p: &'a Plan, x: &Rec) -> &'a Op {
    &p.phases[x.phase].threads[x.tid][x.op]
}
fn whence(x: &Rec) -> String {
    format!("phase {} thread {} op {}", x.phase, x.tid, x.op)
}
/// Calls whose outcome in isolation is needed.
pub fn needed(p: &Plan) -> Vec<Key> {
    let mut v = vec![];
    for ph in &p.phases {
        for t in &ph.threads {
            for o in t {
                if let Op::Call { enc, call, .. } | Op::Again { enc, call, .. } = o {
                    if let Some(e) = p.encs.get(*enc) {
                        if !matches!(e, EncSpec::Bm(Cfg::Slot(_), _)) {
                            v.push((e.clone(), call.clone()));
                        }
                    }
                }
            }
        }
    }
    v
}

fn bad_calls(p: &Plan, ex: &Exec, expect: &BTreeMap<Key, Out>, values: bool) -> Option<Viol> {
    for x in &ex.recs {
        let (enc, how, call, fail) = match op_of(p, x) {
            Op::Call { enc, how, call, fail } => (enc, how, call, fail),
            Op::Again { enc, call, .. } => (enc, &How::Shared, call, &None),
            _ => continue,
        };
        {
            let e = &p.encs[*enc];
            let want = match expect.get(&(e.clone(), call.clone())) {
                Some(w) => w,
                None => continue,
            };
            if fail.is_some() && x.out == Out::Injected {
                continue;
            }
            let bad = if values { !x.out.same(want) } else { matches!(x.out, Out::Panic(_)) && !matches!(want, Out::Panic(_)) };
            if bad {
                return viol(
                    "wrong-code",
                    format!("{}: {e:?} {how:?} {call:?} gave {}, alone in a fresh process it gives {}", whence(x), x.out.short(), want.short()),
                );
            }
        }
    }
    None
}
fn stuck(ex: &Exec) -> Option<Viol> {
    for (i, e) in ex.ends.iter().enumerate() {
        if let End::Deadlock(t) = e {
            return viol("deadlock", format!("phase {i}: threads {t:?} wait for ever"));
        }
    }
    None
}
fn refout(refs: &RefOuts, r: usize, k: usize) -> Option<&Out> {
    refs.get(r)?.get(k).map(|x| &x.1)
}
fn diff(p: &Plan, set: usize, got: &Out, want: &Out) -> Option<String> {
    if let (Out::Many(a), Out::Many(b)) = (got, want) {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if !x.same(y) {
                let what = p.probes.get(set).and_then(|s| s.get(i)).map(|x| format!("{x:?}")).unwrap_or_default();
                return Some(format!("{what} gave {}, expected {}", x.short(), y.short()));
            }
        }
        if a.len() == b.len() {
            return None;
        }
    }
    if got.same(want) {
        return None;
    }
    Some(format!("gave {}, expected {}", got.short(), want.short()))
}

pub fn check(p: &Plan, refs: &RefOuts, expect: &BTreeMap<Key, Out>, ex: &Exec) -> Verdict {
    let fired: u64 = ex.stats.fired.values().sum();
    let conc = ex.stats.preempts > 0 || ex.stats.futex_waits > 0;
    let (viol, nontrivial) = match p.prop.as_str() {
        "C01" => (c01(p, refs, ex), fired > 0),
        "C02" => (c02(p, refs, ex), true),
        "C03" => (c03(p, refs, ex), ex.recs.iter().filter(|x| x.load.is_some()).count() > 1 || conc),
        "C04" => (c04(p, refs, expect, ex), true),
        "C05" => (c05(p, ex), true),
        "C06" => c06(p, ex),
        "C07" => (c07(p, ex), true),
        "C08" => (stuck(ex).or_else(|| bounds(p)).or_else(|| bad_calls(p, ex, expect, true)).or_else(|| c03(p, refs, ex)), conc),
        "C09" => (stuck(ex).or_else(|| bad_calls(p, ex, expect, true)).or_else(|| c03(p, refs, ex)), conc),
        "C10" => (bad_calls(p, ex, expect, true).or_else(|| c03(p, refs, ex)), ex.stats.ops + ex.stats.fills > 1),
        "C11" => (stuck(ex).or_else(|| bad_calls(p, ex, expect, false)).or_else(|| c11(p, ex)), conc || ex.stats.stalls > 0),
        "C13" => (c13(p, refs), p.replicas.len() > 1),
        "C14" => (c14(p, ex), true),
        _ => (None, false),
    };
    Verdict { viol, nontrivial }
}

fn bounds(p: &Plan) -> Option<Viol> {
    if p.idx % 64 == 0 {
        let b = exec::thread_bounds();
        if !b.is_empty() {
            return viol("bounds", format!("cannot be shared between threads: {}", b.join("; ")));
        }
    }
    None
}

fn c01(p: &Plan, refs: &RefOuts, ex: &Exec) -> Option<Viol> {
    if let Some(v) = stuck(ex) {
        return Some(v);
    }
    let want = match (refout(refs, 0, 0), refout(refs, 0, 1)) {
        (Some(Out::Ok), Some(w)) => w,
        _ => return None,
    };
    let mut ok: BTreeMap<usize, bool> = BTreeMap::new();
    for x in &ex.recs {
        match op_of(p, x) {
            Op::Load { slot, .. } => {
                if let Out::Panic(m) = &x.out {
                    return viol("panic", format!("{}: the load panicked: {m}", whence(x)));
                }
                ok.insert(*slot, x.out == Out::Ok);
            }
            Op::Probe { slot, set } => {
                if ok.get(slot) == Some(&true) {
                    if let Some(d) = diff(p, *set, &x.out, want) {
                        return viol("partial", format!("{}: loaded under faults, {d}", whence(x)));
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn c02(p: &Plan, refs: &RefOuts, ex: &Exec) -> Option<Viol> {
    if let Some(v) = stuck(ex) {
        return Some(v);
    }
    let want = match (refout(refs, 0, 0), refout(refs, 0, 1)) {
        (Some(Out::Ok), Some(w)) => w,
        (Some(_), _) if model::load(&mut gen::files_of(&undecoy(&p.dirs[0]))).is_err() => return None,
        (Some(o), _) => return viol("refused", format!("a complete and well-formed directory is refused: {}", o.short())),
        _ => return None,
    };
    for x in &ex.recs {
        match op_of(p, x) {
            Op::Load { .. } => {
                if x.out != Out::Ok {
                    return viol("refused", format!("{}: load gave {} though nothing was wrong", whence(x), x.out.short()));
                }
            }
            Op::Probe { set, .. } => {
                if let Some(d) = diff(p, *set, &x.out, want) {
                    return viol("other-codes", format!("{}: {d}", whence(x)));
                }
            }
            _ => {}
        }
    }
    None
}

fn c03(p: &Plan, refs: &RefOuts, ex: &Exec) -> Option<Viol> {
    if let Some(v) = stuck(ex) {
        return Some(v);
    }
    let (states, at) = load_states(p);
    // slot -> state it was loaded in
    let mut slots: BTreeMap<usize, Option<usize>> = BTreeMap::new();
    let mut dms: BTreeMap<usize, Option<usize>> = BTreeMap::new();
    for x in &ex.recs {
        match op_of(p, x) {
            Op::Load { slot, fail, .. } => {
                let st = *at.get(&(x.phase, x.tid, x.op))?;
                let want = refout(refs, st, 0);
                let li = x.load.clone().unwrap_or_default();
                slots.insert(*slot, None);
                match (&x.out, want) {
                    (Out::Injected, _) if fail.is_some() => {}
                    (Out::Panic(m), _) => return viol("panic", format!("{}: the load panicked: {m}", whence(x))),
                    (Out::Ok, Some(Out::Ok)) => {
                        slots.insert(*slot, Some(st));
                    }
                    (Out::Ok, Some(Out::Err(e))) => {
                        return viol("accepted", format!("{}: load succeeded, alone it fails: {}", whence(x), e.text))
                    }
                    (Out::Err(e), Some(Out::Ok)) => {
                        if li.faults == 0 {
                            return viol("refused", format!("{}: load failed ({}), alone it succeeds", whence(x), e.text));
                        }
                    }
                    (Out::Err(_), _) => {}
                    _ => {}
                }
            }
            Op::Probe { slot, set } => {
                if let Some(Some(st)) = slots.get(slot) {
                    if let Some(want) = refout(refs, *st, 1 + *set) {
                        if let Some(d) = diff(p, *set, &x.out, want) {
                            return viol("trace", format!("{}: slot {slot} (directory state {st}): {d}", whence(x)));
                        }
                    }
                }
            }
            Op::CloneCfg { from, to } => {
                let s = if x.out == Out::Ok { slots.get(from).cloned().unwrap_or(None) } else { None };
                if x.out == Out::Ok {
                    slots.insert(*to, s);
                }
            }
            Op::DropCfg { slot } => {
                slots.insert(*slot, None);
            }
            Op::BuildDm { text, folding, slot } => {
                let k = states.len() + 2 * text + *folding as usize;
                dms.insert(*slot, None);
                match (&x.out, refout(refs, k, 0)) {
                    (Out::Panic(m), _) => return viol("panic", format!("{}: the build panicked: {m}", whence(x))),
                    (a, Some(w)) => {
                        if !a.same(w) {
                            return viol("trace", format!("{}: build gave {}, alone {}", whence(x), a.short(), w.short()));
                        }
                        if *a == Out::Ok {
                            dms.insert(*slot, Some(k));
                        }
                    }
                    _ => {}
                }
            }
            Op::ProbeDm { slot, set } => {
                if let Some(Some(k)) = dms.get(slot) {
                    if let Some(w) = refout(refs, *k, 1 + *set) {
                        if !x.out.same(w) {
                            return viol("trace", format!("{}: codes {} differ from {}", whence(x), x.out.short(), w.short()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn c04(p: &Plan, refs: &RefOuts, expect: &BTreeMap<Key, Out>, ex: &Exec) -> Option<Viol> {
    for x in &ex.recs {
        if matches!(op_of(p, x), Op::Call { .. } | Op::Probe { .. } | Op::Embed { .. } | Op::CloneCfg { .. }) && x.vops > 0 {
            return viol("storage-access", format!("{}: encoding made {} storage operations", whence(x), x.vops));
        }
    }
    let loads = ex.recs.iter().any(|x| x.load.is_some());
    if !ex.outside.is_empty() && !loads {
        return viol("storage-access", format!("encoding touched {}", ex.outside.join(", ")));
    }
    if let Some(o) = ex.outside.first() {
        return viol("storage-access", format!("storage outside the rule directory was touched: {o}"));
    }
    if let Some(v) = stuck(ex).or_else(|| bad_calls(p, ex, expect, true)) {
        return Some(v);
    }
    if let (Some(Out::Ok), Some(w)) = (refout(refs, 0, 0), refout(refs, 0, 1)) {
        for x in &ex.recs {
            match op_of(p, x) {
                Op::Probe { set, .. } if x.out != Out::Skip => {
                    if let Some(d) = diff(p, *set, &x.out, w) {
                        return viol("other-codes", format!("{}: {d}", whence(x)));
                    }
                }
                Op::Embed { .. } if x.out != Out::Ok => {
                    return viol("embedded", format!("{}: the embedded rules gave {}", whence(x), x.out.short()))
                }
                _ => {}
            }
        }
    }
    None
}

fn c05(p: &Plan, ex: &Exec) -> Option<Viol> {
    if let Some(m) = ex.mutations.first() {
        return viol("writes", format!("loading tried to modify storage: {m}"));
    }
    if let Some(o) = ex.outside.first() {
        return viol("outside", format!("loading touched storage outside the directory: {o}"));
    }
    if let Some(v) = stuck(ex) {
        return Some(v);
    }
    // a generous linear bound in what there is to read
    let d = &p.dirs[0];
    let files = gen::files_of(d);
    let mut src = files.clone();
    let mult = visits(&files);
    let _ = model::load(&mut src);
    let mut bound: u64 = 400 + 12 * (exec::resolve(d).entries.len() as u64);
    for (f, k) in &mult {
        let len = files.get(f).map(|b| b.len()).unwrap_or(0) as u64;
        let step = if d.max_read > 0 { d.max_read as u64 } else { 32 };
        bound += k * (40 + 6 * (len / step.min(32).max(1) + 1));
    }
    let eintr: u64 = p.faults.iter().map(|f| if let Act::Eintr(k) = f.act { k as u64 } else { 1 }).sum();
    bound += 8 * eintr;
    for x in &ex.recs {
        if let Some(l) = &x.load {
            if l.left_open != 0 {
                return viol("handle-leak", format!("{}: {} handles left open ({})", whence(x), l.left_open, x.out.short()));
            }
            if l.ops > bound {
                return viol("unbounded", format!("{}: {} storage operations, at most {bound} expected", whence(x), l.ops));
            }
            if let Out::Panic(m) = &x.out {
                if m.contains("overflow") {
                    return viol("panic", m.clone());
                }
            }
        }
    }
    if ex.open_handles > 0 {
        return viol("handle-leak", format!("{} handles open at the end", ex.open_handles));
    }
    let m: Vec<i64> = ex.recs.iter().filter(|x| matches!(op_of(p, x), Op::Measure)).filter_map(|x| if let Out::Num(n) = x.out { Some(n) } else { None }).collect();
    if m.len() >= 3 && m[2] > m[1] && m[1] > m[0] {
        return viol("memory", format!("memory not returned: {m:?} bytes held after each load and drop"));
    }
    None
}
/// How often each file can be read by one load (includes followed, cycles cut).
fn visits(files: &model::Files) -> BTreeMap<String, u64> {
    fn go(f: &str, files: &model::Files, m: &mut BTreeMap<String, u64>, stack: &mut Vec<String>, total: &mut u64) {
        if *total > 5000 {
            return;
        }
        *total += 1;
        *m.entry(f.to_string()).or_insert(0) += 1;
        if stack.iter().any(|s| s == f) {
            return;
        }
        stack.push(f.to_string());
        if let Some(b) = files.get(f) {
            for l in String::from_utf8_lossy(b).lines() {
                if let Some(i) = l.strip_prefix("#include ") {
                    let e = i.find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).unwrap_or(i.len());
                    go(&format!("{}.txt", &i[..e]), files, m, stack, total);
                }
            }
        }
        stack.pop();
    }
    let mut m = BTreeMap::new();
    let mut total = 0;
    for f in files.keys() {
        go(f, files, &mut m, &mut vec![], &mut total);
    }
    m
}

fn base_name(f: &str) -> &str {
    let f = f.rsplit('/').next().unwrap_or(f);
    f.strip_suffix(".txt").unwrap_or(f)
}
fn c06(p: &Plan, ex: &Exec) -> (Option<Viol>, bool) {
    let x = match ex.recs.first() {
        Some(x) => x,
        None => return (None, false),
    };
    let e = match &x.out {
        Out::Err(e) => e,
        _ => return (None, false),
    };
    let bad = |why: String| {
        (
            viol(
                "location",
                format!("{why}; reported: line {} of {:?}, content {:?} ({})", e.line, e.file, e.content, e.text),
            ),
            true,
        )
    };
    let eq = |a: &str, b: &str| a.trim_end_matches('\r') == b.trim_end_matches('\r');
    match op_of(p, x) {
        Op::BuildDm { text, folding, .. } => {
            let t = &p.texts[*text];
            match model::dm_load(t, *folding) {
                Err(MErr::Line { line, content, .. }) => {
                    if !e.located {
                        return bad(format!("line {line} ({content:?}) is damaged, the error has no location"));
                    }
                    if e.line != line || !eq(&e.content, &content) {
                        return bad(format!("line {line} ({content:?}) is the damaged one"));
                    }
                    (None, true)
                }
                _ => (None, false),
            }
        }
        Op::Load { .. } => {
            let files = gen::files_of(&p.dirs[0]);
            let m = match model::load(&mut files.clone()) {
                Err(m) => m,
                Ok(_) => return (None, false),
            };
            let (line, content, file, include, unknown) = match m {
                MErr::Line { line, content, file, include, unknown } => (line, content, file, include, unknown),
                _ => {
                    // no line is to blame: a location, if any, must at least exist
                    if e.located {
                        return located_somewhere(&files, e, &bad);
                    }
                    return (None, false);
                }
            };
            if include {
                // any line with this include may be the one reported
                if !e.located {
                    return bad(format!("include at line {line} of {file} fails, the error has no location"));
                }
                let c = e.content.trim_end_matches('\r');
                if !c.starts_with("#include") {
                    return bad("a failing include is the reason".into());
                }
                return located_somewhere(&files, e, &bad);
            }
            if unknown && !e.located {
                return bad(format!("line {line} of {file} ({content:?}) has no known form, the error has no location"));
            }
            if !e.located {
                return (None, false);
            }
            if e.line != line || !eq(&e.content, &content) {
                return bad(format!("line {line} of {file} ({content:?}) is the damaged one"));
            }
            match &e.file {
                Some(f) if base_name(f) != base_name(&file) => return bad(format!("{file} is the damaged file")),
                None if unknown && !file.contains("_languages") => return bad(format!("the damaged file {file} is not named")),
                _ => {}
            }
            (None, true)
        }
        _ => (None, false),
    }
}
fn located_somewhere(
    files: &model::Files,
    e: &exec::ErrInfo,
    bad: &dyn Fn(String) -> (Option<Viol>, bool),
) -> (Option<Viol>, bool) {
    if let Some(f) = &e.file {
        let b = match files.iter().find(|(k, _)| base_name(k) == base_name(f)) {
            Some(b) => b.1,
            None => return bad("there is no such file".into()),
        };
        let t = String::from_utf8_lossy(b).to_string();
        let l = t.split('\n').nth(e.line.wrapping_sub(1));
        if l.map(|l| l.trim_end_matches('\r')) != Some(e.content.trim_end_matches('\r')) {
            return bad(format!("that line is {l:?}"));
        }
    }
    (None, true)
}

/// Files as this load was served them, what was not read as it lies on the disk.
fn served(p: &Plan, x: &Rec) -> model::Files {
    let mut files = gen::files_of(&p.dirs[0]);
    for c in &p.changes {
        // whichever came first was served; unread files are as the last change left them
        match &c.node {
            Some(Node::File(b)) => {
                files.insert(c.name.clone(), b.0.clone());
            }
            _ => {
                files.remove(&c.name);
            }
        }
    }
    if let Some(l) = &x.load {
        for (n, v) in &l.served {
            if let Some(b) = v.last() {
                files.insert(n.clone(), b.clone());
            }
        }
    }
    files
}

fn c07(p: &Plan, ex: &Exec) -> Option<Viol> {
    let x = ex.recs.first()?;
    if let Out::Panic(m) = &x.out {
        return viol("panic", format!("damaged text: {m}"));
    }
    match op_of(p, x) {
        Op::BuildDm { text, folding, .. } => {
            let m = model::dm_load(&p.texts[*text], *folding);
            match (&x.out, &m) {
                (Out::Ok, Err(e)) => return viol("accepted", format!("text accepted, but {e:?}")),
                (Out::Err(e), Ok(_)) => return viol("refused", format!("text refused ({}), but every line is a rule", e.text)),
                (Out::Ok, Ok(m)) => {
                    if let Some(y) = ex.recs.get(1) {
                        if let Out::Many(v) = &y.out {
                            for (i, o) in v.iter().enumerate() {
                                let inp = &p.dm_probes[0][i / 2];
                                let want = match m.encode(inp, i % 2 == 1) {
                                    Ok(s) => Out::Val(s),
                                    Err(_) => Out::Panic(String::new()),
                                };
                                if !o.same(&want) {
                                    return viol("other-rules", format!("{inp:?} gave {}, the text says {}", o.short(), want.short()));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
            None
        }
        Op::Load { .. } => {
            let m = model::load(&mut served(p, x));
            match (&x.out, &m) {
                (Out::Ok, Err(e)) => return viol("accepted", format!("files accepted, but {e:?}")),
                (Out::Err(e), Ok(_)) => return viol("refused", format!("files refused ({}), but every line is a rule", e.text)),
                (Out::Ok, Ok(c)) => {
                    if let Some(y) = ex.recs.get(1) {
                        if let Out::Many(v) = &y.out {
                            for (i, o) in v.iter().enumerate() {
                                let (b, call) = &p.probes[0][i];
                                if let Some(want) = predict(c, b, call) {
                                    if !o.same(&want) {
                                        return viol("other-rules", format!("{b:?} {call:?} gave {}, the files say {}", o.short(), want.short()));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
            None
        }
        _ => None,
    }
}
/// What the model says the call gives.
pub fn predict(c: &Config, b: &Bm, call: &Call) -> Option<Out> {
    let r = match call {
        Call::Encode(s) => c.encode(b, s),
        Call::Langs(s, l) => {
            let ls = if l.is_empty() { Ls::Any } else { Ls::Some(l.iter().cloned().collect()) };
            c.encode_with(b, s, &ls)
        }
        _ => return None,
    };
    Some(match r {
        Ok(s) => Out::Val(s),
        Err(_) => Out::Panic(String::new()),
    })
}

/// Loads of threads that were not stalled finish too, and without panic.
fn c11(p: &Plan, ex: &Exec) -> Option<Viol> {
    for x in &ex.recs {
        if matches!(op_of(p, x), Op::Load { .. }) {
            match &x.out {
                Out::Panic(m) => return viol("panic", format!("{}: the load panicked: {m}", whence(x))),
                Out::Err(e) => return viol("refused", format!("{}: the load failed: {}", whence(x), e.text)),
                _ => {}
            }
        }
    }
    None
}

fn c13(p: &Plan, refs: &RefOuts) -> Option<Viol> {
    let a = unshuffle(p, 0, refs.first()?)?;
    for i in 1..p.replicas.len() {
        let b = match refs.get(i).and_then(|r| unshuffle(p, i, r)) {
            Some(b) => b,
            None => continue,
        };
        for ((what, x), (_, y)) in a.iter().zip(&b) {
            if !x.same(y) {
                return viol("disagree", format!("{what}: replica 0 gives {}, replica {i} {}", x.short(), y.short()));
            }
        }
    }
    None
}

fn c14(p: &Plan, ex: &Exec) -> Option<Viol> {
    if let Some(v) = stuck(ex) {
        return Some(v);
    }
    // bytes held after each round, calls made up to then
    let mut m: Vec<(i64, i64)> = vec![];
    let mut calls = 0;
    for x in &ex.recs {
        match op_of(p, x) {
            Op::Measure => {
                if let Out::Num(n) = x.out {
                    m.push((n, calls));
                }
            }
            Op::Fill { n, .. } | Op::Again { n, .. } => calls += *n as i64,
            _ => calls += 1,
        }
    }
    if m.len() < 32 {
        return None;
    }
    // growth from round 4 to 8, 8 to 16, 16 to 32: tables that double show up in each, caches that fill up do not
    let thr = |a: usize, b: usize| match p.encs.first() {
        Some(EncSpec::Bm(Cfg::Embedded | Cfg::Cc, _)) if p.kind == "threads" => i64::MAX,
        Some(EncSpec::Bm(Cfg::Embedded | Cfg::Cc, _)) => 100 * (m[b].1 - m[a].1).max(16),
        _ => 16,
    };
    if std::env::var("RPH_GROWTH").is_ok() {
        let w = |a: usize, b: usize| (m[b].0 - m[a].0) as f64 / (m[b].1 - m[a].1).max(1) as f64;
        eprintln!("growth {} {:?} {:.2} {:.2} {:.2} calls {}", p.kind, p.encs.first(), w(3, 7), w(7, 15), w(15, 31), m[31].1);
    }
    if [(3, 7), (7, 15), (15, 31)].iter().all(|(a, b)| m[*b].0 - m[*a].0 >= thr(*a, *b)) {
        let v: Vec<i64> = m.iter().map(|x| x.0).collect();
        return viol("grows", format!("{}: bytes retained after each round, growing without end: {v:?}", p.kind));
    }
    None
}
