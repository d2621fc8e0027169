//! Executes a plan against the real library inside the simulator and records what every operation observed.
#![allow(static_mut_refs)]
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Arc;

use rphonetic::*;
use serde::{Deserialize, Serialize};

use crate::alloc;
use crate::gen;
use crate::interpose;
use crate::model::{Bm, NT};
use crate::plan::*;
use crate::rng::Rng;
use crate::rt::{self, End, HarnGuard, SchedPlan, Spawn, Switch};
use crate::vfs;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct ErrInfo {
    /// located, other
    pub located: bool,
    pub line: usize,
    pub content: String,
    pub file: Option<String>,
    pub text: String,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Out {
    Val(String),
    Ok,
    Err(ErrInfo),
    Panic(String),
    /// cut short by an injected allocation failure
    Injected,
    Many(Vec<Out>),
    Num(i64),
    /// not executed (a slot was empty)
    Skip,
}
impl Out {
    /// Same observable result? Panics are compared as panics.
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Panic(_), Out::Panic(_)) => true,
            (Out::Many(a), Out::Many(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            _ => self == o,
        }
    }
    pub fn short(&self) -> String {
        let s = match self {
            Out::Val(v) => format!("{v:?}"),
            Out::Err(e) => format!("Err({})", e.text),
            o => format!("{o:?}"),
        };
        if s.chars().count() > 300 {
            format!("{}…", s.chars().take(300).collect::<String>())
        } else {
            s
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct LoadInfo {
    /// storage operations made
    pub ops: u64,
    /// content of files as read to the end by this thread during the load
    #[serde(skip)]
    pub served: BTreeMap<String, Vec<Vec<u8>>>,
    /// handles open when it returned that were not open before
    pub left_open: i64,
    /// faults that met it: storage faults and failed allocations
    pub faults: u64,
    pub dir: usize,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub phase: usize,
    pub tid: usize,
    pub op: usize,
    pub out: Out,
    /// storage operations during the operation (all threads)
    pub vops: u64,
    /// position in the global order of completion
    pub load: Option<LoadInfo>,
    /// global sequence numbers of start and end
    pub t0: u64,
    pub t1: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub ops: u64,
    pub calls: u64,
    pub fills: u64,
    pub steps: u64,
    /// most steps of a phase with threads
    pub peak: u64,
    pub preempts: u64,
    pub conflicts: u64,
    pub newedges: u64,
    pub futex_waits: u64,
    pub stalls: u64,
    pub sim_ns: u64,
    pub injected_allocs: u64,
    pub panics: u64,
    pub fired: BTreeMap<String, u64>,
    pub storage_ops: u64,
    pub rand_calls: u64,
    pub clock_calls: u64,
    /// hash of schedule
    pub sched: u64,
    pub edges: u32,
    pub threads: u64,
    pub loads_ok: u64,
    pub loads_err: u64,
    pub extra: BTreeMap<String, u64>,
}

pub struct Exec {
    pub recs: Vec<Rec>,
    pub ends: Vec<End>,
    pub stats: Stats,
    pub switches: Vec<Vec<Switch>>,
    pub mutations: Vec<String>,
    pub outside: Vec<String>,
    pub open_handles: usize,
    pub storage_log: Vec<String>,
}

// ------------------------------------------------------------------------------------------------ encoders

pub enum Enc {
    C1(Caverphone1),
    C2(Caverphone2),
    Co(Cologne),
    Dmp(DoubleMetaphone),
    Mra(MatchRatingApproach),
    Mp(Metaphone),
    Ny(Nysiis),
    Ph(Phonex),
    Rs(RefinedSoundex),
    Sx(Soundex),
    Dm(DaitchMokotoffSoundex),
    /// the encoder borrows the configuration, which is kept alive beside it
    Bm(std::mem::ManuallyDrop<BeiderMorse<'static>>, CfgRef),
}
impl Drop for Enc {
    fn drop(&mut self) {
        if let Enc::Bm(b, _) = self {
            unsafe { std::mem::ManuallyDrop::drop(b) }
        }
    }
}
#[derive(Clone)]
pub struct CfgRef(Arc<Force<ConfigFiles>>);

/// Lets values cross threads whatever their type promises (a lost Send or Sync is reported, not a build failure).
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

/// Configurations made ready before the run (by a process that does nothing else).
pub static mut CC: Option<CfgRef> = None;
pub static mut EMBEDDED: Option<CfgRef> = None;
/// commons-codec rule files
pub static mut CC_DIR: Option<vfs::DirSpec> = None;

/// The directory with everything spelled out.
pub fn resolve(d: &vfs::DirSpec) -> vfs::DirSpec {
    let mut d = d.clone();
    if d.base.take().is_some() {
        let mut e = unsafe { CC_DIR.as_ref().expect("cc rules").entries.clone() };
        for r in std::mem::take(&mut d.removed) {
            e.remove(&r);
        }
        e.extend(std::mem::take(&mut d.entries));
        d.entries = e;
    }
    d
}

pub fn preload_cc() {
    unsafe {
        let d = CC_DIR.clone().expect("cc rules");
        let v = vfs::v();
        v.reset();
        v.dirs = vec![d];
        let r = rt::lib(|| catch_unwind(|| ConfigFiles::new(&PathBuf::from("/simfs/d0"))));
        v.reset();
        if let Ok(Ok(c)) = r {
            CC = Some(CfgRef(Arc::new(Force(c))));
        }
    }
}
pub fn preload_embedded() {
    unsafe {
        if let Ok(c) = rt::lib(|| catch_unwind(ConfigFiles::default)) {
            EMBEDDED = Some(CfgRef(Arc::new(Force(c))));
        }
    }
}

fn arr(s: &str) -> [char; 26] {
    s.chars().collect::<Vec<_>>().try_into().unwrap()
}
fn name_type(n: u8) -> NameType {
    match n {
        0 => NameType::Ashkenazi,
        1 => NameType::Generic,
        _ => NameType::Sephardic,
    }
}
fn rule_type(n: u8) -> RuleType {
    if n == 0 {
        RuleType::Approx
    } else {
        RuleType::Exact
    }
}
pub fn build_bm(c: &CfgRef, s: &Bm, way: usize) -> Enc {
    let cfg: &'static ConfigFiles = unsafe { &*(&c.0 .0 as *const ConfigFiles) };
    let e = rt::lib(|| {
        if way % 2 == 1 {
            // settings changed, in another order, by a builder that is used again
            let b = BeiderMorseBuilder::new(cfg).max_phonemes(s.max + 1).concat(!s.concat).rule_type(rule_type(s.rt));
            if way % 4 == 1 {
                drop(b.build());
            }
            let b = b.clone().concat(s.concat).max_phonemes(s.max).name_type(name_type(s.nt));
            return b.build();
        }
        BeiderMorseBuilder::new(cfg)
            .name_type(name_type(s.nt))
            .rule_type(rule_type(s.rt))
            .concat(s.concat)
            .max_phonemes(s.max)
            .build()
    });
    Enc::Bm(std::mem::ManuallyDrop::new(e), c.clone())
}

/// Builds an encoder (code under test runs), in one of several ways that come to the same. None: its configuration slot is empty.
pub fn build(spec: &EncSpec, texts: &[String], slots: &[Option<CfgRef>], way: usize) -> Option<Enc> {
    Some(match spec {
        EncSpec::Caverphone1 => Enc::C1(Caverphone1),
        EncSpec::Caverphone2 => Enc::C2(Caverphone2),
        EncSpec::Cologne => Enc::Co(Cologne),
        EncSpec::DoubleMetaphone(None) => rt::lib(|| Enc::Dmp(DoubleMetaphone::default())),
        EncSpec::DoubleMetaphone(Some(m)) => rt::lib(|| Enc::Dmp(DoubleMetaphone::new(*m))),
        EncSpec::MatchRating => Enc::Mra(MatchRatingApproach),
        EncSpec::Metaphone(None) => rt::lib(|| Enc::Mp(Metaphone::default())),
        EncSpec::Metaphone(Some(m)) => rt::lib(|| Enc::Mp(Metaphone::new(*m))),
        EncSpec::Nysiis(None) => rt::lib(|| Enc::Ny(Nysiis::default())),
        EncSpec::Nysiis(Some(b)) => rt::lib(|| Enc::Ny(Nysiis::new(*b))),
        EncSpec::Phonex(None) => rt::lib(|| Enc::Ph(Phonex::default())),
        EncSpec::Phonex(Some(n)) => rt::lib(|| Enc::Ph(Phonex::new(*n))),
        EncSpec::RefinedSoundex(None) => rt::lib(|| Enc::Rs(RefinedSoundex::default())),
        EncSpec::RefinedSoundex(Some(m)) => rt::lib(|| {
            if way % 8 > 4 {
                let _ = RefinedSoundex::try_from(&m[1..]);
            }
            Some(Enc::Rs(match way % 4 {
                1 => m.parse().ok()?,
                2 => RefinedSoundex::try_from(m.as_str()).ok()?,
                3 => RefinedSoundex::try_from(m.clone()).ok()?,
                _ => RefinedSoundex::new(arr(m)),
            }))
        })?,
        EncSpec::Soundex(None) => rt::lib(|| Enc::Sx(Soundex::default())),
        EncSpec::Soundex(Some((m, None))) => rt::lib(|| {
            if way % 8 > 4 {
                let _ = Soundex::try_from(&m[1..]);
            }
            Some(Enc::Sx(match way % 4 {
                1 => m.parse().ok()?,
                2 => Soundex::try_from(m.as_str()).ok()?,
                3 => Soundex::try_from(m.clone()).ok()?,
                _ => Soundex::from(arr(m)),
            }))
        })?,
        EncSpec::Soundex(Some((m, Some(h)))) => rt::lib(|| Enc::Sx(Soundex::new(arr(m), *h))),
        EncSpec::Dm(None, true) if way % 2 == 1 => rt::lib(|| Enc::Dm(DaitchMokotoffSoundex::default())),
        EncSpec::Dm(None, f) => {
            rt::lib(|| DaitchMokotoffSoundexBuilder::default().ascii_folding(*f).build()).ok().map(Enc::Dm)?
        }
        EncSpec::Dm(Some(t), f) => rt::lib(|| {
            DaitchMokotoffSoundexBuilder::with_rules(texts.get(*t).map(|s| s.as_str()).unwrap_or(""))
                .ascii_folding(*f)
                .build()
        })
        .ok()
        .map(Enc::Dm)?,
        EncSpec::Bm(c, s) => {
            let cfg = match c {
                Cfg::Embedded => match unsafe { &EMBEDDED } {
                    Some(c) => c.clone(),
                    None => CfgRef(Arc::new(Force(rt::lib(ConfigFiles::default)))),
                },
                Cfg::Cc => unsafe { CC.clone() }?,
                Cfg::Slot(i) => slots.get(*i)?.clone()?,
            };
            build_bm(&cfg, s, way)
        }
    })
}

macro_rules! each {
    ($e:expr, $x:ident => $b:expr) => {
        match $e {
            Enc::C1($x) => $b,
            Enc::C2($x) => $b,
            Enc::Co($x) => $b,
            Enc::Dmp($x) => $b,
            Enc::Mra($x) => $b,
            Enc::Mp($x) => $b,
            Enc::Ny($x) => $b,
            Enc::Ph($x) => $b,
            Enc::Rs($x) => $b,
            Enc::Sx($x) => $b,
            Enc::Dm($x) => $b,
            Enc::Bm($x, _) => $b,
        }
    };
}

impl Enc {
    fn dup(&self) -> Enc {
        rt::lib(|| match self {
            Enc::C1(x) => Enc::C1(*x),
            Enc::C2(x) => Enc::C2(*x),
            Enc::Co(x) => Enc::Co(*x),
            Enc::Dmp(x) => Enc::Dmp(x.clone()),
            Enc::Mra(x) => Enc::Mra(*x),
            Enc::Mp(x) => Enc::Mp(x.clone()),
            Enc::Ny(x) => Enc::Ny(x.clone()),
            Enc::Ph(x) => Enc::Ph(x.clone()),
            Enc::Rs(x) => Enc::Rs(x.clone()),
            Enc::Sx(x) => Enc::Sx(x.clone()),
            Enc::Dm(x) => Enc::Dm(x.clone()),
            Enc::Bm(x, c) => Enc::Bm((*x).clone(), c.clone()),
        })
    }
    /// Runs the call; the result is copied out of the library's memory.
    pub fn call(&self, c: &Call) -> Out {
        let copy = |s: String| {
            let _g = HarnGuard::new();
            let r = Out::Val(s.as_str().to_owned());
            drop(s);
            r
        };
        match c {
            Call::Encode(a) => copy(rt::lib(|| each!(self, x => x.encode(a)))),
            Call::Equal(a, b) => Out::Num(rt::lib(|| each!(self, x => x.is_encoded_equals(a, b))) as i64),
            Call::Diff(a, b) => match self {
                Enc::Sx(x) => Out::Num(rt::lib(|| x.difference(a, b)) as i64),
                Enc::Rs(x) => Out::Num(rt::lib(|| x.difference(a, b)) as i64),
                _ => Out::Skip,
            },
            Call::Alt(a) => match self {
                Enc::Dmp(x) => {
                    let (r, f) = rt::lib(|| {
                        let d = x.double_metaphone(a);
                        (format!("{}/{}", d.primary(), d.alternate()), x.encode_alternate(a))
                    });
                    let o = copy(r);
                    let _ = copy(f);
                    o
                }
                _ => Out::Skip,
            },
            Call::DmEqual(a, b, k) => match self {
                Enc::Dmp(x) => Out::Num(rt::lib(|| x.is_double_metaphone_equal(a, b, *k)) as i64),
                _ => Out::Skip,
            },
            Call::Branches(a) => match self {
                Enc::Dm(x) => copy(rt::lib(|| x.soundex(a))),
                _ => Out::Skip,
            },
            Call::Langs(a, l) => match self {
                Enc::Bm(x, _) => {
                    let r = rt::lib(|| {
                        let set = if l.is_empty() {
                            LanguageSet::Any
                        } else {
                            LanguageSet::from(l.iter().map(|s| s.as_str()).collect::<Vec<_>>())
                        };
                        x.encode_with_languages(a, &set)
                    });
                    copy(r)
                }
                _ => Out::Skip,
            },
        }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> Out {
    if e.is::<alloc::Injected>() {
        return Out::Injected;
    }
    let _g = HarnGuard::new();
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    drop(e);
    Out::Panic(s)
}

/// The call alone, with an encoder built for it.
pub fn solo(spec: &EncSpec, texts: &[String], call: &Call) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| match build(spec, texts, &[], 0) {
        Some(e) => e.call(call),
        None => Out::Skip,
    }));
    match r {
        Ok(o) => o,
        Err(e) => panic_text(e),
    }
}

pub fn err_info(e: &PhoneticError) -> ErrInfo {
    match e {
        PhoneticError::ParseRuleError(p) => ErrInfo {
            located: true,
            line: p.line_number,
            content: p.line_content.clone(),
            file: p.filename.clone(),
            text: e.to_string(),
        },
        _ => ErrInfo { located: false, line: 0, content: String::new(), file: None, text: e.to_string() },
    }
}

pub const SPELLINGS: usize = 10 + vfs::VIA.len();
pub fn spelled(dir: usize, how: u8) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let via = |n: usize| vfs::from_bytes(vfs::VIA[n]);
    let s = match how {
        1 => format!("/simfs/d{dir}/"),
        2 => format!("/simfs/./d{dir}"),
        3 => format!("/simfs//d{dir}//"),
        4 => format!("/simfs/d{dir}/../d{dir}"),
        5 => format!("/simfs/d{dir}/."),
        6 => format!("d{dir}"),
        7 => format!("./d{dir}/"),
        8 => format!("../simfs/d{dir}"),
        9 => format!("//simfs/{}d{dir}", "./".repeat(400)),
        n if n >= 10 && (n as usize) < SPELLINGS => format!("/simfs/{}/d{dir}", via(n as usize - 10)),
        _ => format!("/simfs/d{dir}"),
    };
    PathBuf::from(std::ffi::OsString::from_vec(vfs::to_bytes(&s)))
}

/// The text in the buffer of the calling thread, the same for all texts.
fn text_buffer(t: &str) -> &'static str {
    static mut BUF: [[u8; 1 << 16]; 16] = [[0; 1 << 16]; 16];
    let b = t.as_bytes();
    if b.len() > 1 << 16 {
        return Box::leak(t.to_string().into_boxed_str());
    }
    unsafe {
        let d = &mut BUF[(rt::TID + 1).clamp(0, 15) as usize];
        d[..b.len()].copy_from_slice(b);
        std::str::from_utf8_unchecked(&d[..b.len()])
    }
}

// ------------------------------------------------------------------------------------------------ world

pub struct World {
    pub plan: Plan,
    slots: Vec<Option<CfgRef>>,
    dms: Vec<Option<Arc<Force<DaitchMokotoffSoundex>>>>,
    shared: Vec<Option<Arc<Force<Enc>>>>,
    recs: Vec<Rec>,
    seq: u64,
    stats: Stats,
    pub switches: Vec<Vec<Switch>>,
}
pub static mut W: Option<Box<World>> = None;
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
pub const SLOTS: usize = 8;

fn shared_enc(i: usize) -> Option<Arc<Force<Enc>>> {
    if let Some(e) = &w().shared[i] {
        return Some(e.clone());
    }
    let spec = {
        let _g = HarnGuard::new();
        w().plan.encs[i].clone()
    };
    let e = build(&spec, &w().plan.texts, &w().slots, i + w().plan.idx as usize)?;
    let _g = HarnGuard::new();
    if w().shared[i].is_none() {
        w().shared[i] = Some(Arc::new(Force(e)));
    } else {
        drop(e);
    }
    w().shared[i].clone()
}

fn arm(fail: Option<i64>) {
    if let Some(n) = fail {
        unsafe { alloc::FAIL_IN = n };
    }
}
fn disarm() {
    unsafe { alloc::FAIL_IN = -1 };
}

fn do_op(phase: usize, tid: usize, oi: usize, op: &Op) {
    let harn = HarnGuard::new();
    let v = vfs::v();
    let ops0 = v.ops;
    let t0 = w().seq;
    w().seq += 1;
    w().stats.ops += 1;
    let mut load: Option<LoadInfo> = None;
    let out: Out = match op {
        Op::Call { enc, how, call, fail } => {
            w().stats.calls += 1;
            drop(harn);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let e = match how {
                    How::Fresh => {
                        let spec = {
                            let _g = HarnGuard::new();
                            w().plan.encs[*enc].clone()
                        };
                        // built with allocations working; the call may be cut short
                        match build(&spec, &w().plan.texts, &w().slots, oi + tid + w().plan.idx as usize) {
                            None => return Out::Skip,
                            Some(e) => {
                                arm(*fail);
                                let o = e.call(call);
                                disarm();
                                rt::lib(|| drop(e));
                                return o;
                            }
                        }
                    }
                    _ => match shared_enc(*enc) {
                        None => return Out::Skip,
                        Some(e) => e,
                    },
                };
                if *how == How::Clone {
                    let d = e.0.dup();
                    arm(*fail);
                    let o = d.call(call);
                    disarm();
                    rt::lib(|| drop(d));
                    o
                } else {
                    arm(*fail);
                    let o = e.0.call(call);
                    disarm();
                    o
                }
            }));
            disarm();
            match r {
                Ok(o) => o,
                Err(e) => panic_text(e),
            }
        }
        Op::Again { enc, call, n } => {
            w().stats.calls += *n as u64;
            drop(harn);
            let e = match catch_unwind(AssertUnwindSafe(|| shared_enc(*enc))) {
                Ok(e) => e,
                Err(_) => None,
            };
            match e {
                None => Out::Skip,
                Some(e) => {
                    let once = || match catch_unwind(AssertUnwindSafe(|| e.0.call(call))) {
                        Ok(o) => o,
                        Err(e) => panic_text(e),
                    };
                    let first = once();
                    let mut out = None;
                    for _ in 1..*n {
                        let o = once();
                        let _g = HarnGuard::new();
                        if out.is_none() && !o.same(&first) {
                            out = Some(o);
                        } else {
                            drop(o);
                        }
                    }
                    match out {
                        Some(o) => {
                            let _g = HarnGuard::new();
                            drop(first);
                            o
                        }
                        None => first,
                    }
                }
            }
        }
        Op::Fill { enc, n, seed } => {
            let mut rng = Rng::new(*seed);
            let bm = gen::is_bm(&w().plan.encs[*enc]);
            let e = match catch_unwind(AssertUnwindSafe(|| {
                let _u = Unharn::new();
                shared_enc(*enc)
            })) {
                Ok(e) => e,
                Err(_) => None,
            };
            match e {
                None => Out::Skip,
                Some(e) => {
                    let spec = w().plan.encs[*enc].clone();
                    for _ in 0..*n {
                        let mut a = gen::filler(&mut rng);
                        if bm {
                            a = gen::truncate_chars(&a, 14);
                        }
                        let b = gen::filler(&mut rng);
                        let b = if bm { gen::truncate_chars(&b, 10) } else { b };
                        let c = gen::call_for(&mut rng, &spec, a, b);
                        w().stats.fills += 1;
                        let u = Unharn::new();
                        let r = catch_unwind(AssertUnwindSafe(|| e.0.call(&c)));
                        drop(u);
                        if let Err(e) = r {
                            w().stats.panics += 1;
                            let _ = panic_text(e);
                        }
                    }
                    drop(harn);
                    Out::Ok
                }
            }
        }
        Op::Load { dir, slot, spell, fail } => {
            let path = spelled(*dir, *spell);
            let open0 = v.open_by(tid_now());
            let s0 = v.served_pos();
            let my0 = v.ops_by(tid_now());
            let f0 = v.fired_by(tid_now());
            let a0 = unsafe { alloc::FAILED_HERE };
            let u = Unharn::new();
            let fl = *fail;
            let r = catch_unwind(AssertUnwindSafe(|| {
                rt::lib(|| {
                    arm(fl);
                    let r = ConfigFiles::new(&path);
                    disarm();
                    r
                })
            }));
            disarm();
            drop(u);
            let v = vfs::v();
            load = Some(LoadInfo {
                ops: v.ops_by(tid_now()) - my0,
                served: v.served_since(s0, tid_now(), *dir),
                left_open: v.open_by(tid_now()) as i64 - open0 as i64,
                faults: v.fired_by(tid_now()) - f0 + unsafe { alloc::FAILED_HERE } - a0,
                dir: *dir,
            });
            let o = match r {
                Ok(Ok(c)) => {
                    w().stats.loads_ok += 1;
                    let c = CfgRef(Arc::new(Force(c)));
                    set_slot(*slot, Some(c));
                    Out::Ok
                }
                Ok(Err(e)) => {
                    w().stats.loads_err += 1;
                    set_slot(*slot, None);
                    let i = err_info(&e);
                    drop(e);
                    Out::Err(i)
                }
                Err(e) => {
                    set_slot(*slot, None);
                    panic_text(e)
                }
            };
            drop(harn);
            o
        }
        Op::Embed { slot } => {
            let u = Unharn::new();
            let r = catch_unwind(|| rt::lib(ConfigFiles::default));
            drop(u);
            let o = match r {
                Ok(c) => {
                    set_slot(*slot, Some(CfgRef(Arc::new(Force(c)))));
                    Out::Ok
                }
                Err(e) => panic_text(e),
            };
            drop(harn);
            o
        }
        Op::CloneCfg { from, to } => {
            let o = match w().slots[*from].clone() {
                None => Out::Skip,
                Some(c) => {
                    let u = Unharn::new();
                    let r = catch_unwind(AssertUnwindSafe(|| rt::lib(|| c.0 .0.clone())));
                    drop(u);
                    match r {
                        Ok(c) => {
                            set_slot(*to, Some(CfgRef(Arc::new(Force(c)))));
                            Out::Ok
                        }
                        Err(e) => panic_text(e),
                    }
                }
            };
            drop(harn);
            o
        }
        Op::DropCfg { slot } => {
            set_slot(*slot, None);
            drop(harn);
            Out::Ok
        }
        Op::BuildDm { text, folding, slot } => {
            let u = Unharn::new();
            // an application reads rule texts into one buffer
            let t = text_buffer(w().plan.texts.get(*text).map(|s| s.as_str()).unwrap_or(""));
            let r = catch_unwind(|| rt::lib(|| DaitchMokotoffSoundexBuilder::with_rules(t).ascii_folding(*folding).build()));
            drop(u);
            let o = match r {
                Ok(Ok(d)) => {
                    w().stats.loads_ok += 1;
                    w().dms[*slot] = Some(Arc::new(Force(d)));
                    Out::Ok
                }
                Ok(Err(e)) => {
                    w().stats.loads_err += 1;
                    w().dms[*slot] = None;
                    Out::Err(err_info(&e))
                }
                Err(e) => {
                    w().dms[*slot] = None;
                    panic_text(e)
                }
            };
            drop(harn);
            o
        }
        Op::Probe { slot, set } => {
            let o = match w().slots[*slot].clone() {
                None => Out::Skip,
                Some(c) => {
                    let ps = w().plan.probes[*set].clone();
                    let mut outs = vec![];
                    for (b, call) in &ps {
                        w().stats.calls += 1;
                        let u = Unharn::new();
                        let r = catch_unwind(AssertUnwindSafe(|| build_bm(&c, b, 0).call(call)));
                        drop(u);
                        outs.push(match r {
                            Ok(o) => o,
                            Err(e) => panic_text(e),
                        });
                    }
                    Out::Many(outs)
                }
            };
            drop(harn);
            o
        }
        Op::ProbeDm { slot, set } => {
            let o = match w().dms[*slot].clone() {
                None => Out::Skip,
                Some(d) => {
                    let ps = w().plan.dm_probes[*set].clone();
                    let mut outs = vec![];
                    for p in &ps {
                        for br in [false, true] {
                            w().stats.calls += 1;
                            let u = Unharn::new();
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                rt::lib(|| if br { d.0.soundex(p) } else { d.0.encode(p) })
                            }));
                            drop(u);
                            outs.push(match r {
                                Ok(s) => Out::Val(s.as_str().to_owned()),
                                Err(e) => panic_text(e),
                            });
                        }
                    }
                    Out::Many(outs)
                }
            };
            drop(harn);
            o
        }
        Op::Change(n) => {
            v.apply_change(*n);
            drop(harn);
            Out::Ok
        }
        Op::Break(e) => {
            v.broken = *e;
            drop(harn);
            Out::Ok
        }
        Op::Clock(d) => {
            unsafe { rt::CLOCK_ADD = (rt::CLOCK_ADD + d).max(-1_600_000_000_000_000_000) };
            drop(harn);
            Out::Ok
        }
        Op::Measure => {
            drop(harn);
            Out::Num(alloc::live())
        }
    };
    let _g = HarnGuard::new();
    if matches!(out, Out::Panic(_)) {
        w().stats.panics += 1;
    }
    let t1 = w().seq;
    w().seq += 1;
    w().recs.push(Rec { phase, tid, op: oi, out, vops: vfs::v().ops - ops0, load, t0, t1 });
}

fn set_slot(i: usize, c: Option<CfgRef>) {
    // dropping the last reference runs code under test
    let old = std::mem::replace(&mut w().slots[i], c);
    // encoders made from the old content stay alive with it, but are not handed out any more
    for k in 0..w().shared.len() {
        if let EncSpec::Bm(Cfg::Slot(s), _) = &w().plan.encs[k] {
            if *s == i {
                w().shared[k] = None;
            }
        }
    }
    let _u = Unharn::new();
    rt::lib(|| drop(old));
}

fn tid_now() -> i32 {
    unsafe { rt::TID }
}

/// Leaves harness mode for a while.
struct Unharn;
impl Unharn {
    fn new() -> Self {
        unsafe { rt::HARN -= 1 };
        Unharn
    }
}
impl Drop for Unharn {
    fn drop(&mut self) {
        unsafe { rt::HARN += 1 };
    }
}

pub fn setup(plan: &Plan) {
    unsafe {
        let _g = HarnGuard::new();
        let v = vfs::v();
        v.reset();
        v.dirs = plan.dirs.iter().map(resolve).collect();
        let mut r = Rng::new(plan.knobs.junk as u64);
        let sizes: Vec<usize> = (0..plan.knobs.junk).map(|_| r.logu(5000) as usize).collect();
        alloc::junk(&sizes);
        v.changes = plan.changes.clone();
        v.faults = plan.faults.clone();
        v.window = plan.window;
        interpose::RAND = Some(Rng::new(plan.knobs.rand));
        alloc::PAD.store(plan.knobs.pad & !15, std::sync::atomic::Ordering::Relaxed);
        rt::CLOCK_BASE = plan.knobs.clock;
        rt::CLOCK_ADD = 0;
        W = Some(Box::new(World {
            plan: plan.clone(),
            slots: (0..SLOTS).map(|_| None).collect(),
            dms: (0..SLOTS).map(|_| None).collect(),
            shared: plan.encs.iter().map(|_| None).collect(),
            recs: Vec::new(),
            seq: 0,
            stats: Stats::default(),
            switches: vec![],
        }));
    }
}

pub fn execute(plan: &Plan) -> Exec {
    setup(plan);
    let mut ends = vec![];
    let clock0 = rt::now_ns();
    let phases = w().plan.phases.clone();
    for (pi, ph) in phases.iter().enumerate() {
        match &ph.sched {
            None => {
                for (ti, ops) in ph.threads.iter().enumerate() {
                    for (oi, op) in ops.iter().enumerate() {
                        do_op(pi, ti, oi, op);
                    }
                }
                ends.push(End::Finished);
                w().switches.push(vec![]);
            }
            Some(sp) => {
                let mut bodies = vec![];
                for (ti, ops) in ph.threads.iter().enumerate() {
                    let ops = ops.clone();
                    bodies.push(Spawn {
                        f: Box::new(move || {
                            for (oi, op) in ops.iter().enumerate() {
                                do_op(pi, ti, oi, op);
                            }
                            let _g = HarnGuard::new();
                            drop(ops);
                        }),
                        stall_at: ph.stalls.iter().find(|s| s.0 == ti).map(|s| s.1),
                    });
                }
                w().stats.threads += bodies.len() as u64;
                let end = rt::run_threads(bodies, sp.clone(), plan.cap);
                let s = rt::s();
                let st = &mut w().stats;
                st.preempts += s.preempts;
                st.peak = st.peak.max(s.total);
                st.conflicts += s.conflicts;
                st.newedges += s.newedges;
                st.futex_waits += s.futex_waits;
                st.stalls += s.stalled as u64;
                st.sched = crate::rng::mix(st.sched ^ s.site_hash);
                w().switches.push(s.log.clone());
                let dead = matches!(end, End::Deadlock(_));
                ends.push(end);
                if dead {
                    break;
                }
            }
        }
    }
    unsafe {
        let _g = HarnGuard::new();
        let wd = w();
        let v = vfs::v();
        let mut stats = std::mem::take(&mut wd.stats);
        stats.steps = rt::OUT_STEPS + rt::SOLO_STEPS;
        stats.sim_ns = rt::now_ns().saturating_sub(clock0);
        stats.injected_allocs = alloc::FAILED.load(std::sync::atomic::Ordering::Relaxed);
        stats.fired = v.fired.clone();
        stats.storage_ops = v.ops;
        stats.rand_calls = interpose::RAND_CALLS;
        stats.clock_calls = interpose::CLOCK_CALLS;
        stats.edges = rt::EDGE_COUNT;
        Exec {
            recs: std::mem::take(&mut wd.recs),
            ends,
            stats,
            switches: wd.switches.clone(),
            mutations: v.mutations.clone(),
            outside: v.outside.clone(),
            open_handles: vfs::open_handles(),
            storage_log: v.log.iter().map(|e| format!("t{} {} {} -> {}", e.tid, e.op, e.path, e.res)).collect(),
        }
    }
}

/// Replaces exploring schedules by the explicit switches that were taken.
pub fn explicit(plan: &Plan, ex: &[Vec<Switch>]) -> Plan {
    let mut p = plan.clone();
    for (i, ph) in p.phases.iter_mut().enumerate() {
        if ph.sched.is_some() {
            if let Some(s) = ex.get(i) {
                ph.sched = Some(SchedPlan::Explicit { switches: s.clone() });
            }
        }
    }
    p
}

/// What the running program says about sharing the types between threads.
pub fn thread_bounds() -> Vec<String> {
    struct P<T>(std::marker::PhantomData<T>);
    trait No {
        const SYNC: bool = false;
        const SEND: bool = false;
    }
    impl<T> No for P<T> {}
    struct S<T>(std::marker::PhantomData<T>);
    trait NoS {
        const SEND: bool = false;
    }
    impl<T> NoS for S<T> {}
    impl<T: Sync> P<T> {
        const SYNC: bool = true;
    }
    impl<T: Send> S<T> {
        const SEND: bool = true;
    }
    let mut v = vec![];
    macro_rules! t {
        ($($t:ty),*) => { $(
            if !<P<$t>>::SYNC { v.push(format!("{} is not Sync", stringify!($t))); }
            if !<S<$t>>::SEND { v.push(format!("{} is not Send", stringify!($t))); }
        )* };
    }
    t!(
        Caverphone1, Caverphone2, Cologne, DoubleMetaphone, MatchRatingApproach, Metaphone, Nysiis, Phonex,
        RefinedSoundex, Soundex, DaitchMokotoffSoundex, ConfigFiles, BeiderMorse<'static>, BeiderMorseBuilder<'static>,
        LanguageSet, PhoneticError
    );
    v
}

pub fn nt_name(n: u8) -> &'static str {
    NT[n as usize]
}
