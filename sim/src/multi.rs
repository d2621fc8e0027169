//! C12: values saved by a process that dies, restored by the next one.
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};

use rphonetic::*;
use serde::{Deserialize, Serialize};

use crate::exec::{self, Enc, Stats};
use crate::pack;
use crate::plan::*;
use crate::proc::{isolated, Died, Shm};
use crate::props::{Verdict, Viol};
use crate::rng::Rng;
use crate::rt::{self, HarnGuard};

enum Val {
    Enc(Enc),
    Name(NameType),
    Rule(RuleType),
    Langs(LanguageSet),
    Result(DoubleMetaphoneResult),
    Error(ParseError),
}

fn name(n: u8) -> NameType {
    match n {
        0 => NameType::Ashkenazi,
        1 => NameType::Generic,
        _ => NameType::Sephardic,
    }
}

fn make(s: &Saved) -> Option<Val> {
    Some(match s {
        Saved::Enc(e) => Val::Enc(exec::build(e, &[], &[], 0)?),
        Saved::Name(n) => Val::Name(name(*n)),
        Saved::Rule(n) => Val::Rule(if *n == 0 { RuleType::Approx } else { RuleType::Exact }),
        Saved::Langs(0, _) => Val::Langs(LanguageSet::Any),
        Saved::Langs(1, _) => Val::Langs(LanguageSet::NoLanguages),
        Saved::Langs(_, l) => Val::Langs(rt::lib(|| LanguageSet::from(l.iter().map(|s| s.as_str()).collect::<Vec<_>>()))),
        Saved::Result(a, m) => Val::Result(rt::lib(|| {
            let d = match m {
                None => DoubleMetaphone::default(),
                Some(n) => DoubleMetaphone::new(Some(*n)),
            };
            d.double_metaphone(a)
        })),
        Saved::Error(t) => match rt::lib(|| DaitchMokotoffSoundexBuilder::with_rules(t).build()) {
            Err(PhoneticError::ParseRuleError(e)) => Val::Error(e),
            _ => return None,
        },
    })
}

macro_rules! ser {
    ($v:expr, $x:ident => $b:expr) => {
        match $v {
            Val::Enc(Enc::C1($x)) => $b,
            Val::Enc(Enc::C2($x)) => $b,
            Val::Enc(Enc::Co($x)) => $b,
            Val::Enc(Enc::Dmp($x)) => $b,
            Val::Enc(Enc::Mra($x)) => $b,
            Val::Enc(Enc::Mp($x)) => $b,
            Val::Enc(Enc::Ny($x)) => $b,
            Val::Enc(Enc::Ph($x)) => $b,
            Val::Enc(Enc::Rs($x)) => $b,
            Val::Enc(Enc::Sx($x)) => $b,
            Val::Enc(_) => return Err("no".into()),
            Val::Name($x) => $b,
            Val::Rule($x) => $b,
            Val::Langs($x) => $b,
            Val::Result($x) => $b,
            Val::Error($x) => $b,
        }
    };
}

/// fmt: 0 JSON, 1 JSON with line breaks, 2 a binary format that does not describe itself
fn save(v: &Val, fmt: u8) -> Result<Vec<u8>, String> {
    rt::lib(|| match fmt {
        0 => ser!(v, x => serde_json::to_vec(x).map_err(|e| e.to_string())),
        1 => ser!(v, x => serde_json::to_vec_pretty(x).map_err(|e| e.to_string())),
        _ => ser!(v, x => pack::to_vec(x).map_err(|e| e.to_string())),
    })
}

/// A reader that hands out a few bytes at a time.
struct Slow<'a>(&'a [u8], Rng);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (1 + self.1.below(7)).min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn parse<T: serde::de::DeserializeOwned>(b: &[u8], fmt: u8, how: u64) -> Result<T, String> {
    if fmt == 2 {
        return pack::from_slice(b).map_err(|e| e.to_string());
    }
    match how % 4 {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => std::str::from_utf8(b)
            .map_err(|e| e.to_string())
            .and_then(|s| serde_json::from_str(s).map_err(|e| e.to_string())),
        2 => serde_json::from_reader(Slow(b, Rng::new(how))).map_err(|e| e.to_string()),
        _ => serde_json::from_slice::<serde_json::Value>(b)
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
    }
}

fn restore(like: &Saved, b: &[u8], fmt: u8, how: u64) -> Result<Val, String> {
    rt::lib(|| {
        Ok(match like {
            Saved::Enc(e) => Val::Enc(match e {
                EncSpec::Caverphone1 => Enc::C1(parse(b, fmt, how)?),
                EncSpec::Caverphone2 => Enc::C2(parse(b, fmt, how)?),
                EncSpec::Cologne => Enc::Co(parse(b, fmt, how)?),
                EncSpec::DoubleMetaphone(_) => Enc::Dmp(parse(b, fmt, how)?),
                EncSpec::MatchRating => Enc::Mra(parse(b, fmt, how)?),
                EncSpec::Metaphone(_) => Enc::Mp(parse(b, fmt, how)?),
                EncSpec::Nysiis(_) => Enc::Ny(parse(b, fmt, how)?),
                EncSpec::Phonex(_) => Enc::Ph(parse(b, fmt, how)?),
                EncSpec::RefinedSoundex(_) => Enc::Rs(parse(b, fmt, how)?),
                EncSpec::Soundex(_) => Enc::Sx(parse(b, fmt, how)?),
                _ => return Err("no".into()),
            }),
            Saved::Name(_) => Val::Name(parse(b, fmt, how)?),
            Saved::Rule(_) => Val::Rule(parse(b, fmt, how)?),
            Saved::Langs(..) => Val::Langs(parse(b, fmt, how)?),
            Saved::Result(..) => Val::Result(parse(b, fmt, how)?),
            Saved::Error(_) => Val::Error(parse(b, fmt, how)?),
        })
    })
}

fn same(a: &Val, b: &Val) -> bool {
    rt::lib(|| match (a, b) {
        (Val::Enc(Enc::C1(x)), Val::Enc(Enc::C1(y))) => x == y,
        (Val::Enc(Enc::C2(x)), Val::Enc(Enc::C2(y))) => x == y,
        (Val::Enc(Enc::Co(x)), Val::Enc(Enc::Co(y))) => x == y,
        (Val::Enc(Enc::Dmp(x)), Val::Enc(Enc::Dmp(y))) => x == y,
        (Val::Enc(Enc::Mra(x)), Val::Enc(Enc::Mra(y))) => x == y,
        (Val::Enc(Enc::Mp(x)), Val::Enc(Enc::Mp(y))) => x == y,
        (Val::Enc(Enc::Ny(x)), Val::Enc(Enc::Ny(y))) => x == y,
        (Val::Enc(Enc::Ph(x)), Val::Enc(Enc::Ph(y))) => x == y,
        (Val::Enc(Enc::Rs(x)), Val::Enc(Enc::Rs(y))) => x == y,
        (Val::Enc(Enc::Sx(x)), Val::Enc(Enc::Sx(y))) => x == y,
        (Val::Name(x), Val::Name(y)) => x == y,
        (Val::Rule(x), Val::Rule(y)) => x == y,
        (Val::Langs(x), Val::Langs(y)) => x == y,
        (Val::Result(x), Val::Result(y)) => x == y,
        (Val::Error(x), Val::Error(y)) => x == y,
        _ => false,
    })
}

fn codes(v: &Val, inputs: &[String]) -> Vec<String> {
    let mut out = vec![];
    match v {
        Val::Enc(e) => {
            for i in inputs {
                for c in [Call::Encode(i.clone()), Call::Alt(i.clone())] {
                    let r = catch_unwind(AssertUnwindSafe(|| e.call(&c)));
                    out.push(match r {
                        Ok(o) => o.short(),
                        Err(_) => "panic".into(),
                    });
                }
            }
        }
        Val::Name(x) => out.push(rt::lib(|| format!("{x:?}"))),
        Val::Rule(x) => out.push(rt::lib(|| format!("{x:?}"))),
        Val::Langs(x) => out.push(rt::lib(|| format!("{x:?} {x} {:?} {} {}", x.any(), x.is_empty(), x.is_singleton()))),
        Val::Result(x) => out.push(rt::lib(|| format!("{} {} {x}", x.primary(), x.alternate()))),
        Val::Error(x) => out.push(rt::lib(|| format!("{x:?} {x}"))),
    }
    out
}

#[derive(Serialize, Deserialize, Default)]
struct Written {
    /// per snapshot, per version: the file as saved
    files: Vec<Vec<Result<Vec<u8>, String>>>,
    steps: u64,
}
#[derive(Serialize, Deserialize, Default)]
struct Restored {
    snaps: Vec<RSnap>,
    steps: u64,
}
#[derive(Serialize, Deserialize, Default)]
struct RSnap {
    err: Option<String>,
    panic: bool,
    equal: Vec<bool>,
    codes: Vec<String>,
    version_codes: Vec<Vec<String>>,
    again: Option<Vec<u8>>,
}

fn env(p: &Plan, generation: u64) {
    let mut q = p.clone();
    q.phases = vec![];
    q.knobs.rand ^= generation.wrapping_mul(0x9e37_79b9) >> 3;
    q.knobs.pad = (q.knobs.pad + 16 * generation as usize) % 1024;
    q.knobs.clock += generation * 86_400_000_000_000;
    exec::setup(&q);
}

fn fmt_of(p: &Plan, snap: usize) -> u8 {
    ((p.idx + snap as u64) % 3) as u8
}

/// What the disk holds after the crash. None: no file was ever durable.
fn crash(files: &[Vec<u8>], t: &Option<Tear>) -> Vec<u8> {
    let new = files.last().cloned().unwrap_or_default();
    let old = if files.len() > 1 { files[files.len() - 2].clone() } else { vec![] };
    match t {
        None => new,
        Some(Tear::Prefix(k)) => new[..new.len() * *k as usize / 1000].to_vec(),
        Some(Tear::Zeros(k)) => {
            let at = new.len() * *k as usize / 1000;
            let mut v = new;
            for b in &mut v[at..] {
                *b = 0;
            }
            v
        }
        Some(Tear::Lost) => {
            if files.len() > 1 {
                old
            } else {
                vec![]
            }
        }
        Some(Tear::Empty) => vec![],
        Some(Tear::Overlap) => {
            let mut v = new;
            if old.len() > v.len() {
                v.extend(&old[v.len()..]);
            }
            v
        }
    }
}

pub struct Outcome {
    pub verdict: Verdict,
    pub stats: Stats,
    pub digest: u64,
}

pub fn run(p: &Plan, shm: &Shm, cpu: u64) -> Result<Outcome, Died> {
    let mut stats = Stats::default();
    let w = isolated(shm, cpu, |shm| {
        env(p, 0);
        let mut out = Written::default();
        for (i, s) in p.snaps.iter().enumerate() {
            let mut v = vec![];
            for x in &s.versions {
                // a value that cannot even be made is another property's business
                let m = catch_unwind(AssertUnwindSafe(|| make(x))).unwrap_or(None);
                let r = catch_unwind(AssertUnwindSafe(|| match &m {
                    Some(v) => save(v, fmt_of(p, i)),
                    None => Err("skip".into()),
                }));
                let _g = HarnGuard::new();
                v.push(match r {
                    Ok(Ok(b)) => Ok(b.as_slice().to_vec()),
                    Ok(Err(e)) => Err(e.as_str().to_owned()),
                    Err(_) => Err("panic".into()),
                });
            }
            out.files.push(v);
        }
        let _g = HarnGuard::new();
        out.steps = unsafe { rt::SOLO_STEPS };
        shm.put(&serde_json::to_vec(&out).unwrap());
    })?;
    let w: Written = serde_json::from_slice(&w).map_err(|_| Died::Silent(90))?;
    let mut digest = crate::rng::hash_bytes(&serde_json::to_vec(&w.files).unwrap_or_default());
    stats.steps += w.steps;
    stats.ops += p.snaps.iter().map(|s| s.versions.len() as u64).sum::<u64>();
    // durable state
    let mut disk: Vec<Option<Vec<u8>>> = vec![];
    for (i, (s, f)) in p.snaps.iter().zip(&w.files).enumerate() {
        let mut good = vec![];
        for (k, x) in f.iter().enumerate() {
            match x {
                Ok(b) => good.push(b.clone()),
                Err(e) if e == "skip" => {}
                Err(e) => {
                    return Ok(verdict(
                        viol("unsavable", format!("{:?} cannot be saved (format {}): {e}", s.versions[k], fmt_of(p, i))),
                        stats,
                        digest,
                    ))
                }
            }
        }
        if good.len() != f.len() {
            disk.push(None);
            continue;
        }
        if let Some(t) = &s.torn {
            let n = format!("{t:?}");
            *stats.fired.entry(n.split('(').next().unwrap().to_lowercase()).or_insert(0) += 1;
        }
        *stats.fired.entry("crash".into()).or_insert(0) += 1;
        disk.push(Some(crash(&good, &s.torn)));
    }
    let rounds = p.snaps.iter().map(|s| s.generations).max().unwrap_or(0).max(1);
    for g in 1..=rounds as u64 {
        let r = isolated(shm, cpu, |shm| {
            env(p, g);
            let mut out = Restored::default();
            for (i, s) in p.snaps.iter().enumerate() {
                let mut o = RSnap::default();
                if let Some(b) = &disk[i] {
                    let r = catch_unwind(AssertUnwindSafe(|| restore(&s.versions[0], b, fmt_of(p, i), p.idx / 3 + g)));
                    match r {
                        Err(_) => o.panic = true,
                        Ok(Err(e)) => o.err = Some(e.as_str().to_owned()),
                        Ok(Ok(v)) => {
                            o.codes = codes(&v, &p.dm_probes[0]);
                            for x in &s.versions {
                                match make(x) {
                                    Some(w) => {
                                        o.equal.push(same(&v, &w) && same(&w, &v));
                                        o.version_codes.push(codes(&w, &p.dm_probes[0]));
                                    }
                                    None => {
                                        o.equal.push(false);
                                        o.version_codes.push(vec![]);
                                    }
                                }
                            }
                            o.again = save(&v, fmt_of(p, i)).ok();
                        }
                    }
                }
                out.snaps.push(o);
            }
            let _g = HarnGuard::new();
            out.steps = unsafe { rt::SOLO_STEPS };
            shm.put(&serde_json::to_vec(&out).unwrap());
        })?;
        let h = crate::rng::hash_bytes(&r);
        digest = crate::rng::mix(digest ^ h);
        let r: Restored = serde_json::from_slice(&r).map_err(|_| Died::Silent(91))?;
        stats.steps += r.steps;
        stats.sim_ns += 86_400_000_000_000;
        for (i, (s, o)) in p.snaps.iter().zip(&r.snaps).enumerate() {
            if disk[i].is_none() {
                continue;
            }
            stats.ops += 1;
            stats.calls += o.codes.len() as u64;
            let torn = s.torn.is_some() && g == 1;
            let what = format!(
                "generation {g}, format {}, saved {:?}, on disk {:?}",
                fmt_of(p, i),
                s.versions.last().unwrap(),
                String::from_utf8_lossy(disk[i].as_ref().unwrap())
            );
            if o.panic {
                return Ok(verdict(viol("panic", format!("restoring panicked: {what}")), stats, digest));
            }
            if let Some(e) = &o.err {
                if !torn {
                    return Ok(verdict(viol("refused", format!("not restored ({e}): {what}")), stats, digest));
                }
                disk[i] = None;
                continue;
            }
            let last = o.equal.len() - 1;
            let good = (0..o.equal.len()).filter(|&k| torn || k == last || s.torn.is_some()).any(|k| o.equal[k] && o.codes == o.version_codes[k]);
            if !good {
                return Ok(verdict(
                    viol(
                        "other-settings",
                        format!("restored value is none that was saved (equal to versions: {:?}, codes {:?}, codes of last version {:?}): {what}", o.equal, o.codes, o.version_codes[last]),
                    ),
                    stats,
                    digest,
                ));
            }
            match &o.again {
                Some(b) => {
                    if s.generations as u64 > g {
                        disk[i] = Some(b.clone());
                    } else {
                        disk[i] = None;
                    }
                }
                None => return Ok(verdict(viol("unsavable", format!("restored value cannot be saved: {what}")), stats, digest)),
            }
        }
    }
    Ok(verdict(None, stats, digest))
}
fn viol(kind: &str, detail: String) -> Option<Viol> {
    Some(Viol { kind: kind.into(), detail })
}
fn verdict(v: Option<Viol>, stats: Stats, digest: u64) -> Outcome {
    Outcome { verdict: Verdict { viol: v, nontrivial: true }, stats, digest }
}
