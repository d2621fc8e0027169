//! A plan is everything one simulated run does: storage contents, encoders, operations of every thread, faults,
//! schedule. It is what seeds expand to, what minimisation shrinks and what replay files hold.
use serde::{Deserialize, Serialize};

use crate::model::Bm;
use crate::rt::SchedPlan;
use crate::vfs::{Change, DirSpec, Fault};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Cfg {
    /// the embedded rules
    Embedded,
    /// the complete commons-codec rules
    Cc,
    /// whatever was loaded into this slot
    Slot(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum EncSpec {
    Caverphone1,
    Caverphone2,
    Cologne,
    DoubleMetaphone(Option<Option<usize>>),
    MatchRating,
    Metaphone(Option<Option<usize>>),
    Nysiis(Option<bool>),
    Phonex(Option<usize>),
    RefinedSoundex(Option<String>),
    /// mapping, special treatment of H and W
    Soundex(Option<(String, Option<bool>)>),
    /// rule text (index into the plan's texts; none: the embedded rules), folding
    Dm(Option<usize>, bool),
    Bm(Cfg, Bm),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Call {
    Encode(String),
    /// is_encoded_equals
    Equal(String, String),
    /// SoundexCommons::difference
    Diff(String, String),
    /// encode_alternate
    Alt(String),
    /// is_double_metaphone_equal
    DmEqual(String, String, bool),
    /// Daitch-Mokotoff with branches
    Branches(String),
    /// encode_with_languages
    Langs(String, Vec<String>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    /// through the value all threads share
    Shared,
    /// through a clone of it
    Clone,
    /// through a value built for this call
    Fresh,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// fail: which allocation of the call fails
    Call { enc: usize, how: How, call: Call, #[serde(default, skip_serializing_if = "Option::is_none")] fail: Option<i64> },
    /// The same call n times through the shared value: the first outcome that differs from the first of all, if any does
    Again { enc: usize, call: Call, n: u32 },
    /// n calls with inputs made from seed; results not looked at
    Fill { enc: usize, n: u32, seed: u64 },
    /// ConfigFiles::new on directory dir, spelled one of several ways, into a slot
    Load { dir: usize, slot: usize, spell: u8, #[serde(default, skip_serializing_if = "Option::is_none")] fail: Option<i64> },
    /// ConfigFiles::default()
    Embed { slot: usize },
    CloneCfg { from: usize, to: usize },
    DropCfg { slot: usize },
    /// Daitch-Mokotoff encoder from text
    BuildDm { text: usize, folding: bool, slot: usize },
    /// the calls of a probe set through the configuration in a slot
    Probe { slot: usize, set: usize },
    ProbeDm { slot: usize, set: usize },
    Change(usize),
    /// every storage operation fails from now on (errno), or works again
    Break(Option<i32>),
    Clock(i64),
    Measure,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Phase {
    /// Operations of each simulated thread. One thread and no schedule: run on the main thread.
    pub threads: Vec<Vec<Op>>,
    pub sched: Option<SchedPlan>,
    /// (thread, step): descheduled for ever there
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub stalls: Vec<(usize, u64)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Knobs {
    /// seed of getrandom
    pub rand: u64,
    /// padding in front of every heap block (16s)
    pub pad: usize,
    /// start of the virtual clock, ns
    pub clock: u64,
    /// heap blocks of odd sizes taken before anything else and kept
    #[serde(default)]
    pub junk: u32,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { rand: 1, pad: 0, clock: 1_700_000_000_000_000_000, junk: 0 }
    }
}

pub type Probe = (Bm, Call);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    /// which of the property's scenarios
    pub kind: String,
    #[serde(default)]
    pub dirs: Vec<DirSpec>,
    #[serde(default)]
    pub texts: Vec<String>,
    #[serde(default)]
    pub encs: Vec<EncSpec>,
    #[serde(default)]
    pub probes: Vec<Vec<Probe>>,
    #[serde(default)]
    pub dm_probes: Vec<Vec<String>>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub changes: Vec<Change>,
    /// all storage operations with number in from..to fail (from, to, errno)
    #[serde(default)]
    pub window: Option<(u64, u64, i32)>,
    #[serde(default)]
    pub knobs: Knobs,
    /// further processes doing the same work (C13) or restoring (C12)
    #[serde(default)]
    pub replicas: Vec<Replica>,
    pub phases: Vec<Phase>,
    /// snapshots (C12)
    #[serde(default)]
    pub snaps: Vec<Snap>,
    /// step cap of a scheduled phase
    pub cap: u64,
    /// start without anything of the library having run in the process
    #[serde(default)]
    pub cold: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Replica {
    pub knobs: Knobs,
    /// listing order and entry types of the directories
    pub order: u64,
    pub no_dtype: bool,
    pub max_read: usize,
    pub spell: u8,
    /// unverified calls made first
    pub warm: u32,
    pub warm_seed: u64,
    /// encoders and probes are visited in another order
    pub shuffle: u64,
    pub loads_before: u32,
}

/// Values saved by an application: a sequence of versions of one object in one file.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Snap {
    /// specs of the successive versions
    pub versions: Vec<Saved>,
    /// bytes of the last version that reached the disk (None: all)
    pub torn: Option<Tear>,
    /// save and restore this many times over
    pub generations: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tear {
    /// only this many bytes of the file (permille)
    Prefix(u32),
    /// the rest of the file, from permille on, is zeroes
    Zeros(u32),
    /// the last write was lost: the previous version is there
    Lost,
    Empty,
    /// the beginning of the new version followed by what the longer old version had there
    Overlap,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Saved {
    Enc(EncSpec),
    Name(u8),
    Rule(u8),
    /// 0 any, 1 none, 2 some
    Langs(u8, Vec<String>),
    /// result of Double Metaphone for an input
    Result(String, Option<usize>),
    /// error of parsing a Daitch-Mokotoff text
    Error(String),
}
