//! Generators: inputs, encoder settings, rule directories and texts, damage, faults.
use std::collections::{BTreeMap, BTreeSet};

use crate::model::{Bm, Config, NT, RT};
use crate::plan::*;
use crate::rng::Rng;
use crate::vfs::{Act, Bytes, DirSpec, Fault, Node};

const NAMES: &[&str] = &[
    "Renault", "Mickiewicz", "Thompson", "Nuñez", "Carvalho", "Čapek", "Sjneijder", "Klausewitz", "Küçük", "Giacometti",
    "Nagy", "Ceauşescu", "Angelopoulos", "Αγγελόπουλος", "Пушкин", "כהן", "ácz", "átz", "Van Helsing", "d'Ortley",
    "SntJohn-Smith", "Judenburg", "O'Brien", "McDonald", "MacIntyre", "Rosochowaciec", "Przemyśl", "Schwarzenegger",
    "Schmidt", "Schneider", "Fischer", "Weber", "Meyer", "Wagner", "Becker", "Schulz", "Hoffmann", "Müller-Lüdenscheidt",
    "Wikipedia", "Peter", "Peady", "Stevenson", "Whittle", "Lee", "Robert", "Rupert", "Rubin", "Ashcraft", "Ashcroft",
    "Tymczak", "Pfister", "Honeyman", "Smith", "Smythe", "Schmitt", "Knight", "Night", "Gnome", "Pneumonia", "Wright",
    "Xavier", "Zhang", "Czajkowski", "Catherine", "Kathryn", "Jose", "Jorge", "San Jacinto", "Bach", "Caesar", "Chianti",
    "Michael", "Chemistry", "Orchestra", "Accident", "Bacchus", "Bellocchio", "Edge", "Edgar", "Ghislane", "Laugh",
    "McLaughlin", "Cagney", "Tagliaro", "Biaggi", "Hochmeier", "Dumb", "Thumb", "Campbell", "Raspberry", "Hugh", "Island",
    "Isle", "Carlisle", "Sugar", "Sholz", "Resnais", "Artois", "Thomas", "Uomo", "Womo", "Wasserman", "Arnow", "Filipowicz",
    "Breaux", "Zhao", "Aubrey", "Richard", "de la Mare", "von Neumann", "ben Gurion", "bar Kokhba", "al Razi", "dela Cruz",
    "della Rovere", "Lewinsky", "Szlamawicz", "Goldwasser", "Auerbach", "Ohrbach", "Lipshitz", "Lippszyc", "Peterson",
    "Moskowitz", "Moskovitz", "Jackson-Jackson", "Ballin", "Harper", "Heidelberger", "Kleinmann", "Tkach", "Żółkiewski",
    "straße", "Œuvre", "Ångström", "Łódź", "ęą", "ţară", "ǅungla", "İstanbul", "ﬁnch", "e\u{301}clair", "ẞ", "ŉ",
    "Brown", "Braun", "Browne", "Trevelyan", "Trivilian", "Worthy", "Corbin", "Byrne", "Boern", "Franciszka",
    "Franciszek", "Phillips", "Philips", "Quick", "Jumped", "Over", "The", "Lazy", "Dogs", "Metaphone", "Aggie", "Which",
    "Why", "Wade", "Christopher", "Szczecin", "Toccata", "Mac Caffrey", "St. Clair", "Lloyd", "Llewellyn", "Ng", "Oz",
];
const CLUST: &[&str] = &[
    "sch", "cz", "tch", "gh", "ph", "th", "wh", "kn", "gn", "pn", "ps", "wr", "mc", "mac", "sz", "rz", "dz", "dt", "ff", "ee",
    "ie", "ae", "oe", "ue", "ou", "au", "aux", "ck", "cks", "ks", "x", "q", "ss", "zz", "tt", "gg", "mn", "nm", "mb", "h", "w", "y",
    "a", "e", "i", "o", "u", "r", "l", "n", "m", "s", "t", "d", "b", "p", "k", "g", "v", "f", "j", "c", "z", "witz", "tion", "sion",
    "chia", "tsch", "ough", "augh", "ois", "ll", "illo", "alle", "ier",
    "cc", "cce", "cia", "xi", "sk", "sc", "sci", "wicz", "ts", "tz", "zh", "ogh", "kh", "dge", "gli", "rh", "bt", "wr", "ge", "gi",
    "gy", "uc", "ach", "ich", "mz", "rs", "cs", "cd", "tm", "sh", "jo", "aul",
];
const ODD: &[&str] = &[
    "é", "ü", "ß", "ñ", "ç", "ø", "ł", "ş", "ı", "İ", "я", "ж", "λ", "ש", "中", "ﬀ", "\u{301}", "😀", "Ǆ", "ſ", "K", "Ω", "ŉ", "ΐ",
    "'", "-", " ", ".", ",", "&", "’", "\t", "1", "7", "\u{a0}", "\u{0}", "_", "/", "*", "\u{feff}",
];

pub fn word(rng: &mut Rng, max: usize) -> String {
    let n = rng.range(1, max.max(1));
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(rng.pick(CLUST));
    }
    s
}
fn case(rng: &mut Rng, s: &str) -> String {
    match rng.below(5) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => {
            let mut c = s.chars();
            match c.next() {
                Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                None => String::new(),
            }
        }
        3 => s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}
/// A name with a prefix (of one name type or another).
pub fn prefixed(rng: &mut Rng) -> String {
    let w = word(rng, 3);
    format!("{}{w}", prefix(rng))
}
fn prefix(rng: &mut Rng) -> String {
    let p = [
        "d'", "de", "van", "von", "de la", "ben", "bar", "al", "el", "DA", "mc", "dal", "del", "dela", "della", "des", "di",
        "do", "dos", "du", "d'", "d'",
    ];
    let p = rng.pick(&p);
    format!("{p}{}", if *p == "d'" { "" } else { " " })
}
/// A fresh input.
pub fn input(rng: &mut Rng) -> String {
    match rng.below(20) {
        0..=6 => {
            let n = *rng.pick(NAMES);
            case(rng, n)
        }
        7..=11 => {
            let w = word(rng, 5);
            case(rng, &w)
        }
        12 => format!("{} {}", rng.pick(NAMES), word(rng, 3)),
        13 => format!("{}-{}", word(rng, 3), rng.pick(NAMES)),
        14 => {
            prefixed(rng)
        }
        15 => {
            let mut s: Vec<char> = word(rng, 4).chars().collect();
            let k = rng.below(s.len() + 1);
            for c in rng.pick(ODD).chars() {
                s.insert(k, c);
            }
            s.into_iter().collect()
        }
        16 => {
            let mut s: Vec<char> = rng.pick(NAMES).chars().collect();
            let k = rng.below(s.len());
            s[k] = (b'a' + rng.below(26) as u8) as char;
            s.into_iter().collect()
        }
        17 => rng.pick(&["", " ", "  ", "-", "'", "a", "Z", "h", "w", "1", "\t", "--", "é", "ss", "aa", "bb"]).to_string(),
        18 => {
            let n = rng.range(1, 4);
            (0..n).map(|_| word(rng, 2)).collect::<Vec<_>>().join(" ")
        }
        _ => format!("{}{}", rng.pick(NAMES), rng.pick(NAMES)),
    }
}
/// A long input (not for Beider-Morse).
pub fn long_input(rng: &mut Rng) -> String {
    let target = rng.logu(3000) as usize;
    let mut s = String::new();
    while s.len() < target {
        s.push_str(rng.pick(CLUST));
        if rng.chance(1, 12) {
            s.push_str(rng.pick(ODD));
        }
    }
    case(rng, &s)
}
/// An input close to another one: what a careless cache key or comparison would confuse.
pub fn near(rng: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    match rng.below(12) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!(" {s}"),
        3 => format!("{s} "),
        4 if !c.is_empty() => c[..c.len() - 1].iter().collect(),
        5 => format!("{s}{}", rng.pick(CLUST)),
        6 if c.len() > 1 => {
            let mut c = c;
            let k = rng.below(c.len() - 1);
            c.swap(k, k + 1);
            c.into_iter().collect()
        }
        7 if !c.is_empty() => {
            let mut c = c;
            let k = rng.below(c.len());
            c[k] = (b'a' + rng.below(26) as u8) as char;
            c.into_iter().collect()
        }
        8 if !c.is_empty() => {
            let mut c = c;
            let k = c.len() - 1;
            c[k] = (b'a' + rng.below(26) as u8) as char;
            c.into_iter().collect()
        }
        9 => c.iter().rev().collect(),
        10 => s.replace([' ', '-', '\''], ""),
        11 => format!("{s}-{s}"),
        _ => format!("{}{s}", rng.pick(CLUST)),
    }
}
pub fn filler(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => input(rng),
        1 => {
            let a = word(rng, 3);
            format!("{a}{}", rng.pick(NAMES))
        }
        _ => {
            let w = word(rng, 6);
            case(rng, &w)
        }
    }
}

pub fn truncate_chars(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

// ------------------------------------------------------------------------------------------------ encoders

pub fn bm(rng: &mut Rng) -> Bm {
    Bm {
        nt: rng.below(3) as u8,
        rt: rng.below(2) as u8,
        concat: rng.chance(2, 3),
        max: *rng.pick(&[20, 20, 20, 10, 5, 3, 1, 2, 40]),
    }
}
fn mapping(rng: &mut Rng, silent: bool) -> String {
    (0..26)
        .map(|_| if silent && rng.chance(1, 5) { '-' } else { (b'0' + rng.below(10) as u8) as char })
        .collect()
}
/// Settings of every kind of encoder, each several times with other settings.
pub fn all_encs(rng: &mut Rng, texts: usize, bm_cfg: &[Cfg]) -> Vec<EncSpec> {
    let mut v = vec![
        EncSpec::Caverphone1,
        EncSpec::Caverphone2,
        EncSpec::Cologne,
        EncSpec::DoubleMetaphone(None),
        EncSpec::DoubleMetaphone(Some(None)),
        EncSpec::DoubleMetaphone(Some(Some(rng.range(1, 4)))),
        EncSpec::DoubleMetaphone(Some(Some(rng.range(1, 12)))),
        EncSpec::DoubleMetaphone(Some(Some(rng.range(5, 9)))),
        EncSpec::MatchRating,
        EncSpec::Metaphone(None),
        EncSpec::Metaphone(Some(None)),
        EncSpec::Metaphone(Some(Some(rng.range(1, 12)))),
        EncSpec::Metaphone(Some(Some(rng.range(2, 7)))),
        EncSpec::Nysiis(None),
        EncSpec::Nysiis(Some(true)),
        EncSpec::Nysiis(Some(false)),
        EncSpec::Phonex(None),
        EncSpec::Phonex(Some(rng.range(1, 12))),
        EncSpec::Phonex(Some(rng.range(2, 7))),
        EncSpec::RefinedSoundex(None),
        EncSpec::RefinedSoundex(Some(mapping(rng, false))),
        EncSpec::RefinedSoundex(Some(mapping(rng, false))),
        EncSpec::Soundex(None),
        EncSpec::Soundex(Some((mapping(rng, true), None))),
        EncSpec::Soundex(Some((mapping(rng, false), Some(rng.chance(1, 2))))),
        EncSpec::Soundex(Some(("01230120022455012623010202".into(), Some(false)))),
        EncSpec::Dm(None, true),
        EncSpec::Dm(None, false),
    ];
    for t in 0..texts {
        v.push(EncSpec::Dm(Some(t), rng.chance(2, 3)));
    }
    for c in bm_cfg {
        for _ in 0..4 {
            v.push(EncSpec::Bm(c.clone(), bm(rng)));
        }
        // two that differ in one setting only
        let b = bm(rng);
        v.push(EncSpec::Bm(c.clone(), b.clone()));
        let mut b2 = b;
        match rng.below(4) {
            0 => b2.nt = (b2.nt + 1) % 3,
            1 => b2.rt = 1 - b2.rt,
            2 => b2.concat = !b2.concat,
            _ => b2.max = if b2.max == 20 { 7 } else { 20 },
        }
        v.push(EncSpec::Bm(c.clone(), b2));
    }
    v
}
/// Settings at the edges of what their types hold.
pub fn odd_settings(rng: &mut Rng, e: &mut EncSpec) {
    let len = *rng.pick(&[0, 1, 4, 10, 127, 128, 254, 255, 256, 257, 260, 300, 4096, 65535, 65536, 65540]);
    let chars = |rng: &mut Rng, m: &mut String| {
        let mut c: Vec<char> = m.chars().collect();
        for _ in 0..rng.range(1, 6) {
            let k = rng.below(c.len());
            c[k] = *rng.pick(&['"', '\\', '\u{0}', '\n', ' ', 'é', 'ß', '😀', '\u{301}', 'A', 'z', '-', '-', '9', '\u{7f}', '\u{ffff}', '\u{10ffff}', '/']);
        }
        *m = c.into_iter().collect();
    };
    match e {
        EncSpec::DoubleMetaphone(Some(Some(n))) | EncSpec::Phonex(Some(n)) => *n = len,
        EncSpec::Metaphone(Some(Some(n))) => *n = *rng.pick(&[len, len, 1 << 31, 1 << 32, (1 << 32) + 4, (1 << 53) + 1, (1 << 63) - 1, usize::MAX >> 1]),
        EncSpec::RefinedSoundex(Some(m)) | EncSpec::Soundex(Some((m, _))) => chars(rng, m),
        _ => {}
    }
}
pub fn is_bm(e: &EncSpec) -> bool {
    matches!(e, EncSpec::Bm(..))
}
pub fn call_for(rng: &mut Rng, e: &EncSpec, a: String, b: String) -> Call {
    match e {
        EncSpec::DoubleMetaphone(_) => match rng.below(8) {
            0..=3 => Call::Encode(a),
            4..=5 => Call::Alt(a),
            6 => Call::DmEqual(a, b, rng.chance(1, 2)),
            _ => Call::Equal(a, b),
        },
        EncSpec::Dm(..) => match rng.below(8) {
            0..=2 => Call::Encode(a),
            3..=6 => Call::Branches(a),
            _ => Call::Equal(a, b),
        },
        EncSpec::Bm(c, s) => match rng.below(8) {
            0 => Call::Equal(a, b),
            1..=2 => {
                let l: Vec<String> = match c {
                    Cfg::Cc => match s.nt {
                        0 => vec!["german", "polish", "english", "french", "hebrew"],
                        1 => vec!["german", "polish", "english", "french", "italian", "spanish", "dutch"],
                        _ => vec!["french", "italian", "spanish", "portuguese"],
                    },
                    _ => vec!["any"],
                }
                .into_iter()
                .map(|s| s.to_string())
                .collect();
                let k = rng.range(0, 2.min(l.len()));
                let mut v = l.clone();
                rng.shuffle(&mut v);
                v.truncate(k);
                Call::Langs(a, v)
            }
            _ => Call::Encode(a),
        },
        EncSpec::RefinedSoundex(_) | EncSpec::Soundex(_) => match rng.below(6) {
            0 => Call::Diff(a, b),
            1 => Call::Equal(a, b),
            _ => Call::Encode(a),
        },
        _ => match rng.below(6) {
            0..=1 => Call::Equal(a, b),
            _ => Call::Encode(a),
        },
    }
}

// ------------------------------------------------------------------------------------------------ rule directories

/// names that begin or end alike, and names that are also words of file names
const MORE_LANGS: &[&str] = &[
    "french", "german", "germany", "germ", "polish", "Polish", "italian", "english", "exact", "approx", "rules",
    "anyone", "a", "any", "gen", "hebrew", "portuguese", "romanian", "cyrillic",
];
pub const LANGS: &[&str] = &["french", "german", "polish", "italian", "english"];
const LET: &[&str] = &["a", "b", "c", "d", "e", "f", "s", "h", "é", "š", "ж"];
/// letters of other lengths, letters whose cases differ in length, and signs
const WIDE: &[&str] = &["ạ", "𝒂", "ß", "ı", "ə", "ÿ", "ſ", "ö", "\u{301}", "1", "’", "-"];

#[derive(Clone)]
pub struct Style {
    pub crlf: bool,
    pub final_nl: bool,
    pub comments: u32,
}
pub fn style(rng: &mut Rng) -> Style {
    Style { crlf: rng.chance(1, 6), final_nl: rng.chance(4, 5), comments: *rng.pick(&[0, 1, 2, 3]) }
}
fn filler_lines(rng: &mut Rng, st: &Style, out: &mut Vec<String>) {
    for _ in 0..rng.below(st.comments as usize + 1) {
        match rng.below(9) {
            0 => out.push(String::new()),
            1 => out.push("// a comment".into()),
            2 => out.push("   \t".into()),
            3 => out.push("  // \"q\" \"\" \"\" \"no rule\"".into()),
            4 => out.push("/* one line */".into()),
            5 => {
                out.push("/*".into());
                for _ in 0..rng.below(4) {
                    out.push(rng.pick(&["", " * text", "\"z\" \"\" \"\" \"z\"", "#include nothing", "// x"]).to_string());
                }
                out.push(rng.pick(&["*/", " */", "end */ // of it", "*/  "]).to_string());
            }
            6 => {
                out.push("/* starts here".into());
                out.push("ends here */".into());
            }
            7 => out.push("//".into()),
            _ => out.push("/**/".into()),
        }
    }
}
pub fn join(lines: &[String], st: &Style) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if st.final_nl && !lines.is_empty() {
        s.push_str(nl);
    }
    s
}
fn tail(rng: &mut Rng) -> &'static str {
    rng.pick(&["", "", "", " ", " // note", "\t//x", "  "])
}
fn ctx(rng: &mut Rng, left: bool) -> String {
    let a = *rng.pick(LET);
    let b = if rng.chance(1, 12) { *rng.pick(WIDE) } else { *rng.pick(LET) };
    let c = *rng.pick(LET);
    match rng.below(26) {
        12 => format!("[{a}{b}{c}]"),
        13 => if left { format!("{a}{b}$") } else { format!("^{a}{b}") },
        14 => format!("^{a}$"),
        15 => format!("^[{a}{b}]$"),
        16 => format!("^[^{a}{b}]$"),
        17 => "^$".into(),
        18 => if left { format!("[^{a}{b}]$") } else { format!("^[^{a}{b}]") },
        19 => format!("({a}|{b}|{c})"),
        20 => if left { format!("({a}|^)") } else { format!("({a}|$)") },
        21 => format!("{a}[{b}{c}]"),
        22 => format!(".{a}"),
        23 => format!("{a}{b}?"),
        0..=4 | 24 | 25 => String::new(),
        5 => if left { "^".into() } else { "$".into() },
        6 => a.to_string(),
        7 => format!("[{a}{b}]"),
        8 => format!("[^{a}{b}]"),
        9 => if left { format!("^{a}") } else { format!("{a}$") },
        10 => if left { format!("^[{a}{b}]") } else { format!("[{a}{b}]$") },
        _ => format!("({a}|[{b}{a}]{a})"),
    }
}
fn phon1(rng: &mut Rng, langs: &[String]) -> String {
    let mut t = String::new();
    for _ in 0..rng.below(3) {
        t.push_str(rng.pick(&["a", "b", "c", "d", "e", "f", "s", "h", "x", "D", "ü", "E", "I", "1", "*", "#", "/", "𝒂"]));
    }
    if rng.chance(1, 4) && !langs.is_empty() {
        let k = if rng.chance(1, 10) { rng.range(2, 8) } else { rng.range(1, 2) };
        let l: Vec<String> = (0..k).map(|_| rng.pick(langs).clone()).collect();
        t.push_str(&format!("[{}]", l.join("+")));
    }
    t
}
fn phon(rng: &mut Rng, langs: &[String]) -> String {
    if rng.chance(1, 60) {
        // long ones
        let n = rng.range(5, 40);
        return (0..n).map(|_| *rng.pick(&["a", "b", "c", "d", "ü", "1"])).collect();
    }
    if rng.chance(1, 2) {
        return phon1(rng, langs);
    }
    let n = if rng.chance(1, 40) { rng.range(4, 40) } else { rng.range(1, 3) };
    let v: Vec<String> = (0..n).map(|_| phon1(rng, langs)).collect();
    format!("({})", v.join("|"))
}
fn rule_line(rng: &mut Rng, langs: &[String]) -> String {
    let mut p = if rng.chance(1, 16) { rng.pick(WIDE).to_string() } else { rng.pick(LET).to_string() };
    while rng.chance(1, 3) {
        p.push_str(if rng.chance(1, 12) { rng.pick(WIDE) } else { rng.pick(LET) });
    }
    if rng.chance(1, 60) {
        for _ in 0..rng.range(4, 40) {
            p.push_str(rng.pick(LET));
        }
    }
    let s = |r: &mut Rng| *r.pick(&[" ", " ", "  ", "\t", " \t"]);
    format!(
        "\"{p}\"{}\"{}\"{}\"{}\"{}\"{}\"{}",
        s(rng),
        ctx(rng, true),
        s(rng),
        ctx(rng, false),
        s(rng),
        phon(rng, langs),
        tail(rng)
    )
}

/// A complete, well-formed rule directory.
pub fn rule_dir(rng: &mut Rng) -> DirSpec {
    rule_dir_of(rng, false)
}
/// `lively`: several languages, most names are told apart.
pub fn rule_dir_of(rng: &mut Rng, lively: bool) -> DirSpec {
    let mut e: BTreeMap<String, Node> = BTreeMap::new();
    let mut put = |n: String, t: String| {
        e.insert(n, Node::File(Bytes(t.into_bytes())));
    };
    let size = rng.range(2, 8);
    for nt in NT {
        let mut langs: BTreeSet<String> = BTreeSet::from(["any".to_string()]);
        let many = rng.chance(1, 24);
        for _ in 0..if many { rng.range(5, 14) } else if lively { rng.range(2, 4) } else { rng.below(3) } {
            let from = if many || rng.chance(1, 12) { MORE_LANGS } else { LANGS };
            langs.insert(rng.pick(from).to_string());
        }
        let lv: Vec<String> = langs.iter().cloned().collect();
        let named: Vec<String> = langs.iter().filter(|l| *l != "any").cloned().collect();
        // languages
        let st = style(rng);
        let mut lines = vec![];
        let mut order = lv.clone();
        rng.shuffle(&mut order);
        for l in &order {
            filler_lines(rng, &st, &mut lines);
            lines.push(format!("{l}{}", tail(rng)));
        }
        filler_lines(rng, &st, &mut lines);
        put(format!("{nt}_languages.txt"), join(&lines, &st));
        // guessing
        let st = style(rng);
        let mut lines = vec![];
        for _ in 0..if lively { rng.range(6, 16) } else { rng.below(6) } {
            filler_lines(rng, &st, &mut lines);
            let a = rng.pick(LET);
            let b = rng.pick(LET);
            let re = match rng.below(7) {
                0 => format!("^{a}"),
                1 => format!("{a}$"),
                2 => format!("{a}{b}"),
                3 => format!("[{a}{b}]{a}"),
                4 => format!("({a}|{b}s)$"),
                5 => format!("^({a}|{b})"),
                _ => format!("{a}.{b}"),
            };
            let mut l: Vec<String> = vec![];
            for _ in 0..rng.range(1, 2) {
                l.push(if named.is_empty() || rng.chance(1, 6) { rng.pick(LANGS).to_string() } else { rng.pick(&named).clone() });
            }
            lines.push(format!("{re} {} {}{}", l.join("+"), if rng.chance(3, 4) { "true" } else { "false" }, tail(rng)));
        }
        filler_lines(rng, &st, &mut lines);
        put(format!("{nt}_lang.txt"), join(&lines, &st));
        // rules
        let mut incs = vec![];
        let deep = if rng.chance(1, 30) { rng.range(4, 14) } else { 0 };
        for i in 0..rng.below(3).max(deep) {
            incs.push(format!("{nt}_{}_{}", rng.pick(&["exact_approx", "inc", "sub-rules"]), rng.pick(&["common", "x", "2"]).to_string() + &i.to_string()));
        }
        // names that begin like others
        if !incs.is_empty() && rng.chance(1, 4) {
            incs.push(format!("{}{}", incs[0], rng.pick(&["0", "a", "_any", "-"])));
            if rng.chance(1, 2) {
                let n = incs.len();
                incs.swap(0, n - 1);
            }
        }
        for (i, f) in incs.clone().iter().enumerate() {
            let st = style(rng);
            let mut lines = vec![];
            for _ in 0..rng.range(0, size) {
                filler_lines(rng, &st, &mut lines);
                lines.push(rule_line(rng, &lv));
            }
            // an included file may include a later one
            if i + 1 < incs.len() && (deep > 0 || rng.chance(1, 2)) {
                let at = rng.below(lines.len() + 1);
                if !in_comment(&lines, at) {
                    lines.insert(at, format!("#include {}{}", incs[i + 1], tail(rng)));
                }
            }
            put(format!("{f}.txt"), join(&lines, &st));
        }
        for rt in RT {
            let mut ls = lv.clone();
            if rt != "rules" {
                ls.push("common".into());
            }
            for l in ls {
                let st = style(rng);
                let mut lines = vec![];
                let n = if rt == "rules" { rng.range(size, 3 * size) } else { rng.below(size + 1) };
                for _ in 0..n {
                    filler_lines(rng, &st, &mut lines);
                    if !incs.is_empty() && rng.chance(1, 8) {
                        lines.push(format!("#include {}{}", rng.pick(&incs), tail(rng)));
                    } else {
                        lines.push(rule_line(rng, &lv));
                    }
                }
                filler_lines(rng, &st, &mut lines);
                put(format!("{nt}_{rt}_{l}.txt"), join(&lines, &st));
            }
        }
    }
    if rng.chance(1, 20) {
        let names: Vec<String> = e.keys().cloned().collect();
        for _ in 0..rng.range(1, 3) {
            if let Some(Node::File(b)) = e.get_mut(rng.pick(&names)) {
                if let Ok(t) = std::str::from_utf8(&b.0) {
                    *b = Bytes(bulk(rng, t, None).into_bytes());
                }
            }
        }
    }
    DirSpec { entries: e, ..Default::default() }
}
/// The text with many lines more that mean nothing, or with a very long one (before line `before`, or anywhere).
pub fn bulk(rng: &mut Rng, t: &str, before: Option<usize>) -> String {
    let crlf = if t.contains("\r\n") { "\r" } else { "" };
    let mut l: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    let n = match rng.below(12) {
        0..=4 => rng.range(250, 300),
        5..=8 => rng.range(300, 1200),
        9 => rng.range(4000, 9000),
        _ if before.is_some() => rng.range(65_500, 66_500),
        _ => rng.range(1000, 3000),
    };
    let more: Vec<String> = match rng.below(6) {
        0 => vec![crlf.to_string(); n],
        1 => vec![format!("//{crlf}"); n],
        2 => {
            let mut v = vec![crlf.to_string(); n];
            v[0] = format!("/*{crlf}");
            v[n - 1] = format!("*/{crlf}");
            v
        }
        3 => vec![format!("// {}{crlf}", "x".repeat(8 * n))],
        4 => vec![format!("/* {} */{crlf}", "x\"".repeat(4 * n))],
        _ => (0..n).map(|i| if i % 3 == 0 { crlf.to_string() } else { format!("/**/{crlf}") }).collect(),
    };
    for _ in 0..20 {
        let at = match before {
            Some(b) => rng.below(b.min(l.len() - 1) + 1),
            None => rng.below(l.len()),
        };
        if !in_comment(&l, at) {
            l.splice(at..at, more);
            break;
        }
    }
    l.join("\n")
}
/// Is line number `at` inside a multi-line comment?
pub fn in_comment(lines: &[String], at: usize) -> bool {
    let mut open = false;
    for l in &lines[..at] {
        if open {
            if l.contains("*/") {
                open = false;
            }
        } else if l.starts_with("/*") && !l[2..].contains("*/") {
            open = true;
        }
    }
    open
}

/// Files beside the rules that must not matter.
pub fn decoys(rng: &mut Rng, d: &mut DirSpec) {
    let names: Vec<String> = d.entries.keys().cloned().collect();
    let n = rng.range(1, 8);
    for _ in 0..n {
        let nt = rng.pick(&NT);
        let base = if rng.chance(2, 3) { format!("{nt}_languages.txt") } else { rng.pick(&names).clone() };
        let name = match rng.below(26) {
            24 => format!("{nt}_{}_languages.txt", rng.pick(&["old", "rules", "gen", "ash", "sep", "x"])),
            25 => format!("{}{base}", rng.pick(&["gen_", "ash_", "sep_"])),
            22 => crate::vfs::from_bytes(&[base.as_bytes(), b"\xff"].concat()),
            23 => crate::vfs::from_bytes(&base.bytes().map(|b| if b == b'_' { 0xc3 } else { b }).collect::<Vec<_>>()),
            0 => format!("{base}~"),
            1 => format!("{base}.bak"),
            2 => format!(".{base}.swp"),
            3 => format!("{base}.tmp"),
            4 => format!("{base}.orig"),
            5 => base.to_uppercase(),
            6 => base.replace(".txt", ""),
            7 => base.replace(".txt", ".TXT"),
            8 => format!("x{base}"),
            9 => format!("{nt}_languages_old.txt"),
            10 => format!("old_{base}"),
            11 => format!("{nt}_languages"),
            12 => "languages.txt".into(),
            13 => format!("#{base}#"),
            14 => format!("{base}.1"),
            15 => format!("{nt}_langs.txt"),
            16 => format!("copy of {base}"),
            17 => "README".into(),
            18 => format!("{nt}languages.txt"),
            19 => format!(".{base}"),
            20 => format!(" {base}"),
            _ => format!("{base}.txt"),
        };
        if d.entries.contains_key(&name) {
            continue;
        }
        let node = match rng.below(8) {
            0 => Node::Dir,
            1 => Node::Link(base.clone()),
            2 => Node::Link("nowhere".into()),
            3 => Node::File(Bytes(vec![0xff, 0xfe, 0, 1, 2])),
            4 => Node::File(Bytes::text("any\nklingon\nromulan\n")),
            5 => Node::File(Bytes::text("")),
            6 => Node::File(Bytes::text("?? no such line\n")),
            _ => match d.entries.get(rng.pick(&names)) {
                Some(n) => n.clone(),
                None => Node::Dir,
            },
        };
        d.entries.insert(name, node);
    }
    if rng.chance(1, 30) {
        // many
        let n = rng.range(100, 1500);
        let a = *rng.pick(&["x", "gen_rules_", "languages.txt.", "z_languages"]);
        for i in 0..n {
            d.entries.entry(format!("{a}{i}")).or_insert_with(|| Node::File(Bytes::text("any\n")));
        }
    }
}

/// How the directory presents itself.
pub fn dress(rng: &mut Rng, d: &mut DirSpec) {
    d.order = rng.next() >> 16;
    d.no_dtype = rng.chance(1, 3);
    d.inode = if rng.chance(1, 2) { rng.below(4) as u8 } else { 0 };
    d.size_lie = if rng.chance(1, 2) { rng.below(4) as u8 } else { 0 };
    d.max_read = if rng.chance(1, 2) { rng.logu(200) as usize } else { 0 };
    d.stamp = rng.below(4) as u8;
    if d.base.is_none() && rng.chance(1, 4) {
        link(rng, d);
    }
}

/// Rule files as symbolic links (as in a mounted ConfigMap, or under configuration management).
pub fn link(rng: &mut Rng, d: &mut DirSpec) {
    let names: Vec<String> = d.entries.keys().cloned().collect();
    let all = rng.chance(1, 2);
    let sub = rng.chance(2, 3);
    for n in names {
        if n.contains('/') || !matches!(d.entries[&n], Node::File(_)) || !(all || rng.chance(1, 3)) {
            continue;
        }
        let f = d.entries.remove(&n).unwrap();
        let t = if sub { format!("..data/{n}") } else { format!(".{n}.real") };
        if sub {
            d.entries.insert("..data".into(), Node::Dir);
        }
        d.entries.insert(t.clone(), f);
        d.entries.insert(n, Node::Link(t));
    }
}

pub fn files_of(d: &DirSpec) -> crate::model::Files {
    let d = &crate::exec::resolve(d);
    let mut f = BTreeMap::new();
    for (n, e) in &d.entries {
        let mut e = e.clone();
        for _ in 0..8 {
            if let Node::Link(t) = &e {
                e = d.entries.get(t).cloned().unwrap_or(Node::Dir);
            }
        }
        if let Node::File(b) = e {
            f.insert(n.clone(), b.0);
        }
    }
    f
}

/// Probes that exercise the rules of a configuration.
/// Probes that have something in common: 0 and 3 nothing, 1 all names have prefixes their name type knows, 2 one name
/// type and guessed languages.
pub fn themed(rng: &mut Rng, c: &Config, theme: usize, nt: usize) -> Vec<Probe> {
    let mut v = probes(rng, c, if theme == 2 { 8 } else { 4 });
    match theme {
        1 => {
            for (b, call) in &mut v {
                let p: &[&str] = match b.nt {
                    0 => &["bar", "ben", "da", "de", "van", "von"],
                    1 => &["da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von", "d'"],
                    _ => &["al", "el", "da", "dal", "de", "del", "dela", "des", "di", "do", "dos", "du", "van", "von"],
                };
                let p = *rng.pick(p);
                let gap = if p == "d'" { "" } else { " " };
                if let Call::Encode(s) | Call::Langs(s, _) = call {
                    let rest: String = s.rsplit([' ', '\'']).next().unwrap_or("").chars().take(8).collect();
                    *s = format!("{p}{gap}{rest}");
                }
            }
        }
        2 => {
            v.retain(|x| x.0.nt as usize == nt);
            for (_, call) in &mut v {
                if let Call::Langs(s, _) = call {
                    *call = Call::Encode(s.clone());
                }
            }
        }
        _ => {}
    }
    v
}
pub fn probes(rng: &mut Rng, c: &Config, n: usize) -> Vec<Probe> {
    let mut v: Vec<Probe> = vec![];
    for (ni, nt) in NT.iter().enumerate() {
        let pats: Vec<_> = c.pats.iter().filter(|p| p.0 == *nt).collect();
        let langs: Vec<String> = c.languages.get(*nt).map(|s| s.iter().cloned().collect()).unwrap_or_default();
        for k in 0..n {
            let mut s = String::new();
            if !pats.is_empty() {
                for _ in 0..rng.range(1, 4) {
                    if rng.chance(1, 3) {
                        s.push_str(rng.pick(LET));
                    }
                    s.push_str(&rng.pick(&pats).1);
                }
            } else {
                s = word(rng, 3);
            }
            if rng.chance(1, 6) {
                s = format!("{}{s}", prefix(rng));
            }
            let mut s = truncate_chars(&s, 14);
            if rng.chance(1, 60) && !s.is_empty() {
                let n = rng.range(20, if c.widest > 3 { 28 } else { 80 });
                while s.chars().count() < n {
                    s = format!("{s}{}{s}", rng.pick(&["", "", " ", "-", "'"]));
                }
                s = truncate_chars(&s, n);
            }
            let b = Bm {
                nt: ni as u8,
                rt: (k % 2) as u8,
                concat: rng.chance(3, 4),
                max: *rng.pick(&[20, 20, 20, 4, 1]),
            };
            let call = if rng.chance(1, 3) && !langs.is_empty() {
                let mut l = vec![rng.pick(&langs).clone()];
                if rng.chance(1, 4) {
                    l.push(rng.pick(&langs).clone());
                }
                Call::Langs(s, l)
            } else {
                Call::Encode(s)
            };
            v.push((b, call));
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------ Daitch-Mokotoff text

pub fn dm_text(rng: &mut Rng) -> String {
    let st = style(rng);
    let mut lines = vec![];
    let n = rng.range(1, 14);
    for _ in 0..n {
        filler_lines(rng, &st, &mut lines);
        if rng.chance(1, 4) {
            lines.push(format!(
                "{}={}{}",
                rng.pick(&["ß", "à", "é", "ö", "š", "x", "y"]),
                rng.pick(&["a", "b", "s", "e", "c"]),
                tail(rng)
            ));
        } else {
            let mut p = rng.pick(&["a", "b", "c", "s", "z", "h", "e", "t", "n", "m", "ö"]).to_string();
            let most = if rng.chance(1, 40) { 30 } else { 5 };
            while (most > 5 || rng.chance(1, 2)) && p.len() < most {
                p.push_str(rng.pick(&["a", "b", "c", "s", "z", "h", "e", "t"]));
            }
            let rep = |r: &mut Rng| match r.below(6) {
                0 => String::new(),
                1 => format!("{}|{}", r.below(10), r.below(10)),
                2 => format!("{}{}", r.below(10), r.below(10)),
                3 => format!("|{}", r.below(10)),
                _ => r.below(10).to_string(),
            };
            lines.push(format!("\"{p}\" \"{}\"  \"{}\"\t\"{}\"{}", rep(rng), rep(rng), rep(rng), tail(rng)));
        }
    }
    filler_lines(rng, &st, &mut lines);
    let t = join(&lines, &st);
    if rng.chance(1, 25) {
        return bulk(rng, &t, None);
    }
    t
}
pub fn dm_inputs(rng: &mut Rng, pats: &[String], n: usize) -> Vec<String> {
    (0..n)
        .map(|_| {
            let mut s = String::new();
            for _ in 0..rng.range(1, 5) {
                if rng.chance(1, 3) || pats.is_empty() {
                    s.push_str(rng.pick(&["a", "b", "c", "s", "z", "h", "e", "t", "n", "m"]));
                }
                if !pats.is_empty() {
                    s.push_str(rng.pick(pats));
                }
            }
            truncate_chars(&s, 16)
        })
        .collect()
}

// ------------------------------------------------------------------------------------------------ damage

/// Damages bytes as a disk may.
pub fn damage(rng: &mut Rng, b: &[u8], other: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = b.to_vec();
    let n = v.len();
    match rng.below(14) {
        0 | 1 if n > 0 => {
            v.truncate(rng.below(n));
            (v, "truncated")
        }
        2 if n > 0 => {
            let a = rng.below(n);
            for x in &mut v[a..] {
                *x = 0;
            }
            (v, "zero tail")
        }
        3 | 4 if n > 0 => {
            for _ in 0..rng.range(1, 3) {
                let k = rng.below(n);
                v[k] ^= 1 << rng.below(8);
            }
            (v, "bit flips")
        }
        5 if n > 0 => {
            // one byte replaced by a printable one or a meaningful one
            let k = rng.below(n);
            v[k] = *rng.pick(&[b'"', b' ', b'\n', b'/', b'*', b'|', b'[', b']', b'(', b')', b'=', b'\\', b'#', b'\r', b'\t', b'x', b'+', 0x0b, 0x0c, 0x85, 0xa0, b'^', b'$', b'A', b'1']);
            (v, "byte replaced")
        }
        6 if n > 0 => {
            // a block lost from the middle
            let a = rng.below(n);
            let l = if rng.chance(1, 3) { rng.logu(4096) } else { rng.logu(64) } as usize;
            let e = (a + l).min(n);
            v.drain(a..e);
            (v, "block lost")
        }
        7 if n > 0 => {
            // a block written twice
            let a = rng.below(n);
            let l = if rng.chance(1, 3) { rng.logu(4096) } else { rng.logu(64) } as usize;
            let e = (a + l).min(n);
            let blk: Vec<u8> = v[a..e].to_vec();
            v.splice(e..e, blk);
            (v, "block duplicated")
        }
        8 if !other.is_empty() && n > 0 => {
            // misdirected write: bytes of another file
            let a = rng.below(n);
            let l = rng.logu(80) as usize;
            let o = rng.below(other.len());
            for i in 0..l {
                if a + i < n && o + i < other.len() {
                    v[a + i] = other[o + i];
                }
            }
            (v, "misdirected write")
        }
        9 if !other.is_empty() => (other.to_vec(), "another file's content"),
        10 if n > 0 => {
            // torn: new prefix, stale tail
            let a = rng.below(n);
            v.truncate(a);
            if a < other.len() {
                v.extend(&other[a..]);
            }
            (v, "torn with stale tail")
        }
        11 => {
            // a newline lost or added
            let nls: Vec<usize> = v.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i).collect();
            if !nls.is_empty() && rng.chance(1, 2) {
                v.remove(*rng.pick(&nls));
                (v, "newline lost")
            } else {
                let k = rng.below(n + 1);
                v.insert(k, b'\n');
                (v, "newline inserted")
            }
        }
        12 => {
            // lines swapped or repeated
            let t: Vec<Vec<u8>> = v.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
            if t.len() > 1 {
                let mut t = t;
                let i = rng.below(t.len());
                if rng.chance(1, 2) {
                    let x = t[i].clone();
                    t.insert(i, x);
                } else {
                    t.remove(i);
                }
                (t.concat(), "line repeated or lost")
            } else {
                (vec![], "emptied")
            }
        }
        _ => {
            let k = rng.below(n + 1);
            let ins: &[u8] = rng.pick(&[
                b"\xff" as &[u8],
                b"\xc3",
                b"\"\" \"\" \"\" \"\"\n",
                b"\"",
                b"/*",
                b"*/",
                b"#include ",
                b"#include gen_rules_any\n",
                b"=",
                b"[",
                b"(",
                b"\xef\xbb\xbf",
                b"\xc2\xa0",
                b"\xe2\x80\xa8",
                b"\xe3\x80\x80",
                b"\xc2\x85",
                b"\x0b",
                b"\x0c",
                b"\n\n\n",
                b"\r\r\n",
                b"// ",
                b"\r",
                b"\0\0\0",
                b" true",
                b"\"a\" \"(\" \"[b\" \"c\"\n",
            ]);
            for (i, x) in ins.iter().enumerate() {
                v.insert(k + i, *x);
            }
            (v, "bytes inserted")
        }
    }
}

pub const ERRNOS: &[i32] = &[
    libc::EIO,
    libc::EACCES,
    libc::ENOENT,
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOMEM,
    libc::ESTALE,
    libc::ENOTCONN,
    libc::ETIMEDOUT,
    libc::EISDIR,
    libc::ENOTDIR,
    libc::ELOOP,
    libc::EAGAIN,
    libc::EINVAL,
    libc::EPERM,
    libc::EBUSY,
    libc::ENODEV,
    libc::ENXIO,
    libc::ENAMETOOLONG,
    libc::EOVERFLOW,
    libc::EROFS,
    libc::ENOSPC,
    libc::EDQUOT,
    libc::EFBIG,
    libc::ETXTBSY,
    libc::EHOSTUNREACH,
    libc::ECONNRESET,
    libc::EPIPE,
    libc::EBADMSG,
    libc::EREMOTEIO,
];

/// A fault on one of the operations a load of these files performs.
pub fn hard_fault(rng: &mut Rng, dir: usize, files: &[String]) -> Fault {
    let f = rng.pick(files).clone();
    let path = format!("d{dir}/{f}");
    let e = *rng.pick(ERRNOS);
    match rng.below(12) {
        0 => Fault { op: "opendir".into(), path: format!("d{dir}"), nth: 0, act: Act::Err(e) },
        1 | 2 => Fault {
            op: "readdir".into(),
            path: format!("d{dir}"),
            nth: rng.below(40) as u32,
            act: if rng.chance(1, 2) { Act::Err(e) } else { Act::Eof },
        },
        3 => Fault { op: "stat".into(), path, nth: rng.below(2) as u32, act: Act::Err(e) },
        4 => Fault { op: "close".into(), path, nth: 0, act: Act::Err(libc::EIO) },
        5..=8 => Fault { op: "open".into(), path, nth: rng.below(2) as u32, act: Act::Err(e) },
        _ => Fault { op: "read".into(), path, nth: rng.below(4) as u32, act: Act::Err(e) },
    }
}
pub fn soft_fault(rng: &mut Rng, dir: usize, files: &[String]) -> Fault {
    let f = rng.pick(files).clone();
    let path = format!("d{dir}/{f}");
    match rng.below(8) {
        0 | 1 => Fault { op: "open".into(), path, nth: rng.below(2) as u32, act: Act::Eintr(rng.range(1, 3) as u32) },
        2..=4 => Fault { op: "read".into(), path, nth: rng.below(4) as u32, act: Act::Eintr(rng.range(1, 5) as u32) },
        5 | 6 => Fault { op: "read".into(), path, nth: rng.below(3) as u32, act: Act::Short(rng.range(1, 9)) },
        _ => Fault { op: "read".into(), path, nth: rng.below(2) as u32, act: Act::Delay(rng.logu(60_000_000_000)) },
    }
}
