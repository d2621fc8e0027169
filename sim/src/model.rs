//! Executable reference model of rule loading and of the two rule-driven encoders, written independently of the code
//! under test: a strictly line-based reader (every item is one physical line, except multi-line comments), an
//! interpreter for the rules, and the locations at which damaged text must be reported.
use std::collections::{BTreeMap, BTreeSet};

use regex::Regex;

pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
pub enum MErr {
    /// a file that must be there is missing or unreadable
    Missing(String),
    /// a line (1-based number, content, file name) is the reason
    Line { line: usize, content: String, file: String, include: bool, unknown: bool },
    /// not well-formed, without location
    Other(String),
}

pub const NT: [&str; 3] = ["ash", "gen", "sep"];
pub const RT: [&str; 3] = ["approx", "exact", "rules"];

// ------------------------------------------------------------------------------------------------ lines

/// Cursor over the physical lines of a text.
struct Lines<'a> {
    text: &'a str,
    pos: usize,
    line: usize,
}
impl<'a> Lines<'a> {
    fn new(text: &'a str) -> Self {
        Lines { text, pos: 0, line: 0 }
    }
    /// Next physical line without its terminator.
    fn next(&mut self) -> Option<&'a str> {
        if self.pos >= self.text.len() {
            return None;
        }
        self.line += 1;
        let rest = &self.text[self.pos..];
        match rest.find('\n') {
            Some(i) => {
                self.pos += i + 1;
                Some(&rest[..i])
            }
            None => {
                self.pos = self.text.len();
                Some(rest)
            }
        }
    }
    /// The line just returned starts with "/*": if a multi-line comment starts here (closed later, and nothing but
    /// space or a comment after the close), moves behind it.
    fn comment(&mut self, l: &'a str) -> bool {
        if !l.starts_with("/*") {
            return false;
        }
        let start = self.line_start(l);
        let body = &self.text[start + 2..];
        let end = match body.find("*/") {
            None => return false,
            Some(e) => start + 2 + e + 2,
        };
        let tail = &self.text[end..];
        let (t, adv) = match tail.find('\n') {
            Some(i) => (&tail[..i], i + 1),
            None => (tail, tail.len()),
        };
        if !blank(t, tail.find('\n').is_some()) {
            return false;
        }
        self.line += self.text[start..end].matches('\n').count();
        self.pos = end + adv;
        true
    }
    fn line_start(&self, l: &'a str) -> usize {
        l.as_ptr() as usize - self.text.as_ptr() as usize
    }
    fn terminated(&self, l: &'a str) -> bool {
        self.text.as_bytes().get(self.line_start(l) + l.len()) == Some(&b'\n')
    }
}

/// Nothing but spaces and perhaps a // comment (a final CR belongs to a terminated line).
fn blank(l: &str, terminated: bool) -> bool {
    let t = l.trim_start_matches([' ', '\t']);
    t.is_empty() || t.starts_with("//") || (t == "\r" && terminated)
}

fn part(l: &str) -> Option<(&str, &str)> {
    let l = l.strip_prefix('"')?;
    if let Some(r) = l.strip_prefix("\\\"") {
        return Some((&l[..2], r.strip_prefix('"')?));
    }
    let e = l.find('"')?;
    Some((&l[..e], &l[e + 1..]))
}
fn gap(l: &str) -> Option<&str> {
    let t = l.trim_start_matches([' ', '\t']);
    if t.len() == l.len() {
        None
    } else {
        Some(t)
    }
}
fn quad(l: &str, term: bool) -> Option<[&str; 4]> {
    let (a, l) = part(l)?;
    let (b, l) = part(gap(l)?)?;
    let (c, l) = part(gap(l)?)?;
    let (d, l) = part(gap(l)?)?;
    if blank(l, term) {
        Some([a, b, c, d])
    } else {
        None
    }
}
fn include(l: &str, term: bool) -> Option<&str> {
    let r = l.strip_prefix("#include ")?;
    let e = r.find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).unwrap_or(r.len());
    if e > 0 && blank(&r[e..], term) {
        Some(&r[..e])
    } else {
        None
    }
}
fn fold(l: &str, term: bool) -> Option<(char, char)> {
    let mut c = l.chars();
    let a = c.next()?;
    if c.next()? != '=' {
        return None;
    }
    let b = c.next()?;
    if a == '\r' || b == '\r' || !blank(c.as_str(), term) {
        return None;
    }
    Some((a, b))
}
fn lang_line(l: &str, term: bool) -> Option<(&str, &str, bool)> {
    let (p, r) = l.split_once(' ')?;
    let (g, r) = r.split_once(' ')?;
    let (v, r) = if let Some(r) = r.strip_prefix("true") {
        (true, r)
    } else {
        (false, r.strip_prefix("false")?)
    };
    if !p.is_empty() && !g.is_empty() && blank(r, term) {
        Some((p, g, v))
    } else {
        None
    }
}
fn language(l: &str, term: bool) -> Option<&str> {
    let e = l.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(l.len());
    if e > 0 && blank(&l[e..], term) {
        Some(&l[..e])
    } else {
        None
    }
}

// ------------------------------------------------------------------------------------------------ Beider-Morse rules

#[derive(Clone, Debug)]
enum Ctx {
    All,
    Empty,
    Eq(String),
    Starts(String),
    Ends(String),
    EqIn(String, bool),
    StartsIn(String, bool),
    EndsIn(String, bool),
    Re(Regex),
}
impl Ctx {
    fn new(re: &str) -> Result<Ctx, String> {
        let s = re.starts_with('^');
        let e = re.ends_with('$');
        let mut c = re;
        if s {
            c = &c[1..];
        }
        if e && !c.is_empty() {
            c = &c[..c.len() - 1];
        }
        if !re.contains('[') {
            return Ok(match (s, e, c.is_empty()) {
                (true, true, true) => Ctx::Empty,
                (true, true, false) => Ctx::Eq(c.into()),
                (_, _, true) => Ctx::All,
                (true, _, _) => Ctx::Starts(c.into()),
                _ => Ctx::Ends(c.into()),
            });
        }
        if c.starts_with('[') && c.ends_with(']') && !c[1..c.len() - 1].contains('[') {
            let mut set = &c[1..c.len() - 1];
            let mut want = true;
            if let Some(r) = set.strip_prefix('^') {
                set = r;
                want = false;
            }
            return Ok(match (s, e) {
                (true, true) => Ctx::EqIn(set.into(), want),
                (true, false) => Ctx::StartsIn(set.into(), want),
                _ => Ctx::EndsIn(set.into(), want),
            });
        }
        Regex::new(re).map(Ctx::Re).map_err(|e| e.to_string())
    }
    fn ok(&self, t: &[char]) -> bool {
        let is = |c: Option<&char>, set: &str, want: bool| c.is_some_and(|c| set.contains(*c) == want);
        match self {
            Ctx::All => true,
            Ctx::Empty => t.is_empty(),
            Ctx::Eq(p) => t.iter().copied().eq(p.chars()),
            Ctx::Starts(p) => t.len() >= p.chars().count() && t.iter().copied().zip(p.chars()).all(|(a, b)| a == b),
            Ctx::Ends(p) => {
                let n = p.chars().count();
                t.len() >= n && t[t.len() - n..].iter().copied().eq(p.chars())
            }
            Ctx::EqIn(set, w) => t.len() == 1 && is(t.first(), set, *w),
            Ctx::StartsIn(set, w) => is(t.first(), set, *w),
            Ctx::EndsIn(set, w) => is(t.last(), set, *w),
            Ctx::Re(r) => r.is_match(&t.iter().collect::<String>()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ls {
    Any,
    Some(BTreeSet<String>),
}
impl Ls {
    fn meet(&self, o: &Ls) -> Ls {
        match (self, o) {
            (a, Ls::Any) => a.clone(),
            (Ls::Any, b) => b.clone(),
            (Ls::Some(a), Ls::Some(b)) => Ls::Some(a.intersection(b).cloned().collect()),
        }
    }
    fn join(&self, o: &Ls) -> Ls {
        match (self, o) {
            (Ls::Some(a), Ls::Some(b)) => Ls::Some(a.union(b).cloned().collect()),
            _ => Ls::Any,
        }
    }
    fn none(&self) -> bool {
        matches!(self, Ls::Some(s) if s.is_empty())
    }
}

/// Alternative spellings, kept sorted by text, one per text.
type Alts = BTreeMap<Key, Ls>;
/// Ordering of alternatives: by characters, a prefix before what it starts.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Key(Vec<char>);

#[derive(Clone, Debug)]
struct Rule {
    pat: Vec<char>,
    left: Ctx,
    right: Ctx,
    out: Vec<(Vec<char>, Ls)>,
}
type RuleSet = BTreeMap<char, Vec<Rule>>;

fn phoneme(t: &str) -> Result<(Vec<char>, Ls), MErr> {
    match t.find('[') {
        None => Ok((t.chars().collect(), Ls::Any)),
        Some(i) => {
            if !t.ends_with(']') {
                return Err(MErr::Other(format!("phoneme {t}")));
            }
            let l = t[i + 1..t.len() - 1].split('+').map(|s| s.to_string()).collect();
            Ok((t[..i].chars().collect(), Ls::Some(l)))
        }
    }
}
fn phonemes(t: &str) -> Result<Vec<(Vec<char>, Ls)>, MErr> {
    if let Some(r) = t.strip_prefix('(') {
        let r = r.strip_suffix(')').ok_or_else(|| MErr::Other(format!("phoneme rule {t}")))?;
        let mut v = r.split('|').map(phoneme).collect::<Result<Vec<_>, _>>()?;
        if r.starts_with('|') || r.ends_with('|') {
            v.push((vec![], Ls::Any));
        }
        Ok(v)
    } else {
        Ok(vec![phoneme(t)?])
    }
}

#[derive(Clone, Debug)]
struct Guess {
    re: Regex,
    langs: BTreeSet<String>,
    accept: bool,
}

/// Where the model reads files from.
pub trait Source {
    fn get(&mut self, name: &str) -> Option<Vec<u8>>;
}
impl Source for Files {
    fn get(&mut self, name: &str) -> Option<Vec<u8>> {
        BTreeMap::get(self, name).cloned()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub languages: BTreeMap<String, BTreeSet<String>>,
    guess: BTreeMap<String, Vec<Guess>>,
    rules: BTreeMap<(String, String, String), RuleSet>,
    /// file visits the load needs, in some order, with repetition
    pub visits: Vec<String>,
    pub n_rules: usize,
    /// length of the longest phoneme
    pub widest: usize,
    /// patterns with contexts, for probes: (name type, pattern, left, right)
    pub pats: Vec<(String, String, String, String)>,
}

struct Loader<'a> {
    src: &'a mut dyn Source,
    cfg: Config,
    pats: BTreeSet<(String, String, String, String)>,
}

fn text(src: &mut dyn Source, f: &str) -> Result<String, MErr> {
    let b = src.get(f).ok_or_else(|| MErr::Missing(f.to_string()))?;
    String::from_utf8(b).map_err(|_| MErr::Missing(format!("{f} (not UTF-8)")))
}
fn at(n: usize, l: &str, file: &str, unknown: bool) -> MErr {
    MErr::Line { line: n, content: l.to_string(), file: file.to_string(), include: false, unknown }
}

/// What the directory denotes, or why it denotes nothing.
pub fn load(src: &mut dyn Source) -> Result<Config, MErr> {
    let mut ld = Loader { src, cfg: Config::default(), pats: BTreeSet::new() };
    for nt in NT {
        let f = format!("{nt}_languages.txt");
        ld.cfg.visits.push(f.clone());
        let t = text(ld.src, &f)?;
        let mut set = BTreeSet::new();
        let mut ls = Lines::new(&t);
        while let Some(l) = ls.next() {
            let n = ls.line;
            let term = ls.terminated(l);
            if blank(l, term) || ls.comment(l) {
                continue;
            }
            match language(l, term) {
                Some(g) => set.insert(g.to_string()),
                None => return Err(at(n, l, &f, true)),
            };
        }
        ld.cfg.languages.insert(nt.into(), set);
    }
    for nt in NT {
        let f = format!("{nt}_lang.txt");
        ld.cfg.visits.push(f.clone());
        let t = text(ld.src, &f)?;
        let mut v = vec![];
        let mut ls = Lines::new(&t);
        while let Some(l) = ls.next() {
            let n = ls.line;
            let term = ls.terminated(l);
            if blank(l, term) || ls.comment(l) {
                continue;
            }
            match lang_line(l, term) {
                Some((p, g, accept)) => {
                    let re = Regex::new(p).map_err(|_| at(n, l, &f, false))?;
                    v.push(Guess { re, langs: g.split('+').map(|s| s.to_string()).collect(), accept })
                }
                None => return Err(at(n, l, &f, true)),
            }
        }
        ld.cfg.guess.insert(nt.into(), v);
    }
    for nt in NT {
        let langs: Vec<String> = ld.cfg.languages[nt].iter().cloned().collect();
        for rt in RT {
            for l in &langs {
                let r = ld.rules(nt, &format!("{nt}_{rt}_{l}"), &mut vec![])?;
                ld.cfg.rules.insert((nt.into(), rt.into(), l.clone()), r);
            }
            if rt != "rules" {
                let r = ld.rules(nt, &format!("{nt}_{rt}_common"), &mut vec![])?;
                ld.cfg.rules.insert((nt.into(), rt.into(), "common".into()), r);
            }
        }
    }
    ld.cfg.pats = ld.pats.into_iter().collect();
    Ok(ld.cfg)
}

impl Loader<'_> {
    fn rules(&mut self, nt: &str, stem: &str, stack: &mut Vec<String>) -> Result<RuleSet, MErr> {
        if stack.iter().any(|s| s == stem) {
            return Err(MErr::Other(format!("include cycle at {stem}")));
        }
        stack.push(stem.to_string());
        let f = format!("{stem}.txt");
        self.cfg.visits.push(f.clone());
        if self.cfg.visits.len() > 20_000 {
            return Err(MErr::Other("too many includes".into()));
        }
        let t = text(self.src, &f)?;
        let mut set: RuleSet = BTreeMap::new();
        let mut ls = Lines::new(&t);
        while let Some(l) = ls.next() {
            let n = ls.line;
            let term = ls.terminated(l);
            if let Some([p, a, b, o]) = quad(l, term) {
                let left = Ctx::new(&format!("{a}$")).map_err(MErr::Other)?;
                let right = Ctx::new(&format!("^{b}")).map_err(MErr::Other)?;
                let out = phonemes(o)?;
                let first = match p.chars().next() {
                    Some(c) => c,
                    None => return Err(at(n, l, &f, false)),
                };
                self.cfg.n_rules += 1;
                self.cfg.widest = out.iter().map(|o| o.0.len()).max().unwrap_or(0).max(self.cfg.widest);
                self.pats.insert((nt.into(), p.into(), a.into(), b.into()));
                set.entry(first).or_default().push(Rule { pat: p.chars().collect(), left, right, out });
                continue;
            }
            if blank(l, term) {
                continue;
            }
            if let Some(i) = include(l, term) {
                let i = i.to_string();
                let sub = match self.rules(nt, &i, stack) {
                    Ok(s) => s,
                    Err(MErr::Missing(_)) | Err(MErr::Other(_)) => {
                        return Err(MErr::Line {
                            line: n,
                            content: l.to_string(),
                            file: f.clone(),
                            include: true,
                            unknown: false,
                        })
                    }
                    Err(e) => return Err(e),
                };
                for (k, v) in sub {
                    set.insert(k, v);
                }
                continue;
            }
            if ls.comment(l) {
                continue;
            }
            return Err(at(n, l, &f, true));
        }
        stack.pop();
        Ok(set)
    }
}

const PREFIX_GEN: [&str; 14] =
    ["da", "dal", "de", "de la", "del", "dela", "della", "des", "di", "do", "dos", "du", "van", "von"];
const PREFIX_ASH: [&str; 6] = ["bar", "ben", "da", "de", "van", "von"];
const PREFIX_SEP: [&str; 16] =
    ["al", "el", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von"];

/// Settings of a Beider-Morse encoder.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Bm {
    /// 0 ash, 1 gen, 2 sep
    pub nt: u8,
    /// 0 approx, 1 exact
    pub rt: u8,
    pub concat: bool,
    pub max: usize,
}

/// The call panics (a language without rules was asked for).
#[derive(Debug)]
pub struct Panics;

impl Config {
    pub fn encode(&self, s: &Bm, input: &str) -> Result<String, Panics> {
        let nt = NT[s.nt as usize];
        let low = input.to_lowercase();
        let mut set = self.languages[nt].clone();
        for g in &self.guess[nt] {
            if g.re.is_match(&low) {
                if g.accept {
                    set.retain(|l| g.langs.contains(l));
                } else {
                    set.retain(|l| !g.langs.contains(l));
                }
            }
        }
        let ls = if set.is_empty() { Ls::Any } else { Ls::Some(set) };
        self.encode_with(s, input, &ls)
    }

    pub fn encode_with(&self, s: &Bm, input: &str, ls: &Ls) -> Result<String, Panics> {
        let nt = NT[s.nt as usize];
        let rt = RT[s.rt as usize];
        let l = match ls {
            Ls::Some(x) if x.len() == 1 => x.iter().next().unwrap().as_str(),
            _ => "any",
        };
        let get = |r: &str, l: &str| self.rules.get(&(nt.to_string(), r.to_string(), l.to_string())).ok_or(Panics);
        let main = get("rules", l)?;
        let fin1 = get(rt, "common")?;
        let fin2 = get(rt, l)?;
        let input = input.to_lowercase().replace('-', " ");
        if nt == "gen" {
            if let Some(r) = input.strip_prefix("d'") {
                return self.both(s, r, &format!("d{r}"));
            }
            for p in PREFIX_GEN {
                if let Some(r) = input.strip_prefix(p).and_then(|r| r.strip_prefix(' ')) {
                    return self.both(s, r, &format!("{p}{r}"));
                }
            }
        }
        let words: Vec<&str> = input.split_whitespace().collect();
        if !s.concat && words.len() != 1 {
            let v = words.iter().map(|w| self.encode(s, w)).collect::<Result<Vec<_>, _>>()?;
            return Ok(v.join("-"));
        }
        let word: String = if s.concat {
            let mut v: Vec<&str> = vec![];
            for w in words {
                let w = if nt == "sep" { w.rsplit('\'').next().unwrap() } else { w };
                let drop = match nt {
                    "ash" => PREFIX_ASH.contains(&w),
                    "sep" => PREFIX_SEP.contains(&w),
                    _ => false,
                };
                if !drop {
                    v.push(w);
                }
            }
            v.join(" ")
        } else {
            words[0].to_string()
        };
        let word: Vec<char> = word.chars().collect();
        let mut alts: Alts = BTreeMap::from([(Key(vec![]), ls.clone())]);
        let mut i = 0;
        while i < word.len() {
            // a character without matching rule is dropped
            i += step(main, &word, i, &mut alts, s.max).unwrap_or(1);
        }
        let alts = finish(fin2, finish(fin1, alts, s.max), s.max);
        Ok(alts.keys().map(|k| k.0.iter().collect::<String>()).collect::<Vec<_>>().join("|"))
    }

    fn both(&self, s: &Bm, rest: &str, joined: &str) -> Result<String, Panics> {
        let c = self.encode(s, joined)?;
        let r = self.encode(s, rest)?;
        Ok(format!("({r})-({c})"))
    }
}

/// Applies the first matching rule at i; its pattern length, or None.
fn step(rules: &RuleSet, w: &[char], i: usize, alts: &mut Alts, max: usize) -> Option<usize> {
    for r in rules.get(&w[i])? {
        let n = r.pat.len();
        if i + n <= w.len() && w[i..i + n] == r.pat[..] && r.right.ok(&w[i + n..]) && r.left.ok(&w[..i]) {
            let mut next: Alts = BTreeMap::new();
            'all: for (k, ls) in alts.iter() {
                for (t, rl) in &r.out {
                    let m = ls.meet(rl);
                    if m.none() {
                        continue;
                    }
                    if next.len() < max {
                        let mut k2 = k.0.clone();
                        k2.extend(t);
                        next.entry(Key(k2)).or_insert(m);
                    }
                    if next.len() >= max {
                        break 'all;
                    }
                }
            }
            *alts = next;
            return Some(n);
        }
    }
    None
}

fn finish(rules: &RuleSet, alts: Alts, max: usize) -> Alts {
    if rules.is_empty() {
        return alts;
    }
    let mut out: Alts = BTreeMap::new();
    for (k, ls) in alts {
        let mut sub: Alts = BTreeMap::from([(Key(vec![]), ls.clone())]);
        let mut i = 0;
        while i < k.0.len() {
            match step(rules, &k.0, i, &mut sub, max) {
                Some(n) => i += n,
                None => {
                    sub = sub
                        .into_iter()
                        .map(|(mut s, l)| {
                            s.0.push(k.0[i]);
                            (s, l)
                        })
                        .collect();
                    i += 1;
                }
            }
        }
        for (s, l) in sub {
            match out.get_mut(&s) {
                Some(old) => *old = old.join(&ls),
                None => {
                    out.insert(s, l);
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------ Daitch-Mokotoff

#[derive(Clone, Debug)]
struct DmRule {
    pat: String,
    start: Vec<String>,
    vowel: Vec<String>,
    other: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Dm {
    fold: BTreeMap<char, char>,
    rules: BTreeMap<char, Vec<DmRule>>,
    pub folding: bool,
    pub pats: Vec<String>,
    pub n_rules: usize,
}

pub fn dm_load(t: &str, folding: bool) -> Result<Dm, MErr> {
    let mut d = Dm { fold: BTreeMap::new(), rules: BTreeMap::new(), folding, pats: vec![], n_rules: 0 };
    let mut ls = Lines::new(t);
    while let Some(l) = ls.next() {
        let n = ls.line;
        let term = ls.terminated(l);
        if let Some([p, a, b, c]) = quad(l, term) {
            let first = match p.chars().next() {
                Some(c) => c,
                None => return Err(at(n, l, "", false)),
            };
            let f = |s: &str| s.split('|').map(|x| x.to_string()).collect::<Vec<_>>();
            d.rules.entry(first).or_default().push(DmRule { pat: p.into(), start: f(a), vowel: f(b), other: f(c) });
            d.pats.push(p.into());
            d.n_rules += 1;
        } else if let Some((a, b)) = fold(l, term) {
            d.fold.insert(a, b);
            d.pats.push(a.to_string());
            d.n_rules += 1;
        } else if blank(l, term) || ls.comment(l) {
        } else {
            return Err(at(n, l, "", true));
        }
    }
    for v in d.rules.values_mut() {
        v.sort_by_key(|r| std::cmp::Reverse(r.pat.len()));
    }
    Ok(d)
}

impl Dm {
    pub fn encode(&self, input: &str, branching: bool) -> Result<String, Panics> {
        let src: Vec<char> = input
            .chars()
            .filter(|c| !c.is_whitespace())
            .map(|c| {
                let l = c.to_lowercase().next().unwrap_or(c);
                if self.folding {
                    *self.fold.get(&l).unwrap_or(&l)
                } else {
                    l
                }
            })
            .collect();
        // (code, last replacement)
        let mut br: Vec<(String, Option<String>)> = vec![(String::new(), None)];
        let mut last = '\0';
        let mut i = 0;
        while i < src.len() {
            let ch = src[i];
            let mut adv = 1;
            if let Some(rules) = self.rules.get(&ch) {
                let ctx: String = src[i..].iter().collect();
                if let Some(r) = rules.iter().find(|r| ctx.starts_with(&r.pat)) {
                    let n = r.pat.len();
                    let rep = if last == '\0' {
                        &r.start
                    } else if n < ctx.len() && ctx.chars().nth(n).is_some_and(|c| "aeiou".contains(c)) {
                        &r.vowel
                    } else {
                        &r.other
                    };
                    let mn = (last == 'm' && ch == 'n') || (last == 'n' && ch == 'm');
                    let mut next: Vec<(String, Option<String>)> = vec![];
                    for b in &br {
                        for x in rep {
                            let mut nb = b.clone();
                            let app = !matches!(&b.1, Some(p) if p.ends_with(x.as_str())) || mn;
                            if app && nb.0.len() < 6 {
                                nb.0.push_str(x);
                                if nb.0.len() > 6 {
                                    if !nb.0.is_char_boundary(6) {
                                        return Err(Panics);
                                    }
                                    nb.0.truncate(6);
                                }
                            }
                            nb.1 = Some(x.clone());
                            if !next.contains(&nb) {
                                next.push(nb);
                            }
                            if !branching {
                                break;
                            }
                        }
                    }
                    br = next;
                    // the matched pattern is skipped by its length
                    adv = n.max(1);
                }
                last = ch;
            }
            i += adv;
        }
        let v: Vec<String> = br
            .into_iter()
            .map(|(mut s, _)| {
                while s.len() < 6 {
                    s.push('0');
                }
                s
            })
            .collect();
        Ok(v.join("|"))
    }
}
