//! Simulated storage: an in-memory file system with fault injection. Code under test reaches it through the libc
//! functions replaced in interpose.rs.
#![allow(static_mut_refs)]
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::rng::{hash_str, Rng};
use crate::rt;

pub const ROOT: &str = "/simfs";
pub const FD_BASE: i32 = 1 << 20;

/// File content; JSON keeps it readable where it is UTF-8.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);

impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => {
                let mut h = String::from("hex:");
                for b in &self.0 {
                    h.push_str(&format!("{b:02x}"));
                }
                s.serialize_str(&h)
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        if let Some(h) = t.strip_prefix("hex:") {
            let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            return Ok(Bytes(v));
        }
        Ok(Bytes(t.into_bytes()))
    }
}
impl Bytes {
    pub fn text(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    File(Bytes),
    Dir,
    /// symbolic link to a sibling name
    Link(String),
}

/// A directory of the simulated storage and how it presents itself.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct DirSpec {
    pub entries: BTreeMap<String, Node>,
    /// Seed of the listing order (0: sorted).
    #[serde(default)]
    pub order: u64,
    /// Directory entries come without type.
    #[serde(default)]
    pub no_dtype: bool,
    /// reported sizes: 0 honest, 1 zero, 2 too small, 3 too large
    #[serde(default)]
    pub size_lie: u8,
    /// modification times: 0 all the same and kept, 1 time of the change in whole seconds, 2 of the moment of asking,
    /// 3 one per file and kept
    #[serde(default)]
    pub stamp: u8,
    /// inode numbers: 0 one per file, 1 zero, 2 all the same, 3 shared by several
    #[serde(default)]
    pub inode: u8,
    /// longest read served at once (0: no limit)
    #[serde(default)]
    pub max_read: usize,
    /// "cc": the entries are those of the complete commons-codec rules, less `removed`, overlaid with `entries`
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub base: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub removed: Vec<String>,
}

/// What an injected fault does to one storage operation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    /// fails with this errno
    Err(i32),
    /// fails with EINTR this many times
    Eintr(u32),
    /// read: at most this many bytes
    Short(usize),
    /// read: end of file now (the rest of the file is lost)
    Eof,
    /// never returns
    Hang,
    /// takes this long (simulated)
    Delay(u64),
    /// before the operation, a concurrent writer installs change number n of the plan
    Change(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct Fault {
    /// operation class: open, read, stat, opendir, readdir, close
    pub op: String,
    /// path below the root, e.g. "d0/gen_lang.txt"
    pub path: String,
    /// fires at the nth operation of this class on this path (0-based, over the whole run)
    pub nth: u32,
    pub act: Act,
}

/// Change a concurrent writer (or an operator) makes to the storage.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Change {
    pub dir: usize,
    pub name: String,
    /// None: removed
    pub node: Option<Node>,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub tid: i32,
    pub op: &'static str,
    pub path: String,
    pub res: i64,
}

#[derive(Clone)]
enum Fd {
    File { path: String, data: Vec<u8>, pos: usize, seen: usize, over: bool },
    Dir { path: String },
}

pub struct DirHandle {
    fd: i32,
    path: String,
    names: Vec<(String, u8)>,
    pos: usize,
    ent: libc::dirent64,
}

#[derive(Default)]
pub struct Vfs {
    pub dirs: Vec<DirSpec>,
    pub changes: Vec<Change>,
    pub faults: Vec<Fault>,
    /// every storage operation fails with this errno
    pub broken: Option<i32>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    handles: BTreeMap<usize, Box<DirHandle>>,
    counts: BTreeMap<(String, String), u32>,
    pub log: Vec<Ev>,
    pub ops: u64,
    /// operations by the code under test on paths outside the simulated storage
    pub outside: Vec<String>,
    /// attempts to modify storage
    pub mutations: Vec<String>,
    pub fired: BTreeMap<String, u64>,
    /// (thread, path, content) as served by reads that reached the end of the file
    pub served: Vec<(i32, String, Vec<u8>)>,
    /// operations with number in from..to fail
    pub window: Option<(u64, u64, i32)>,
    by: BTreeMap<i32, (u64, u64)>,
    owner: BTreeMap<i32, i32>,
    pub max_open: usize,
    pub latency: u64,
    changed: BTreeMap<String, i64>,
    again: (&'static str, String, u64),
}

pub static mut V: Option<Box<Vfs>> = None;

pub fn v() -> &'static mut Vfs {
    unsafe {
        if V.is_none() {
            let _g = rt::HarnGuard::new();
            V = Some(Box::new(Vfs { next_fd: FD_BASE, ..Default::default() }));
        }
        V.as_mut().unwrap()
    }
}

pub fn open_handles() -> usize {
    v().fds.len()
}

/// Names are kept as text: a byte that is not part of UTF-8 becomes a character of a private range.
const RAW: u32 = 0x10_f700;
pub fn from_bytes(mut b: &[u8]) -> String {
    let mut out = String::new();
    while !b.is_empty() {
        match std::str::from_utf8(b) {
            Ok(t) => {
                out.push_str(t);
                break;
            }
            Err(e) => {
                let n = e.valid_up_to();
                out.push_str(std::str::from_utf8(&b[..n]).unwrap());
                out.push(char::from_u32(RAW + b[n] as u32).unwrap());
                b = &b[n + 1..];
            }
        }
    }
    out
}
pub fn to_bytes(s: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in s.chars() {
        match (c as u32).checked_sub(RAW) {
            Some(b) if b < 256 => out.push(b as u8),
            _ => out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    out
}

/// Directories that lead to the same place; a path through any other spelling of them does not exist.
pub const VIA: &[&[u8]] = &[b"raw\xff\xfe", "vi\u{e0} \u{4e2d}".as_bytes(), b"with space.txt", b"a%20b", b"new\nline", b"gen_languages.txt", b"#x"];

/// Normalises a path (relative ones are meant from the root); None if it is not below the simulated root.
pub fn norm(p: &str) -> Option<String> {
    if p.is_empty() {
        return Some("?".into());
    }
    let mut out: Vec<&str> = if p.starts_with('/') { vec![] } else { vec!["simfs"] };
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    if out.first() != Some(&"simfs") {
        return None;
    }
    if out.len() > 2 && VIA.contains(&&to_bytes(out[1])[..]) {
        out.remove(1);
    }
    Some(out[1..].join("/"))
}

fn errno_name(e: i32) -> String {
    match e {
        libc::ENOENT => "ENOENT".into(),
        libc::EACCES => "EACCES".into(),
        libc::EIO => "EIO".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EINTR => "EINTR".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::ENOTDIR => "ENOTDIR".into(),
        libc::EISDIR => "EISDIR".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::ENOTCONN => "ENOTCONN".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::EINVAL => "EINVAL".into(),
        libc::EPERM => "EPERM".into(),
        libc::EBUSY => "EBUSY".into(),
        libc::ENODEV => "ENODEV".into(),
        libc::ENXIO => "ENXIO".into(),
        libc::ENAMETOOLONG => "ENAMETOOLONG".into(),
        libc::EOVERFLOW => "EOVERFLOW".into(),
        libc::EROFS => "EROFS".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::ETXTBSY => "ETXTBSY".into(),
        libc::EHOSTUNREACH => "EHOSTUNREACH".into(),
        libc::ECONNRESET => "ECONNRESET".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EBADMSG => "EBADMSG".into(),
        libc::EREMOTEIO => "EREMOTEIO".into(),
        e => format!("errno{e}"),
    }
}

impl Vfs {
    pub fn reset(&mut self) {
        *self = Vfs { next_fd: FD_BASE, ..Default::default() };
    }

    fn split(&self, path: &str) -> Option<(usize, String)> {
        let (d, rest) = match path.split_once('/') {
            Some((d, r)) => (d, r.to_string()),
            None => (path, String::new()),
        };
        let i: usize = d.strip_prefix('d')?.parse().ok()?;
        if i < self.dirs.len() {
            Some((i, rest))
        } else {
            None
        }
    }

    /// Resolves a path to a node (following links when asked). Empty rest: the directory itself.
    fn look(&self, path: &str, follow: bool) -> Result<(String, Option<Node>), i32> {
        if path.is_empty() {
            return Ok((String::new(), Some(Node::Dir)));
        }
        let (i, mut rest) = self.split(path).ok_or(libc::ENOENT)?;
        for _ in 0..8 {
            if rest.is_empty() {
                return Ok((format!("d{i}"), Some(Node::Dir)));
            }
            match self.dirs[i].entries.get(&rest) {
                Some(Node::Link(t)) if follow => rest = t.clone(),
                Some(n) => return Ok((format!("d{i}/{rest}"), Some(n.clone()))),
                None => {
                    // a component below a file
                    if let Some((a, _)) = rest.split_once('/') {
                        if matches!(self.dirs[i].entries.get(a), Some(Node::File(_))) {
                            return Err(libc::ENOTDIR);
                        }
                    }
                    return Err(libc::ENOENT);
                }
            }
        }
        Err(libc::ELOOP)
    }

    pub fn ops_by(&self, t: i32) -> u64 {
        self.by.get(&t).map(|x| x.0).unwrap_or(0)
    }
    pub fn fired_by(&self, t: i32) -> u64 {
        self.by.get(&t).map(|x| x.1).unwrap_or(0)
    }
    pub fn open_by(&self, t: i32) -> usize {
        self.owner.iter().filter(|(f, o)| **o == t && self.fds.contains_key(f)).count()
    }
    pub fn served_pos(&self) -> usize {
        self.served.len()
    }
    /// Files of a directory read to the end by a thread since a position.
    pub fn served_since(&self, from: usize, t: i32, dir: usize) -> BTreeMap<String, Vec<Vec<u8>>> {
        let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        let pre = format!("d{dir}/");
        for (o, p, d) in &self.served[from..] {
            if *o == t {
                if let Some(n) = p.strip_prefix(&pre) {
                    m.entry(n.to_string()).or_default().push(d.clone());
                }
            }
        }
        m
    }

    fn fire(&mut self, what: String) {
        self.by.entry(unsafe { rt::TID }).or_default().1 += 1;
        *self.fired.entry(what).or_insert(0) += 1;
    }

    pub fn apply_change(&mut self, n: usize) {
        if let Some(c) = self.changes.get(n).cloned() {
            if c.dir < self.dirs.len() {
                self.changed.insert(format!("d{}/{}", c.dir, c.name), rt::now_ns() as i64 / 1_000_000_000);
                match c.node {
                    Some(n) => {
                        self.dirs[c.dir].entries.insert(c.name, n);
                    }
                    None => {
                        self.dirs[c.dir].entries.remove(&c.name);
                    }
                }
            }
        }
    }

    /// Common prologue of every operation: scheduling point, latency, fault lookup.
    fn begin(&mut self, op: &'static str, path: &str) -> Option<Act> {
        let num = self.ops;
        self.ops += 1;
        self.by.entry(unsafe { rt::TID }).or_default().0 += 1;
        unsafe { rt::CLOCK_ADD += 20_000 };
        let c = self.counts.entry((op.to_string(), path.to_string())).or_insert(0);
        let nth = *c;
        *c += 1;
        // the same operation tried again and again though it fails every time
        if self.again.1 == path {
            self.again.2 += 1;
            if self.again.2 > 50_000 && (self.broken.is_some() || self.window.is_some_and(|w| num > w.0 + 50_000 && num < w.1)) {
                rt::fatal("unbounded", &format!("{op} of {path} fails for good and was repeated more than 50000 times"));
            }
        } else {
            self.again = (op, path.to_string(), 0);
        }
        if let Some(e) = self.broken {
            self.fire(format!("{op}:broken"));
            return Some(Act::Err(e));
        }
        if let Some((a, b, e)) = self.window {
            if num >= a && num < b {
                self.fire(format!("{op}:{} (window)", errno_name(e)));
                return Some(Act::Err(e));
            }
        }
        let mut hit: Option<Act> = None;
        let mut changes = vec![];
        let alone = !rt::in_sim_thread();
        for f in &mut self.faults {
            if f.op == op && f.path == path && f.nth <= nth && matches!(f.act, Act::Hang) {
                // a hanging operation needs somebody else to go on: the first one by a simulated thread
                if !alone {
                    f.nth = u32::MAX;
                    hit = Some(Act::Hang);
                }
                continue;
            }
            if f.op == op && f.path == path && f.nth == nth {
                match &mut f.act {
                    Act::Change(n) => changes.push(*n),
                    Act::Eintr(k) => {
                        if *k > 0 {
                            // the call will be repeated: stay armed for the next one
                            *k -= 1;
                            f.nth += 1;
                            hit = Some(Act::Err(libc::EINTR));
                        }
                    }
                    a => hit = Some(a.clone()),
                }
            }
        }
        for n in changes {
            self.apply_change(n);
            self.fire("concurrent change".into());
        }
        match &hit {
            Some(Act::Err(e)) => self.fire(format!("{op}:{}", errno_name(*e))),
            Some(Act::Short(_)) => self.fire(format!("{op}:short")),
            Some(Act::Eof) => self.fire(format!("{op}:early-eof")),
            Some(Act::Hang) => self.fire(format!("{op}:hang")),
            Some(Act::Delay(d)) => {
                unsafe { rt::CLOCK_ADD += *d as i64 };
                self.fire(format!("{op}:delay"));
                return None;
            }
            _ => {}
        }
        hit
    }

    fn note(&mut self, op: &'static str, path: &str, res: i64) -> i64 {
        if self.log.len() < 100_000 {
            self.log.push(Ev { tid: unsafe { rt::TID }, op, path: path.to_string(), res });
        }
        res
    }

    fn lie(&self, path: &str, n: u64) -> u64 {
        match self.split(path).map(|(i, _)| self.dirs[i].size_lie).unwrap_or(0) {
            1 => 0,
            2 => n / 3,
            3 => n + 4097,
            _ => n,
        }
    }

    /// Modification time, seconds.
    pub fn mtime(&self, path: &str) -> i64 {
        const BUILT: i64 = 1_600_000_000;
        match self.split(path).map(|(i, _)| self.dirs[i].stamp).unwrap_or(0) {
            1 => self.changed.get(path).copied().unwrap_or(BUILT),
            2 => rt::now_ns() as i64 / 1_000_000_000,
            3 => BUILT + (hash_str(path) % 1_000_000) as i64,
            _ => BUILT,
        }
    }

    pub fn ino(&self, path: &str) -> u64 {
        match self.split(path).map(|(i, _)| self.dirs[i].inode).unwrap_or(0) {
            1 => 0,
            2 => 1,
            3 => 1 + hash_str(path) % 3,
            _ => hash_str(path) | 1,
        }
    }

    /// Returns fd or -errno.
    pub fn open(&mut self, path: &str, flags: i32) -> i64 {
        let wants_write = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0;
        if wants_write {
            self.mutations.push(format!("open for writing {path}"));
            return self.note("open", path, -libc::EROFS as i64);
        }
        match self.begin("open", path) {
            Some(Act::Err(e)) => return self.note("open", path, -e as i64),
            Some(Act::Hang) => rt::hang(),
            _ => {}
        }
        let r = match self.look(path, true) {
            Err(e) => -e as i64,
            Ok((p, Some(Node::File(b)))) => {
                if flags & libc::O_DIRECTORY != 0 {
                    -libc::ENOTDIR as i64
                } else {
                    let fd = self.next_fd;
                    self.next_fd += 1;
                    let _ = p;
                    self.owner.insert(fd, unsafe { rt::TID });
                    self.fds.insert(fd, Fd::File { path: path.to_string(), data: b.0, pos: 0, seen: 0, over: false });
                    fd as i64
                }
            }
            Ok((_, Some(Node::Dir))) => {
                let fd = self.next_fd;
                self.next_fd += 1;
                self.owner.insert(fd, unsafe { rt::TID });
                self.fds.insert(fd, Fd::Dir { path: path.to_string() });
                fd as i64
            }
            Ok(_) => -libc::ELOOP as i64,
        };
        self.max_open = self.max_open.max(self.fds.len());
        self.note("open", path, r)
    }

    pub fn is_fd(&self, fd: i32) -> bool {
        fd >= FD_BASE
    }

    pub fn fd_path(&self, fd: i32) -> Option<String> {
        match self.fds.get(&fd)? {
            Fd::File { path, .. } | Fd::Dir { path } => Some(path.clone()),
        }
    }

    pub fn read(&mut self, fd: i32, buf: *mut u8, n: usize, at: Option<usize>) -> i64 {
        let path = match self.fds.get(&fd) {
            None => return -libc::EBADF as i64,
            Some(Fd::Dir { path }) => {
                let p = path.clone();
                return self.note("read", &p, -libc::EISDIR as i64);
            }
            Some(Fd::File { path, .. }) => path.clone(),
        };
        let act = self.begin("read", &path);
        let mut lim = n;
        match act {
            Some(Act::Err(e)) => {
                if let Some(Fd::File { over, .. }) = self.fds.get_mut(&fd) {
                    *over = true;
                }
                return self.note("read", &path, -e as i64);
            }
            Some(Act::Hang) => rt::hang(),
            Some(Act::Short(k)) => lim = lim.min(k.max(1)),
            Some(Act::Eof) => {
                if let Some(Fd::File { pos, data, .. }) = self.fds.get_mut(&fd) {
                    let p = *pos;
                    data.truncate(p);
                }
            }
            _ => {}
        }
        if let Some(m) = self.split(&path).map(|(i, _)| self.dirs[i].max_read) {
            if m > 0 {
                lim = lim.min(m);
            }
        }
        let mut done: Option<Vec<u8>> = None;
        let r = if let Some(Fd::File { data, pos, seen, over, .. }) = self.fds.get_mut(&fd) {
            let from = at.unwrap_or(*pos).min(data.len());
            let k = lim.min(data.len() - from);
            unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(from), buf, k) };
            if at.is_none() {
                *pos = from + k;
            }
            *seen = (*seen).max(from + k);
            if k == 0 && n > 0 && at.is_none() {
                done = Some(data.clone());
                *over = true;
            }
            k as i64
        } else {
            0
        };
        if let Some(d) = done {
            self.served.push((unsafe { rt::TID }, path.clone(), d));
        }
        self.note("read", &path, r)
    }

    /// A second descriptor for the same file.
    pub fn dup(&mut self, fd: i32) -> i64 {
        let x = match self.fds.get(&fd) {
            None => return -libc::EBADF as i64,
            Some(x) => x.clone(),
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.owner.insert(fd, unsafe { rt::TID });
        self.fds.insert(fd, x);
        self.max_open = self.max_open.max(self.fds.len());
        fd as i64
    }
    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        if let Some(Fd::File { data, pos, .. }) = self.fds.get_mut(&fd) {
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => *pos as i64,
                libc::SEEK_END => data.len() as i64,
                _ => return -libc::EINVAL as i64,
            };
            let p = base + off;
            if p < 0 {
                return -libc::EINVAL as i64;
            }
            *pos = p as usize;
            return p;
        }
        -libc::EBADF as i64
    }

    pub fn close(&mut self, fd: i32) -> i64 {
        match self.fds.remove(&fd) {
            None => -libc::EBADF as i64,
            Some(fd) => {
                // closing a directory writes nothing back: it cannot fail (and std would panic if it did)
                let (path, dir) = match fd {
                    Fd::File { path, data, seen, over, .. } => {
                        // read to its end, which the reader knew beforehand
                        if !over && seen == data.len() {
                            self.served.push((unsafe { rt::TID }, path.clone(), data));
                        }
                        (path, false)
                    }
                    Fd::Dir { path } => (path, true),
                };
                let act = self.begin("close", &path);
                let r = match act {
                    Some(Act::Err(e)) if !dir || e == libc::EINTR => -e as i64,
                    Some(Act::Hang) => rt::hang(),
                    _ => 0,
                };
                self.note("close", &path, r)
            }
        }
    }

    /// mode, size, ino, mtime — or -errno.
    pub fn stat(&mut self, path: &str, follow: bool) -> Result<(u32, u64, u64, i64), i32> {
        match self.begin("stat", path) {
            Some(Act::Err(e)) => {
                self.note("stat", path, -e as i64);
                return Err(e);
            }
            Some(Act::Hang) => rt::hang(),
            _ => {}
        }
        let r = self.look(path, follow).map(|(p, n)| match n {
            Some(Node::File(b)) => (libc::S_IFREG | 0o644, self.lie(&p, b.0.len() as u64), self.ino(&p), self.mtime(&p)),
            Some(Node::Link(t)) => (libc::S_IFLNK | 0o777, t.len() as u64, self.ino(&p), self.mtime(&p)),
            _ => (libc::S_IFDIR | 0o755, 4096, self.ino(&p), self.mtime(&p)),
        });
        self.note("stat", path, r.as_ref().map(|_| 0).unwrap_or_else(|e| -*e as i64));
        r
    }

    pub fn opendir(&mut self, path: &str, from_fd: Option<i32>) -> Result<usize, i32> {
        match self.begin("opendir", path) {
            Some(Act::Err(e)) => {
                self.note("opendir", path, -e as i64);
                return Err(e);
            }
            Some(Act::Hang) => rt::hang(),
            _ => {}
        }
        let r = match self.look(path, true) {
            Err(e) => Err(e),
            Ok((_, Some(Node::Dir))) => {
                let mut names: Vec<(String, u8)> = vec![];
                let mut order = 0;
                let mut nod = false;
                if let Some((i, rest)) = self.split(path) {
                    if rest.is_empty() {
                        let d = &self.dirs[i];
                        order = d.order;
                        nod = d.no_dtype;
                        for (k, n) in &d.entries {
                            if k.contains('/') {
                                continue;
                            }
                            names.push((
                                k.clone(),
                                match n {
                                    Node::File(_) => libc::DT_REG,
                                    Node::Dir => libc::DT_DIR,
                                    Node::Link(_) => libc::DT_LNK,
                                },
                            ));
                        }
                    }
                }
                names.push((".".into(), libc::DT_DIR));
                names.push(("..".into(), libc::DT_DIR));
                if order != 0 {
                    Rng::new(order).shuffle(&mut names);
                }
                if nod {
                    for n in &mut names {
                        n.1 = libc::DT_UNKNOWN;
                    }
                }
                let fd = match from_fd {
                    Some(f) => f,
                    None => {
                        let f = self.next_fd;
                        self.next_fd += 1;
                        self.owner.insert(f, unsafe { rt::TID });
                        self.fds.insert(f, Fd::Dir { path: path.to_string() });
                        f
                    }
                };
                self.max_open = self.max_open.max(self.fds.len());
                let h = Box::new(DirHandle { fd, path: path.to_string(), names, pos: 0, ent: unsafe { std::mem::zeroed() } });
                let p = &*h as *const DirHandle as usize;
                self.handles.insert(p, h);
                Ok(p)
            }
            Ok(_) => Err(libc::ENOTDIR),
        };
        self.note("opendir", path, r.as_ref().map(|_| 0).unwrap_or_else(|e| -*e as i64));
        r
    }

    pub fn is_dirp(&self, p: usize) -> bool {
        self.handles.contains_key(&p)
    }
    pub fn dirfd(&self, p: usize) -> i32 {
        self.handles[&p].fd
    }

    /// Ok(None): end of the listing.
    pub fn readdir(&mut self, p: usize) -> Result<*mut libc::dirent64, i32> {
        let path = self.handles[&p].path.clone();
        let act = self.begin("readdir", &path);
        match act {
            Some(Act::Err(e)) => {
                self.note("readdir", &path, -e as i64);
                return Err(e);
            }
            Some(Act::Hang) => rt::hang(),
            Some(Act::Eof) => {
                let h = self.handles.get_mut(&p).unwrap();
                h.pos = h.names.len();
            }
            _ => {}
        }
        let h = self.handles.get_mut(&p).unwrap();
        if h.pos >= h.names.len() {
            self.note("readdir", &path, 0);
            return Ok(std::ptr::null_mut());
        }
        let (n, t) = h.names[h.pos].clone();
        h.pos += 1;
        let ino = self.ino(&format!("{path}/{n}"));
        let h = self.handles.get_mut(&p).unwrap();
        h.ent.d_ino = ino;
        h.ent.d_off = h.pos as i64;
        h.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        h.ent.d_type = t;
        for (i, b) in to_bytes(&n).into_iter().chain(std::iter::once(0)).enumerate() {
            h.ent.d_name[i] = b as libc::c_char;
        }
        let e = &mut h.ent as *mut libc::dirent64;
        self.note("readdir", &path, 1);
        Ok(e)
    }

    pub fn closedir(&mut self, p: usize) -> i64 {
        let h = self.handles.remove(&p).unwrap();
        let fd = h.fd;
        drop(h);
        self.close(fd)
    }

    pub fn mutate(&mut self, what: &str, path: &str) -> i64 {
        self.mutations.push(format!("{what} {path}"));
        -libc::EROFS as i64
    }
}
