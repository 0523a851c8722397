//@include ../lift/common.rs
// C26: histories of updates, commits and reads of a lock file in memory, with failures, against a reference; what is written is parsed back.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vx::{Ctx, Rng};
pub type ImmutPath = Arc<Path>;
pub type EcoString = String;
pub type EcoVec<T> = Vec<T>;
#[macro_export]
macro_rules! eco_vec { ($($t:tt)*) => { vec![$($t)*] } }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err(Error(format!($($t)*))) } }
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub trait WithContext<T>: Sized {
    fn context(self, l: &'static str) -> Result<T>;
    fn with_context<F: FnOnce() -> Option<Box<[(&'static str, String)]>>>(self, l: &'static str, _f: F) -> Result<T> {
        self.context(l)
    }
    fn context_ut(self, l: &'static str) -> Result<T> {
        self.context(l)
    }
}
impl<T, E: core::fmt::Display> WithContext<T> for std::result::Result<T, E> {
    fn context(self, l: &'static str) -> Result<T> {
        self.map_err(|e| Error(format!("{l}: {e}")))
    }
}
impl<T> WithContext<T> for Option<T> {
    fn context(self, l: &'static str) -> Result<T> {
        self.ok_or_else(|| Error(l.into()))
    }
}
pub trait IgnoreLogging<T> {
    fn log_error(self, m: &str) -> Option<T>;
}
impl<T> IgnoreLogging<T> for Result<T> {
    fn log_error(self, _m: &str) -> Option<T> {
        SAID.with(|s| s.borrow_mut().push(self.as_ref().err().map(|e| e.0.clone())));
        self.ok()
    }
}
thread_local! { static SAID: RefCell<Vec<Option<String>>> = RefCell::new(vec![]); }
// ---- the file ------------------------------------------------------------------------------------
#[derive(Default)]
struct Disk {
    data: Vec<u8>,
    /// how often its content was touched
    writes: usize,
    /// operations left until one fails
    fuse: Option<usize>,
    blown: Option<&'static str>,
    held: usize,
    bad: Option<String>,
    opened: Vec<String>,
}
thread_local! { static DISK: RefCell<Disk> = RefCell::new(Disk::default()); static CACHE: RefCell<Option<PathBuf>> = RefCell::new(None); static NOTES: RefCell<Vec<PathBuf>> = RefCell::new(vec![]); }
fn tick(op: &'static str) -> std::io::Result<()> {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        match d.fuse {
            Some(0) => {
                d.fuse = None;
                d.blown = Some(op);
                Err(std::io::Error::new(std::io::ErrorKind::Other, op))
            }
            Some(n) => {
                d.fuse = Some(n - 1);
                Ok(())
            }
            None => Ok(()),
        }
    })
}
pub mod tinymist_std {
    pub mod hash {
        pub fn hash128<T: std::hash::Hash + ?Sized>(t: &T) -> u128 {
            use std::hash::Hasher;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            (h.finish() as u128) << 64 | h.finish() as u128
        }
    }
    pub mod fs {
        pub mod paths {
            use crate::*;
            pub fn write_atomic<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, _c: C) -> Result<()> {
                NOTES.with(|n| n.borrow_mut().push(p.as_ref().to_owned()));
                Ok(())
            }
        }
        pub mod flock {
            use crate::*;
            pub struct Filesystem(PathBuf);
            impl Filesystem {
                pub fn new(p: PathBuf) -> Self {
                    Filesystem(p)
                }
                fn open(&self, p: &str, ex: bool) -> Result<FileLock> {
                    tick("open").map_err(|e| Error(e.to_string()))?;
                    DISK.with(|d| {
                        let mut d = d.borrow_mut();
                        if d.held > 0 {
                            d.bad = Some("locked twice".into());
                        }
                        d.held += 1;
                        d.opened.push(self.0.join(p).to_string_lossy().into_owned());
                    });
                    Ok(FileLock { pos: 0, ex, file: File(ex), path: self.0.join(p) })
                }
                pub fn open_rw_exclusive_create<P: AsRef<Path>>(&self, p: P, _m: &str) -> Result<FileLock> {
                    self.open(p.as_ref().to_str().unwrap(), true)
                }
                pub fn open_ro_shared<P: AsRef<Path>>(&self, p: P, _m: &str) -> Result<FileLock> {
                    self.open(p.as_ref().to_str().unwrap(), false)
                }
                pub fn open_rw_shared_create<P: AsRef<Path>>(&self, p: P, _m: &str) -> Result<FileLock> {
                    self.open(p.as_ref().to_str().unwrap(), false)
                }
            }
            pub struct File(bool);
            impl File {
                pub fn set_len(&self, n: u64) -> std::io::Result<()> {
                    tick("set_len")?;
                    DISK.with(|d| {
                        let mut d = d.borrow_mut();
                        if !self.0 {
                            d.bad = Some("truncated without the exclusive lock".into());
                        }
                        d.writes += 1;
                        d.data.resize(n as usize, 0);
                    });
                    Ok(())
                }
            }
            pub struct FileLock {
                pos: usize,
                ex: bool,
                file: File,
                path: PathBuf,
            }
            impl FileLock {
                pub fn file(&self) -> &File {
                    &self.file
                }
                pub fn path(&self) -> &Path {
                    &self.path
                }
                pub fn parent(&self) -> &Path {
                    self.path.parent().unwrap()
                }
            }
            impl Drop for FileLock {
                fn drop(&mut self) {
                    DISK.with(|d| d.borrow_mut().held -= 1);
                }
            }
            impl std::io::Read for FileLock {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    tick("read")?;
                    DISK.with(|d| {
                        let d = d.borrow();
                        let rest = &d.data[self.pos.min(d.data.len())..];
                        let n = rest.len().min(b.len()).min(37);
                        b[..n].copy_from_slice(&rest[..n]);
                        self.pos += n;
                        Ok(n)
                    })
                }
            }
            impl std::io::Seek for FileLock {
                fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
                    tick("seek")?;
                    let len = DISK.with(|d| d.borrow().data.len()) as i64;
                    let p = match s {
                        std::io::SeekFrom::Start(n) => n as i64,
                        std::io::SeekFrom::End(n) => len + n,
                        std::io::SeekFrom::Current(n) => self.pos as i64 + n,
                    };
                    self.pos = p as usize;
                    Ok(p as u64)
                }
            }
            impl std::io::Write for FileLock {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    tick("write")?;
                    DISK.with(|d| {
                        let mut d = d.borrow_mut();
                        if !self.ex {
                            d.bad = Some("written without the exclusive lock".into());
                        }
                        d.writes += 1;
                        let n = b.len().min(61);
                        if d.data.len() < self.pos + n {
                            d.data.resize(self.pos + n, 0);
                        }
                        d.data[self.pos..self.pos + n].copy_from_slice(&b[..n]);
                        self.pos += n;
                        Ok(n)
                    })
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
        }
    }
}
/// std, but that the lock file is the one in memory
mod std {
    pub use ::std::*;
    pub mod fs {
        pub use ::std::fs::*;
        pub fn write<P: AsRef<::std::path::Path>, C: AsRef<[u8]>>(p: P, c: C) -> ::std::io::Result<()> {
            if !p.as_ref().ends_with("tinymist.lock") {
                return ::std::fs::write(p, c);
            }
            crate::DISK.with(|d| {
                let mut d = d.borrow_mut();
                d.bad = Some("written without the exclusive lock".into());
                d.writes += 1;
                d.data = c.as_ref().to_vec();
            });
            Ok(())
        }
        pub fn read_to_string<P: AsRef<::std::path::Path>>(p: P) -> ::std::io::Result<String> {
            if !p.as_ref().ends_with("tinymist.lock") {
                return ::std::fs::read_to_string(p);
            }
            crate::DISK.with(|d| String::from_utf8(d.borrow().data.clone()).map_err(|_| ::std::io::ErrorKind::InvalidData.into()))
        }
    }
}
pub fn unix_slash(p: &Path) -> String {
    p.to_string_lossy().into_owned()
}
mod dirs {
    pub fn cache_dir() -> Option<std::path::PathBuf> {
        crate::CACHE.with(|c| c.borrow().clone())
    }
}
pub mod serde_json {
    pub fn to_string<T: core::fmt::Debug>(t: &T) -> Result<String, String> {
        Ok(format!("{t:?}"))
    }
    #[derive(Debug, Clone)]
    pub struct Value(pub crate::toml::Value);
    impl Value {
        pub fn get(&self, k: &str) -> Option<Value> {
            match &self.0 {
                crate::toml::Value::Table(t) => t.get(k).cloned().map(Value),
                _ => None,
            }
        }
        pub fn as_str(&self) -> Option<&'static str> {
            match &self.0 {
                crate::toml::Value::String(s) => Some(Box::leak(s.clone().into_boxed_str())),
                _ => None,
            }
        }
    }
}
mod semver {
    use std::cmp::Ordering;
    #[derive(PartialEq, Eq, Clone, Debug)]
    pub struct Version {
        pub major: u64,
        pub minor: u64,
        pub patch: u64,
        pub pre: Vec<String>,
    }
    fn num(s: &str) -> Option<u64> {
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) { None } else { s.parse().ok() }
    }
    impl Version {
        pub fn parse(s: &str) -> Result<Version, &'static str> {
            let e = "no version";
            let (core, pre) = match s.split_once('-') { Some((a, b)) => (a, Some(b)), None => (s, None) };
            let v: Vec<u64> = core.split('.').map(num).collect::<Option<_>>().ok_or(e)?;
            if v.len() != 3 {
                return Err(e);
            }
            let pre: Vec<String> = pre.map(|p| p.split('.').map(str::to_owned).collect()).unwrap_or_default();
            if pre.iter().any(|p| p.is_empty() || !p.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')) {
                return Err(e);
            }
            Ok(Version { major: v[0], minor: v[1], patch: v[2], pre })
        }
    }
    impl Ord for Version {
        fn cmp(&self, o: &Version) -> Ordering {
            (self.major, self.minor, self.patch).cmp(&(o.major, o.minor, o.patch)).then_with(|| match (self.pre.is_empty(), o.pre.is_empty()) {
                (true, true) => Ordering::Equal,
                (true, false) => Ordering::Greater,
                (false, true) => Ordering::Less,
                _ => {
                    for (a, b) in self.pre.iter().zip(&o.pre) {
                        let c = match (num(a), num(b)) { (Some(a), Some(b)) => a.cmp(&b), (Some(_), None) => Ordering::Less, (None, Some(_)) => Ordering::Greater, _ => a.cmp(b) };
                        if c != Ordering::Equal {
                            return c;
                        }
                    }
                    self.pre.len().cmp(&o.pre.len())
                }
            })
        }
    }
    impl PartialOrd for Version {
        fn partial_cmp(&self, o: &Version) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
}
// ---- toml: tables in key order, simple values before tables -----------------------------------------------
pub mod toml {
    use std::collections::BTreeMap;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Value {
        String(String),
        Integer(i64),
        Boolean(bool),
        Array(Vec<Value>),
        Table(Table),
    }
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct Table(pub BTreeMap<String, Value>);
    impl Value {
        pub fn as_array(&self) -> Option<&Vec<Value>> {
            if let Value::Array(a) = self { Some(a) } else { None }
        }
        pub fn as_table(&self) -> Option<&Table> {
            if let Value::Table(a) = self { Some(a) } else { None }
        }
        pub fn as_table_mut(&mut self) -> Option<&mut Table> {
            if let Value::Table(a) = self { Some(a) } else { None }
        }
        pub fn as_str(&self) -> Option<&str> {
            if let Value::String(a) = self { Some(a) } else { None }
        }
        fn simple(&self) -> bool {
            match self {
                Value::Table(_) => false,
                Value::Array(a) => a.is_empty() || !a.iter().all(|v| matches!(v, Value::Table(_))),
                _ => true,
            }
        }
        fn inline(&self, o: &mut String) {
            match self {
                Value::String(s) => o.push_str(&text(s)),
                Value::Integer(n) => o.push_str(&n.to_string()),
                Value::Boolean(b) => o.push_str(&b.to_string()),
                Value::Array(a) => {
                    o.push('[');
                    for (i, v) in a.iter().enumerate() {
                        if i > 0 {
                            o.push_str(", ");
                        }
                        v.inline(o);
                    }
                    o.push(']');
                }
                Value::Table(_) => unreachable!(),
            }
        }
    }
    impl From<Table> for Value {
        fn from(t: Table) -> Value {
            Value::Table(t)
        }
    }
    fn text(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04X}", c as u32)),
                c => o.push(c),
            }
        }
        o + "\""
    }
    impl Table {
        pub fn new() -> Self {
            Table::default()
        }
        pub fn get(&self, k: &str) -> Option<&Value> {
            self.0.get(k)
        }
        pub fn get_mut(&mut self, k: &str) -> Option<&mut Value> {
            self.0.get_mut(k)
        }
        pub fn remove(&mut self, k: &str) -> Option<Value> {
            self.0.remove(k)
        }
        pub fn insert(&mut self, k: String, v: Value) -> Option<Value> {
            self.0.insert(k, v)
        }
        pub fn contains_key(&self, k: &str) -> bool {
            self.0.contains_key(k)
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn iter(&self) -> std::collections::btree_map::Iter<'_, String, Value> {
            self.0.iter()
        }
        pub fn try_from<T: ToTable>(t: &T) -> Result<Table, String> {
            Ok(t.table())
        }
        fn show(&self, at: &str, o: &mut String) {
            for (k, v) in &self.0 {
                if v.simple() {
                    o.push_str(&format!("{k} = "));
                    v.inline(o);
                    o.push('\n');
                }
            }
            for (k, v) in &self.0 {
                let p = if at.is_empty() { k.clone() } else { format!("{at}.{k}") };
                match v {
                    Value::Table(t) => {
                        if t.0.is_empty() || t.0.values().any(Value::simple) {
                            o.push_str(&format!("\n[{p}]\n"));
                        }
                        t.show(&p, o);
                    }
                    Value::Array(a) if !v.simple() => {
                        for t in a {
                            o.push_str(&format!("\n[[{p}]]\n"));
                            t.as_table().unwrap().show(&p, o);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    impl core::fmt::Display for Table {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            let mut o = String::new();
            self.show("", &mut o);
            f.write_str(&o)
        }
    }
    pub trait ToTable {
        fn table(&self) -> Table;
    }
    struct Rd<'a>(std::iter::Peekable<std::str::Chars<'a>>);
    impl Rd<'_> {
        fn ws(&mut self) {
            while matches!(self.0.peek(), Some(' ' | '\t')) {
                self.0.next();
            }
        }
        fn val(&mut self) -> Result<Value, String> {
            self.ws();
            match self.0.peek().copied() {
                Some('"') => {
                    self.0.next();
                    let mut s = String::new();
                    loop {
                        match self.0.next().ok_or("open string")? {
                            '"' => return Ok(Value::String(s)),
                            '\\' => match self.0.next().ok_or("open string")? {
                                'n' => s.push('\n'),
                                'u' => {
                                    let h: String = (0..4).filter_map(|_| self.0.next()).collect();
                                    s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("escape")?);
                                }
                                c @ ('"' | '\\') => s.push(c),
                                _ => return Err("escape".into()),
                            },
                            c if (c as u32) < 0x20 => return Err("control character".into()),
                            c => s.push(c),
                        }
                    }
                }
                Some('[') => {
                    self.0.next();
                    let mut a = vec![];
                    loop {
                        self.ws();
                        if self.0.peek() == Some(&']') {
                            self.0.next();
                            return Ok(Value::Array(a));
                        }
                        a.push(self.val()?);
                        self.ws();
                        match self.0.next() {
                            Some(',') => {}
                            Some(']') => return Ok(Value::Array(a)),
                            _ => return Err("array".into()),
                        }
                    }
                }
                _ => {
                    let mut s = String::new();
                    while let Some(c) = self.0.peek().copied().filter(|c| c.is_ascii_alphanumeric() || *c == '-') {
                        s.push(c);
                        self.0.next();
                    }
                    match s.as_str() {
                        "true" => Ok(Value::Boolean(true)),
                        "false" => Ok(Value::Boolean(false)),
                        _ => s.parse().map(Value::Integer).map_err(|_| format!("value {s:?}")),
                    }
                }
            }
        }
    }
    fn at<'a>(root: &'a mut Table, path: &[&str]) -> Result<&'a mut Table, String> {
        let mut t = root;
        for p in path {
            let v = t.0.entry((*p).to_owned()).or_insert_with(|| Value::Table(Table::new()));
            t = match v {
                Value::Table(t) => t,
                Value::Array(a) => a.last_mut().and_then(|v| v.as_table_mut()).ok_or("not a table")?,
                _ => return Err("not a table".into()),
            };
        }
        Ok(t)
    }
    pub fn parse(s: &str) -> Result<Table, String> {
        let mut root = Table::new();
        let mut path: Vec<&str> = vec![];
        let mut heads: Vec<String> = vec![];
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(h) = l.strip_prefix("[[").and_then(|l| l.strip_suffix("]]")) {
                path = h.split('.').collect();
                let (k, up) = path.split_last().unwrap();
                let t = at(&mut root, up)?;
                match t.0.entry((*k).to_owned()).or_insert_with(|| Value::Array(vec![])) {
                    Value::Array(a) => a.push(Value::Table(Table::new())),
                    _ => return Err(format!("duplicate {h}")),
                }
                heads.retain(|x| !x.starts_with(&format!("{h}.")));
            } else if let Some(h) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
                path = h.split('.').collect();
                let (k, up) = path.split_last().unwrap();
                let t = at(&mut root, up)?;
                if heads.contains(&h.to_owned()) || matches!(t.0.get(*k), Some(v) if !matches!(v, Value::Table(_))) {
                    return Err(format!("duplicate {h}"));
                }
                heads.push(h.to_owned());
                at(&mut root, &path)?;
            } else {
                let (k, v) = l.split_once('=').ok_or("no key")?;
                let k = k.trim();
                if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') {
                    return Err("key".into());
                }
                let mut r = Rd(v.chars().peekable());
                let v = r.val()?;
                r.ws();
                if r.0.next().is_some_and(|c| c != '#') {
                    return Err("rest".into());
                }
                if at(&mut root, &path)?.0.insert(k.to_owned(), v).is_some() {
                    return Err(format!("duplicate key {k}"));
                }
            }
        }
        Ok(root)
    }
    pub fn from_str<T: OfTable>(s: &str) -> Result<T, String> {
        T::of(parse(s)?)
    }
    pub trait OfTable: Sized {
        fn of(t: Table) -> Result<Self, String>;
    }
}
use toml::{Table, Value};
// ---- the entries as texts (serde) -----------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Id(String);
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ResourcePath(String);
impl ResourcePath {
    pub fn from_user_sys(p: &Path) -> Self {
        ResourcePath(format!("file:{}", p.to_string_lossy()))
    }
}
/// a task with its transforms
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProjectTask {
    kind: String,
    transform: Vec<(bool, Vec<String>)>,
}
fn st(s: &str) -> Value {
    Value::String(s.to_owned())
}
fn tab(v: Vec<(&str, Option<Value>)>) -> Table {
    Table(v.into_iter().filter_map(|(k, v)| v.map(|v| (k.to_owned(), v))).collect())
}
fn arr(v: Vec<Value>) -> Option<Value> {
    if v.is_empty() { None } else { Some(Value::Array(v)) }
}
fn transform((pages, s): &(bool, Vec<String>)) -> Value {
    tab(if *pages {
        vec![("pages", Some(tab(vec![("ranges", Some(Value::Array(s.iter().map(|s| st(s)).collect())))]).into()))]
    } else {
        vec![("script", Some(tab(vec![("script", s.first().map(|s| st(s)))]).into()))]
    })
    .into()
}
impl toml::ToTable for LockFile {
    fn table(&self) -> Table {
        tab(vec![
            ("document", arr(self.document.iter().map(|d| {
                tab(vec![
                    ("id", Some(st(&d.id.0))),
                    ("root", d.root.as_ref().map(|p| st(&p.0))),
                    ("main", Some(st(&d.main.0))),
                    ("inputs", Some(Value::Array(d.inputs.iter().map(|(a, b)| Value::Array(vec![st(a), st(b)])).collect()))),
                    ("font-paths", arr(d.font_paths.iter().map(|p| st(&p.0)).collect())),
                    ("system-fonts", d.system_fonts.then_some(Value::Boolean(true))),
                    ("package-path", d.package_path.as_ref().map(|p| st(&p.0))),
                    ("package-cache-path", d.package_cache_path.as_ref().map(|p| st(&p.0))),
                ]).into()
            }).collect())),
            ("task", arr(self.task.iter().map(|t| {
                tab(vec![
                    ("id", Some(st(&t.id.0))),
                    ("document", Some(st(&t.document.0))),
                    ("type", Some(st(&t.task.kind))),
                    ("transform", arr(t.task.transform.iter().map(transform).collect())),
                ]).into()
            }).collect())),
            ("route", arr(self.route.iter().map(|r| tab(vec![("id", Some(st(&r.id.0))), ("priority", Some(Value::Integer(r.priority as i64)))]).into()).collect())),
        ])
    }
}
fn list(t: &Table, k: &str) -> Result<Vec<Value>, String> {
    match t.get(k) {
        None => Ok(vec![]),
        Some(Value::Array(a)) => Ok(a.clone()),
        _ => Err(format!("{k} is no array")),
    }
}
fn opt(t: &Table, k: &str) -> Result<Option<String>, String> {
    match t.get(k) {
        None => Ok(None),
        Some(Value::String(s)) => Ok(Some(s.clone())),
        _ => Err(format!("{k} is no string")),
    }
}
fn req(t: &Table, k: &str) -> Result<String, String> {
    opt(t, k)?.ok_or(format!("missing {k}"))
}
fn strs(v: Vec<Value>) -> Result<Vec<String>, String> {
    v.iter().map(|v| v.as_str().map(str::to_owned).ok_or("no string".to_owned())).collect()
}
fn lock_of(t: &Table) -> Result<LockFile, String> {
    let (mut document, mut task, mut route) = (vec![], vec![], vec![]);
    for d in list(t, "document")? {
        let d = d.as_table().ok_or("no table")?;
        document.push(ProjectInput {
            id: Id(req(d, "id")?),
            root: opt(d, "root")?.map(ResourcePath),
            main: ResourcePath(req(d, "main")?),
            inputs: match d.get("inputs") {
                Some(Value::Array(a)) => a.iter().map(|v| match strs(v.as_array().cloned().unwrap_or_default())?.as_slice() { [a, b] => Ok((a.clone(), b.clone())), _ => Err("inputs".to_owned()) }).collect::<Result<_, String>>()?,
                _ => return Err("missing inputs".into()),
            },
            font_paths: strs(list(d, "font-paths")?)?.into_iter().map(ResourcePath).collect(),
            system_fonts: matches!(d.get("system-fonts"), Some(Value::Boolean(true))),
            package_path: opt(d, "package-path")?.map(ResourcePath),
            package_cache_path: opt(d, "package-cache-path")?.map(ResourcePath),
        });
    }
    for d in list(t, "task")? {
        let d = d.as_table().ok_or("no table")?;
        let transform = list(d, "transform")?.iter().map(|v| {
            let v = v.as_table().ok_or("no table")?;
            if let Some(p) = v.get("pages") {
                return Ok((true, strs(list(p.as_table().ok_or("pages")?, "ranges")?)?));
            }
            match v.get("script") {
                Some(Value::Table(s)) => Ok((false, opt(s, "script")?.into_iter().collect())),
                _ => Err("transform".to_owned()),
            }
        }).collect::<Result<_, String>>()?;
        task.push(ApplyProjectTask { id: Id(req(d, "id")?), document: Id(req(d, "document")?), task: ProjectTask { kind: req(d, "type")?, transform } });
    }
    for d in list(t, "route")? {
        let d = d.as_table().ok_or("no table")?;
        match d.get("priority") {
            Some(Value::Integer(n)) if *n >= 0 => route.push(ProjectRoute { id: Id(req(d, "id")?), priority: *n as u32 }),
            _ => return Err("priority".into()),
        }
    }
    Ok(LockFile { document, task, route })
}
impl toml::OfTable for LockFileCompat {
    fn of(t: Table) -> Result<Self, String> {
        if t.get("version").and_then(Value::as_str) == Some("0.1.0-beta0") {
            if let Ok(l) = lock_of(&t) {
                return Ok(LockFileCompat::Version010Beta0(l));
            }
        }
        Ok(LockFileCompat::Other(serde_json::Value(Value::Table(t))))
    }
}
// ---- a world to compile --------------------------------------------------------------------------------
pub struct Fonts(Vec<PathBuf>);
impl Fonts {
    pub fn font_paths(&self) -> &[PathBuf] {
        &self.0
    }
}
pub struct Registry;
impl Registry {
    pub fn package_path(&self) -> Option<&Path> {
        None
    }
    pub fn package_cache_path(&self) -> Option<&Path> {
        None
    }
}
pub struct Resolved(PathBuf);
impl Resolved {
    pub fn as_path(&self) -> &Path {
        &self.0
    }
}
pub struct LspWorld {
    font_resolver: Fonts,
    registry: Registry,
    main: Option<String>,
    path: bool,
}
impl LspWorld {
    fn main(&self) -> usize {
        0
    }
    fn path_for_id(&self, _: usize) -> std::result::Result<Resolved, Error> {
        if self.path { Ok(Resolved(PathBuf::from("/w").join(self.main.as_deref().unwrap_or("")))) } else { Err(Error("no path".into())) }
    }
}
impl Id {
    pub fn from_world(w: &LspWorld) -> Option<Self> {
        w.main.clone().map(Id)
    }
}
mod code {
    use super::{std, *};
    use std::cmp::Ordering;
    use std::io::{Read, Seek, SeekFrom, Write};
//@rawitems crates/tinymist-project/src/model.rs LockFile LockFileCompat ProjectInput ProjectRoute ProjectPathMaterial LOCK_VERSION
//@rawitems crates/tinymist-task/src/model.rs ApplyProjectTask -ProjectTask
//@rawitems crates/tinymist-project/src/lock.rs LockFileUpdate LockFile update_lock
}
use code::*;
// ---- the reference -------------------------------------------------------------------------------------
fn sorted(l: &LockFile) -> (Vec<String>, Vec<String>, Vec<String>) {
    let mut d: Vec<_> = l.document.iter().map(|x| format!("{x:?}")).collect();
    let mut t: Vec<_> = l.task.iter().map(|x| format!("{x:?}")).collect();
    d.sort();
    t.sort();
    (d, t, l.route.iter().map(|x| format!("{x:?}")).collect())
}
fn word(r: &mut Rng) -> String {
    (*r.pick(&["a", "b", "main.typ", "é", "", "a b", "x\"y", "new\nline", "[[task]]", "k = 1", "tail\\", "z.typ"])).to_owned()
}
fn name(r: &mut Rng) -> Id {
    Id((*r.pick(&["a", "b", "c", "", "é", "a\"", "B", "aa"])).to_owned())
}
fn rp(r: &mut Rng) -> ResourcePath {
    ResourcePath(word(r))
}
fn doc(r: &mut Rng) -> ProjectInput {
    ProjectInput {
        id: name(r),
        root: if r.chance(1, 2) { Some(rp(r)) } else { None },
        main: rp(r),
        inputs: (0..r.below(3)).map(|_| (word(r), word(r))).collect(),
        font_paths: (0..r.below(3)).map(|_| rp(r)).collect(),
        system_fonts: r.chance(1, 2),
        package_path: if r.chance(1, 2) { Some(rp(r)) } else { None },
        package_cache_path: if r.chance(1, 2) { Some(rp(r)) } else { None },
    }
}
fn task(r: &mut Rng) -> ApplyProjectTask {
    let transform = (0..r.below(3)).map(|_| { let p = r.chance(1, 2); (p, (0..r.below(2) + usize::from(p && r.chance(1, 2))).map(|_| word(r)).collect()) }).collect();
    ApplyProjectTask { id: name(r), document: name(r), task: ProjectTask { kind: word(r), transform } }
}
fn route(r: &mut Rng) -> ProjectRoute {
    ProjectRoute { id: name(r), priority: *r.pick(&[0, 1, 7, u32::MAX]) }
}
#[derive(Clone, Debug)]
enum Op {
    Doc(ProjectInput),
    Task(ApplyProjectTask),
    Route(ProjectRoute),
    Files(Id),
}
fn put<T: Clone>(v: &mut Vec<T>, e: T, id: impl Fn(&T) -> Id) {
    let k = id(&e);
    match v.iter().position(|x| id(x) == k) {
        Some(i) => v[i] = e,
        None => v.push(e),
    }
}
fn apply(l: &mut LockFile, op: &Op) {
    match op.clone() {
        Op::Doc(d) => put(&mut l.document, d, |x| x.id.clone()),
        Op::Task(d) => put(&mut l.task, d, |x| x.id.clone()),
        // the last one set goes last
        Op::Route(d) => {
            l.route.retain(|x| x.id != d.id);
            l.route.push(d);
        }
        Op::Files(_) => {}
    }
}
fn copy(l: &LockFile) -> LockFile {
    LockFile { document: l.document.clone(), task: l.task.clone(), route: l.route.clone() }
}
/// what is in the file, as a reader that knows no version sees it
fn held() -> Option<LockFile> {
    DISK.with(|d| String::from_utf8(d.borrow().data.clone()).ok()).and_then(|t| {
        if t.trim().is_empty() {
            return Some(LockFile::default());
        }
        let t = toml::parse(&t).ok()?;
        if t.get("version").and_then(Value::as_str) == Some("0.1.0-beta0") { lock_of(&t).ok() } else { None }
    })
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of updates, commits, failing updates and reads over lock files fresh, kept, of other versions or damaged, with one failing file operation here and there".into();
    let root: ImmutPath = Path::new("/proj é").into();
    let cache = cx.dir.join("c26");
    let (mut n, mut k) = (0, 0);
    while cx.more(n, 3000, 60000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        CACHE.with(|c| *c.borrow_mut() = if r.chance(1, 3) { Some(cache.clone()) } else { None });
        let start: Vec<u8> = match r.below(9) {
            0 | 1 => vec![],
            2 => b" \n\t\n".to_vec(),
            3 => b"\xff\xfe not text".to_vec(),
            4 => b"version = \"0.1.0-beta0\"\n[[document]]\nid = 7\n".to_vec(),
            5 => format!("version = \"{}\"\n", *r.pick(&["0.2.0", "0.1.0", "1.0.0", "0.1.0-beta1", "0.1.0-rc0", "0.1.1-alpha", "next", "0.1", "", "0.0.9", "0.1.0-alpha9", "v0.1.0-beta0", "10.0.0"])).into_bytes(),
            6 => (*r.pick(&["= broken", "document = []\n", "[[document]", "version = 1\n", "x = 1\nx = 2\n", "\0\0\0", "version = \"0.1.0-beta0\"\n\0\0", "version = \"0.1.0-beta0\"\nx\n", "{}", "null"])).as_bytes().to_vec(),
            7 => b"# by hand\nversion = \"0.1.0-beta0\"\n[[route]]\nid = \"b\"\npriority = 3\n[[route]]\nid = \"a\"\npriority = 0\n[[document]]\nid = \"b\"\nmain = \"m\"\ninputs = []\n[[document]]\nid = \"a\"\nmain = \"m\"\ninputs = []\n[[task]]\nid = \"t\"\ndocument = \"a\"\ntype = \"export\"\n[[task.transform]]\n[task.transform.pages]\nranges = [\"1\"]\n".to_vec(),
            _ => b"version = \"0.1.0-beta0\"\n".to_vec(),
        };
        DISK.with(|d| *d.borrow_mut() = Disk { data: start.clone(), ..Disk::default() });
        let mut log = vec![format!("file: {:?}", String::from_utf8_lossy(&start))];
        let mut known = held();
        let mut last: Vec<Op> = vec![];
        let mut steps = 1 + r.below(7);
        while steps > 0 && !cx.failed() {
            steps -= 1;
            let before = DISK.with(|d| { let mut d = d.borrow_mut(); d.fuse = None; d.blown = None; d.opened.clear(); (d.data.clone(), d.writes) });
            let fuse = if r.chance(1, 6) { Some(r.below(14)) } else { None };
            let kind = r.below(8);
            let ops: Vec<Op> = if kind == 7 && !last.is_empty() { last.clone() } else {
                (0..r.below(5)).map(|_| match r.below(7) { 0 | 1 => Op::Doc(doc(&mut r)), 2 | 3 => Op::Task(task(&mut r)), 4 | 5 => Op::Route(route(&mut r)), _ => Op::Files(name(&mut r)) }).collect()
            };
            let mut want = known.as_ref().map(copy);
            let what;
            let res: Option<std::result::Result<(), String>>;
            let mut fails = false;
            if kind == 0 {
                what = "read".to_owned();
                log.push(what.clone());
                cx.case(&log.join("\n"));
                let got = LockFile::read(&root);
                let blank = before.0.iter().all(|b| b.is_ascii_whitespace());
                match (&got, &known) {
                    (Ok(g), Some(w)) if !blank && sorted(g) == sorted(w) => {}
                    (Err(_), None) => {}
                    (Err(_), Some(_)) if blank => {}
                    _ => cx.fail("what is read", &log.join("\n"), &format!("{:?}", known), &format!("{got:?}")),
                }
                res = None;
            } else if kind <= 3 {
                fails = r.chance(1, 5);
                let at = if fails { r.below(ops.len() + 1) } else { ops.len() };
                what = format!("update {ops:?}{}{}", if fails { format!(" failing after {at}") } else { String::new() }, fuse.map(|f| format!(" (operation {f} fails)")).unwrap_or_default());
                log.push(what.clone());
                cx.case(&log.join("\n"));
                DISK.with(|d| d.borrow_mut().fuse = fuse);
                let mut saw = None;
                let got = LockFile::update(&root, |l| {
                    saw = Some(copy(l));
                    for (i, o) in ops.iter().enumerate() {
                        if fails && i == at {
                            return Err(Error("no".into()));
                        }
                        match o.clone() {
                            Op::Doc(d) => {
                                let id = d.id.clone();
                                l.replace_document(d.clone());
                                if l.get_document(&id) != Some(&d) {
                                    DISK.with(|x| x.borrow_mut().bad = Some(format!("the document set for {id:?} is not the one found")));
                                }
                            }
                            Op::Task(d) => {
                                let id = d.id.clone();
                                l.replace_task(d.clone());
                                if l.get_task(&id) != Some(&d) {
                                    DISK.with(|x| x.borrow_mut().bad = Some(format!("the task set for {id:?} is not the one found")));
                                }
                            }
                            Op::Route(d) => l.replace_route(d),
                            Op::Files(_) => {}
                        }
                    }
                    if fails { Err(Error("no".into())) } else { Ok(()) }
                });
                if let (Some(s), Some(w)) = (&saw, &known) {
                    if sorted(s) != sorted(w) {
                        cx.fail("the lock an update starts from", &log.join("\n"), &format!("{w:?}"), &format!("{s:?}"));
                    }
                }
                if let Some(w) = &mut want {
                    if !fails {
                        ops.iter().for_each(|o| apply(w, o));
                    }
                }
                res = Some(got.map_err(|e| e.0));
            } else {
                what = format!("commit {ops:?}{}", fuse.map(|f| format!(" (operation {f} fails)")).unwrap_or_default());
                log.push(what.clone());
                cx.case(&log.join("\n"));
                DISK.with(|d| d.borrow_mut().fuse = fuse);
                let mut u = update_lock(root.clone());
                let mut done = vec![];
                for o in &ops {
                    match o.clone() {
                        Op::Doc(d) => {
                            // as a world makes it
                            let w = LspWorld { font_resolver: Fonts(d.font_paths.iter().map(|p| PathBuf::from(&p.0)).collect()), registry: Registry, main: if d.system_fonts { Some(d.id.0.clone()) } else { None }, path: d.root.is_some() };
                            let id = u.compiled(&w);
                            if id.is_some() != (d.system_fonts && d.root.is_some()) {
                                cx.fail("what compiled tells", &log.join("\n"), "an id when there is one and a path for the main file", &format!("{id:?}"));
                            }
                            if id.is_some() {
                                done.push(Op::Doc(ProjectInput {
                                    root: Some(ResourcePath::from_user_sys(Path::new("."))),
                                    main: ResourcePath::from_user_sys(&Path::new("/w").join(&d.id.0)),
                                    inputs: vec![],
                                    font_paths: d.font_paths.iter().map(|p| ResourcePath::from_user_sys(Path::new(&p.0))).collect(),
                                    system_fonts: true,
                                    package_path: None,
                                    package_cache_path: None,
                                    ..d
                                }));
                            }
                        }
                        Op::Task(d) => {
                            u.task(d);
                            done.push(o.clone());
                        }
                        Op::Route(d) => {
                            u.route(d.id, d.priority);
                            done.push(o.clone());
                        }
                        Op::Files(id) => u.update_materials(id, vec![Path::new("/w/x").into()]),
                    }
                }
                SAID.with(|s| s.borrow_mut().clear());
                u.commit();
                let said = SAID.with(|s| s.borrow().last().cloned().flatten());
                if let Some(w) = &mut want {
                    done.iter().for_each(|o| apply(w, o));
                }
                res = Some(match said { Some(e) => Err(e), None => Ok(()) });
            }
            let (blown, writes, data, bad, held_n, opened) = DISK.with(|d| { let mut d = d.borrow_mut(); d.fuse = None; (d.blown, d.writes, d.data.clone(), d.bad.clone(), d.held, d.opened.clone()) });
            k += 1;
            let kept = data == before.0 && writes == before.1;
            if let Some(b) = bad {
                cx.fail("how the file is used", &log.join("\n"), "within its lock", &b);
            }
            if held_n != 0 {
                cx.fail("the lock after the operation", &log.join("\n"), "let go", "held");
            }
            if opened.iter().any(|o| o != "/proj é/tinymist.lock") {
                cx.fail("the file", &log.join("\n"), "/proj é/tinymist.lock", &format!("{opened:?}"));
            }
            if let Some(res) = res {
                match &want {
                    None if !kept || res.is_ok() => cx.fail("a lock that cannot be taken over", &log.join("\n"), "an error, and the file as it was", &format!("{res:?}, {:?}", String::from_utf8_lossy(&data))),
                    None => {}
                    Some(_) if fails && !(kept && res.is_err()) => cx.fail("a failing update", &log.join("\n"), "an error, and the file as it was", &format!("{res:?}, {:?}", String::from_utf8_lossy(&data))),
                    Some(_) if fails => {}
                    Some(_) if matches!(blown, Some("open" | "read" | "set_len")) => {
                        if !kept || res.is_ok() {
                            cx.fail("an update whose file cannot be used", &log.join("\n"), "an error, and the file as it was", &format!("{res:?} ({blown:?} failed), {:?}", String::from_utf8_lossy(&data)));
                        }
                    }
                    Some(_) if blown.is_some() => {
                        if res.is_ok() {
                            cx.fail("an update that could not be written", &log.join("\n"), "an error", "Ok");
                        }
                        // what is there now is not told
                        break;
                    }
                    Some(w) => {
                        let now = held();
                        if res.is_err() || now.as_ref().map(sorted) != Some(sorted(w)) {
                            cx.fail("the lock after an update", &log.join("\n"), &format!("{:?}", sorted(w)), &format!("{res:?} {:?}\n{}", now.as_ref().map(sorted), String::from_utf8_lossy(&data)));
                        }
                        let same = kind == 7 && !last.is_empty();
                        if same && !kept && ops.iter().all(|o| !matches!(o, Op::Route(_))) && last_only(&ops) {
                            cx.fail("an update that changes nothing", &log.join("\n"), "nothing written", &String::from_utf8_lossy(&data));
                        }
                        known = Some(copy(w));
                        last = if kind > 3 { ops.clone() } else { vec![] };
                        let text = String::from_utf8_lossy(&data).into_owned();
                        if !text.is_empty() && toml::parse(&text).ok().and_then(|t| t.get("version").and_then(Value::as_str).map(str::to_owned)).as_deref() != Some("0.1.0-beta0") {
                            cx.fail("the version written", &log.join("\n"), "0.1.0-beta0", &text);
                        }
                    }
                }
            }
        }
        cx.eval(&log.join("\n"));
        cx.done();
    }
    let _ = k;
    let _ = std::fs::remove_dir_all(&cache);
    cx.finish();
}
/// each identity is set once
fn last_only(ops: &[Op]) -> bool {
    let ids: Vec<String> = ops.iter().map(|o| match o { Op::Doc(d) => format!("d{:?}", d.id), Op::Task(d) => format!("t{:?}", d.id), Op::Route(d) => format!("r{:?}", d.id), Op::Files(_) => String::new() }).filter(|s| !s.is_empty()).collect();
    ids.iter().collect::<std::collections::BTreeSet<_>>().len() == ids.len()
}
