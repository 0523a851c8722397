// What the layers of the virtual file system stand on (stand-ins for rpds, typst, ecow).
use core::fmt::{self, Debug};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Read;
use std::ops::Deref;
use std::path::{Component, Path, PathBuf};
use std::sync::Arc;
pub type ImmutPath = Arc<Path>;
pub struct RwLock<T>(std::sync::RwLock<T>);
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> {
        self.0.read().unwrap()
    }
    pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> {
        self.0.write().unwrap()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap()
    }
}
pub struct Mutex<T>(std::sync::Mutex<T>);
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, T> {
        self.0.lock().unwrap()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap()
    }
}
pub mod parking_lot {
    pub use super::{Mutex, RwLock};
}
/// rpds's persistent map: a copy shares nothing that can change
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RedBlackTreeMapSync<K: Ord, V>(Arc<BTreeMap<K, V>>);
impl<K: Ord, V> Default for RedBlackTreeMapSync<K, V> {
    fn default() -> Self {
        RedBlackTreeMapSync(Arc::new(BTreeMap::new()))
    }
}
impl<K: Ord + Clone, V: Clone> RedBlackTreeMapSync<K, V> {
    pub fn new_sync() -> Self {
        Self::default()
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(k)
    }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.0).get_mut(k)
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        Arc::make_mut(&mut self.0).insert(k, v);
    }
    pub fn remove_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.0).remove(k).is_some()
    }
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut m = self.clone();
        m.insert_mut(k, v);
        m
    }
    pub fn remove<Q: Ord + ?Sized>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut m = self.clone();
        m.remove_mut(k);
        m
    }
    pub fn keys(&self) -> std::collections::btree_map::Keys<'_, K, V> {
        self.0.keys()
    }
    pub fn values(&self) -> std::collections::btree_map::Values<'_, K, V> {
        self.0.values()
    }
    pub fn iter(&self) -> std::collections::btree_map::Iter<'_, K, V> {
        self.0.iter()
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct EcoString(Arc<str>);
impl From<&str> for EcoString {
    fn from(s: &str) -> Self {
        EcoString(s.into())
    }
}
impl From<String> for EcoString {
    fn from(s: String) -> Self {
        EcoString(s.into())
    }
}
impl Deref for EcoString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for EcoString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self)
    }
}
impl fmt::Debug for EcoString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
#[macro_export]
macro_rules! eco_format { ($($t:tt)*) => { EcoString::from(format!($($t)*)) } }
/// typst's bytes
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bytes(Arc<Vec<u8>>);
impl Bytes {
    pub fn new(v: impl AsRef<[u8]>) -> Self {
        Bytes(Arc::new(v.as_ref().to_vec()))
    }
    pub fn from_string(v: impl AsRef<str>) -> Self {
        Bytes(Arc::new(v.as_ref().as_bytes().to_vec()))
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FileError {
    NotFound(PathBuf),
    AccessDenied,
    IsDirectory,
    NotSource,
    InvalidUtf8,
    Other(Option<EcoString>),
}
impl FileError {
    pub fn from_io(e: std::io::Error, p: &Path) -> Self {
        match e.kind() {
            std::io::ErrorKind::NotFound => FileError::NotFound(p.into()),
            std::io::ErrorKind::PermissionDenied => FileError::AccessDenied,
            _ => FileError::Other(Some(e.to_string().into())),
        }
    }
}
pub type FileResult<T> = Result<T, FileError>;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct TypstFileId(pub u16);
pub type FileId = TypstFileId;
impl TypstFileId {
    pub fn vpath(&self) -> VirtualPath {
        VirtualPath(self.0)
    }
}
pub struct VirtualPath(u16);
impl VirtualPath {
    pub fn as_rooted_path(&self) -> PathBuf {
        PathBuf::from(format!("/f{}", self.0))
    }
    pub fn as_rootless_path(&self) -> PathBuf {
        PathBuf::from(format!("f{}", self.0))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PathResolution {
    Resolved(PathBuf),
    Rootless(PathBuf),
}
impl PathResolution {
    pub fn to_err(self) -> FileResult<PathBuf> {
        match self {
            PathResolution::Resolved(p) => Ok(p),
            PathResolution::Rootless(_) => Err(FileError::AccessDenied),
        }
    }
    pub fn as_path(&self) -> &Path {
        match self {
            PathResolution::Resolved(p) => p,
            PathResolution::Rootless(p) => p,
        }
    }
}
pub trait RootResolver {
    fn path_for_id(&self, f: TypstFileId) -> FileResult<PathResolution>;
}
