//! Stand-in for `heed` 0.21 (LMDB): an ordered key-value store with snapshot
//! readers, one writer at a time, atomic commits and a file that replays to the
//! last committed state. Keys are limited to 1..=511 bytes, as in LMDB.
use std::collections::BTreeMap;
use std::fs::{File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::marker::PhantomData;
use std::ops::{Bound, Deref, DerefMut, RangeBounds};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, RwLock, Weak};

pub use byteorder;

pub mod types {
    pub use crate::{Bytes, Str, Unit, U64};
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MdbError {
    BadValSize,
    NotFound,
    DbsFull,
    MapFull,
}
#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Mdb(MdbError),
    Encoding(Box<dyn std::error::Error + Send + Sync>),
    Decoding(Box<dyn std::error::Error + Send + Sync>),
    DatabaseClosing,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Io(e) => write!(f, "{e}"),
            Error::Mdb(MdbError::BadValSize) => write!(f, "MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, or wrong DUPFIXED size"),
            Error::Mdb(e) => write!(f, "{e:?}"),
            Error::Encoding(e) => write!(f, "error while encoding: {e}"),
            Error::Decoding(e) => write!(f, "error while decoding: {e}"),
            Error::DatabaseClosing => write!(f, "database is in a closing phase"),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}
pub type Result<T> = std::result::Result<T, Error>;
pub type BoxedError = Box<dyn std::error::Error + Send + Sync>;

// ---------------------------------------------------------------- codecs
pub trait BytesEncode {
    type EItem: ?Sized;
    fn enc(item: &Self::EItem) -> std::result::Result<Vec<u8>, BoxedError>;
}
pub trait BytesDecode<'a> {
    type DItem: 'a;
    fn dec(bytes: &'a [u8]) -> std::result::Result<Self::DItem, BoxedError>;
}
pub enum Bytes {}
impl BytesEncode for Bytes {
    type EItem = [u8];
    fn enc(item: &[u8]) -> std::result::Result<Vec<u8>, BoxedError> {
        Ok(item.to_vec())
    }
}
impl<'a> BytesDecode<'a> for Bytes {
    type DItem = &'a [u8];
    fn dec(b: &'a [u8]) -> std::result::Result<&'a [u8], BoxedError> {
        Ok(b)
    }
}
pub enum Str {}
impl BytesEncode for Str {
    type EItem = str;
    fn enc(item: &str) -> std::result::Result<Vec<u8>, BoxedError> {
        Ok(item.as_bytes().to_vec())
    }
}
impl<'a> BytesDecode<'a> for Str {
    type DItem = &'a str;
    fn dec(b: &'a [u8]) -> std::result::Result<&'a str, BoxedError> {
        Ok(std::str::from_utf8(b)?)
    }
}
pub enum Unit {}
impl BytesEncode for Unit {
    type EItem = ();
    fn enc(_: &()) -> std::result::Result<Vec<u8>, BoxedError> {
        Ok(vec![])
    }
}
impl<'a> BytesDecode<'a> for Unit {
    type DItem = ();
    fn dec(_: &'a [u8]) -> std::result::Result<(), BoxedError> {
        Ok(())
    }
}
pub struct U64<O>(PhantomData<O>);
impl<O: byteorder::ByteOrder> BytesEncode for U64<O> {
    type EItem = u64;
    fn enc(v: &u64) -> std::result::Result<Vec<u8>, BoxedError> {
        let mut b = vec![0; 8];
        O::write_u64(&mut b, *v);
        Ok(b)
    }
}
impl<'a, O: byteorder::ByteOrder + 'a> BytesDecode<'a> for U64<O> {
    type DItem = u64;
    fn dec(b: &'a [u8]) -> std::result::Result<u64, BoxedError> {
        if b.len() != 8 {
            return Err("not eight bytes".into());
        }
        Ok(O::read_u64(b))
    }
}

// ---------------------------------------------------------------- environment
type Tree = BTreeMap<Vec<u8>, Arc<[u8]>>;
#[derive(Clone, Default)]
struct Dbs {
    names: BTreeMap<String, usize>,
    trees: Vec<Arc<Tree>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EnvFlags(u32);
impl EnvFlags {
    pub const NO_SYNC: EnvFlags = EnvFlags(0x10000);
    pub const NO_META_SYNC: EnvFlags = EnvFlags(0x40000);
    pub const READ_ONLY: EnvFlags = EnvFlags(0x20000);
    pub const NO_TLS: EnvFlags = EnvFlags(0x200000);
}

struct Inner {
    key: (u64, u64),
    path: PathBuf,
    max_dbs: u32,
    current: RwLock<Arc<Dbs>>,
    writing: Mutex<bool>,
    free: Condvar,
    file: Mutex<File>,
}
impl Drop for Inner {
    fn drop(&mut self) {
        let mut r = registry().lock().unwrap_or_else(|e| e.into_inner());
        if r.get(&self.key).is_some_and(|w| w.strong_count() == 0) {
            r.remove(&self.key);
        }
    }
}
fn registry() -> &'static Mutex<BTreeMap<(u64, u64), Weak<Inner>>> {
    static R: Mutex<BTreeMap<(u64, u64), Weak<Inner>>> = Mutex::new(BTreeMap::new());
    &R
}

#[derive(Clone)]
pub struct Env(Arc<Inner>);

#[derive(Clone, Debug, Default)]
pub struct EnvOpenOptions {
    max_dbs: u32,
}
impl EnvOpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    /// # Safety
    /// as in heed
    pub unsafe fn flags(&mut self, _: EnvFlags) -> &mut Self {
        self
    }
    pub fn map_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_dbs(&mut self, n: u32) -> &mut Self {
        self.max_dbs = n;
        self
    }
    pub fn max_readers(&mut self, _: u32) -> &mut Self {
        self
    }
    /// # Safety
    /// as in heed
    pub unsafe fn open(&self, path: impl AsRef<Path>) -> Result<Env> {
        let path = path.as_ref().canonicalize()?;
        let m = std::fs::metadata(&path)?;
        let key = (m.dev(), m.ino());
        let mut r = registry().lock().unwrap_or_else(|e| e.into_inner());
        if let Some(e) = r.get(&key).and_then(Weak::upgrade) {
            return Ok(Env(e));
        }
        let mut file = OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path.join("data.mdb"))?;
        let dbs = load(&mut file)?;
        let inner = Arc::new(Inner {
            key,
            path,
            max_dbs: self.max_dbs,
            current: RwLock::new(Arc::new(dbs)),
            writing: Mutex::new(false),
            free: Condvar::new(),
            file: Mutex::new(file),
        });
        r.insert(key, Arc::downgrade(&inner));
        Ok(Env(inner))
    }
}

// The file is a list of commits: length, then operations. An incomplete commit
// at the end never happened.
fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}
fn take<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
    let r = b.get(4..4 + n)?;
    *b = &b[4 + n..];
    Some(r)
}
fn load(file: &mut File) -> Result<Dbs> {
    let mut all = vec![];
    file.read_to_end(&mut all)?;
    let mut dbs = Dbs::default();
    let mut rest = &all[..];
    while let Some(mut c) = take(&mut rest) {
        while let Some((&op, tail)) = c.split_first() {
            c = tail;
            match op {
                0 => {
                    let name = String::from_utf8_lossy(take(&mut c).unwrap()).to_string();
                    let n = dbs.trees.len();
                    dbs.names.insert(name, n);
                    dbs.trees.push(Arc::default());
                }
                op => {
                    let db = c[0] as usize;
                    c = &c[1..];
                    let t = Arc::make_mut(&mut dbs.trees[db]);
                    match op {
                        1 => {
                            let k = take(&mut c).unwrap().to_vec();
                            t.insert(k, take(&mut c).unwrap().into());
                        }
                        2 => {
                            t.remove(take(&mut c).unwrap());
                        }
                        _ => t.clear(),
                    }
                }
            }
        }
    }
    let end = (all.len() - rest.len()) as u64;
    file.set_len(end)?;
    file.seek(SeekFrom::Start(end))?;
    Ok(dbs)
}

impl Env {
    pub fn read_txn(&self) -> Result<RoTxn<'_>> {
        Ok(RoTxn { snap: self.0.current.read().unwrap_or_else(|e| e.into_inner()).clone(), env: PhantomData })
    }
    pub fn write_txn(&self) -> Result<RwTxn<'_>> {
        let mut w = self.0.writing.lock().unwrap_or_else(|e| e.into_inner());
        while *w {
            w = self.0.free.wait(w).unwrap_or_else(|e| e.into_inner());
        }
        *w = true;
        drop(w);
        let snap = self.0.current.read().unwrap_or_else(|e| e.into_inner()).clone();
        Ok(RwTxn { ro: RoTxn { snap, env: PhantomData }, env: self.0.clone(), log: vec![] })
    }
    pub fn create_database<K, V>(&self, txn: &mut RwTxn<'_>, name: Option<&str>) -> Result<Database<K, V>> {
        let name = name.unwrap_or("").to_string();
        if let Some(&db) = txn.ro.snap.names.get(&name) {
            return Ok(Database { db, kv: PhantomData });
        }
        if !name.is_empty() && txn.ro.snap.trees.len() as u32 >= self.0.max_dbs.max(1) {
            return Err(Error::Mdb(MdbError::DbsFull));
        }
        txn.log.push(0);
        put_bytes(&mut txn.log, name.as_bytes());
        let d = Arc::make_mut(&mut txn.ro.snap);
        let db = d.trees.len();
        d.names.insert(name, db);
        d.trees.push(Arc::default());
        Ok(Database { db, kv: PhantomData })
    }
    pub fn open_database<K, V>(&self, txn: &RoTxn<'_>, name: Option<&str>) -> Result<Option<Database<K, V>>> {
        Ok(txn.snap.names.get(name.unwrap_or("")).map(|&db| Database { db, kv: PhantomData }))
    }
    pub fn force_sync(&self) -> Result<()> {
        Ok(())
    }
    pub fn path(&self) -> &Path {
        &self.0.path
    }
}

pub struct RoTxn<'e> {
    snap: Arc<Dbs>,
    env: PhantomData<&'e ()>,
}
impl RoTxn<'_> {
    pub fn commit(self) -> Result<()> {
        Ok(())
    }
}
pub struct RwTxn<'e> {
    ro: RoTxn<'e>,
    env: Arc<Inner>,
    log: Vec<u8>,
}
impl<'e> Deref for RwTxn<'e> {
    type Target = RoTxn<'e>;
    fn deref(&self) -> &RoTxn<'e> {
        &self.ro
    }
}
impl DerefMut for RwTxn<'_> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.ro
    }
}
impl RwTxn<'_> {
    pub fn commit(self) -> Result<()> {
        if !self.log.is_empty() {
            let mut rec = Vec::with_capacity(self.log.len() + 4);
            put_bytes(&mut rec, &self.log);
            self.env.file.lock().unwrap_or_else(|e| e.into_inner()).write_all(&rec)?;
            *self.env.current.write().unwrap_or_else(|e| e.into_inner()) = self.ro.snap.clone();
        }
        Ok(())
    }
    pub fn abort(self) {}
    fn tree(&mut self, db: usize) -> &mut Tree {
        Arc::make_mut(&mut Arc::make_mut(&mut self.ro.snap).trees[db])
    }
}
impl Drop for RwTxn<'_> {
    fn drop(&mut self) {
        *self.env.writing.lock().unwrap_or_else(|e| e.into_inner()) = false;
        self.env.free.notify_one();
    }
}

// ---------------------------------------------------------------- database
pub struct Database<K, V> {
    db: usize,
    kv: PhantomData<(K, V)>,
}
unsafe impl<K, V> Send for Database<K, V> {}
unsafe impl<K, V> Sync for Database<K, V> {}
impl<K, V> Clone for Database<K, V> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K, V> Copy for Database<K, V> {}

fn key<K: BytesEncode>(k: &K::EItem) -> Result<Vec<u8>> {
    let k = K::enc(k).map_err(Error::Encoding)?;
    if k.is_empty() || k.len() > 511 {
        return Err(Error::Mdb(MdbError::BadValSize));
    }
    Ok(k)
}
fn ends<K: BytesEncode, R>(range: &R) -> Result<(Bound<Vec<u8>>, Bound<Vec<u8>>)>
where
    R: RangeBounds<K::EItem>,
{
    let one = |b: Bound<&K::EItem>| -> Result<Bound<Vec<u8>>> {
        Ok(match b {
            Bound::Included(k) => Bound::Included(K::enc(k).map_err(Error::Encoding)?),
            Bound::Excluded(k) => Bound::Excluded(K::enc(k).map_err(Error::Encoding)?),
            Bound::Unbounded => Bound::Unbounded,
        })
    };
    Ok((one(range.start_bound())?, one(range.end_bound())?))
}
fn empty(r: &(Bound<Vec<u8>>, Bound<Vec<u8>>)) -> bool {
    match r {
        (Bound::Included(a), Bound::Included(b)) => a > b,
        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a >= b,
        _ => false,
    }
}

type Pair<'t, K, V> = (<K as BytesDecode<'t>>::DItem, <V as BytesDecode<'t>>::DItem);

fn both<'t, K: BytesDecode<'t>, V: BytesDecode<'t>>(k: &'t [u8], v: &'t [u8]) -> Result<Pair<'t, K, V>> {
    Ok((K::dec(k).map_err(Error::Decoding)?, V::dec(v).map_err(Error::Decoding)?))
}

impl<K, V> Database<K, V> {
    pub fn get<'a, 't>(&self, txn: &'t RoTxn<'_>, k: &'a K::EItem) -> Result<Option<V::DItem>>
    where
        K: BytesEncode,
        V: BytesDecode<'t>,
    {
        let k = key::<K>(k)?;
        txn.snap.trees[self.db].get(&k).map(|v| V::dec(v).map_err(Error::Decoding)).transpose()
    }
    pub fn put<'a>(&self, txn: &mut RwTxn<'_>, k: &'a K::EItem, v: &'a V::EItem) -> Result<()>
    where
        K: BytesEncode,
        V: BytesEncode,
    {
        let k = key::<K>(k)?;
        let v = V::enc(v).map_err(Error::Encoding)?;
        txn.log.extend([1, self.db as u8]);
        put_bytes(&mut txn.log, &k);
        put_bytes(&mut txn.log, &v);
        txn.tree(self.db).insert(k, v.into());
        Ok(())
    }
    pub fn delete<'a>(&self, txn: &mut RwTxn<'_>, k: &'a K::EItem) -> Result<bool>
    where
        K: BytesEncode,
    {
        let k = key::<K>(k)?;
        txn.log.extend([2, self.db as u8]);
        put_bytes(&mut txn.log, &k);
        Ok(txn.tree(self.db).remove(&k).is_some())
    }
    pub fn delete_range<'a, R>(&self, txn: &mut RwTxn<'_>, range: &'a R) -> Result<usize>
    where
        K: BytesEncode,
        R: RangeBounds<K::EItem>,
    {
        let r = ends::<K, R>(range)?;
        if empty(&r) {
            return Ok(0);
        }
        let ks: Vec<Vec<u8>> = txn.ro.snap.trees[self.db].range::<Vec<u8>, _>(r).map(|(k, _)| k.clone()).collect();
        for k in &ks {
            txn.log.extend([2, self.db as u8]);
            put_bytes(&mut txn.log, k);
            txn.tree(self.db).remove(k);
        }
        Ok(ks.len())
    }
    pub fn clear(&self, txn: &mut RwTxn<'_>) -> Result<()> {
        txn.log.extend([3, self.db as u8]);
        txn.tree(self.db).clear();
        Ok(())
    }
    pub fn len(&self, txn: &RoTxn<'_>) -> Result<u64> {
        Ok(txn.snap.trees[self.db].len() as u64)
    }
    pub fn is_empty(&self, txn: &RoTxn<'_>) -> Result<bool> {
        Ok(txn.snap.trees[self.db].is_empty())
    }
    pub fn first<'t>(&self, txn: &'t RoTxn<'_>) -> Result<Option<Pair<'t, K, V>>>
    where
        K: BytesDecode<'t>,
        V: BytesDecode<'t>,
    {
        txn.snap.trees[self.db].iter().next().map(|(k, v)| both::<K, V>(k, v)).transpose()
    }
    pub fn last<'t>(&self, txn: &'t RoTxn<'_>) -> Result<Option<Pair<'t, K, V>>>
    where
        K: BytesDecode<'t>,
        V: BytesDecode<'t>,
    {
        txn.snap.trees[self.db].iter().next_back().map(|(k, v)| both::<K, V>(k, v)).transpose()
    }
    pub fn iter<'t>(&self, txn: &'t RoTxn<'_>) -> Result<RoIter<'t, K, V>> {
        Ok(RoIter { it: Some(txn.snap.trees[self.db].range::<Vec<u8>, _>(..)), prefix: vec![], kv: PhantomData })
    }
    pub fn range<'a, 't, R>(&self, txn: &'t RoTxn<'_>, range: &'a R) -> Result<RoIter<'t, K, V>>
    where
        K: BytesEncode,
        R: RangeBounds<K::EItem>,
    {
        let r = ends::<K, R>(range)?;
        let it = if empty(&r) { None } else { Some(txn.snap.trees[self.db].range::<Vec<u8>, _>(r)) };
        Ok(RoIter { it, prefix: vec![], kv: PhantomData })
    }
    pub fn prefix_iter<'a, 't>(&self, txn: &'t RoTxn<'_>, prefix: &'a K::EItem) -> Result<RoIter<'t, K, V>>
    where
        K: BytesEncode,
    {
        let p = K::enc(prefix).map_err(Error::Encoding)?;
        Ok(RoIter { it: Some(txn.snap.trees[self.db].range::<Vec<u8>, _>(p.clone()..)), prefix: p, kv: PhantomData })
    }
}

pub struct RoIter<'t, K, V> {
    it: Option<std::collections::btree_map::Range<'t, Vec<u8>, Arc<[u8]>>>,
    prefix: Vec<u8>,
    kv: PhantomData<(K, V)>,
}
pub type RoRange<'t, K, V> = RoIter<'t, K, V>;
pub type RoPrefix<'t, K, V> = RoIter<'t, K, V>;
impl<'t, K: BytesDecode<'t>, V: BytesDecode<'t>> Iterator for RoIter<'t, K, V> {
    type Item = Result<Pair<'t, K, V>>;
    fn next(&mut self) -> Option<Self::Item> {
        let (k, v) = self.it.as_mut()?.next()?;
        if !k.starts_with(&self.prefix) {
            self.it = None;
            return None;
        }
        Some(both::<K, V>(k, v))
    }
}
