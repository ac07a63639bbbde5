//! Caches against reference models.
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::num::NonZeroUsize;

use cache::{
    AsyncCache, AsyncCacheWrap, Cache, CircularKVCache, LruWrap, ShardedAsyncCache, ShardedSyncCache, SyncCache, SyncCacheWrap,
};
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};

pub fn check() -> Check {
    Check {
        property: "C30",
        level: "exploration",
        assumptions: &[
            "shard membership of a key is read off the public shard()/lock_shard() accessors (address of the shard)",
            "the deletions of the circular cache are only specified for keys inserted in ascending order (its documented use)",
        ],
        subs: vec![
            Sub { name: "lru", rule: "op sequences (insert/get/remove/pop/set_capacity/clear) on LruWrap, SyncCacheWrap and AsyncCacheWrap vs an ordered-list LRU model; non-trivial: at least one eviction or pop after a get/overwrite changed the order", quick: 200_000, thorough: 8_000_000, serial: false, f: lru },
            Sub { name: "sharded_sync", rule: "op sequences on ShardedSyncCache vs one LRU model per shard; non-trivial: two or more shards in use and an eviction or pop", quick: 100_000, thorough: 4_000_000, serial: false, f: sharded_sync },
            Sub { name: "sharded_async", rule: "same for ShardedAsyncCache; non-trivial as above", quick: 100_000, thorough: 4_000_000, serial: false, f: sharded_async },
            Sub { name: "circular", rule: "put/get/last/del_before/del_after on CircularKVCache vs an ordered model; non-trivial: a wrap-around (more puts than capacity) or a partial range deletion", quick: 200_000, thorough: 8_000_000, serial: false, f: circular },
            Sub { name: "concurrent", rule: "3 threads with disjoint keys on one roomy ShardedSyncCache / AsyncCache; every thread must read its own last write, the final content is the union; non-trivial: every thread wrote and removed", quick: 2_000, thorough: 80_000, serial: true, f: concurrent },
            Sub { name: "shared", rule: "3 threads insert, remove and pop unique tokens under the same 1..4 keys of a roomy ShardedSyncCache, SyncCacheWrap, AsyncCacheWrap or ShardedAsyncCache: every token inserted is handed back exactly once (as the old value of an insert, by remove or pop, or as final content) and nothing else is; non-trivial: tokens of two threads met under one key", quick: 2_000, thorough: 80_000, serial: true, f: shared },
        ],
    }
}

#[derive(Default, Clone, Debug)]
struct Lru {
    cap: usize,
    // most recent first
    q: VecDeque<(u32, u64)>,
    reordered: bool,
    evicted: usize,
}

impl Lru {
    fn new(cap: usize) -> Self {
        Lru { cap, ..Default::default() }
    }
    fn touch(&mut self, i: usize) {
        if i != 0 {
            self.reordered = true;
        }
        let e = self.q.remove(i).unwrap();
        self.q.push_front(e);
    }
    fn pos(&self, k: u32) -> Option<usize> {
        self.q.iter().position(|e| e.0 == k)
    }
    fn insert(&mut self, k: u32, v: u64) -> Option<u64> {
        if let Some(i) = self.pos(k) {
            let old = self.q[i].1;
            self.q[i].1 = v;
            self.touch(i);
            return Some(old);
        }
        if self.q.len() >= self.cap {
            self.q.pop_back();
            self.evicted += 1;
        }
        self.q.push_front((k, v));
        None
    }
    fn get(&mut self, k: u32) -> Option<u64> {
        let i = self.pos(k)?;
        self.touch(i);
        Some(self.q[0].1)
    }
    fn remove(&mut self, k: u32) -> Option<u64> {
        let i = self.pos(k)?;
        self.q.remove(i).map(|e| e.1)
    }
    fn pop(&mut self) -> Option<(u32, u64)> {
        self.q.pop_back()
    }
    fn set_cap(&mut self, c: usize) {
        self.cap = c;
        while self.q.len() > c {
            self.q.pop_back();
            self.evicted += 1;
        }
    }
}

#[derive(Debug, Clone)]
enum Op {
    Insert(u32, u64),
    Get(u32),
    Remove(u32),
    Pop,
    SetCap(usize),
    Clear,
    PopShard(u32),
}

fn ops(g: &mut G, keys: u64, maxcap: u64, sharded: bool) -> Vec<Op> {
    let mut n = 0u64;
    let max = 10 + g.size as usize;
    g.vec(1, max, |g| {
        n += 1;
        match g.weighted(&[10, 6, 2, 3, 1, 1, if sharded { 2 } else { 0 }]) {
            0 => Op::Insert(g.below(keys) as u32, n),
            1 => Op::Get(g.below(keys) as u32),
            2 => Op::Remove(g.below(keys) as u32),
            3 => Op::Pop,
            4 => Op::SetCap(1 + g.below(maxcap) as usize),
            5 => {
                if g.chance(1, 3) {
                    Op::Clear
                } else {
                    Op::Pop
                }
            }
            _ => Op::PopShard(g.below(keys) as u32),
        }
    })
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}

fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}

fn lru(g: &mut G) -> R {
    let unbounded = g.chance(1, 8);
    let cap = 1 + g.below(6) as usize;
    let keys = 1 + g.below(10);
    let ops = ops(g, keys, 7, false);
    g.show("cap", &(if unbounded { None } else { Some(cap) }));
    g.show("ops", &ops);
    let mk = || if unbounded { LruWrap::unbounded() } else { LruWrap::new(nz(cap)) };
    let mut plain: LruWrap<u32, u64> = mk();
    let sync = SyncCacheWrap::new(mk());
    let asy = AsyncCacheWrap::new(mk());
    let mut m = Lru::new(if unbounded { usize::MAX } else { cap });
    let rt = rt();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Insert(k, v) => {
                let w = m.insert(*k, *v);
                ensure_eq!(plain.insert(*k, *v), w, "op {i} insert (LruWrap)");
                ensure_eq!(sync.insert(*k, *v), w, "op {i} insert (SyncCacheWrap)");
                ensure_eq!(rt.block_on(asy.insert(*k, *v)), w, "op {i} insert (AsyncCacheWrap)");
            }
            Op::Get(k) => {
                let w = m.get(*k);
                ensure_eq!(plain.get(k), w, "op {i} get (LruWrap)");
                ensure_eq!(sync.get(k), w, "op {i} get (SyncCacheWrap)");
                ensure_eq!(rt.block_on(asy.get(k)), w, "op {i} get (AsyncCacheWrap)");
            }
            Op::Remove(k) => {
                let w = m.remove(*k);
                ensure_eq!(plain.remove(k), w, "op {i} remove (LruWrap)");
                ensure_eq!(sync.remove(k), w, "op {i} remove (SyncCacheWrap)");
                ensure_eq!(rt.block_on(asy.remove(k)), w, "op {i} remove (AsyncCacheWrap)");
            }
            Op::Pop | Op::PopShard(_) => {
                let w = m.pop();
                if w.is_some() && m.reordered {
                    g.nontrivial();
                    g.label("pop after reorder");
                }
                ensure_eq!(plain.pop(), w, "op {i} pop (LruWrap)");
                ensure_eq!(sync.pop(), w, "op {i} pop (SyncCacheWrap)");
                ensure_eq!(rt.block_on(asy.pop()), w, "op {i} pop (AsyncCacheWrap)");
            }
            Op::SetCap(c) => {
                m.set_cap(*c);
                plain.set_capacity(nz(*c));
                sync.set_capacity(nz(*c));
                rt.block_on(asy.set_capacity(nz(*c)));
                ensure_eq!(plain.get_capacity(), *c, "op {i} capacity (LruWrap)");
                ensure_eq!(sync.get_capacity(), *c, "op {i} capacity (SyncCacheWrap)");
                ensure_eq!(rt.block_on(asy.get_capacity()), *c, "op {i} capacity (AsyncCacheWrap)");
            }
            Op::Clear => {
                m.q.clear();
                plain.clear();
                sync.clear();
                rt.block_on(asy.clear());
            }
        }
        ensure_eq!(plain.get_usage(), m.q.len(), "op {i} usage (LruWrap)");
        ensure_eq!(sync.get_usage(), m.q.len(), "op {i} usage (SyncCacheWrap)");
        ensure_eq!(rt.block_on(asy.get_usage()), m.q.len(), "op {i} usage (AsyncCacheWrap)");
        if m.evicted > 0 && m.reordered {
            g.nontrivial();
            g.label("eviction after reorder");
        }
    }
    // drain: the full recency order
    while let Some(w) = m.pop() {
        ensure_eq!(plain.pop(), Some(w), "drain (LruWrap)");
        ensure_eq!(sync.pop(), Some(w), "drain (SyncCacheWrap)");
        ensure_eq!(rt.block_on(asy.pop()), Some(w), "drain (AsyncCacheWrap)");
    }
    ensure_eq!(plain.pop(), None, "drained (LruWrap)");
    Ok(())
}

trait Sharded {
    fn addr(&self, k: u32) -> usize;
    fn shard_cap(&self, k: u32) -> usize;
    fn insert(&self, k: u32, v: u64) -> Option<u64>;
    fn get(&self, k: u32) -> Option<u64>;
    fn remove(&self, k: u32) -> Option<u64>;
    fn pop(&self) -> Option<(u32, u64)>;
    fn pop_shard(&self, k: u32) -> Option<(u32, u64)>;
    fn set_cap(&self, c: usize);
    fn cap(&self) -> usize;
    fn usage(&self) -> usize;
    fn clear(&self);
}

impl Sharded for ShardedSyncCache<u32, u64> {
    fn addr(&self, k: u32) -> usize {
        self.shard(&k).map(|s| s as *const dyn SyncCache<K = u32, V = u64> as *const u8 as usize).unwrap_or(0)
    }
    fn shard_cap(&self, k: u32) -> usize {
        self.shard(&k).unwrap().get_capacity()
    }
    fn insert(&self, k: u32, v: u64) -> Option<u64> {
        SyncCache::insert(self, k, v)
    }
    fn get(&self, k: u32) -> Option<u64> {
        SyncCache::get(self, &k)
    }
    fn remove(&self, k: u32) -> Option<u64> {
        SyncCache::remove(self, &k)
    }
    fn pop(&self) -> Option<(u32, u64)> {
        SyncCache::pop(self)
    }
    fn pop_shard(&self, k: u32) -> Option<(u32, u64)> {
        ShardedSyncCache::pop_shard(self, &k)
    }
    fn set_cap(&self, c: usize) {
        self.set_capacity(nz(c))
    }
    fn cap(&self) -> usize {
        self.get_capacity()
    }
    fn usage(&self) -> usize {
        self.get_usage()
    }
    fn clear(&self) {
        SyncCache::clear(self)
    }
}

struct A(ShardedAsyncCache<u32, u64>, tokio::runtime::Runtime);
impl Sharded for A {
    fn addr(&self, k: u32) -> usize {
        self.1.block_on(async { self.0.lock_shard(&k).await.map(|s| &**s as *const dyn Cache<K = u32, V = u64> as *const u8 as usize).unwrap_or(0) })
    }
    fn shard_cap(&self, k: u32) -> usize {
        self.1.block_on(async { self.0.lock_shard(&k).await.unwrap().get_capacity() })
    }
    fn insert(&self, k: u32, v: u64) -> Option<u64> {
        self.1.block_on(self.0.insert(k, v))
    }
    fn get(&self, k: u32) -> Option<u64> {
        self.1.block_on(self.0.get(&k))
    }
    fn remove(&self, k: u32) -> Option<u64> {
        self.1.block_on(self.0.remove(&k))
    }
    fn pop(&self) -> Option<(u32, u64)> {
        self.1.block_on(self.0.pop())
    }
    fn pop_shard(&self, k: u32) -> Option<(u32, u64)> {
        self.1.block_on(self.0.pop_shard(&k))
    }
    fn set_cap(&self, c: usize) {
        self.1.block_on(self.0.set_capacity(nz(c)))
    }
    fn cap(&self) -> usize {
        self.1.block_on(self.0.get_capacity())
    }
    fn usage(&self) -> usize {
        self.1.block_on(self.0.get_usage())
    }
    fn clear(&self) {
        self.1.block_on(self.0.clear())
    }
}

fn sharded(g: &mut G, mk: impl Fn(Option<usize>) -> Box<dyn Sharded>, can_unbounded: bool) -> R {
    let unbounded = can_unbounded && g.chance(1, 8);
    let cap = 1 + g.below(60) as usize;
    let keys = 1 + g.below(60);
    let ops = ops(g, keys, 64, true);
    g.show("cap", &(if unbounded { None } else { Some(cap) }));
    g.show("ops", &ops);
    let c = mk(if unbounded { None } else { Some(cap) });
    if !unbounded {
        ensure!(c.cap() >= cap, "capacity {} is below the requested {cap}", c.cap());
        ensure!(c.cap() < cap + 16, "capacity {} is far above the requested {cap}", c.cap());
    }
    let addr: HashMap<u32, usize> = (0..keys as u32).map(|k| (k, c.addr(k))).collect();
    let mut m: BTreeMap<usize, Lru> = BTreeMap::new();
    for k in 0..keys as u32 {
        ensure_eq!(c.addr(k), addr[&k], "shard of key {k} is stable");
        m.entry(addr[&k]).or_insert_with(|| Lru::new(if unbounded { usize::MAX } else { c.shard_cap(k) }));
    }
    if keys >= 40 {
        ensure!(m.len() >= 4, "{keys} keys use only {} shards", m.len());
    }
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Insert(k, v) => {
                let w = m.get_mut(&addr[k]).unwrap().insert(*k, *v);
                ensure_eq!(c.insert(*k, *v), w, "op {i} insert {k}");
            }
            Op::Get(k) => {
                let w = m.get_mut(&addr[k]).unwrap().get(*k);
                ensure_eq!(c.get(*k), w, "op {i} get {k}");
            }
            Op::Remove(k) => {
                let w = m.get_mut(&addr[k]).unwrap().remove(*k);
                ensure_eq!(c.remove(*k), w, "op {i} remove {k}");
            }
            Op::PopShard(k) => {
                let w = m.get_mut(&addr[k]).unwrap().pop();
                ensure_eq!(c.pop_shard(*k), w, "op {i} pop_shard {k}");
            }
            Op::Pop => {
                let total: usize = m.values().map(|l| l.q.len()).sum();
                match c.pop() {
                    None => ensure_eq!(total, 0, "op {i} pop returned None; entries in the cache"),
                    Some((k, v)) => {
                        let l = m.get_mut(&addr[&k]).unwrap();
                        ensure_eq!(Some((k, v)), l.pop(), "op {i} pop; the least recently used entry of its shard");
                        if total > 1 {
                            g.nontrivial();
                        }
                    }
                }
            }
            Op::SetCap(n) => {
                c.set_cap(*n);
                ensure!(c.cap() >= *n && c.cap() < *n + 16, "op {i} capacity {} after set_capacity({n})", c.cap());
                for k in 0..keys as u32 {
                    m.get_mut(&addr[&k]).unwrap().set_cap(c.shard_cap(k));
                }
            }
            Op::Clear => {
                c.clear();
                m.values_mut().for_each(|l| l.q.clear());
            }
        }
        let total: usize = m.values().map(|l| l.q.len()).sum();
        ensure_eq!(c.usage(), total, "op {i} usage");
        ensure!(c.usage() <= c.cap(), "op {i}: usage above capacity");
    }
    if m.values().any(|l| l.evicted > 0) {
        g.label("evicted");
        g.nontrivial();
    }
    for l in m.values() {
        for (k, v) in &l.q {
            ensure_eq!(c.get(*k), Some(*v), "final value of {k}");
        }
    }
    Ok(())
}

fn sharded_sync(g: &mut G) -> R {
    sharded(
        g,
        |c| match c {
            Some(c) => Box::new(ShardedSyncCache::create_lru_sharded_cache(c)),
            None => Box::new(ShardedSyncCache::create_lru_sharded_cache_unbounded()),
        },
        true,
    )
}

fn sharded_async(g: &mut G) -> R {
    sharded(g, |c| Box::new(A(ShardedAsyncCache::create_lru_sharded_cache(c.unwrap()), rt())), false)
}

fn circular(g: &mut G) -> R {
    let cap = 1 + g.below(8) as usize;
    let ascending = !g.chance(1, 4);
    #[derive(Debug)]
    enum C {
        Put(u64),
        Again(u64),
        Get(u64),
        Last,
        Before(u64),
        After(u64),
    }
    let max = 10 + g.size as usize;
    let ops: Vec<C> = g.vec(1, max, |g| match g.weighted(&[10, 2, 4, 2, 2, 2]) {
        0 => C::Put(g.below(4)),
        1 => C::Again(g.below(12)),
        2 => C::Get(g.below(14)),
        3 => C::Last,
        4 => C::Before(g.below(12)),
        _ => C::After(g.below(12)),
    });
    g.show("capacity", &cap);
    g.show("ascending", &ascending);
    g.show("ops", &ops);
    let mut c: CircularKVCache<u64, usize> = CircularKVCache::new(cap);
    // oldest first
    let mut m: VecDeque<(u64, usize)> = VecDeque::new();
    let mut next = 1u64;
    let (mut puts, mut partial) = (0, false);
    for (i, op) in ops.iter().enumerate() {
        // argument: an offset from the newest key
        let near = |d: u64| (next + 2).saturating_sub(d);
        match op {
            C::Put(d) => {
                let k = if ascending { next + d % 3 } else { next ^ (d * 5) };
                next = next.max(k) + 1;
                put(&mut m, cap, k, i);
                c.put(k, i);
                puts += 1;
            }
            C::Again(d) => {
                if let Some((k, _)) = m.get(*d as usize % m.len().max(1)).cloned() {
                    put(&mut m, cap, k, i);
                    c.put(k, i);
                }
            }
            C::Get(d) => {
                let k = near(*d);
                ensure_eq!(c.get(&k).copied(), m.iter().find(|e| e.0 == k).map(|e| e.1), "op {i} get {k}");
            }
            C::Last => ensure_eq!(c.last().copied(), m.back().map(|e| e.1), "op {i} last"),
            C::Before(d) if ascending => {
                let k = near(*d);
                let n = m.len();
                m.retain(|e| e.0 >= k);
                partial |= m.len() < n && !m.is_empty();
                c.del_before(k);
            }
            C::After(d) if ascending => {
                let k = near(*d);
                let n = m.len();
                m.retain(|e| e.0 < k);
                partial |= m.len() < n && !m.is_empty();
                c.del_after(k);
                // the owner continues from the truncation point
                next = m.back().map(|e| e.0 + 1).unwrap_or(1).max(k.min(next));
            }
            _ => {}
        }
        for k in 0..next + 3 {
            ensure_eq!(c.get(&k).copied(), m.iter().find(|e| e.0 == k).map(|e| e.1), "after op {i} ({op:?}): get {k}");
        }
        ensure_eq!(c.last().copied(), m.back().map(|e| e.1), "after op {i} ({op:?}): last");
    }
    if puts > cap {
        g.label("wrapped");
    }
    if partial {
        g.label("partial deletion");
    }
    if puts > cap || partial {
        g.nontrivial();
    }
    Ok(())
}

fn put(m: &mut VecDeque<(u64, usize)>, cap: usize, k: u64, v: usize) {
    if let Some(e) = m.iter_mut().find(|e| e.0 == k) {
        e.1 = v;
        return;
    }
    if m.len() == cap {
        m.pop_front();
    }
    m.push_back((k, v));
}

fn concurrent(g: &mut G) -> R {
    let asy = g.bool();
    let scripts: Vec<Vec<(u32, u8)>> = (0..3).map(|_| g.vec(20, 200, |g| (g.below(12) as u32, g.below(5) as u8))).collect();
    g.show("async", &asy);
    g.show("script lengths", &scripts.iter().map(|s| s.len()).collect::<Vec<_>>());
    // roomy: no evictions can happen
    let s = ShardedSyncCache::<u32, u64>::create_lru_sharded_cache(16 * 64);
    let a = ShardedAsyncCache::<u32, u64>::create_lru_sharded_cache(16 * 64);
    let res: Vec<Result<HashMap<u32, u64>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = scripts
            .iter()
            .enumerate()
            .map(|(t, script)| {
                let (s, a) = (&s, &a);
                sc.spawn(move || {
                    let rt = rt();
                    let mut own: HashMap<u32, u64> = HashMap::new();
                    for (n, (k, op)) in script.iter().enumerate() {
                        let key = t as u32 * 100 + k;
                        let n = n as u64;
                        match op {
                            0 | 1 => {
                                let old = own.insert(key, n);
                                let got = if asy { rt.block_on(a.insert(key, n)) } else { SyncCache::insert(s, key, n) };
                                if got != old {
                                    return Err(format!("thread {t} op {n}: insert {key} returned {got:?}, expected {old:?}"));
                                }
                            }
                            2 => {
                                let old = own.remove(&key);
                                let got = if asy { rt.block_on(a.remove(&key)) } else { SyncCache::remove(s, &key) };
                                if got != old {
                                    return Err(format!("thread {t} op {n}: remove {key} returned {got:?}, expected {old:?}"));
                                }
                            }
                            _ => {
                                let want = own.get(&key).copied();
                                let got = if asy { rt.block_on(a.get(&key)) } else { SyncCache::get(s, &key) };
                                if got != want {
                                    return Err(format!("thread {t} op {n}: get {key} returned {got:?}, expected {want:?}"));
                                }
                            }
                        }
                    }
                    Ok(own)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut total = 0;
    let rt = rt();
    for r in res {
        let own = r?;
        total += own.len();
        for (k, v) in own {
            let got = if asy { rt.block_on(a.get(&k)) } else { SyncCache::get(&s, &k) };
            ensure_eq!(got, Some(v), "final value of {k}");
        }
    }
    let usage = if asy { rt.block_on(a.get_usage()) } else { s.get_usage() };
    ensure_eq!(usage, total, "final usage");
    if scripts.iter().all(|s| s.iter().any(|o| o.1 <= 1) && s.iter().any(|o| o.1 == 2)) {
        g.nontrivial();
    }
    Ok(())
}

fn shared(g: &mut G) -> R {
    let kind = g.below(4);
    let keys = 1 + g.below(4);
    let scripts: Vec<Vec<(u32, u8)>> = (0..3).map(|_| g.vec(50, 400, |g| (g.below(keys) as u32, g.below(8) as u8))).collect();
    g.show("cache", &["ShardedSyncCache", "SyncCacheWrap", "AsyncCacheWrap", "ShardedAsyncCache"][kind as usize]);
    g.show("keys, script lengths", &(keys, scripts.iter().map(|s| s.len()).collect::<Vec<_>>()));
    let s = ShardedSyncCache::<u32, u64>::create_lru_sharded_cache(16 * 64);
    let w = SyncCacheWrap::new(LruWrap::<u32, u64>::new(nz(64)));
    let aw = AsyncCacheWrap::new(LruWrap::<u32, u64>::new(nz(64)));
    let a = ShardedAsyncCache::<u32, u64>::create_lru_sharded_cache(16 * 64);
    let start = std::sync::Barrier::new(3);
    // (inserted, handed back) of each thread
    let res: Vec<(Vec<u64>, Vec<u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = scripts
            .iter()
            .enumerate()
            .map(|(t, script)| {
                let (s, w, aw, a, start) = (&s, &w, &aw, &a, &start);
                sc.spawn(move || {
                    let rt = rt();
                    let (mut put, mut back) = (vec![], vec![]);
                    start.wait();
                    for (n, (k, op)) in script.iter().enumerate() {
                        let token = (t as u64) << 32 | n as u64;
                        match op {
                            0..=4 => {
                                put.push(token);
                                back.extend(match kind {
                                    0 => SyncCache::insert(s, *k, token),
                                    1 => w.insert(*k, token),
                                    2 => rt.block_on(aw.insert(*k, token)),
                                    _ => rt.block_on(AsyncCache::insert(a, *k, token)),
                                });
                            }
                            5 | 6 => back.extend(match kind {
                                0 => SyncCache::remove(s, k),
                                1 => w.remove(k),
                                2 => rt.block_on(aw.remove(k)),
                                _ => rt.block_on(AsyncCache::remove(a, k)),
                            }),
                            _ => back.extend(
                                match kind {
                                    0 => SyncCache::pop(s),
                                    1 => w.pop(),
                                    2 => rt.block_on(aw.pop()),
                                    _ => rt.block_on(AsyncCache::pop(a)),
                                }
                                .map(|e| e.1),
                            ),
                        }
                    }
                    (put, back)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let rt = rt();
    let mut put: Vec<u64> = res.iter().flat_map(|r| r.0.clone()).collect();
    let mut back: Vec<u64> = res.iter().flat_map(|r| r.1.clone()).collect();
    for k in 0..keys as u32 {
        back.extend(match kind {
            0 => SyncCache::remove(&s, &k),
            1 => w.remove(&k),
            2 => rt.block_on(aw.remove(&k)),
            _ => rt.block_on(AsyncCache::remove(&a, &k)),
        });
    }
    put.sort_unstable();
    back.sort_unstable();
    if let Some(d) = back.windows(2).find(|w| w[0] == w[1]) {
        fail!("token {:x} was handed back twice", d[0]);
    }
    if let Some(d) = back.iter().find(|b| put.binary_search(b).is_err()) {
        fail!("{d:x} was handed back but never inserted");
    }
    if let Some(d) = put.iter().find(|b| back.binary_search(b).is_err()) {
        fail!("token {d:x} was inserted and never handed back");
    }
    if (0..3).any(|t| res[t].1.iter().any(|x| x >> 32 != t as u64)) {
        g.nontrivial();
    }
    Ok(())
}
