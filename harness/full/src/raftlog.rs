//! What raft relies on: a replica's log, vote, membership, applied position and
//! snapshots, against a model of openraft's storage contract.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use models::codec::Encoding;
use openraft::storage::Snapshot;
use openraft::{CommittedLeaderId, EntryPayload, LogId, Membership, RaftLogReader, RaftSnapshotBuilder, RaftStorage, SnapshotMeta, StoredMembership, Vote};
use pbt::{Check, Fail, Sub, G, R};
use protos::kv_service::RaftWriteCommand;
use replication::apply_store::{HeedApplyStorage, HashMapSnapshotData};
use replication::entry_store::HeedEntryStorage;
use replication::errors::{ReplicationError, ReplicationResult};
use replication::node_store::NodeStorage;
use replication::state_store::{RaftNodeSummary, StateStorage};
use replication::{ApplyContext, ApplyStorage, ApplyStorageRef, EngineMetrics, EntryStorage, EntryStorageRef, RaftNodeInfo, Request, Response};
use tokio::sync::RwLock;
use tskv::kv_option::WalOptions;
use tskv::wal::wal_store::{RaftEntry, RaftEntryStorage};
use tskv::wal::VnodeWal;

use crate::engine::{conf, run, Case};

type Id = LogId<u64>;
type Members = StoredMembership<u64, RaftNodeInfo>;
type Kv = BTreeMap<String, String>;

fn e<T: std::fmt::Debug>(what: &'static str) -> impl Fn(T) -> Fail {
    move |x| Fail::new(format!("{what}: {x:?}"))
}

// ------------------------------------------------------------------ the engine

/// A state machine of the harness: keeps what it applied across restarts,
/// snapshots what it "flushed" (as the storage engine does) and fails to restore
/// when told so.
#[derive(Default)]
struct Own {
    kv: Kv,
    flushed: (Kv, u64),
    snapshot: Option<(Vec<u8>, u64)>,
    applied: Vec<u64>,
    destroyed: bool,
}
struct Engine(Arc<Mutex<Own>>);

fn own_payload(k: &str, v: &str) -> Vec<u8> {
    protos::models_helper::to_prost_bytes(&RaftWriteCommand { replica_id: 7, tenant: k.to_string(), db_name: v.to_string(), command: None })
}

#[async_trait]
impl ApplyStorage for Engine {
    async fn apply(&mut self, ctx: &ApplyContext, req: &Request) -> ReplicationResult<Response> {
        let c = protos::models_helper::parse_prost_bytes::<RaftWriteCommand>(req).expect("payload");
        let mut o = self.0.lock().unwrap();
        o.kv.insert(c.tenant, c.db_name.clone());
        o.applied.push(ctx.index);
        Ok(c.db_name.into_bytes())
    }
    async fn get_snapshot(&mut self) -> ReplicationResult<Option<(Vec<u8>, u64)>> {
        Ok(self.0.lock().unwrap().snapshot.clone())
    }
    async fn create_snapshot(&mut self, _applied_id: u64) -> ReplicationResult<(Vec<u8>, u64)> {
        let mut o = self.0.lock().unwrap();
        let s = (serde_json::to_vec(&o.flushed.0).unwrap(), o.flushed.1);
        o.snapshot = Some(s.clone());
        Ok(s)
    }
    async fn restore(&mut self, snapshot: &[u8]) -> ReplicationResult<()> {
        let (kv, index): (Kv, u64) = serde_json::from_slice(snapshot).map_err(|e| ReplicationError::RestoreSnapshotErr { msg: e.to_string() })?;
        let mut o = self.0.lock().unwrap();
        o.kv = kv.clone();
        o.flushed = (kv, index);
        o.snapshot = None;
        Ok(())
    }
    async fn destory(&mut self) -> ReplicationResult<()> {
        let mut o = self.0.lock().unwrap();
        *o = Own { destroyed: true, ..Own::default() };
        Ok(())
    }
    async fn metrics(&self) -> ReplicationResult<EngineMetrics> {
        Ok(EngineMetrics::default())
    }
}

// ------------------------------------------------------------------- the model

#[derive(Clone, Default)]
struct Model {
    log: BTreeMap<u64, RaftEntry>,
    purged: Option<Id>,
    vote: Option<Vote<u64>>,
    applied: Option<Id>,
    members: Members,
    /// every membership applied or installed, by index
    history: BTreeMap<u64, Members>,
    kv: Kv,
    flushed: (Kv, Option<Id>),
    /// the first entry of all, what a snapshot of nothing flushed is of
    zero: Option<Id>,
    snapshot: Option<(Kv, Id, Members)>,
    init: bool,
    summary: Option<(String, String, u64)>,
}
impl Model {
    fn last(&self) -> Option<Id> {
        self.log.values().next_back().map(|x| x.log_id).or(self.purged)
    }
    fn next(&self) -> u64 {
        self.last().map_or(0, |x| x.index + 1)
    }
    fn members_at(&self, index: u64) -> Members {
        self.history.range(..=index).next_back().map(|x| x.1.clone()).unwrap_or_default()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Logs {
    Wal,
    Heed,
}

struct Group {
    id: u32,
    node: u64,
    logs: Logs,
    heed_engine: bool,
    dir: PathBuf,
    wal: Arc<WalOptions>,
    own: Arc<Mutex<Own>>,
    heed: Option<Arc<RwLock<HeedApplyStorage>>>,
    st: Option<Arc<NodeStorage>>,
    m: Model,
    term: u64,
}

const MAP: usize = 1 << 26;
const OWNER: &str = "t.d";

impl Group {
    fn info(&self) -> RaftNodeInfo {
        RaftNodeInfo { group_id: self.id, address: format!("127.0.0.1:{}", 8000 + self.id) }
    }
    async fn open(&mut self, state: &Arc<StateStorage>, c: &mut Case) -> R {
        let engine: ApplyStorageRef = if self.heed_engine {
            let h = Arc::new(RwLock::new(HeedApplyStorage::open(self.dir.join("engine"), MAP).map_err(e("open the engine"))?));
            self.heed = Some(h.clone());
            h
        } else {
            Arc::new(RwLock::new(Engine(self.own.clone())))
        };
        let logs: EntryStorageRef = match self.logs {
            Logs::Heed => Arc::new(RwLock::new(HeedEntryStorage::open(self.dir.join("entry"), MAP).map_err(e("open the log"))?)),
            Logs::Wal => {
                let wal = VnodeWal::new(self.wal.clone(), Arc::new(OWNER.to_string()), self.id).await.map_err(e("open the log"))?;
                let mut s = RaftEntryStorage::new(wal);
                let applied = state.get_last_applied_log(self.id).map_err(e("applied"))?;
                let mut vnode = c.vnode().clone();
                s.recover(applied, &mut vnode).await.map_err(e("recover the log"))?;
                Arc::new(RwLock::new(s))
            }
        };
        let st = NodeStorage::open(self.node, self.info(), state.clone(), engine, logs).await.map_err(e("open the replica"))?;
        self.st = Some(Arc::new(st));
        // opening takes a snapshot of what was applied
        self.snapshot_taken();
        Ok(())
    }
    fn snapshot_taken(&mut self) {
        if let Some(applied) = self.m.applied {
            let (kv, id) = if self.heed_engine { (self.m.kv.clone(), applied) } else {
                (self.m.flushed.0.clone(), self.m.flushed.1.or(self.m.zero).unwrap_or_default())
            };
            self.m.snapshot = Some((kv, id, self.m.members_at(id.index)));
        }
    }
    fn st(&self) -> Arc<NodeStorage> {
        self.st.clone().expect("open")
    }
    fn close(&mut self) {
        self.st = None;
        self.heed = None;
    }
    fn wal_files(&self) -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = std::fs::read_dir(self.wal.wal_dir(OWNER, self.id)).map(|d| d.flatten().map(|x| x.path()).collect()).unwrap_or_default();
        v.sort();
        v
    }
    fn payload(&self, k: &str, v: &str) -> Vec<u8> {
        if self.heed_engine {
            serde_json::to_vec(&serde_json::json!({"key": k, "value": v})).unwrap()
        } else {
            own_payload(k, v)
        }
    }
    fn answer(&self, x: &RaftEntry) -> (Option<(String, String)>, Vec<u8>) {
        match &x.payload {
            EntryPayload::Normal(d) => {
                let (k, v) = if self.heed_engine {
                    let j: serde_json::Value = serde_json::from_slice(d).unwrap();
                    (j["key"].as_str().unwrap().to_string(), j["value"].as_str().unwrap().to_string())
                } else {
                    let c = protos::models_helper::parse_prost_bytes::<RaftWriteCommand>(d).unwrap();
                    (c.tenant, c.db_name)
                };
                (Some((k, v.clone())), v.into_bytes())
            }
            _ => (None, vec![]),
        }
    }

    // ------------------------------------------------------------ comparisons

    async fn check(&self, g: &mut G, when: &str) -> R {
        let mut st = self.st();
        let who = format!("{when}: group {}", self.id);
        let ls = st.get_log_state().await.map_err(e("log state"))?;
        if ls.last_purged_log_id != self.m.purged {
            return Err(Fail::new(format!("{who}: purged up to {:?}, expected {:?}", ls.last_purged_log_id, self.m.purged)));
        }
        if ls.last_log_id != self.m.last() {
            return Err(Fail::with_sig("last", format!("{who}: the last log id is {:?}, expected {:?}", ls.last_log_id, self.m.last())));
        }
        let (applied, members) = st.last_applied_state().await.map_err(e("applied state"))?;
        if applied != self.m.applied {
            return Err(Fail::with_sig("applied", format!("{who}: applied up to {applied:?}, expected {:?}", self.m.applied)));
        }
        if members != self.m.members {
            return Err(Fail::new(format!("{who}: the membership is {members:?}, expected {:?}", self.m.members)));
        }
        let vote = st.read_vote().await.map_err(e("vote"))?;
        if vote != self.m.vote {
            return Err(Fail::new(format!("{who}: the vote is {vote:?}, expected {:?}", self.m.vote)));
        }
        let low = self.m.purged.map_or(0, |x| x.index + 1);
        let high = self.m.next();
        for _ in 0..3 {
            let a = low + g.below(high - low + 2);
            let b = low + g.below(high - low + 2);
            self.range(a, b, g.below(4), &who).await?;
        }
        self.range(low, u64::MAX, 3, &who).await?;
        self.kv(&who).await
    }

    async fn range(&self, a: u64, b: u64, kind: u64, who: &str) -> R {
        let mut st = self.st();
        let (got, want): (_, Vec<&RaftEntry>) = match kind {
            0 => (st.try_get_log_entries(a..b).await, self.m.log.iter().filter(|(i, _)| **i >= a && **i < b).map(|x| x.1).collect()),
            1 if b < u64::MAX => (st.try_get_log_entries(a..=b).await, self.m.log.iter().filter(|(i, _)| **i >= a && **i <= b).map(|x| x.1).collect()),
            2 => (st.try_get_log_entries((std::ops::Bound::Excluded(a), std::ops::Bound::Excluded(b))).await, self.m.log.iter().filter(|(i, _)| **i > a && **i < b).map(|x| x.1).collect()),
            _ => (st.try_get_log_entries(a..).await, self.m.log.iter().filter(|(i, _)| **i >= a).map(|x| x.1).collect()),
        };
        let got = got.map_err(|x| Fail::with_sig("read", format!("{who}: reading {a}..{b} (kind {kind}) of {}..{}: {x:?}", self.m.purged.map_or(0, |x| x.index + 1), self.m.next())))?;
        if got.iter().collect::<Vec<_>>() != want {
            let brief = |v: Vec<&RaftEntry>| if v.len() > 12 { format!("{} entries {} to {}", v.len(), v[0].log_id, v[v.len() - 1].log_id) } else { format!("{v:?}") };
            return Err(Fail::with_sig("entries", format!("{who}: the entries of {a}..{b} (kind {kind}) are {}, expected {}", brief(got.iter().collect()), brief(want))));
        }
        Ok(())
    }

    async fn kv(&self, who: &str) -> R {
        let got: Kv = if let Some(h) = &self.heed {
            let h = h.read().await;
            let mut kv = Kv::new();
            for k in KEYS {
                if let Some(v) = h.get(k).map_err(e("get"))? {
                    kv.insert(k.to_string(), v);
                }
            }
            kv
        } else {
            self.own.lock().unwrap().kv.clone()
        };
        if got != self.m.kv {
            return Err(Fail::new(format!("{who}: the state machine holds {got:?}, expected {:?}", self.m.kv)));
        }
        Ok(())
    }

    fn check_snapshot(&self, s: &Snapshot<replication::TypeConfig>, who: &str) -> R {
        let (kv, id, members) = self.m.snapshot.clone().expect("a snapshot is there");
        let got: Kv = if self.heed_engine {
            let d: HashMapSnapshotData = serde_json::from_slice(s.snapshot.get_ref()).map_err(e("snapshot"))?;
            d.map.into_iter().collect()
        } else {
            serde_json::from_slice(s.snapshot.get_ref()).map_err(e("snapshot"))?
        };
        if got != kv {
            return Err(Fail::new(format!("{who}: the snapshot holds {got:?}, expected {kv:?}")));
        }
        if s.meta.last_log_id != Some(id) {
            return Err(Fail::with_sig("snapshot-id", format!("{who}: the snapshot says it is of {:?}, it is of {id:?}", s.meta.last_log_id)));
        }
        if s.meta.last_membership != members {
            return Err(Fail::with_sig("snapshot-members", format!("{who}: the snapshot of {id:?} has the membership {:?}, expected {members:?}", s.meta.last_membership)));
        }
        Ok(())
    }
}

const KEYS: [&str; 4] = ["a", "b", "c", "dd"];

fn membership(g: &mut G, group: u32) -> Membership<u64, RaftNodeInfo> {
    let set = |g: &mut G| (1..=4u64).filter(|_| g.bool()).collect::<BTreeSet<u64>>();
    let mut v = vec![set(g)];
    if g.chance(1, 3) {
        v.push(set(g));
    }
    let nodes = v.iter().flatten().map(|n| (*n, RaftNodeInfo { group_id: group, address: format!("h{n}:1") })).collect();
    Membership::new(v, nodes)
}

fn entries(g: &mut G, gr: &mut Group, from: u64, n: u64) -> Vec<RaftEntry> {
    let mut v = vec![];
    for i in from..from + n {
        if g.chance(1, 8) {
            gr.term += 1;
        }
        let payload = if i == 0 {
            EntryPayload::Membership(membership(g, gr.id))
        } else {
            match g.weighted(&[8, 1, 2]) {
                0 => {
                    let k = *g.pick(&KEYS);
                    let pad = if g.chance(1, 6) { g.usize(0, 900) } else { 0 };
                    let val = format!("{i}-{}{}", gr.term, "x".repeat(pad));
                    EntryPayload::Normal(gr.payload(k, &val))
                }
                1 => EntryPayload::Blank,
                _ => EntryPayload::Membership(membership(g, gr.id)),
            }
        };
        v.push(RaftEntry { log_id: LogId::new(CommittedLeaderId::new(gr.term, 1 + gr.term % 3), i), payload });
    }
    v
}

fn crc32(parts: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for b in parts.iter().flat_map(|p| p.iter()) {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// The whole records of a log file, as its format says: where each ends and its index.
fn records(file: &Path) -> Vec<(u64, u64)> {
    let b = std::fs::read(file).unwrap_or_default();
    let be = |p: usize| u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
    let mut v = vec![];
    let mut p = 4;
    while p + 14 <= b.len() {
        let n = be(p + 6) as usize;
        if &b[p..p + 4] != b"FlOg" || n < 9 || p + 14 + n > b.len() || be(p + 10) != crc32(&[&b[p + 4..p + 10], &b[p + 14..p + 14 + n]]) {
            p += 1;
            continue;
        }
        v.push(((p + 14 + n) as u64, u64::from_be_bytes(b[p + 15..p + 23].try_into().unwrap())));
        p += 14 + n;
    }
    v
}

async fn story(g: &mut G, c: &mut Case, logs: Logs, tear: bool) -> R {
    let root = g.scratch().join("raft");
    std::fs::create_dir_all(&root).map_err(e("directory"))?;
    let wal = Arc::new(WalOptions {
        path: root.join("wal"),
        wal_max_file_size: *g.pick(&[100, 700, 5000, 1 << 30]),
        compress: *g.pick(&[Encoding::Null, Encoding::Zstd, Encoding::Snappy]),
        wal_sync: g.chance(1, 8),
    });
    let ids: &[u32] = *g.pick(&[&[1, 11][..], &[2, 1], &[12, 1], &[7]]);
    let mut state = Arc::new(StateStorage::open(root.join("state"), MAP).map_err(e("open the state"))?);
    let mut groups = vec![];
    for id in ids {
        let mut gr = Group {
            id: *id,
            node: 100 + *id as u64,
            logs,
            heed_engine: logs == Logs::Heed && g.bool(),
            dir: root.join(format!("g{id}")),
            wal: wal.clone(),
            own: Arc::default(),
            heed: None,
            st: None,
            m: Model::default(),
            term: 1,
        };
        gr.open(&state, c).await?;
        groups.push(gr);
    }
    // more entries than the log keeps in memory
    let bulk = g.chance(1, 6);
    let (mut cuts, mut restarts, mut purges, mut installs) = (0, 0, 0, 0);
    for _ in 0..g.few(30) {
        let k = g.below(groups.len() as u64) as usize;
        match g.weighted(&[8, 3, 6, 3, 2, 3, 2, 2, 2, if tear { 2 } else { 0 }, 1, 1]) {
            0 => {
                let gr = &mut groups[k];
                let n = if bulk && g.chance(1, 3) { 240 + g.below(60) } else { 1 + g.below(6) };
                // raft never takes back what was applied
                let keep = gr.m.applied.map_or(0, |x| x.index + 1);
                let from = if g.chance(1, 5) && gr.m.next() > keep { keep + g.below(gr.m.next() - keep) } else { gr.m.next() };
                let v = entries(g, gr, from, n);
                g.note(|| format!("group {}: append {} to {}", gr.id, v[0].log_id, v[v.len() - 1].log_id));
                gr.m.log.split_off(&from);
                gr.m.log.extend(v.iter().map(|x| (x.log_id.index, x.clone())));
                gr.st().append_to_log(v).await.map_err(e("append"))?;
            }
            1 => {
                let gr = &mut groups[k];
                let keep = gr.m.applied.map_or(0, |x| x.index + 1);
                if gr.m.next() > keep && !gr.m.log.is_empty() {
                    let at = keep + g.below(gr.m.next() - keep);
                    let id = gr.m.log[&at].log_id;
                    g.note(|| format!("group {}: delete conflicting since {id}", gr.id));
                    gr.m.log.split_off(&at);
                    gr.st().delete_conflict_logs_since(id).await.map_err(e("delete"))?;
                    cuts += 1;
                }
            }
            2 => {
                let gr = &mut groups[k];
                let from = gr.m.applied.map_or(0, |x| x.index + 1);
                let n = 1 + if g.chance(1, 5) { g.below(300) } else { g.below(6) };
                let v: Vec<RaftEntry> = gr.m.log.range(from..from.saturating_add(n)).map(|x| x.1.clone()).collect();
                if !v.is_empty() {
                    g.note(|| format!("group {}: apply {} to {}", gr.id, v[0].log_id, v[v.len() - 1].log_id));
                    let mut want = vec![];
                    let mut normal = vec![];
                    for x in &v {
                        let (set, ans) = gr.answer(x);
                        want.push(ans);
                        if let Some((key, val)) = set {
                            gr.m.kv.insert(key, val);
                            normal.push(x.log_id.index);
                        }
                        if let EntryPayload::Membership(ms) = &x.payload {
                            gr.m.members = StoredMembership::new(Some(x.log_id), ms.clone());
                            gr.m.history.insert(x.log_id.index, gr.m.members.clone());
                        }
                        gr.m.applied = Some(x.log_id);
                        gr.m.zero = gr.m.zero.or(gr.m.applied);
                    }
                    gr.own.lock().unwrap().applied.clear();
                    let got = gr.st().apply_to_state_machine(&v).await.map_err(e("apply"))?;
                    if got != want {
                        return Err(Fail::new(format!("the answers to the entries are {got:?}, expected {want:?}")));
                    }
                    if !gr.heed_engine && gr.own.lock().unwrap().applied != normal {
                        return Err(Fail::new(format!("the engine was given the indexes {:?}, expected {normal:?}", gr.own.lock().unwrap().applied)));
                    }
                    if g.bool() {
                        // the engine writes what it has to its files; snapshots are of that
                        gr.m.flushed = (gr.m.kv.clone(), gr.m.applied);
                        let mut o = gr.own.lock().unwrap();
                        o.flushed = (o.kv.clone(), gr.m.applied.unwrap().index);
                    }
                }
            }
            3 => {
                let gr = &mut groups[k];
                if gr.m.applied.is_some() {
                    g.note(|| format!("group {}: snapshot", gr.id));
                    gr.snapshot_taken();
                    let s = gr.st().build_snapshot().await.map_err(e("build a snapshot"))?;
                    gr.check_snapshot(&s, "built")?;
                }
            }
            4 => {
                // only what a snapshot covers is purged
                let gr = &mut groups[k];
                if let Some((_, top, _)) = gr.m.snapshot.clone() {
                    let low = gr.m.purged.map_or(0, |x| x.index + 1);
                    if top.index >= low && gr.m.log.contains_key(&top.index) {
                        let at = if g.bool() { top.index } else { low + g.below(top.index - low + 1) };
                        let id = gr.m.log[&at].log_id;
                        g.note(|| format!("group {}: purge up to {id}", gr.id));
                        gr.m.log = gr.m.log.split_off(&(at + 1));
                        gr.m.purged = Some(id);
                        gr.st().purge_logs_upto(id).await.map_err(e("purge"))?;
                        purges += 1;
                    }
                }
            }
            5 => {
                let gr = &mut groups[k];
                let v = if g.bool() { Vote::new(gr.term, g.below(4)) } else { Vote::new_committed(gr.term, g.below(4)) };
                g.note(|| format!("group {}: vote {v:?}", gr.id));
                gr.m.vote = Some(v);
                gr.st().save_vote(&v).await.map_err(e("vote"))?;
            }
            6 => {
                let gr = &mut groups[k];
                install(g, gr).await?;
                installs += 1;
            }
            7 => {
                let gr = &groups[k];
                let got = gr.st().get_current_snapshot().await.map_err(e("current snapshot"))?;
                match (got, &gr.m.snapshot) {
                    (Some(s), Some(_)) => gr.check_snapshot(&s, &format!("group {}: current", gr.id))?,
                    (None, Some((_, id, _))) => return Err(Fail::new(format!("the snapshot of {id} is gone"))),
                    _ => {}
                }
            }
            8 | 9 => {
                let torn = tear && g.bool();
                g.note(|| "restart".into());
                restarts += 1;
                for gr in &mut groups {
                    gr.close();
                }
                drop(state);
                if torn {
                    tear_one(g, &mut groups[k])?;
                }
                state = Arc::new(StateStorage::open(root.join("state"), MAP).map_err(e("open the state"))?);
                for gr in &mut groups {
                    gr.open(&state, c).await?;
                    gr.check(g, "after a restart").await?;
                }
            }
            10 => {
                let gr = &mut groups[k];
                g.note(|| format!("group {}: destroyed", gr.id));
                gr.st().destory().await.map_err(e("destroy"))?;
                gr.close();
                if gr.heed_engine {
                    let _ = std::fs::remove_dir_all(gr.dir.join("engine"));
                } else if !gr.own.lock().unwrap().destroyed {
                    return Err(Fail::new("the engine was not told to destroy its data"));
                }
                gr.own = Arc::default();
                gr.m = Model::default();
                if gr.logs == Logs::Heed {
                    gr.dir = root.join(format!("g{}-{}", gr.id, g.below(1 << 40)));
                }
                check_group(gr, &state)?;
                gr.open(&state, c).await?;
            }
            _ => {
                let gr = &mut groups[k];
                if g.bool() {
                    state.set_init_flag(gr.id).map_err(e("init"))?;
                    gr.m.init = true;
                } else {
                    let s = RaftNodeSummary { tenant: format!("t{}", g.below(3)), db_name: "d".into(), group_id: gr.id, raft_id: g.below(9) };
                    state.set_node_summary(gr.id, &s).map_err(e("summary"))?;
                    gr.m.summary = Some((s.tenant, s.db_name, s.raft_id));
                }
            }
        }
        for gr in &groups {
            gr.check(g, "now").await?;
            check_group(gr, &state)?;
        }
        let mut all: Vec<_> = state.all_nodes_summary().map_err(e("summaries"))?.into_iter().map(|s| (s.group_id, (s.tenant, s.db_name, s.raft_id))).collect();
        all.sort();
        let mut want: Vec<_> = groups.iter().filter_map(|x| x.m.summary.clone().map(|s| (x.id, s))).collect();
        want.sort();
        if all != want {
            return Err(Fail::new(format!("the node summaries are {all:?}, expected {want:?}")));
        }
    }
    for gr in &mut groups {
        gr.close();
    }
    if cuts + purges + installs >= 2 && (restarts > 0 || !tear) {
        g.nontrivial();
    }
    Ok(())
}

fn check_group(gr: &Group, state: &StateStorage) -> R {
    let init = state.is_already_init(gr.id).map_err(e("init"))?;
    if init != gr.m.init {
        return Err(Fail::new(format!("group {}: initialised {init}, expected {}", gr.id, gr.m.init)));
    }
    let s = state.get_node_summary(gr.id).map_err(e("summary"))?.map(|s| (s.tenant, s.db_name, s.raft_id));
    if s != gr.m.summary {
        return Err(Fail::new(format!("group {}: the summary is {s:?}, expected {:?}", gr.id, gr.m.summary)));
    }
    Ok(())
}

/// A snapshot of the leader comes in; some cannot be restored.
async fn install(g: &mut G, gr: &mut Group) -> R {
    let from = gr.m.applied.map_or(0, |x| x.index + 1).max(gr.m.purged.map_or(0, |x| x.index + 1));
    let index = from + g.below(8);
    if g.chance(1, 3) {
        gr.term += 1;
    }
    let id = match gr.m.log.get(&index) {
        Some(x) if g.bool() => x.log_id,
        _ => LogId::new(CommittedLeaderId::new(gr.term, 1 + gr.term % 3), index),
    };
    let conflict = gr.m.log.get(&index).is_some_and(|x| x.log_id != id);
    if conflict {
        let at = gr.m.log[&index].log_id;
        gr.m.log.split_off(&index);
        gr.st().delete_conflict_logs_since(at).await.map_err(e("delete"))?;
    }
    let kv: Kv = KEYS.iter().filter(|_| g.bool()).map(|k| (k.to_string(), format!("snap{index}"))).collect();
    // it is the one this replica knows, or one from the entries it has not seen
    let members = match gr.m.members.log_id() {
        Some(_) if g.chance(1, 3) => gr.m.members.clone(),
        _ => StoredMembership::new(Some(LogId::new(id.leader_id, from + g.below(index - from + 1))), membership(g, gr.id)),
    };
    let bad = g.chance(1, 5);
    let data = if bad {
        b"cannot be read".to_vec()
    } else if gr.heed_engine {
        serde_json::to_vec(&HashMapSnapshotData { map: kv.clone().into_iter().collect() }).unwrap()
    } else {
        serde_json::to_vec(&(kv.clone(), index)).unwrap()
    };
    let meta = SnapshotMeta { last_log_id: Some(id), last_membership: members.clone(), snapshot_id: format!("{id}") };
    g.note(|| format!("group {}: install the snapshot of {id}, bad {bad}, {kv:?}", gr.id));
    let mut st = gr.st();
    let _ = st.begin_receiving_snapshot().await.map_err(e("begin"))?;
    let r = st.install_snapshot(&meta, Box::new(Cursor::new(data))).await;
    if bad {
        if r.is_ok() {
            return Err(Fail::new("a snapshot that cannot be restored was installed"));
        }
        return Ok(());
    }
    r.map_err(e("install"))?;
    gr.m.kv = kv.clone();
    gr.m.flushed = (kv, Some(id));
    gr.m.applied = Some(id);
    gr.m.members = members.clone();
    if let Some(l) = members.log_id() {
        gr.m.history.retain(|i, _| *i < l.index);
        gr.m.history.insert(l.index, members.clone());
    }
    gr.snapshot_taken();
    // raft drops what the snapshot covers
    gr.m.log = gr.m.log.split_off(&(index + 1));
    gr.m.purged = Some(id);
    st.purge_logs_upto(id).await.map_err(e("purge"))?;
    Ok(())
}

/// The end of the log's last file was not written, or is followed by bytes that
/// were never a record.
fn tear_one(g: &mut G, gr: &mut Group) -> R {
    if gr.logs != Logs::Wal {
        return Ok(());
    }
    let Some(file) = gr.wal_files().pop() else { return Ok(()) };
    let len = std::fs::metadata(&file).map_err(e("file"))?.len();
    if g.chance(1, 8) && len > 4 {
        g.note(|| "the last log file has a footer, as older versions wrote it".into());
        let mut b = std::fs::read(&file).map_err(e("file"))?;
        let crc = crc32(&[&b[4..b.len().min(if b.len() > 4 + 1024 { 4 + 1024 } else { b.len() })]]);
        b.extend([b"walo".as_slice(), &crc.to_be_bytes(), &[0; 8], &1u64.to_be_bytes(), &9u64.to_be_bytes()].concat());
        return std::fs::write(&file, b).map_err(e("file"));
    }
    if g.chance(1, 3) {
        let mut junk = if g.bool() { vec![0u8; g.usize(1, 200)] } else { g.bytes(0, 60) };
        if g.bool() {
            let n = (g.bits() & 0xfffff) as u32;
            junk = [b"FlOg".as_slice(), &[1, 8], &n.to_be_bytes(), &junk].concat();
        }
        g.note(|| format!("{} bytes after the last record: {:?}", junk.len(), &junk[..junk.len().min(20)]));
        let mut b = std::fs::read(&file).map_err(e("file"))?;
        b.extend(junk);
        return std::fs::write(&file, b).map_err(e("file"));
    }
    let recs = records(&file);
    let keep = gr.m.applied.map_or(0, |x| x.index + 1);
    // what was applied stays
    let floor = recs.iter().filter(|r| r.1 < keep || !gr.m.log.contains_key(&r.1)).map(|r| r.0).max().unwrap_or(4);
    if floor >= len {
        return Ok(());
    }
    let to = len - g.below((len - floor).min(150) + 1);
    g.note(|| format!("the last log file ends at {to} of {len}"));
    for (end, index) in recs {
        if end > to {
            gr.m.log.remove(&index);
        }
    }
    let f = std::fs::OpenOptions::new().write(true).open(&file).map_err(e("file"))?;
    f.set_len(to).map_err(e("file"))
}

fn go(g: &mut G, logs: Logs, tear: bool) -> R {
    let cf = conf(g);
    run(g, cf, |g, c| Box::pin(story(g, c, logs, tear)))
}
fn wal(g: &mut G) -> R {
    go(g, Logs::Wal, false)
}
fn wal_torn(g: &mut G) -> R {
    go(g, Logs::Wal, true)
}
fn heed(g: &mut G) -> R {
    go(g, Logs::Heed, false)
}

pub fn c23() -> Check {
    const RULE: &str = "the story truncated, purged or installed a snapshot at least twice (and restarted, where logs are torn)";
    Check {
        property: "C23",
        level: "sampled",
        assumptions: &["openraft itself is not compiled: its storage contract is driven as openraft 0.9 does (contiguous appends, nothing applied is taken back, purging only below a snapshot)",
            "LMDB is a stand-in that keeps the same transactions"],
        subs: vec![
            Sub { name: "wal", rule: RULE, quick: 1200, thorough: 20000, serial: false, f: wal },
            Sub { name: "wal-torn", rule: RULE, quick: 1200, thorough: 20000, serial: false, f: wal_torn },
            Sub { name: "heed", rule: RULE, quick: 2000, thorough: 40000, serial: false, f: heed },
        ],
    }
}
