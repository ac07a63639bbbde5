//! Stand-in for `openraft` 0.9: the data types and storage traits (no consensus).
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error as StdError;
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::ops::RangeBounds;

use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

pub trait OptionalSend: Send {}
impl<T: Send + ?Sized> OptionalSend for T {}
#[derive(Debug, Default, PartialEq, Eq)]
pub struct TokioRuntime;

pub trait NodeId: Copy + Debug + Display + Default + Ord + Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Copy + Debug + Display + Default + Ord + Serialize + DeserializeOwned + Send + Sync + 'static> NodeId for T {}
pub trait Node: Clone + Debug + Default + Eq + Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Clone + Debug + Default + Eq + Serialize + DeserializeOwned + Send + Sync + 'static> Node for T {}

pub trait RaftTypeConfig: Sized + Send + Sync + Debug + Clone + Copy + Default + Eq + Ord + 'static {
    type D: Clone + Debug + PartialEq + Serialize + DeserializeOwned + Send + Sync + 'static;
    type R: Send + Sync + 'static;
    type NodeId: NodeId;
    type Node: Node;
    type Entry;
    type SnapshotData: Send + 'static;
    type AsyncRuntime;
}
#[macro_export]
macro_rules! declare_raft_types {
    ($(#[$m:meta])* $v:vis $id:ident : $($n:ident = $t:ty),* $(,)?) => {
        $(#[$m])*
        #[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd, serde::Serialize, serde::Deserialize)]
        $v struct $id {}
        impl $crate::RaftTypeConfig for $id { $( type $n = $t; )* }
    };
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct LeaderId<N> {
    pub term: u64,
    pub node_id: N,
}
impl<N> LeaderId<N> {
    pub fn new(term: u64, node_id: N) -> Self {
        Self { term, node_id }
    }
}
impl<N: Display> Display for LeaderId<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}-N{}", self.term, self.node_id)
    }
}
pub type CommittedLeaderId<N> = LeaderId<N>;

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct LogId<N> {
    pub leader_id: CommittedLeaderId<N>,
    pub index: u64,
}
impl<N> LogId<N> {
    pub fn new(leader_id: CommittedLeaderId<N>, index: u64) -> Self {
        Self { leader_id, index }
    }
}
impl<N: Display> Display for LogId<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}-{}", self.leader_id, self.index)
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Vote<N> {
    pub leader_id: LeaderId<N>,
    pub committed: bool,
}
impl<N> Vote<N> {
    pub fn new(term: u64, node_id: N) -> Self {
        Self { leader_id: LeaderId { term, node_id }, committed: false }
    }
    pub fn new_committed(term: u64, node_id: N) -> Self {
        Self { leader_id: LeaderId { term, node_id }, committed: true }
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(serialize = "N: Ord + Serialize, T: Serialize", deserialize = "N: Ord + DeserializeOwned, T: DeserializeOwned"))]
pub struct Membership<N, T> {
    configs: Vec<BTreeSet<N>>,
    nodes: BTreeMap<N, T>,
}
impl<N: Ord + Copy, T> Membership<N, T> {
    pub fn new(configs: Vec<BTreeSet<N>>, nodes: BTreeMap<N, T>) -> Self {
        Self { configs, nodes }
    }
    pub fn get_joint_config(&self) -> &Vec<BTreeSet<N>> {
        &self.configs
    }
    pub fn nodes(&self) -> impl Iterator<Item = (&N, &T)> {
        self.nodes.iter()
    }
    pub fn get_node(&self, id: &N) -> Option<&T> {
        self.nodes.get(id)
    }
    pub fn voter_ids(&self) -> impl Iterator<Item = N> {
        self.configs.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter()
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(serialize = "N: Ord + Serialize, T: Serialize", deserialize = "N: Ord + DeserializeOwned, T: DeserializeOwned"))]
pub struct StoredMembership<N, T> {
    log_id: Option<LogId<N>>,
    membership: Membership<N, T>,
}
impl<N, T> StoredMembership<N, T> {
    pub fn new(log_id: Option<LogId<N>>, membership: Membership<N, T>) -> Self {
        Self { log_id, membership }
    }
    pub fn log_id(&self) -> &Option<LogId<N>> {
        &self.log_id
    }
    pub fn membership(&self) -> &Membership<N, T> {
        &self.membership
    }
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub enum EntryPayload<C: RaftTypeConfig> {
    Blank,
    Normal(C::D),
    Membership(Membership<C::NodeId, C::Node>),
}
impl<C: RaftTypeConfig> Clone for EntryPayload<C> {
    fn clone(&self) -> Self {
        match self {
            Self::Blank => Self::Blank,
            Self::Normal(d) => Self::Normal(d.clone()),
            Self::Membership(m) => Self::Membership(m.clone()),
        }
    }
}
impl<C: RaftTypeConfig> PartialEq for EntryPayload<C> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Blank, Self::Blank) => true,
            (Self::Normal(a), Self::Normal(b)) => a == b,
            (Self::Membership(a), Self::Membership(b)) => a == b,
            _ => false,
        }
    }
}
impl<C: RaftTypeConfig> Debug for EntryPayload<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Blank => write!(f, "blank"),
            Self::Normal(d) => write!(f, "normal {d:?}"),
            Self::Membership(m) => write!(f, "membership {m:?}"),
        }
    }
}
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Entry<C: RaftTypeConfig> {
    pub log_id: LogId<C::NodeId>,
    pub payload: EntryPayload<C>,
}
impl<C: RaftTypeConfig> Clone for Entry<C> {
    fn clone(&self) -> Self {
        Self { log_id: self.log_id, payload: self.payload.clone() }
    }
}
impl<C: RaftTypeConfig> Default for Entry<C> {
    fn default() -> Self {
        Self { log_id: LogId::default(), payload: EntryPayload::Blank }
    }
}
impl<C: RaftTypeConfig> PartialEq for Entry<C> {
    fn eq(&self, o: &Self) -> bool {
        self.log_id == o.log_id && self.payload == o.payload
    }
}
impl<C: RaftTypeConfig> Debug for Entry<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Entry {{ {} {:?} }}", self.log_id, self.payload)
    }
}
impl<C: RaftTypeConfig> Display for Entry<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.log_id)
    }
}
pub trait MessageSummary<M> {
    fn summary(&self) -> String;
}
impl<C: RaftTypeConfig> MessageSummary<Entry<C>> for Entry<C> {
    fn summary(&self) -> String {
        format!("{self:?}")
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(serialize = "N: Ord + Serialize, T: Serialize", deserialize = "N: Ord + DeserializeOwned, T: DeserializeOwned"))]
pub struct SnapshotMeta<N, T> {
    pub last_log_id: Option<LogId<N>>,
    pub last_membership: StoredMembership<N, T>,
    pub snapshot_id: String,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SnapshotPolicy {
    LogsSinceLast(u64),
    Never,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum ServerState {
    Learner,
    Follower,
    Candidate,
    Leader,
    Shutdown,
}

#[derive(Debug, Clone)]
pub struct StorageIOError<N> {
    pub what: String,
    pub message: String,
    node: std::marker::PhantomData<N>,
}
macro_rules! io { ($($f:ident),*) => { impl<N> StorageIOError<N> { $( pub fn $f(e: &(impl StdError + ?Sized)) -> Self { Self { what: stringify!($f).to_string(), message: e.to_string(), node: Default::default() } } )* } } }
io!(read, write, read_logs, write_logs, read_vote, write_vote, read_state_machine, write_state_machine);
impl<N> Display for StorageIOError<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.what, self.message)
    }
}
impl<N: Debug> StdError for StorageIOError<N> {}
#[derive(Debug, Clone)]
pub enum StorageError<N> {
    IO { source: StorageIOError<N> },
}
impl<N> From<StorageIOError<N>> for StorageError<N> {
    fn from(source: StorageIOError<N>) -> Self {
        Self::IO { source }
    }
}
impl<N> Display for StorageError<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let Self::IO { source } = self;
        write!(f, "{source}")
    }
}
impl<N: Debug> StdError for StorageError<N> {}

pub mod storage {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct LogState<C: RaftTypeConfig> {
        pub last_purged_log_id: Option<LogId<C::NodeId>>,
        pub last_log_id: Option<LogId<C::NodeId>>,
    }
    pub struct Snapshot<C: RaftTypeConfig> {
        pub meta: SnapshotMeta<C::NodeId, C::Node>,
        pub snapshot: Box<C::SnapshotData>,
    }
}
use storage::{LogState, Snapshot};
type R<T, C> = Result<T, StorageError<<C as RaftTypeConfig>::NodeId>>;

pub trait RaftLogReader<C: RaftTypeConfig>: Send + Sync + 'static {
    fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + Send>(&mut self, range: RB) -> impl Future<Output = R<Vec<Entry<C>>, C>> + Send;
}
pub trait RaftSnapshotBuilder<C: RaftTypeConfig>: Send + Sync + 'static {
    fn build_snapshot(&mut self) -> impl Future<Output = R<Snapshot<C>, C>> + Send;
}
pub trait RaftStorage<C: RaftTypeConfig>: RaftLogReader<C> + RaftSnapshotBuilder<C> + Send + Sync + 'static {
    type LogReader: RaftLogReader<C>;
    type SnapshotBuilder: RaftSnapshotBuilder<C>;
    fn save_vote(&mut self, vote: &Vote<C::NodeId>) -> impl Future<Output = R<(), C>> + Send;
    fn read_vote(&mut self) -> impl Future<Output = R<Option<Vote<C::NodeId>>, C>> + Send;
    fn get_log_state(&mut self) -> impl Future<Output = R<LogState<C>, C>> + Send;
    fn get_log_reader(&mut self) -> impl Future<Output = Self::LogReader> + Send;
    fn append_to_log<I: IntoIterator<Item = Entry<C>> + Send>(&mut self, entries: I) -> impl Future<Output = R<(), C>> + Send;
    fn delete_conflict_logs_since(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = R<(), C>> + Send;
    fn purge_logs_upto(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = R<(), C>> + Send;
    #[allow(clippy::type_complexity)]
    fn last_applied_state(&mut self) -> impl Future<Output = R<(Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>), C>> + Send;
    fn apply_to_state_machine(&mut self, entries: &[Entry<C>]) -> impl Future<Output = R<Vec<C::R>, C>> + Send;
    fn get_snapshot_builder(&mut self) -> impl Future<Output = Self::SnapshotBuilder> + Send;
    fn begin_receiving_snapshot(&mut self) -> impl Future<Output = R<Box<C::SnapshotData>, C>> + Send;
    fn install_snapshot(&mut self, meta: &SnapshotMeta<C::NodeId, C::Node>, snapshot: Box<C::SnapshotData>) -> impl Future<Output = R<(), C>> + Send;
    fn get_current_snapshot(&mut self) -> impl Future<Output = R<Option<Snapshot<C>>, C>> + Send;
}

/// The consensus itself is not part of the stand-in.
pub struct Raft<C>(std::marker::PhantomData<C>);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(serialize = "N: Ord + Serialize, T: Serialize", deserialize = "N: Ord + DeserializeOwned, T: DeserializeOwned"))]
pub struct RaftMetrics<N, T> {
    pub id: N,
    pub state: ServerState,
    pub current_leader: Option<N>,
    pub membership_config: std::sync::Arc<StoredMembership<N, T>>,
}
