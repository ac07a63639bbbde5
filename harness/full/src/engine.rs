//! cnosdb's storage engine under test: real vnodes (memcache, index, files,
//! write-ahead log), a real metadata store behind it, and a model of what a
//! table has to contain.
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

use arrow_schema::{Schema, SchemaRef, TimeUnit};
use config::tskv::Config;
use futures::{FutureExt, StreamExt};
use memory_pool::GreedyMemoryPool;
use meta::model::meta_admin::AdminMeta;
use meta::model::{MetaClientRef, MetaRef};
use meta::store::command::ReadCommand;
use meta::store::storage::StateMachine;
use metrics::metric_register::MetricsRegister;
use models::meta_data::ReplicationSet;
use models::predicate::domain::{ColumnDomains, Domain, Range, ResolvedPredicate, TimeRange, TimeRanges};
use models::predicate::PlacedSplit;
use models::schema::database_schema::{make_owner, DatabaseConfigBuilder, DatabaseOptionsBuilder, DatabaseSchema};
use models::schema::table_schema::TableSchema;
use models::schema::tenant::TenantOptions;
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema, TskvTableSchemaRef};
use models::schema::TIME_FIELD_NAME;
use models::tag::Tag;
use models::SeriesKey;
use pbt::{Fail, G, R};
use protocol_parser::lines_convert::{line_to_batches, mutable_batches_to_point};
use protocol_parser::Line;
use protos::kv_service::raft_write_command::Command;
use protos::kv_service::*;
use protos::FieldValue;
use replication::{ApplyContext, EntryStorage, APPLY_TYPE_WRITE};
use tokio::runtime::Runtime;
use trace::Span;
use tskv::compaction::metrics::{CompactionType, VnodeCompactionMetrics};
use tskv::compaction::{pick_compaction, run_compaction_job, CompactTask};
use tskv::kv_option::{Options, WalOptions};
use tskv::reader::iterator::QueryOption;
use tskv::tsfamily::summary::SummaryRequest;
use tskv::vnode_store::VnodeStorage;
use tskv::wal::wal_store::{RaftEntry, RaftEntryStorage};
use tskv::wal::VnodeWal;
use tskv::{Engine, EngineRef, TsKv};
use utils::precision::{timestamp_convert, Precision};

use crate::cols::{self, Ty, V};
use crate::frozen;
use crate::metasrv;

pub fn ferr<E: std::fmt::Debug>(what: &str) -> impl FnOnce(E) -> Fail + '_ {
    move |e| Fail::new(format!("{what}: {e:?}"))
}

// ------------------------------------------------------------------ world

pub struct Kv {
    pub kv: Arc<TsKv>,
    pub options: Options,
    pub config: Config,
}

pub struct World {
    pub rt: Arc<Runtime>,
    pub store: metasrv::Store,
    pub meta: MetaRef,
    pub kvs: Vec<Kv>,
    pub metrics: Arc<MetricsRegister>,
    tenants: Mutex<Vec<String>>,
    freed: Condvar,
    next: AtomicU32,
}

pub const CLUSTER: &str = "verif";

fn option_sets(root: &std::path::Path, addr: &str) -> Vec<Config> {
    (0..5u32)
        .map(|i| {
            let mut c = Config::default();
            c.global.cluster_name = CLUSTER.to_string();
            c.global.node_id = 1001;
            c.meta.service_addr = vec![addr.to_string()];
            c.storage.path = root.join(format!("kv{i}")).to_string_lossy().to_string();
            c.wal.path = root.join(format!("wal{i}")).to_string_lossy().to_string();
            c.storage.compact_trigger_cold_duration = Duration::ZERO;
            c.storage.index_cache_capacity = 64;
            match i {
                0 => c.storage.compact_trigger_file_num = 2,
                1 => {
                    c.storage.compact_trigger_file_num = 3;
                    c.storage.max_datablock_size = 4;
                    c.storage.tsm_meta_compress = "zstd".to_string();
                }
                2 => {
                    c.storage.compact_trigger_file_num = 2;
                    c.storage.base_file_size = 600;
                    c.storage.max_datablock_size = 8;
                    c.storage.max_compact_size = 4_000;
                }
                3 => {
                    c.storage.compact_trigger_file_num = 2;
                    c.storage.max_summary_size = 700;
                    c.storage.max_datablock_size = 3;
                    c.storage.tsm_meta_compress = "gzip".to_string();
                    c.wal.max_file_size = 1024;
                    c.wal.compress = "null".to_string();
                }
                _ => {
                    c.storage.compact_trigger_file_num = 4;
                    c.storage.max_compact_size = 2_000;
                    c.wal.max_file_size = 2048;
                }
            }
            std::fs::create_dir_all(&c.storage.path).expect("storage directory");
            c
        })
        .collect()
}

pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let root = pbt::scratch_root().join("engine");
        std::fs::create_dir_all(&root).expect("engine directory");
        let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().expect("runtime"));
        let rt2 = rt.clone();
        rt.block_on(async move {
            let store: metasrv::Store = Arc::new(tokio::sync::RwLock::new(StateMachine::open(root.join("meta"), 1 << 30).expect("meta store")));
            let addr = metasrv::serve(store.clone()).await;
            let metrics = Arc::new(MetricsRegister::new([("node_id", "1001")]));
            let confs = option_sets(&root, &addr);
            let meta = AdminMeta::new(confs[0].clone(), metrics.clone()).await;
            meta.add_data_node().await.expect("add data node");
            let mut kvs = Vec::new();
            for config in confs {
                let options = Options::from(&config);
                let pool = Arc::new(GreedyMemoryPool::new(1 << 40));
                let kv = TsKv::open(meta.clone(), options.clone(), rt2.clone(), pool, metrics.clone()).await.expect("open engine");
                kvs.push(Kv { kv: Arc::new(kv), options, config });
            }
            let mut tenants = Vec::new();
            for i in 0..24 {
                let name = format!("t{i}");
                meta.create_tenant(name.clone(), TenantOptions::default()).await.expect("create tenant");
                tenants.push(name);
            }
            World { rt: rt2, store, meta, kvs, metrics, tenants: Mutex::new(tenants), freed: Condvar::new(), next: AtomicU32::new(1) }
        })
    })
}

struct Lease(String);
impl Lease {
    fn take() -> Lease {
        let w = world();
        let mut l = w.tenants.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            if let Some(t) = l.pop() {
                return Lease(t);
            }
            l = w.freed.wait(l).unwrap_or_else(|e| e.into_inner());
        }
    }
}
impl Drop for Lease {
    fn drop(&mut self) {
        let w = world();
        w.tenants.lock().unwrap_or_else(|e| e.into_inner()).push(std::mem::take(&mut self.0));
        w.freed.notify_one();
    }
}

// ------------------------------------------------------------------ model

pub type Tags = BTreeMap<String, String>;
pub type Row = BTreeMap<String, V>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct TableModel {
    /// tags -> time -> field -> value; a row may have lost all its fields
    pub series: BTreeMap<Tags, BTreeMap<i64, Row>>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub tables: BTreeMap<String, TableModel>,
}

#[derive(Clone, Debug)]
pub struct Point {
    pub table: String,
    pub tags: Tags,
    pub ts: i64,
    pub fields: Vec<(String, V)>,
}

impl Model {
    /// `ts` already in the database's precision
    pub fn put(&mut self, p: &Point, ts: i64) {
        let row = self.tables.entry(p.table.clone()).or_default().series.entry(p.tags.clone()).or_default().entry(ts).or_default();
        for (k, v) in &p.fields {
            row.insert(k.clone(), v.clone());
        }
    }

    pub fn rows(&self, table: &str) -> BTreeMap<(Tags, i64), Row> {
        let mut out = BTreeMap::new();
        if let Some(t) = self.tables.get(table) {
            for (tags, rows) in &t.series {
                for (ts, row) in rows {
                    out.insert((tags.clone(), *ts), row.clone());
                }
            }
        }
        out
    }
}

fn field_value(v: &V) -> FieldValue {
    match v {
        V::I(x) => FieldValue::I64(*x),
        V::U(x) => FieldValue::U64(*x),
        V::F(x) => FieldValue::F64(f64::from_bits(*x)),
        V::B(x) => FieldValue::Bool(*x),
        V::S(x) => FieldValue::Str(x.clone().into_bytes()),
    }
}

pub fn ty_of(v: &V) -> Ty {
    match v {
        V::I(_) => Ty::I,
        V::U(_) => Ty::U,
        V::F(_) => Ty::F,
        V::B(_) => Ty::B,
        V::S(_) => Ty::S,
    }
}

pub fn points_bytes(db: &str, points: &[Point]) -> Result<Vec<u8>, Fail> {
    let lines: Vec<Line> = points
        .iter()
        .map(|p| {
            Line::new(
                p.table.clone().into(),
                p.tags.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect(),
                p.fields.iter().map(|(k, v)| (k.clone().into(), field_value(v))).collect(),
                p.ts,
            )
        })
        .collect();
    let batches = line_to_batches(&lines).map_err(ferr("batches of the lines"))?;
    Ok(mutable_batches_to_point(db, batches))
}

/// The key of a series as the coordinator names it: its tags in the order of the columns.
pub fn series_key(schema: &TskvTableSchema, tags: &Tags) -> SeriesKey {
    SeriesKey {
        tags: schema
            .columns()
            .iter()
            .filter(|c| matches!(c.column_type, ColumnType::Tag))
            .filter_map(|c| tags.get(&c.name).map(|v| Tag::new_with_column_id(c.id, v.clone().into_bytes())))
            .collect(),
        table: schema.name.clone(),
    }
}

// ------------------------------------------------------------------ reads

#[derive(Clone)]
pub struct Read {
    pub ranges: Vec<TimeRange>,
    pub tags: ColumnDomains<String>,
    /// names of the fields to read; all when None
    pub fields: Option<Vec<String>>,
    pub batch: usize,
    pub limit: Option<usize>,
    pub filter: Option<Arc<dyn datafusion::physical_expr::PhysicalExpr>>,
}
impl Default for Read {
    fn default() -> Self {
        Read { ranges: vec![TimeRange::all()], tags: ColumnDomains::all(), fields: None, batch: 1024, limit: None, filter: None }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct OutRow {
    pub tags: Tags,
    pub ts: i64,
    pub row: Row,
}

// ------------------------------------------------------------------ a case

/// A snapshot with its files, and what it has to contain.
pub struct Snap {
    snap: tskv::VnodeSnapshot,
    dir: std::path::PathBuf,
    pub model: Model,
}
impl Drop for Snap {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub struct Case {
    pub w: &'static World,
    pub kv: &'static Kv,
    lease: Lease,
    pub client: MetaClientRef,
    pub db: String,
    pub vnode_id: u32,
    pub vnode: Option<VnodeStorage>,
    pub extra_vnodes: Vec<u32>,
    pub precision: Precision,
    pub index: u64,
    pub model: Model,
    /// does the node learn of schema changes made elsewhere only now and then
    pub lagging: bool,
    pub wal: Option<RaftEntryStorage>,
    /// the last command did not get into the log
    pub unlogged: bool,
    /// and has to be cut off, if it got there in part
    cut: bool,
    pub dropped_columns: BTreeSet<(String, String)>,
}

#[derive(Debug)]
pub struct CaseConf {
    pub kv: usize,
    pub precision: Precision,
    pub partitions: u64,
    pub memcache: u64,
    pub cache_readers: u64,
    pub lagging: bool,
    pub wal: bool,
}

pub fn conf(g: &mut G) -> CaseConf {
    CaseConf {
        kv: g.below(5) as usize,
        precision: *g.pick(&[Precision::NS, Precision::US, Precision::MS]),
        partitions: *g.pick(&[1, 2, 5]),
        memcache: 1 << 30,
        cache_readers: *g.pick(&[16, 64]),
        lagging: g.chance(1, 4),
        wal: false,
    }
}

impl Case {
    pub fn tenant(&self) -> &str {
        &self.lease.0
    }
    pub fn owner(&self) -> String {
        make_owner(&self.lease.0, &self.db)
    }

    pub async fn new(cf: &CaseConf) -> Result<Case, Fail> {
        let w = world();
        let lease = tokio::task::block_in_place(Lease::take);
        let kv = &w.kvs[cf.kv];
        let client = w.meta.tenant_meta(&lease.0).await.ok_or_else(|| Fail::new("no tenant"))?;
        let n = w.next.fetch_add(4, Ordering::Relaxed);
        let db = format!("db{n}");
        let mut b = DatabaseConfigBuilder::new();
        b.with_precision(cf.precision).with_memcache_partitions(cf.partitions).with_max_memcache_size(cf.memcache).with_max_cache_readers(cf.cache_readers);
        let schema = DatabaseSchema::new(&lease.0, &db, DatabaseOptionsBuilder::new().build(), Arc::new(b.build(kv.config.clone())));
        client.create_db(schema).await.map_err(ferr("create database"))?;
        let mut c = Case {
            w,
            kv,
            lease,
            client,
            db,
            vnode_id: n,
            vnode: None,
            extra_vnodes: vec![],
            precision: cf.precision,
            index: 0,
            model: Model::default(),
            lagging: cf.lagging,
            wal: None,
            unlogged: false,
            cut: false,
            dropped_columns: BTreeSet::new(),
        };
        c.open().await?;
        if cf.wal {
            c.open_wal().await?;
        }
        Ok(c)
    }

    pub async fn open(&mut self) -> R {
        let v = self.kv.kv.open_tsfamily(&self.lease.0, &self.db, self.vnode_id).await.map_err(ferr("open vnode"))?;
        self.vnode = Some(v);
        Ok(())
    }

    pub fn wal_options(&self) -> Arc<WalOptions> {
        self.kv.options.wal.clone()
    }

    pub async fn open_wal(&mut self) -> R {
        let wal = VnodeWal::new(self.wal_options(), Arc::new(self.owner()), self.vnode_id).await.map_err(ferr("open log"))?;
        self.wal = Some(RaftEntryStorage::new(wal));
        Ok(())
    }

    pub fn vnode(&self) -> &VnodeStorage {
        self.vnode.as_ref().expect("vnode is open")
    }

    pub async fn close(&mut self) {
        self.vnode = None;
        if let Some(mut w) = self.wal.take() {
            let _ = w.destroy().await;
        }
        let ids: Vec<u32> = std::iter::once(self.vnode_id).chain(self.extra_vnodes.drain(..)).collect();
        for id in ids {
            let _ = self.kv.kv.remove_tsfamily(&self.lease.0, &self.db, id).await;
        }
        let _ = std::fs::remove_dir_all(self.kv.options.storage.owner_dir(&self.owner()));
        let _ = self.client.drop_db(&self.db).await;
        let _ = self.client.sync_all_tenant_metadata().await;
    }

    /// Everything in memory is lost; what is on disk is opened again.
    pub async fn reopen(&mut self) -> R {
        let dir = self.kv.options.storage.ts_family_dir(&self.owner(), self.vnode_id);
        let aside = dir.with_extension("aside");
        self.vnode = None;
        frozen::free(|| std::fs::rename(&dir, &aside)).map_err(ferr("set the vnode aside"))?;
        self.kv.kv.remove_tsfamily(&self.lease.0, &self.db, self.vnode_id).await.map_err(ferr("remove vnode"))?;
        frozen::free(|| std::fs::rename(&aside, &dir)).map_err(ferr("put the vnode back"))?;
        frozen::thaw(&self.owner());
        self.client.sync_all_tenant_metadata().await.map_err(ferr("sync"))?;
        self.open().await
    }

    pub async fn sync(&self) -> R {
        self.client.sync_all_tenant_metadata().await.map_err(ferr("sync metadata"))
    }

    pub async fn maybe_sync(&self) -> R {
        if !self.lagging {
            self.sync().await?;
        }
        Ok(())
    }

    /// The schema the metadata store holds.
    pub async fn schema(&self, table: &str) -> Option<TskvTableSchemaRef> {
        let cmd = ReadCommand::TableSchema(CLUSTER.to_string(), self.lease.0.clone(), self.db.clone(), table.to_string());
        let text = self.w.store.read().await.process_read_command(&cmd);
        match serde_json::from_str::<meta::error::MetaResult<Option<TableSchema>>>(&text) {
            Ok(Ok(Some(TableSchema::TsKvTableSchema(s)))) => Some(s),
            _ => None,
        }
    }

    // -------------------------------------------------------------- commands

    pub async fn apply(&mut self, cmd: Command) -> Result<(), String> {
        self.index += 1;
        if let Some(wal) = &mut self.wal {
            let req = RaftWriteCommand { replica_id: 1, db_name: self.db.clone(), tenant: self.lease.0.clone(), command: Some(cmd.clone()) };
            let e = entry(self.index, protos::models_helper::to_prost_bytes(&req));
            if let Err(e) = wal.append(&[e]).await {
                if self.ended() {
                    self.unlogged = true;
                    return Ok(());
                }
                return Err(format!("append to the log: {e:?}"));
            }
        }
        let ctx = ApplyContext { index: self.index, apply_type: APPLY_TYPE_WRITE, raft_id: self.vnode_id as u64 };
        let r = AssertUnwindSafe(self.vnode().apply(&ctx, cmd)).catch_unwind().await;
        if self.ended() {
            return Ok(()); // nobody gets an answer
        }
        match r {
            Ok(r) => r.map(|_| ()).map_err(|e| format!("{e:?}")),
            Err(p) => std::panic::resume_unwind(p),
        }
    }

    /// Has the process come to its end in the middle of something?
    pub fn ended(&self) -> bool {
        frozen::fired(&self.owner())
    }

    pub async fn write(&mut self, points: &[Point], precision: Precision) -> Result<(), String> {
        let data = points_bytes(&self.db, points).map_err(|f| format!("{f:?}"))?;
        let r = self.apply(Command::WriteData(WriteDataRequest { data, precision: precision as u32 })).await;
        if r.is_ok() {
            for p in points {
                let ts = timestamp_convert(precision, self.precision, p.ts).expect("time fits");
                self.model.put(p, ts);
            }
        }
        r
    }

    pub async fn delete(&mut self, table: &str, ranges: &[TimeRange], tags: ColumnDomains<String>) -> R {
        let pred = ResolvedPredicate::new(Arc::new(TimeRanges::new(ranges.to_vec())), tags, None).map_err(ferr("predicate"))?;
        let cmd = DeleteFromTableRequest {
            tenant: self.lease.0.clone(),
            database: self.db.clone(),
            table: table.to_string(),
            predicate: bincode::serialize(&pred).map_err(ferr("predicate"))?,
            vnode_id: self.vnode_id,
        };
        self.apply(Command::DeleteFromTable(cmd)).await.map_err(ferr("delete"))
    }

    pub async fn drop_table(&mut self, table: &str) -> R {
        self.sync().await?;
        self.apply(Command::DropTable(DropTableRequest { db: self.db.clone(), table: table.to_string() })).await.map_err(ferr("drop table"))?;
        if self.ended() {
            return Ok(()); // the metadata service tries again
        }
        if self.schema(table).await.is_some() {
            self.client.drop_table(&self.db, table).await.map_err(ferr("drop table in the metadata"))?;
        }
        self.sync().await?;
        self.model.tables.remove(table);
        Ok(())
    }

    pub async fn drop_column(&mut self, table: &str, column: &str) -> R {
        self.sync().await?;
        let cmd = DropColumnRequest { db: self.db.clone(), table: table.to_string(), column: column.to_string() };
        self.apply(Command::DropColumn(cmd)).await.map_err(ferr("drop column"))?;
        if self.ended() {
            return Ok(());
        }
        let mut s: TskvTableSchema = self.schema(table).await.ok_or_else(|| Fail::new("no schema"))?.as_ref().clone();
        s.drop_column(column);
        s.schema_version += 1;
        self.client.update_table(&TableSchema::TsKvTableSchema(s.into())).await.map_err(ferr("drop column in the metadata"))?;
        self.sync().await?;
        if let Some(t) = self.model.tables.get_mut(table) {
            for rows in t.series.values_mut() {
                for r in rows.values_mut() {
                    r.remove(column);
                }
            }
        }
        self.dropped_columns.insert((table.to_string(), column.to_string()));
        Ok(())
    }

    pub async fn update_tags(&mut self, table: &str, new: &[(String, Option<String>)], matched: &[Tags], dry_run: bool) -> Result<(), String> {
        let s = self.schema(table).await.ok_or("no schema")?;
        let id = |k: &String| s.column(k).map(|c| c.id.to_string().into_bytes()).ok_or(format!("no column {k}"));
        let cmd = UpdateTagsRequest {
            db: self.db.clone(),
            new_tags: new
                .iter()
                .map(|(k, v)| Ok(UpdateSetValue { key: id(k)?, value: v.clone().map(String::into_bytes) }))
                .collect::<Result<_, String>>()?,
            matched_series: matched.iter().map(|t| series_key(&s, t).encode()).collect(),
            dry_run,
        };
        self.apply(Command::UpdateTags(cmd)).await
    }

    pub async fn flush(&self) -> R {
        self.vnode().flush(true, true, false).await.map_err(ferr("flush"))
    }

    /// what the background job and the manual command do with one task
    pub async fn compact(&self, task: CompactTask) -> Result<bool, Fail> {
        let vnode = self.vnode();
        let tsf = vnode.get_ts_family();
        let version = tsf.read().await.version();
        let Some(mut req) = pick_compaction(task, version).await else { return Ok(false) };
        req.set_file_id(vnode.get_summary().read().await.file_id());
        let m = VnodeCompactionMetrics::new(&self.w.metrics, 1001, self.vnode_id, CompactionType::Manual, false);
        match run_compaction_job(req, m).await.map_err(ferr("compaction"))? {
            Some((version_edit, file_metas)) => {
                let request = SummaryRequest { version_edit, mem_caches: None, file_metas: Some(file_metas), ts_family: tsf };
                vnode.get_summary().write().await.apply_version_edit(&request).await.map_err(ferr("apply compaction"))?;
                Ok(true)
            }
            None => Ok(false),
        }
    }

    /// The process ends here; the next one finds what had been written to the
    /// files and to the log.
    pub async fn crash(&mut self) -> R {
        self.wal = None;
        self.reopen().await?;
        self.recover().await
    }

    pub async fn recover(&mut self) -> R {
        let r = AssertUnwindSafe(self.replay()).catch_unwind().await;
        if self.ended() {
            return Ok(());
        }
        r.unwrap_or_else(|p| std::panic::resume_unwind(p))
    }

    async fn replay(&mut self) -> R {
        self.open_wal().await?;
        let mut vnode = self.vnode().clone();
        if std::mem::take(&mut self.unlogged) {
            self.index -= 1;
            self.cut = true;
        }
        let last = openraft::LogId::new(openraft::CommittedLeaderId::new(1, 0), self.index);
        let last = (self.index > 0).then_some(last);
        let wal = self.wal.as_mut().expect("log");
        wal.recover(last, &mut vnode).await.map_err(ferr("recover from the log"))?;
        if self.cut {
            // the leader does not have it
            wal.del_after(self.index + 1).await.map_err(ferr("cut the log"))?;
            self.cut = self.ended();
        }
        Ok(())
    }

    /// The process comes to its end while the files are changed for the nth time from now.
    pub fn end_at(&self, n: u64, part: usize) {
        frozen::arm(&self.owner(), n, part);
    }

    /// Finishes a crash: says at which change it ended, or None if the process goes on.
    pub async fn restart_if_ended(&mut self) -> Result<Option<String>, Fail> {
        if !self.ended() {
            frozen::thaw(&self.owner());
            return Ok(None);
        }
        let at = frozen::what(&self.owner());
        self.crash().await.map_err(|f| Fail { msg: format!("after the process ended at {at}: {}", f.msg), ..f })?;
        Ok(Some(at))
    }

    /// What a snapshot's receiver does, with the files copied.
    /// Flushes, takes a snapshot and fetches its files, as a replica does.
    pub async fn take_snapshot(&mut self) -> Result<Snap, Fail> {
        self.flush().await?;
        let mut from = self.vnode().clone();
        let snap = from.create_snapshot().await.map_err(ferr("create snapshot"))?;
        let bytes = bincode::serialize(&snap).map_err(ferr("snapshot"))?;
        let snap: tskv::VnodeSnapshot = bincode::deserialize(&bytes).map_err(ferr("snapshot"))?;
        let n = self.w.next.fetch_add(1, Ordering::Relaxed);
        let src = self.kv.options.storage.ts_family_dir(&self.owner(), self.vnode_id);
        let dir = self.kv.options.storage.path().join(format!("snap_{n}"));
        for f in &snap.version_edit.add_files {
            let to = dir.join(f.relative_path());
            std::fs::create_dir_all(to.parent().expect("parent")).map_err(ferr("snapshot directory"))?;
            let n = std::fs::copy(src.join(f.relative_path()), to).map_err(ferr("a file the snapshot names"))?;
            if n != f.file_size {
                return Err(Fail::new(format!("the snapshot says a file has {} bytes, it has {n}", f.file_size)));
            }
        }
        Ok(Snap { snap, dir, model: self.model.clone() })
    }

    /// Restores a vnode from a snapshot through a handle of its own.
    pub async fn install(&mut self, s: Snap, id: u32) -> R {
        let mut to = self.kv.kv.open_tsfamily(&self.lease.0, &self.db, id).await.map_err(ferr("open the vnode to restore"))?;
        to.apply_snapshot(s.snap.clone(), &s.dir).await.map_err(ferr("apply snapshot"))
    }

    /// A new vnode restored from a snapshot.
    pub async fn replica(&mut self, s: Snap) -> Result<u32, Fail> {
        let id = self.w.next.fetch_add(1, Ordering::Relaxed) + 1_000_000_000;
        self.extra_vnodes.push(id);
        self.install(s, id).await?;
        Ok(id)
    }

    /// Goes on with another vnode.
    pub async fn go_on_with(&mut self, id: u32) -> R {
        self.extra_vnodes.retain(|v| *v != id);
        self.extra_vnodes.push(self.vnode_id);
        self.vnode_id = id;
        self.open().await
    }

    // ----------------------------------------------------------------- reads

    fn projection(&self, full: &TskvTableSchemaRef, r: &Read) -> (TskvTableSchema, SchemaRef) {
        let mut columns: Vec<TableColumn> = Vec::new();
        for col in full.columns() {
            let want = match &col.column_type {
                ColumnType::Time(_) | ColumnType::Tag => true,
                ColumnType::Field(_) => r.fields.as_ref().map_or(true, |f| f.contains(&col.name)),
            };
            if want {
                let mut col = col.clone();
                if col.name == TIME_FIELD_NAME {
                    col.id = 0;
                }
                columns.push(col);
            }
        }
        let proj = TskvTableSchema::new(full.tenant.clone(), full.db.clone(), full.name.clone(), columns);
        let df_schema: SchemaRef = Arc::new(Schema::new_with_metadata(
            proj.columns().iter().map(arrow_schema::Field::from).collect::<Vec<_>>(),
            full.meta(),
        ));
        (proj, df_schema)
    }

    pub fn read_schema(&self, full: &TskvTableSchemaRef, r: &Read) -> SchemaRef {
        self.projection(full, r).1
    }

    pub async fn read_from(&self, vnode_id: u32, table: &str, r: &Read) -> Result<Vec<OutRow>, Fail> {
        let Some(full) = self.schema(table).await else { return Ok(vec![]) };
        let (proj, df_schema) = self.projection(&full, r);
        let pred = ResolvedPredicate::new(Arc::new(TimeRanges::new(r.ranges.clone())), r.tags.clone(), r.filter.clone()).map_err(ferr("predicate"))?;
        let split = PlacedSplit::new(0, Arc::new(pred), r.limit, ReplicationSet::default());
        let option = QueryOption::new(r.batch, split, None, df_schema.clone(), proj.into(), full.meta());
        let engine: EngineRef = self.kv.kv.clone();
        let mut stream = tskv::reader::iterator::execute(self.w.rt.clone(), engine, option, vnode_id, Span::noop()).await.map_err(ferr("open the read"))?;
        let mut out = Vec::new();
        while let Some(b) = stream.next().await {
            let b = b.map_err(ferr("read"))?;
            let sch = b.schema();
            if sch.fields().len() != df_schema.fields().len() {
                return Err(Fail::new(format!("a batch with columns {:?} instead of {:?}", sch.fields(), df_schema.fields())));
            }
            let mut data = Vec::new();
            for (i, f) in df_schema.fields().iter().enumerate() {
                if sch.field(i).name() != f.name() || b.column(i).data_type() != f.data_type() {
                    return Err(Fail::new(format!("column {i} of a batch is {:?} instead of {f:?}", sch.field(i))));
                }
                data.push(cols::from_arrow(b.column(i)).map_err(Fail::new)?);
            }
            for n in 0..b.num_rows() {
                let mut o = OutRow { tags: Tags::new(), ts: 0, row: Row::new() };
                for (i, f) in df_schema.fields().iter().enumerate() {
                    let col = full.column(f.name()).expect("projected column");
                    let v = data[i][n].clone();
                    match (&col.column_type, v) {
                        (ColumnType::Time(_), Some(V::I(t))) => o.ts = t,
                        (ColumnType::Time(_), v) => return Err(Fail::new(format!("a row with the time {v:?}"))),
                        (ColumnType::Tag, Some(V::S(s))) => {
                            o.tags.insert(f.name().clone(), s);
                        }
                        (ColumnType::Field(_), Some(v)) => {
                            o.row.insert(f.name().clone(), v);
                        }
                        (_, None) => {}
                        (_, v) => return Err(Fail::new(format!("tag {} is {v:?}", f.name()))),
                    }
                }
                out.push(o);
            }
        }
        Ok(out)
    }

    pub async fn read(&self, table: &str, r: &Read) -> Result<Vec<OutRow>, Fail> {
        self.read_from(self.vnode_id, table, r).await
    }

    /// The whole table equals the model.
    pub async fn check_all(&self, vnode: u32, when: &str) -> R {
        for t in TABLES {
            let got = self.read_from(vnode, t, &Read::default()).await.map_err(|f| Fail { msg: format!("{when}: table {t}: {}", f.msg), ..f })?;
            compare(&got, &self.model.rows(t), when, t)?;
        }
        Ok(())
    }
}

pub fn entry(index: u64, data: Vec<u8>) -> RaftEntry {
    let mut e = RaftEntry::default();
    e.log_id.index = index;
    e.log_id.leader_id.term = 1;
    e.payload = openraft::EntryPayload::Normal(data);
    e
}

pub const TABLES: [&str; 2] = ["ma", "ma.b"];

/// Rows whose read fields are all null may be left out or not; every other row
/// is there exactly once, and its fields are exactly the model's.
pub fn compare(got: &[OutRow], want: &BTreeMap<(Tags, i64), Row>, when: &str, table: &str) -> R {
    let mut seen: BTreeSet<(Tags, i64)> = BTreeSet::new();
    for o in got {
        let key = (o.tags.clone(), o.ts);
        let Some(w) = want.get(&key) else {
            return Err(Fail::new(format!("{when}: table {table}: a row that should not be there: {o:?}")));
        };
        if *w != o.row {
            return Err(Fail::new(format!("{when}: table {table}: series {:?} at {}: got {:?}, expected {:?}", o.tags, o.ts, o.row, w)));
        }
        if !seen.insert(key) {
            return Err(Fail::new(format!("{when}: table {table}: a row twice: {o:?}")));
        }
    }
    for (k, w) in want {
        if !w.is_empty() && !seen.contains(k) {
            return Err(Fail::new(format!("{when}: table {table}: series {:?} at {}: missing, expected {:?}", k.0, k.1, w)));
        }
    }
    Ok(())
}


/// Runs one case against a fresh database and vnode.
pub fn run<F>(g: &mut G, cf: CaseConf, body: F) -> R
where
    F: for<'a> FnOnce(&'a mut G, &'a mut Case) -> Pin<Box<dyn Future<Output = R> + 'a>>,
{
    let w = world();
    g.note(|| format!("{cf:?}"));
    w.rt.block_on(async {
        let mut c = Case::new(&cf).await?;
        let r = match tokio::time::timeout(Duration::from_secs(60), body(g, &mut c)).await {
            Ok(r) => r,
            Err(_) => Err(Fail::with_sig("hang", "the case did not finish within 60 seconds")),
        };
        frozen::thaw(&c.owner());
        c.close().await;
        r
    })
}
