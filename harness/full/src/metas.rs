//! The metadata service against its model, its replicas and its followers.
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

use config::tskv::Config;
use meta::model::meta_admin::AdminMeta;
use meta::model::{MetaClientRef, MetaRef};
use meta::store::command::*;
use meta::store::storage::StateMachine;
use metrics::metric_register::MetricsRegister;
use models::schema::table_schema::TableSchema;
use pbt::{ensure, Check, Fail, Sub, G, R};
use replication::{ApplyContext, ApplyStorage, APPLY_TYPE_WRITE};
use serde_json::{json, Value};
use tokio::runtime::Runtime;

use crate::catalog::*;
use crate::metasrv;
use crate::pings;

const CLUSTER: &str = "cluster";

fn rt() -> &'static Arc<Runtime> {
    static RT: OnceLock<Arc<Runtime>> = OnceLock::new();
    RT.get_or_init(|| {
        let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime"));
        pings::start(&rt);
        rt
    })
}

fn dir_of(g: &mut G, name: &str) -> PathBuf {
    let d = g.scratch().join(name);
    std::fs::create_dir_all(&d).expect("directory");
    d
}

/// A member of the metadata group.
struct Machine {
    sm: StateMachine,
    dir: PathBuf,
    index: u64,
}
impl Machine {
    fn new(g: &mut G, name: &str) -> Result<Machine, Fail> {
        Machine::at(dir_of(g, name))
    }
    fn at(dir: PathBuf) -> Result<Machine, Fail> {
        let sm = StateMachine::open(&dir, 1 << 28).map_err(|e| Fail::new(format!("open: {e}")))?;
        Ok(Machine { sm, dir, index: 0 })
    }
    async fn apply(&mut self, cmd: &Cmd) -> Result<Value, Fail> {
        self.index += 1;
        let ctx = ApplyContext { index: self.index, raft_id: 0, apply_type: APPLY_TYPE_WRITE };
        let bytes = serde_json::to_vec(cmd).map_err(|e| Fail::new(e.to_string()))?;
        let resp = self.sm.apply(&ctx, &bytes.into()).await.map_err(|e| Fail::new(format!("apply: {e}")))?;
        serde_json::from_slice(&resp).map_err(|e| Fail::new(format!("the answer is no JSON: {e}")))
    }
    fn reopen(self) -> Result<Machine, Fail> {
        let Machine { sm, dir, index } = self;
        drop(sm);
        let mut m = Machine::at(dir)?;
        m.index = index;
        Ok(m)
    }
    /// Everything it holds, values parsed.
    fn all(&self) -> Result<BTreeMap<String, Value>, Fail> {
        let d = self.sm.backup().map_err(|e| Fail::new(format!("backup: {e}")))?;
        Ok(d.map.into_iter().map(|(k, v)| (k, serde_json::from_str(&v).unwrap_or(Value::String(v)))).collect())
    }
    fn read(&self, c: &ReadCommand) -> Value {
        // the commands travel as JSON
        let c: ReadCommand = serde_json::from_slice(&serde_json::to_vec(c).unwrap()).unwrap();
        serde_json::from_str(&self.sm.process_read_command(&c)).unwrap_or(Value::Null)
    }
}

fn show(g: &mut G, cmd: &Cmd) {
    g.note(|| serde_json::to_string(cmd).unwrap_or_default());
}

// ------------------------------------------------------------------ C15 C16 C17

fn catalog(g: &mut G, mix: Mix) -> R {
    let rt = rt();
    let base = pings::base();
    rt.block_on(async move {
        let mut m = Machine::new(g, "m")?;
        let mut c = Catalog::new(CLUSTER);
        let mut other = Catalog::new("cluster1");
        for _ in 0..g.few(40) {
            if mix.buckets > 0 && g.chance(1, 12) {
                let node = g.range(1, 5) as u64;
                let is = g.bool();
                pings::set_down(base, node, is);
                g.note(|| format!("node {node} {}", if is { "stops" } else { "is back" }));
                for cat in [&mut c, &mut other] {
                    cat.who_is_down();
                }
                continue;
            }
            if g.chance(1, 15) {
                m = m.reopen()?;
                g.note(|| "restart".into());
            }
            let cat = if g.chance(1, 12) { &mut other } else { &mut c };
            for cmd in cat.next(g, mix, base) {
                show(g, &cmd);
                let resp = m.apply(&cmd).await?;
                cat.apply(&cmd, &resp)?;
                cat.who_is_down();
            }
            if g.chance(1, 6) {
                c.reads(&|r| m.read(r))?;
            }
        }
        c.reads(&|r| m.read(r))?;
        other.reads(&|r| m.read(r))?;
        if mix.buckets > 0 {
            if c.buckets_made >= 2 {
                g.nontrivial();
            }
        } else if c.done >= 8 && c.refused >= 1 {
            g.nontrivial();
        }
        for n in 1..=5 {
            pings::set_down(base, n, false);
        }
        Ok(())
    })
}

fn accounts(g: &mut G) -> R {
    catalog(g, Mix { tenants: 2, users: 4, roles: 8, dbs: 2, ..Mix::default() })
}
fn objects(g: &mut G) -> R {
    catalog(g, Mix { tenants: 1, dbs: 4, tables: 8, nodes: 1, misc: 2, ..Mix::default() })
}
fn upkeep(g: &mut G) -> R {
    catalog(g, Mix { tenants: 1, dbs: 1, nodes: 2, misc: 8, ..Mix::default() })
}
fn placement(g: &mut G) -> R {
    catalog(g, Mix { dbs: 4, buckets: 10, nodes: 3, misc: 1, ..Mix::default() })
}

// ------------------------------------------------------------------ C13

/// Several members apply the same commands; one restarts now and then, one is
/// late and one is built from snapshots.
fn replicas(g: &mut G) -> R {
    let rt = rt();
    let base = pings::base();
    rt.block_on(async move {
        let mix = Mix { tenants: 2, users: 2, roles: 4, dbs: 4, tables: 4, buckets: 6, nodes: 2, misc: 3 };
        let mut a = Machine::new(g, "a")?;
        let mut b = Machine::new(g, "b")?;
        let mut late = Machine::new(g, "late")?;
        let mut c = Catalog::new(CLUSTER);
        let mut log: Vec<(Cmd, Value)> = Vec::new();
        let mut installed = 0;
        for _ in 0..g.few(40) {
            if g.chance(1, 10) {
                b = b.reopen()?;
                g.note(|| "restart of a member".into());
            }
            if g.chance(1, 10) {
                let (snap, at) = a.sm.create_snapshot(a.index).await.map_err(|e| Fail::new(format!("snapshot: {e}")))?;
                ensure!(at == a.index, "the snapshot of {} says it is of {at}", a.index);
                ensure!(a.sm.get_snapshot().await.ok().flatten() == Some((snap.clone(), at)), "the snapshot taken is not the one kept");
                late.sm.restore(&snap).await.map_err(|e| Fail::new(format!("restore: {e}")))?;
                late.index = at;
                installed += 1;
                g.note(|| format!("snapshot of {at} installed"));
                equal(&a, &late)?;
            }
            if g.chance(1, 8) {
                catch_up(&mut late, &log).await?;
                equal(&a, &late)?;
            }
            for cmd in c.next(g, mix, base) {
                show(g, &cmd);
                let x = a.apply(&cmd).await?;
                let y = b.apply(&cmd).await?;
                answers(&x, &y)?;
                // the model follows; whether the answers are right is decided elsewhere
                let _ = c.apply(&cmd, &x);
                adopt(&mut c, &a.sm)?;
                log.push((cmd, x));
            }
        }
        equal(&a, &b)?;
        catch_up(&mut late, &log).await?;
        equal(&a, &late)?;
        if log.len() >= 8 && installed > 0 {
            g.nontrivial();
        }
        Ok(())
    })
}

async fn catch_up(m: &mut Machine, log: &[(Cmd, Value)]) -> R {
    while (m.index as usize) < log.len() {
        let (cmd, want) = &log[m.index as usize];
        let got = m.apply(cmd).await?;
        answers(want, &got)?;
    }
    Ok(())
}

/// The ids of custom roles are drawn anew by every member (a known finding of
/// its own check); they are left out here.
fn without_role_ids(v: &mut Value) {
    match v {
        Value::Object(o) => {
            if o.contains_key("additional_privileges") {
                o.remove("id");
            }
            o.values_mut().for_each(without_role_ids);
        }
        Value::Array(l) => l.iter_mut().for_each(without_role_ids),
        _ => {}
    }
}

fn answers(a: &Value, b: &Value) -> R {
    let (mut a, mut b) = (a.clone(), b.clone());
    for v in [&mut a, &mut b] {
        without_role_ids(v);
        // in no order
        if let Some(dbs) = v.get_mut("Ok").and_then(|v| v.get_mut("dbs")).and_then(|d| d.as_object_mut()) {
            for d in dbs.values_mut() {
                if let Some(b) = d["buckets"].as_array_mut() {
                    b.sort_by_key(|b| b["id"].as_u64());
                }
            }
        }
    }
    same("the answers of two members differ", &a, b)
}

fn equal(a: &Machine, b: &Machine) -> R {
    let (mut x, mut y) = (json!(a.all()?), json!(b.all()?));
    without_role_ids(&mut x);
    without_role_ids(&mut y);
    if x != y {
        return Err(Fail::new(format!("two members that applied the same {} commands differ{}", a.index, diff(&x, &y))));
    }
    Ok(())
}

/// A custom role has the same id in every member.
fn role_ids(g: &mut G) -> R {
    let rt = rt();
    rt.block_on(async move {
        let (mut a, mut b) = (Machine::new(g, "a")?, Machine::new(g, "b")?);
        let name = g.ident(4);
        let cmd = Cmd::CreateRole(CLUSTER.into(), name, None, Default::default(), "t".into());
        show(g, &cmd);
        a.apply(&cmd).await?;
        b.apply(&cmd).await?;
        g.nontrivial();
        if a.all()? != b.all()? {
            return Err(Fail::with_sig("role-id", "the id of a custom role is not the same in two members".to_string()));
        }
        Ok(())
    })
}

/// A member that applies a command while another node happens to be down.
fn late_pings(g: &mut G) -> R {
    let rt = rt();
    let base = pings::base();
    rt.block_on(async move {
        let (mut a, mut b) = (Machine::new(g, "a")?, Machine::new(g, "b")?);
        let n = g.range(2, 4) as u64;
        let mut c = Catalog::new(CLUSTER);
        let mix = Mix { buckets: 1, ..Mix::default() };
        let mut cmds = Vec::new();
        for id in 1..=n {
            cmds.push(Cmd::AddDataNode(CLUSTER.into(), models::meta_data::NodeInfo { id, grpc_addr: pings::addr(base, id) }));
            cmds.push(Cmd::ReportNodeMetrics(CLUSTER.into(), models::meta_data::NodeMetrics { id, disk_free: 100 - id, time: 0, status: Default::default() }));
        }
        for cmd in &cmds {
            let r = a.apply(cmd).await?;
            b.apply(cmd).await?;
            c.apply(cmd, &r)?;
        }
        let t = Cmd::CreateTenant(CLUSTER.into(), models::schema::tenant::Tenant::new(1, "t".into(), Default::default()));
        let _ = mix;
        let s = models::schema::database_schema::DatabaseSchema::new("t", "d", Default::default(), Default::default());
        let d = Cmd::CreateDB(CLUSTER.into(), "t".into(), s);
        for cmd in [&t, &d] {
            a.apply(cmd).await?;
            b.apply(cmd).await?;
        }
        let cmd = Cmd::CreateBucket(CLUSTER.into(), "t".into(), "d".into(), g.range(0, 1000));
        show(g, &cmd);
        a.apply(&cmd).await?;
        let gone = g.range(1, n as i64) as u64;
        g.note(|| format!("node {gone} goes down before the second member applies it"));
        pings::set_down(base, gone, true);
        b.apply(&cmd).await?;
        pings::set_down(base, gone, false);
        g.nontrivial();
        if a.all()? != b.all()? {
            return Err(Fail::with_sig("apply-pings", "where a bucket is placed depends on which nodes answer when a member applies the command".to_string()));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C14

/// A node: cnosdb's own client with its caches, talking to a service of its own.
struct Node {
    store: metasrv::Store,
    admin: MetaRef,
}

struct Pool {
    free: Mutex<Vec<Node>>,
    cond: Condvar,
}

fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let root = pbt::scratch_root().join("nodes");
        let nodes = rt().block_on(async move {
            let mut v = Vec::new();
            for i in 0..12 {
                let dir = root.join(i.to_string());
                std::fs::create_dir_all(&dir).expect("directory");
                let store: metasrv::Store = Arc::new(tokio::sync::RwLock::new(StateMachine::open(dir, 1 << 28).expect("meta store")));
                let addr = metasrv::serve(store.clone()).await;
                let mut conf = Config::default();
                conf.global.cluster_name = CLUSTER.to_string();
                conf.meta.service_addr = vec![addr];
                let admin = AdminMeta::new(conf, Arc::new(MetricsRegister::default())).await;
                // nobody works on what it is told of resources
                if let Some(mut rx) = admin.take_resourceinfo_rx() {
                    tokio::spawn(async move { while rx.recv().await.is_some() {} });
                }
                v.push(Node { store, admin });
            }
            v
        });
        Pool { free: Mutex::new(nodes), cond: Condvar::new() }
    })
}

struct Lease(Option<Node>);
impl Lease {
    fn take() -> Lease {
        let p = pool();
        let mut l = p.free.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            if let Some(n) = l.pop() {
                return Lease(Some(n));
            }
            l = p.cond.wait(l).unwrap_or_else(|e| e.into_inner());
        }
    }
}
impl Drop for Lease {
    fn drop(&mut self) {
        let p = pool();
        p.free.lock().unwrap_or_else(|e| e.into_inner()).push(self.0.take().unwrap());
        p.cond.notify_one();
    }
}

async fn through(client: &MetaClientRef, cmd: &Cmd) -> Option<bool> {
    Some(match cmd {
        Cmd::CreateDB(_, _, s) => client.create_db(s.clone()).await.is_ok(),
        Cmd::AlterDB(_, _, s) => client.alter_db_schema(s.clone()).await.is_ok(),
        Cmd::SetDBIsHidden(_, t, d, h) => client.set_db_is_hidden(t, d, *h).await.is_ok(),
        Cmd::DropDB(_, _, d) => client.drop_db(d).await.is_ok(),
        Cmd::CreateTable(_, _, s) => client.create_table(s).await.is_ok(),
        Cmd::UpdateTable(_, _, s) => client.update_table(s).await.is_ok(),
        Cmd::DropTable(_, _, d, n) => client.drop_table(d, n).await.is_ok(),
        Cmd::CreateBucket(_, _, d, ts) => client.create_bucket(d, *ts).await.is_ok(),
        Cmd::DeleteBucket(_, _, d, id) => client.delete_bucket(d, *id).await.is_ok(),
        _ => return None,
    })
}

fn tenant_of(cmd: &Cmd) -> Option<&String> {
    match cmd {
        Cmd::CreateDB(_, t, _) | Cmd::AlterDB(_, t, _) | Cmd::SetDBIsHidden(_, t, _, _) | Cmd::DropDB(_, t, _) => Some(t),
        Cmd::CreateTable(_, t, _) | Cmd::UpdateTable(_, t, _) | Cmd::DropTable(_, t, _, _) => Some(t),
        Cmd::CreateBucket(_, t, _, _) | Cmd::DeleteBucket(_, t, _, _) => Some(t),
        _ => None,
    }
}

fn follow(g: &mut G) -> R {
    let rt = rt();
    let base = pings::base();
    let lease = Lease::take();
    let node = lease.0.as_ref().unwrap();
    let r = rt.block_on(async move {
        let mix = Mix { tenants: 1, users: 2, roles: 3, dbs: 5, tables: 5, buckets: 6, nodes: 2, misc: 1 };
        let ring = *g.pick(&[2usize, 3, 5, 8, 20, 8192]);
        let mut dir = dir_of(g, "a");
        let open = |dir: &PathBuf| -> Result<StateMachine, Fail> {
            let sm = StateMachine::open(dir, 1 << 28).map_err(|e| Fail::new(format!("open: {e}")))?;
            *sm.watch.logs.write() = CircleBuf::new(ring);
            Ok(sm)
        };
        *node.store.write().await = open(&dir)?;
        let mut watched = node.admin.process_full_sync().await;
        let mut tenants: HashSet<String> = HashSet::new();
        let mut c = Catalog::new(CLUSTER);
        // another member, behind the one that serves
        let mut behind_dir = dir_of(g, "b");
        let mut behind = open(&behind_dir)?;
        let mut log: Vec<Cmd> = Vec::new();
        let mut applied = 0;
        let (mut incremental, mut full) = (0, 0);
        g.note(|| format!("the service remembers {ring} changes"));
        for _ in 0..g.few(50) {
            match g.weighted(&[12, 5, 2, 1, 1]) {
                0 => {
                    for cmd in c.next(g, mix, base) {
                        show(g, &cmd);
                        let here = match tenant_of(&cmd) {
                            Some(t) if tenants.contains(t) && g.bool() => Some(t.clone()),
                            _ => None,
                        };
                        let client = match here {
                            Some(t) => {
                                let cl = node.admin.tenant_meta(&t).await;
                                if let Some(cl) = &cl {
                                    watched = watched.min(cl.version().await);
                                }
                                cl
                            }
                            None => None,
                        };
                        // the model learns the answer from a member that is asked first
                        if let Some(cl) = client {
                            g.note(|| "  by this node".into());
                            let _ = through(&cl, &cmd).await;
                        } else {
                            let _ = node.store.write().await.process_write_command(&cmd).await;
                        }
                        // and from what the service holds now
                        let _ = c.apply(&cmd, &Value::Null);
                        adopt(&mut c, &*node.store.read().await)?;
                        log.push(cmd);
                    }
                }
                1 => {
                    let data = node.store.read().await.read_change_logs(CLUSTER, &tenants, watched);
                    let data: WatchData = serde_json::from_slice(&serde_json::to_vec(&data).unwrap()).unwrap();
                    g.note(|| format!("the node, at {watched}, is told {} changes up to {}{}", data.entry_logs.len(), data.max_ver, if data.full_sync { ", to read everything" } else { "" }));
                    if data.full_sync {
                        full += 1;
                        watched = node.admin.process_full_sync().await;
                    } else {
                        if !data.entry_logs.is_empty() {
                            incremental += 1;
                        }
                        if !data.need_return(watched) {
                            continue;
                        }
                        node.admin.process_watch_data(&data).await;
                        watched = data.max_ver;
                    }
                    compare(node, &tenants, &c).await?;
                }
                2 => {
                    let names: Vec<String> = c.tenants.keys().cloned().collect();
                    if names.is_empty() {
                        continue;
                    }
                    let t = g.pick(&names).clone();
                    if let Some(cl) = node.admin.tenant_meta(&t).await {
                        g.note(|| format!("the node uses tenant {t}"));
                        watched = watched.min(cl.version().await);
                        tenants.insert(t);
                    }
                }
                3 => {
                    g.note(|| "the service restarts".into());
                    let mut s = node.store.write().await;
                    *s = behind; // lets go of the directory
                    let fresh = open(&dir)?;
                    behind = std::mem::replace(&mut *s, fresh);
                }
                _ => {
                    // the other member catches up, by the log or by a snapshot, and serves
                    let mut s = node.store.write().await;
                    if g.bool() && applied < log.len() {
                        let (snap, _) = s.create_snapshot(0).await.map_err(|e| Fail::new(format!("snapshot: {e}")))?;
                        if g.bool() {
                            let upto = g.range(applied as i64, log.len() as i64) as usize;
                            for cmd in &log[applied..upto] {
                                behind.process_write_command(cmd).await;
                            }
                        }
                        behind.restore(&snap).await.map_err(|e| Fail::new(format!("restore: {e}")))?;
                        g.note(|| "another member serves, from a snapshot".into());
                    } else {
                        for cmd in &log[applied..] {
                            behind.process_write_command(cmd).await;
                        }
                        g.note(|| "another member serves".into());
                    }
                    std::mem::swap(&mut *s, &mut behind);
                    std::mem::swap(&mut dir, &mut behind_dir);
                    applied = log.len();
                }
            }
        }
        // what the node ends up with
        for _ in 0..3 {
            let data = node.store.read().await.read_change_logs(CLUSTER, &tenants, watched);
            if data.full_sync {
                watched = node.admin.process_full_sync().await;
            } else {
                node.admin.process_watch_data(&data).await;
                watched = data.max_ver;
            }
        }
        compare(node, &tenants, &c).await?;
        if incremental >= 1 && !tenants.is_empty() {
            g.nontrivial();
        }
        g.label(if full > 0 { "read everything again" } else { "changes only" });
        Ok(())
    });
    drop(lease);
    r
}

/// The model takes over what the service holds; other checks decide whether it
/// should.
fn adopt(c: &mut Catalog, sm: &StateMachine) -> R {
    for (name, t) in c.tenants.iter_mut() {
        let meta = sm.to_tenant_meta_data(CLUSTER, name).map_err(|e| Fail::new(format!("metadata of {name}: {e}")))?;
        t.roles = meta.roles.keys().map(|r| (r.clone(), Role::default())).collect();
        t.members = meta.members.iter().filter_map(|(id, r)| id.parse().ok().map(|id| (id, r.clone()))).collect();
        t.dbs = meta
            .dbs
            .into_iter()
            .map(|(n, d)| {
                let tables = d
                    .tables
                    .into_iter()
                    .filter_map(|(n, t)| match t {
                        TableSchema::TsKvTableSchema(t) => Some((n, t.as_ref().clone())),
                        _ => None,
                    })
                    .collect();
                (n, Db { schema: d.schema, tables, buckets: d.buckets.into_iter().map(|b| (b.id, b)).collect() })
            })
            .collect();
    }
    Ok(())
}

async fn compare(node: &Node, tenants: &HashSet<String>, c: &Catalog) -> R {
    for t in tenants {
        let Some(cl) = node.admin.tenant_meta(t).await else {
            ensure!(c.tenants.get(t).map_or(true, |t| t.tenant.options().get_tenant_is_hidden()), "tenant {t} is there, the node does not find it");
            continue;
        };
        let have = cl.list_databases().map_err(|e| Fail::new(e.to_string()))?;
        let mut got = json!({ "dbs": have, "roles": {}, "version": 0 });
        canon_tenant(&mut got);
        let empty = BTreeMap::new();
        let want: BTreeMap<&String, Value> = c.tenants.get(t).map(|t| &t.dbs).unwrap_or(&empty).iter().map(|(n, d)| (n, db_value(d))).collect();
        let (got, want) = (got["dbs"].clone(), json!(want));
        if got != want {
            return Err(Fail::new(format!("what the node knows of tenant {t}{}", diff(&got, &want))));
        }
    }
    // who a user is and what it may do, as a session asks for it
    for t in tenants {
        let Some(ten) = c.tenants.get(t).filter(|t| !t.tenant.options().get_tenant_is_hidden()) else {
            continue;
        };
        for name in USERS {
            let got = node.admin.user_with_privileges(name, t).await;
            match c.users.get(name) {
                None => ensure!(got.is_err(), "the node lets the dropped user {name} in"),
                Some(u) if u.is_admin() => {
                    let got = got.map_err(|e| Fail::new(format!("the admin {name}: {e}")))?;
                    same(&format!("user {name}"), &json!(got.desc()), json!(u))?;
                }
                Some(u) => {
                    use models::oid::Identifier;
                    match (got, ten.members.get(u.id())) {
                        (Err(_), None) => {}
                        (Ok(got), Some(role)) => {
                            same(&format!("user {name}"), &json!(got.desc()), json!(u))?;
                            same(&format!("the role of {name} in {t}"), &json!(got.role()), json!(role))?;
                        }
                        (Ok(_), None) => return Err(Fail::new(format!("the node lets user {name}, no member, into {t}"))),
                        (Err(e), Some(_)) => return Err(Fail::new(format!("the node keeps the member {name} out of {t}: {e}"))),
                    }
                }
            }
        }
    }
    let mut nodes = node.admin.data_nodes().await;
    nodes.sort_by_key(|n| n.id);
    same("the data nodes the node knows", &json!(nodes), json!(c.nodes.values().collect::<Vec<_>>()))
}

/// The tenant itself changes while a node uses it.
fn kept_tenant(g: &mut G) -> R {
    let rt = rt();
    let lease = Lease::take();
    let node = lease.0.as_ref().unwrap();
    let r = rt.block_on(async move {
        let dir = dir_of(g, "a");
        *node.store.write().await = StateMachine::open(&dir, 1 << 28).map_err(|e| Fail::new(format!("open: {e}")))?;
        let t = models::schema::tenant::Tenant::new(1, "t".into(), Default::default());
        node.store.write().await.process_write_command(&Cmd::CreateTenant(CLUSTER.into(), t)).await;
        let watched = node.admin.process_full_sync().await;
        ensure!(node.admin.tenant_meta("t").await.is_some(), "the node does not find the tenant");
        let drop = g.bool();
        let cmd = if drop {
            Cmd::DropTenant(CLUSTER.into(), "t".into())
        } else {
            let mut o = models::schema::tenant::TenantOptions::default();
            o.comment = Some(g.ident(3));
            Cmd::AlterTenant(CLUSTER.into(), "t".into(), o)
        };
        show(g, &cmd);
        node.store.write().await.process_write_command(&cmd).await;
        let data = node.store.read().await.read_change_logs(CLUSTER, &["t".to_string()].into_iter().collect(), watched);
        node.admin.process_watch_data(&data).await;
        let want: Value = serde_json::from_str(&node.store.read().await.process_read_command(&ReadCommand::Tenant(CLUSTER.into(), "t".into(), true))).unwrap();
        let got = node.admin.tenant("t").await.map_err(|e| Fail::new(e.to_string()))?;
        g.nontrivial();
        if json!({ "Ok": got }) != want {
            return Err(Fail::with_sig("tenant-kept", "a node that uses a tenant goes on with the options it had, or with the dropped tenant".to_string()));
        }
        Ok(())
    });
    drop(lease);
    r
}

// ------------------------------------------------------------------

const ASSUMED: &[&str] = &["heed is a stand-in", "commands and answers go through the state machine; the log that orders them is left out"];

pub fn c13() -> Check {
    Check {
        property: "C13",
        level: "sampled",
        assumptions: ASSUMED,
        subs: vec![
            Sub { name: "replicas", rule: "at least 8 commands and a snapshot installed", quick: 16_000, thorough: 400_000, serial: false, f: replicas },
            Sub { name: "role-ids", rule: "every case", quick: 20, thorough: 200, serial: false, f: role_ids },
            Sub { name: "late-pings", rule: "every case", quick: 20, thorough: 200, serial: false, f: late_pings },
        ],
    }
}
pub fn c14() -> Check {
    Check {
        property: "C14",
        level: "sampled",
        assumptions: ASSUMED,
        subs: vec![
            Sub { name: "follow", rule: "the node uses a tenant and followed at least one change", quick: 20_000, thorough: 800_000, serial: false, f: follow },
            Sub { name: "tenant", rule: "every case", quick: 20, thorough: 200, serial: false, f: kept_tenant },
        ],
    }
}
const CATALOG: &str = "at least 8 commands succeeded and one was refused";
pub fn c15() -> Check {
    Check {
        property: "C15",
        level: "sampled",
        assumptions: ASSUMED,
        subs: vec![Sub { name: "accounts", rule: CATALOG, quick: 40_000, thorough: 1_000_000, serial: false, f: accounts }],
    }
}
pub fn c16() -> Check {
    Check {
        property: "C16",
        level: "sampled",
        assumptions: ASSUMED,
        subs: vec![
            Sub { name: "objects", rule: CATALOG, quick: 25_000, thorough: 600_000, serial: false, f: objects },
            Sub { name: "upkeep", rule: CATALOG, quick: 15_000, thorough: 400_000, serial: false, f: upkeep },
        ],
    }
}
pub fn c17() -> Check {
    Check {
        property: "C17",
        level: "sampled",
        assumptions: ASSUMED,
        subs: vec![Sub { name: "placement", rule: "at least two buckets were made", quick: 25_000, thorough: 500_000, serial: false, f: placement }],
    }
}
