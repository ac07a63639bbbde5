//! A model of the metadata service: what every command has to answer and what
//! every read has to show after it.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

use meta::store::command::*;
use models::auth::privilege::DatabasePrivilege;
use models::auth::role::{SystemTenantRole, TenantRoleIdentifier};
use models::auth::user::{UserDesc, UserOptions, UserOptionsBuilder};
use models::meta_data::*;
use models::node_info::NodeStatus;
use models::oid::{Identifier, Oid};
use models::schema::database_schema::{DatabaseConfigBuilder, DatabaseOptionsBuilder, DatabaseSchema};
use models::schema::query_info::{QueryId, QueryInfo};
use models::schema::resource_info::{ResourceInfo, ResourceOperator};
use models::schema::table_schema::TableSchema;
use models::schema::tenant::{Tenant, TenantOptions};
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use pbt::{ensure, ensure_eq, fail, Fail, G, R};
use serde_json::{json, Value};
use utils::duration::CnosDuration;
use utils::precision::Precision;

pub type Cmd = WriteCommand;

#[derive(Clone)]
pub struct Db {
    pub schema: DatabaseSchema,
    pub tables: BTreeMap<String, TskvTableSchema>,
    pub buckets: BTreeMap<u32, BucketInfo>,
}

#[derive(Clone, Default)]
pub struct Role {
    pub inherits: Option<SystemTenantRole>,
    pub privileges: BTreeMap<String, DatabasePrivilege>,
}

#[derive(Clone)]
pub struct Ten {
    pub tenant: Tenant,
    pub dbs: BTreeMap<String, Db>,
    pub roles: BTreeMap<String, Role>,
    pub members: BTreeMap<Oid, TenantRoleIdentifier>,
}

#[derive(Clone, Default)]
pub struct Catalog {
    pub cluster: String,
    pub tenants: BTreeMap<String, Ten>,
    pub users: BTreeMap<String, UserDesc>,
    pub nodes: BTreeMap<u64, NodeInfo>,
    pub metrics: BTreeMap<u64, NodeMetrics>,
    /// nodes nobody answers for
    pub dead: BTreeSet<u64>,
    pub mark: (u64, bool),
    pub resources: BTreeMap<String, ResourceInfo>,
    pub queries: BTreeMap<u64, Value>,
    /// every id ever handed out
    pub ids: BTreeSet<u32>,
    pub version: u64,
    /// users that were dropped
    pub gone: Vec<Oid>,
    pub buckets_made: usize,
    pub refused: usize,
    pub done: usize,
}

#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub tenants: u64,
    pub users: u64,
    pub roles: u64,
    pub dbs: u64,
    pub tables: u64,
    pub buckets: u64,
    pub nodes: u64,
    pub misc: u64,
}

const TENANTS: [&str; 3] = ["t", "t1", "t10"];
const DBS: [&str; 4] = ["d", "d1", "d10", "buckets"];
const TABLES: [&str; 4] = ["m", "m1", "M", "schemas"];
pub const USERS: [&str; 3] = ["u", "u1", "root"];
const ROLES: [&str; 3] = ["r", "r1", "member"];

fn pick<'a, T: Clone>(g: &mut G, known: Vec<&'a T>, all: &'a [T]) -> T {
    if !known.is_empty() && g.chance(3, 4) {
        known[g.below(known.len() as u64) as usize].clone()
    } else {
        all[g.below(all.len() as u64) as usize].clone()
    }
}

fn name(g: &mut G, known: Vec<String>, all: &[&str]) -> String {
    let all: Vec<String> = all.iter().map(|s| s.to_string()).collect();
    pick(g, known.iter().collect(), &all)
}

fn oid(g: &mut G) -> Oid {
    // a number JSON values can hold
    ((g.below(1 << 40) << 20) | g.below(1 << 20)) as u128
}

fn tenant_options(g: &mut G) -> TenantOptions {
    TenantOptions {
        comment: g.bool().then(|| g.text(5)),
        limiter_config: None,
        drop_after: g.chance(1, 4).then(|| CnosDuration::new_with_day(g.range(0, 5) as u64)),
        tenant_is_hidden: false,
    }
}

fn user_options(g: &mut G) -> UserOptions {
    let mut b = UserOptionsBuilder::default();
    if g.bool() {
        b.hash_password(g.text(5));
    }
    if g.bool() {
        b.must_change_password(g.bool());
    }
    if g.bool() {
        b.comment(g.text(5));
    }
    if g.bool() {
        b.granted_admin(g.bool());
    }
    if g.chance(1, 4) {
        b.rsa_public_key(g.text(5));
    }
    b.build().unwrap()
}

fn role_id(g: &mut G, roles: Vec<String>) -> TenantRoleIdentifier {
    match g.below(4) {
        0 => TenantRoleIdentifier::System(SystemTenantRole::Owner),
        1 => TenantRoleIdentifier::System(SystemTenantRole::Member),
        _ => TenantRoleIdentifier::Custom(name(g, roles, &ROLES)),
    }
}

fn privilege(g: &mut G) -> DatabasePrivilege {
    g.pick(&[DatabasePrivilege::Read, DatabasePrivilege::Write, DatabasePrivilege::Full]).clone()
}

const SECOND: u64 = 1_000_000_000;

fn duration(g: &mut G) -> CnosDuration {
    match g.below(6) {
        0 => CnosDuration::new_inf(),
        1 => CnosDuration::new_with_day(g.range(1, 400) as u64),
        2 => CnosDuration::new_with_day(g.range(1, 4) as u64),
        _ => CnosDuration::new_with_duration(std::time::Duration::from_nanos(SECOND * g.range(1, 40) as u64)),
    }
}

fn options(g: &mut G, wide: bool) -> DatabaseOptionsBuilder {
    let mut b = DatabaseOptionsBuilder::new();
    if g.chance(1, 8) {
        b.with_ttl(CnosDuration::new_with_day(g.range(1, 20_000) as u64));
    }
    if g.bool() {
        b.with_shard_num(if wide { g.range(0, 6) as u64 } else { g.range(1, 3) as u64 });
    }
    if g.bool() || wide {
        b.with_vnode_duration(duration(g));
    }
    if g.bool() {
        b.with_replica(g.range(0, 4) as u64);
    }
    b
}

fn schema(g: &mut G, tenant: &str, db: &str, wide: bool) -> DatabaseSchema {
    let o = options(g, wide).build();
    let mut c = DatabaseConfigBuilder::new();
    c.with_precision(*g.pick(&[Precision::MS, Precision::US, Precision::NS]));
    DatabaseSchema::new(tenant, db, o, Arc::new(c.build(Default::default())))
}

fn columns(g: &mut G) -> Vec<TableColumn> {
    let mut v = vec![TableColumn::new_time_column(0, arrow_schema::TimeUnit::Nanosecond)];
    for i in 1..=g.range(1, 4) as u32 {
        let ty = if i == 1 { ColumnType::Tag } else { ColumnType::Field(*g.pick(&[models::ValueType::Float, models::ValueType::Integer, models::ValueType::String])) };
        v.push(TableColumn::new(i, format!("c{i}"), ty, Default::default()));
    }
    v
}

/// A timestamp some bucket starts, ends, or is near of.
fn timestamp(g: &mut G, db: &Db) -> i64 {
    let edges: Vec<i64> = db.buckets.values().flat_map(|b| [b.start_time, b.end_time]).collect();
    match g.below(6) {
        0 | 1 if !edges.is_empty() => {
            let e = *g.pick(&edges);
            e.saturating_add(g.range(-2, 2))
        }
        0..=2 => g.range(-100, 100) * (SECOND as i64 / 10),
        3 => g.i64_any(),
        4 => g.range(-1000, 1000),
        _ => g.range(1_600_000_000, 1_700_000_000) * SECOND as i64,
    }
}

impl Catalog {
    pub fn new(cluster: &str) -> Catalog {
        Catalog { cluster: cluster.to_string(), ..Catalog::default() }
    }

    pub fn who_is_down(&mut self) {
        self.dead = self.nodes.values().filter(|n| crate::pings::is_down(&n.grpc_addr)).map(|n| n.id).collect();
    }

    fn tenant_names(&self) -> Vec<String> {
        self.tenants.keys().cloned().collect()
    }

    fn user_id(&self, g: &mut G) -> Oid {
        let known: Vec<Oid> = self.users.values().map(|u| *u.id()).collect();
        if !known.is_empty() && g.chance(7, 8) {
            *g.pick(&known)
        } else {
            oid(g)
        }
    }

    /// The next commands; several when they belong together.
    pub fn next(&self, g: &mut G, mix: Mix, base: u32) -> Vec<Cmd> {
        let cl = self.cluster.clone();
        if self.nodes.len() < 2 {
            let id = self.nodes.len() as u64 + 1;
            return self.add_node(g, id, base);
        }
        if self.tenants.is_empty() {
            return vec![Cmd::CreateTenant(cl, Tenant::new(oid(g), name(g, vec![], &TENANTS), tenant_options(g)))];
        }
        if self.users.is_empty() && mix.users + mix.roles > 0 {
            return vec![Cmd::CreateUser(cl, UserDesc::new(oid(g), name(g, vec![], &USERS), user_options(g), false))];
        }
        let tname = {
            let names = self.tenant_names();
            g.pick(&names).clone()
        };
        let ten = &self.tenants[&tname];
        let dbs: Vec<String> = ten.dbs.keys().cloned().collect();
        match g.weighted(&[mix.tenants, mix.users, mix.roles, mix.dbs, mix.tables, mix.buckets, mix.nodes, mix.misc]) {
            0 => {
                let n = name(g, self.tenant_names(), &TENANTS);
                match g.below(6) {
                    0 => self.drop_tenant(&n),
                    1 => vec![Cmd::AlterTenant(cl, n, tenant_options(g))],
                    2 => vec![Cmd::SetTenantIsHidden(cl, n, g.bool())],
                    3 => vec![Cmd::RenameTenant(cl, n, "t".into())],
                    _ => vec![Cmd::CreateTenant(cl, Tenant::new(oid(g), n, tenant_options(g)))],
                }
            }
            1 => {
                let n = name(g, self.users.keys().cloned().collect(), &USERS);
                match g.below(6) {
                    0 => vec![Cmd::DropUser(cl, n)],
                    1 | 2 => vec![Cmd::AlterUser(cl, n, user_options(g))],
                    3 => vec![Cmd::RenameUser(cl, n, "u".into())],
                    _ => vec![Cmd::CreateUser(cl, UserDesc::new(oid(g), n, user_options(g), g.bool()))],
                }
            }
            2 => {
                let roles: Vec<String> = ten.roles.keys().cloned().collect();
                let r = name(g, roles.clone(), &ROLES);
                let grants = |g: &mut G| -> Vec<(DatabasePrivilege, String)> {
                    let held: Vec<(DatabasePrivilege, String)> = ten.roles.get(&r).map(|r| r.privileges.iter().map(|(d, p)| (p.clone(), d.clone())).collect()).unwrap_or_default();
                    let n = g.range(1, 3) as usize;
                    (0..n)
                        .map(|_| if !held.is_empty() && g.bool() { g.pick(&held).clone() } else { (privilege(g), name(g, dbs.clone(), &DBS)) })
                        .collect()
                };
                match g.below(9) {
                    0 | 1 => {
                        // of a user that was looked up
                        let known: Vec<Oid> = self.users.values().map(|u| *u.id()).collect();
                        vec![Cmd::AddMemberToTenant(cl, *g.pick(&known), role_id(g, roles), tname)]
                    }
                    2 => vec![Cmd::RemoveMemberFromTenant(cl, self.user_id(g), tname)],
                    3 => vec![Cmd::ReasignMemberRole(cl, self.user_id(g), role_id(g, roles), tname)],
                    4 | 5 => {
                        let inherits = match g.below(3) {
                            0 => None,
                            1 => Some(SystemTenantRole::Owner),
                            _ => Some(SystemTenantRole::Member),
                        };
                        let p: HashMap<String, DatabasePrivilege> = if g.chance(1, 3) { [(name(g, dbs.clone(), &DBS), privilege(g))].into_iter().collect() } else { HashMap::new() };
                        vec![Cmd::CreateRole(cl, r, inherits, p, tname)]
                    }
                    6 => vec![Cmd::DropRole(cl, r, tname)],
                    7 => {
                        let p = grants(g);
                        vec![Cmd::GrantPrivileges(cl, p, r, tname)]
                    }
                    _ => {
                        let p = grants(g);
                        vec![Cmd::RevokePrivileges(cl, p, r, tname)]
                    }
                }
            }
            3 => {
                let n = name(g, dbs, &DBS);
                match g.below(7) {
                    0 => vec![Cmd::DropDB(cl, tname, n)],
                    1 => vec![Cmd::SetDBIsHidden(cl, tname, n, g.bool())],
                    2 | 3 => {
                        // as the planner does: the current schema with some options changed
                        let s = match ten.dbs.get(&n) {
                            Some(d) => {
                                let mut s = d.schema.clone();
                                s.options.apply_builder(&options(g, mix.buckets > 0));
                                s
                            }
                            None => schema(g, &tname, &n, mix.buckets > 0),
                        };
                        vec![Cmd::AlterDB(cl, tname, s)]
                    }
                    _ => {
                        let s = schema(g, &tname, &n, mix.buckets > 0);
                        vec![Cmd::CreateDB(cl, tname, s)]
                    }
                }
            }
            4 => {
                let d = name(g, dbs, &DBS);
                let tables: Vec<String> = ten.dbs.get(&d).map(|d| d.tables.keys().cloned().collect()).unwrap_or_default();
                let n = name(g, tables, &TABLES);
                let old = ten.dbs.get(&d).and_then(|d| d.tables.get(&n));
                match g.below(6) {
                    0 => vec![Cmd::DropTable(cl, tname, d, n)],
                    1 | 2 => {
                        let mut t = old.cloned().unwrap_or_else(|| TskvTableSchema::new(tname.clone(), d.clone(), n.clone(), columns(g)));
                        let id = t.next_column_id();
                        t.add_column(TableColumn::new(id, format!("n{id}"), ColumnType::Field(models::ValueType::Float), Default::default()));
                        t.schema_version = t.schema_version.wrapping_add(*g.pick(&[1, 1, 1, 1, 0, 2]));
                        vec![Cmd::UpdateTable(cl, tname, TableSchema::TsKvTableSchema(Arc::new(t)))]
                    }
                    _ => vec![Cmd::CreateTable(cl, tname.clone(), TableSchema::TsKvTableSchema(Arc::new(TskvTableSchema::new(tname, d, n, columns(g)))))],
                }
            }
            5 => {
                let d = name(g, dbs, &DBS);
                let Some(db) = ten.dbs.get(&d) else {
                    return vec![Cmd::CreateBucket(cl, tname, d, g.range(-100, 100))];
                };
                if db.buckets.is_empty() || g.chance(2, 3) {
                    return vec![Cmd::CreateBucket(cl, tname, d, timestamp(g, db))];
                }
                let ids: Vec<u32> = db.buckets.keys().cloned().collect();
                let bid = *g.pick(&ids);
                if g.chance(1, 8) {
                    return vec![Cmd::DeleteBucket(cl, tname, d, bid)];
                }
                let b = &db.buckets[&bid];
                let set = g.pick(&b.shard_group).clone();
                let bucket_id = if g.chance(1, 10) { 9999 } else { bid };
                match g.below(3) {
                    0 => {
                        let v = g.pick(&set.vnodes).clone();
                        vec![Cmd::ChangeReplSetLeader(ChangeReplSetLeaderArgs {
                            cluster: cl,
                            tenant: tname,
                            db_name: d,
                            bucket_id,
                            repl_id: set.id,
                            leader_node_id: v.node_id,
                            leader_vnode_id: v.id,
                        })]
                    }
                    1 => {
                        let v = g.pick(&set.vnodes).clone();
                        let status = *g.pick(&[VnodeStatus::Running, VnodeStatus::Copying, VnodeStatus::Broken]);
                        vec![Cmd::UpdateVnode(UpdateVnodeArgs {
                            cluster: cl,
                            vnode_info: VnodeAllInfo {
                                vnode_id: v.id,
                                node_id: v.node_id,
                                repl_set_id: set.id,
                                bucket_id,
                                db_name: d,
                                tenant: tname,
                                status,
                                start_time: b.start_time,
                                end_time: b.end_time,
                            },
                        })]
                    }
                    _ => {
                        let mut del: Vec<VnodeInfo> = set.vnodes.iter().filter(|_| g.chance(1, 2)).cloned().collect();
                        if g.chance(1, 4) {
                            for d in del.iter_mut() {
                                d.node_id += 50; // some other vnode
                            }
                        }
                        let add = if g.bool() {
                            let nodes: Vec<u64> = self.nodes.keys().cloned().collect();
                            let mut v = VnodeInfo::new(50_000 + g.below(1000) as u32, *g.pick(&nodes));
                            v.status = VnodeStatus::Copying;
                            vec![v]
                        } else {
                            vec![]
                        };
                        vec![Cmd::UpdateVnodeReplSet(UpdateVnodeReplSetArgs { cluster: cl, tenant: tname, db_name: d, bucket_id, repl_id: set.id, del_info: del, add_info: add })]
                    }
                }
            }
            6 => {
                let id = g.range(1, 5) as u64;
                self.add_node(g, id, base)
            }
            _ => match g.below(7) {
                0 => vec![Cmd::RetainID(cl, g.range(0, 5) as u32)],
                1 => {
                    let n = format!("{}-{}", tname, g.below(2));
                    let op = ResourceOperator::DropDatabase(tname.clone(), name(g, dbs, &DBS));
                    let info = ResourceInfo::new((*ten.tenant.id(), "d".into()), n.clone(), op, &None, g.range(1, 3) as u64);
                    vec![Cmd::ResourceInfo(cl, n, info)]
                }
                2 => vec![Cmd::ResourceInfosMark(cl, g.range(1, 3) as u64, g.bool())],
                3 | 4 => {
                    let id = g.range(1, 4) as u64;
                    let user = UserDesc::new(1, "u".into(), UserOptions::default(), false);
                    let q = QueryInfo::new(
                        QueryId::from(id),
                        g.text(4),
                        *ten.tenant.id(),
                        tname,
                        "d".into(),
                        models::auth::user::User::new(user, Default::default(), None),
                        g.range(1, 3) as u64,
                    );
                    vec![Cmd::WriteQueryInfo(cl, id, q)]
                }
                5 => vec![Cmd::RemoveQueryInfo(cl, g.range(1, 4) as u64)],
                _ => vec![Cmd::MoveQueryInfo(cl, g.range(1, 3) as u64, g.range(1, 3) as u64)],
            },
        }
    }

    fn add_node(&self, g: &mut G, id: u64, base: u32) -> Vec<Cmd> {
        let addr = crate::pings::addr(base, if g.chance(1, 6) { g.range(1, 5) as u64 } else { id });
        let mut out = Vec::new();
        if !self.nodes.contains_key(&id) || g.chance(1, 4) {
            out.push(Cmd::AddDataNode(self.cluster.clone(), NodeInfo { id, grpc_addr: addr }));
        }
        let status = if g.chance(1, 6) { g.pick(&[NodeStatus::Broken, NodeStatus::Unreachable, NodeStatus::NoDiskSpace, NodeStatus::Cordon]).clone() } else { NodeStatus::Healthy };
        out.push(Cmd::ReportNodeMetrics(self.cluster.clone(), NodeMetrics { id, disk_free: g.range(0, 4) as u64 * 100, time: g.range(0, 100), status }));
        out
    }

    /// What the coordinator does to drop a tenant.
    fn drop_tenant(&self, n: &str) -> Vec<Cmd> {
        let Some(t) = self.tenants.get(n) else {
            return vec![];
        };
        let mut out: Vec<Cmd> = t.dbs.keys().map(|d| Cmd::DropDB(self.cluster.clone(), n.to_string(), d.clone())).collect();
        out.push(Cmd::DropTenant(self.cluster.clone(), n.to_string()));
        out
    }

    // ---------------------------------------------------------- the answers

    fn err(&mut self, resp: &Value, kind: &str) -> R {
        self.refused += 1;
        let got = resp.get("Err").and_then(|e| e.as_object()).and_then(|o| o.keys().next().cloned());
        ensure!(got.as_deref() == Some(kind), "expected the error {kind}, got {resp}");
        Ok(())
    }

    fn ok(&mut self, resp: &Value) -> Result<Value, Fail> {
        self.done += 1;
        match resp.get("Ok") {
            Some(v) => Ok(v.clone()),
            None => Err(Fail::new(format!("expected success, got {resp}"))),
        }
    }

    fn is(&mut self, resp: &Value, want: Value) -> R {
        let got = self.ok(resp)?;
        ensure!(got == want, "the answer is {got}, {want} is expected");
        Ok(())
    }

    fn role_exists(&self, t: &str, r: &str) -> bool {
        self.tenants.get(t).is_some_and(|t| t.roles.contains_key(r)) || SystemTenantRole::try_from(r).is_ok()
    }

    /// The nodes a bucket can be placed on, those with more room first.
    fn placeable(&self, alive: bool) -> Vec<(u64, u64)> {
        let mut v: Vec<(u64, u64)> = self
            .nodes
            .keys()
            .filter_map(|id| self.metrics.get(id))
            .filter(|m| m.status == NodeStatus::Healthy && !(alive && self.dead.contains(&m.id)))
            .map(|m| (m.id, m.disk_free))
            .collect();
        v.sort_by_key(|(_, d)| std::cmp::Reverse(*d));
        v
    }

    fn schema_check(&mut self, s: &DatabaseSchema) -> Option<&'static str> {
        if s.options.replica() > self.placeable(false).len() as u64 {
            Some("ValidNodeNotEnough")
        } else if s.options.shard_num() == 0 {
            Some("DatabaseSchemaInvalid")
        } else {
            None
        }
    }

    fn bucket<'a>(&'a mut self, t: &str, d: &str, b: u32) -> Option<&'a mut BucketInfo> {
        self.tenants.get_mut(t)?.dbs.get_mut(d)?.buckets.get_mut(&b)
    }

    /// Takes the command into the model; the answer has to be the right one.
    pub fn apply(&mut self, cmd: &Cmd, resp: &Value) -> R {
        match cmd {
            Cmd::CreateTenant(_, t) => {
                if self.tenants.contains_key(t.name()) {
                    return self.err(resp, "TenantAlreadyExists");
                }
                self.tenants.insert(t.name().into(), Ten { tenant: t.clone(), dbs: Default::default(), roles: Default::default(), members: Default::default() });
                self.is(resp, Value::Null)
            }
            Cmd::AlterTenant(_, n, o) => {
                let Some(t) = self.tenants.get_mut(n).filter(|t| !t.tenant.options().get_tenant_is_hidden()) else {
                    return self.err(resp, "TenantNotFound");
                };
                t.tenant = Tenant::new(*t.tenant.id(), n.clone(), o.clone());
                let want = json!(t.tenant);
                self.is(resp, want)
            }
            Cmd::SetTenantIsHidden(_, n, h) => {
                let Some(t) = self.tenants.get_mut(n) else {
                    return self.err(resp, "TenantNotFound");
                };
                let mut o = t.tenant.options().clone();
                o.set_tenant_is_hidden(*h);
                t.tenant = Tenant::new(*t.tenant.id(), n.clone(), o);
                let want = json!(t.tenant);
                self.is(resp, want)
            }
            Cmd::RenameTenant(..) | Cmd::RenameUser(..) => self.err(resp, "NotSupport"),
            Cmd::DropTenant(_, n) => {
                self.tenants.remove(n);
                self.is(resp, Value::Null)
            }
            Cmd::CreateUser(_, u) => {
                if self.users.contains_key(u.name()) {
                    return self.err(resp, "UserAlreadyExists");
                }
                self.users.insert(u.name().into(), u.clone());
                self.is(resp, Value::Null)
            }
            Cmd::AlterUser(_, n, o) => {
                let Some(u) = self.users.get_mut(n) else {
                    return self.err(resp, "UserNotFound");
                };
                // what the command does not mention stays
                let (mut old, new) = (json!(u.options()), json!(o));
                for (k, v) in new.as_object().unwrap() {
                    if !v.is_null() {
                        old[k] = v.clone();
                    }
                }
                let merged: UserOptions = serde_json::from_value(old).unwrap();
                *u = UserDesc::new(*u.id(), n.clone(), merged, u.is_root_admin());
                self.is(resp, Value::Null)
            }
            Cmd::DropUser(_, n) => {
                let Some(u) = self.users.remove(n) else {
                    return self.is(resp, json!(false));
                };
                self.gone.push(*u.id());
                for t in self.tenants.values_mut() {
                    t.members.remove(u.id());
                }
                self.is(resp, json!(true))
            }
            Cmd::AddMemberToTenant(_, id, role, t) => {
                if self.tenants[t].members.contains_key(id) {
                    return self.err(resp, "UserAlreadyExists");
                }
                if !self.role_exists(t, role.name()) {
                    return self.err(resp, "RoleNotFound");
                }
                self.tenants.get_mut(t).unwrap().members.insert(*id, role.clone());
                self.is(resp, Value::Null)
            }
            Cmd::RemoveMemberFromTenant(_, id, t) => {
                if self.tenants.get_mut(t).unwrap().members.remove(id).is_none() {
                    return self.err(resp, "UserNotFound");
                }
                self.is(resp, Value::Null)
            }
            Cmd::ReasignMemberRole(_, id, role, t) => {
                if !self.tenants[t].members.contains_key(id) {
                    return self.err(resp, "UserNotFound");
                }
                if !self.role_exists(t, role.name()) {
                    return self.err(resp, "RoleNotFound");
                }
                self.tenants.get_mut(t).unwrap().members.insert(*id, role.clone());
                self.is(resp, Value::Null)
            }
            Cmd::CreateRole(_, r, inherits, p, t) => {
                if self.tenants[t].roles.contains_key(r) {
                    return self.err(resp, "RoleAlreadyExists");
                }
                let role = Role { inherits: inherits.clone(), privileges: p.clone().into_iter().collect() };
                self.tenants.get_mut(t).unwrap().roles.insert(r.clone(), role);
                self.is(resp, Value::Null)
            }
            Cmd::DropRole(_, r, t) => {
                if self.tenants.get_mut(t).unwrap().roles.remove(r).is_none() {
                    return self.err(resp, "RoleNotFound");
                }
                self.is(resp, json!(true))
            }
            Cmd::GrantPrivileges(_, p, r, t) => {
                let ten = self.tenants.get_mut(t).unwrap();
                let Some(role) = ten.roles.get_mut(r) else {
                    return self.err(resp, "RoleNotFound");
                };
                if p.iter().any(|(_, d)| !ten.dbs.contains_key(d)) {
                    return self.err(resp, "DatabaseNotFound");
                }
                for (p, d) in p {
                    role.privileges.insert(d.clone(), p.clone());
                }
                self.is(resp, Value::Null)
            }
            Cmd::RevokePrivileges(_, p, r, t) => {
                let Some(role) = self.tenants.get_mut(t).unwrap().roles.get_mut(r) else {
                    return self.err(resp, "RoleNotFound");
                };
                let mut left = role.privileges.clone();
                for (p, d) in p {
                    if left.get(d) != Some(p) {
                        return self.err(resp, "PrivilegeCannotRevoke");
                    }
                    left.remove(d);
                }
                role.privileges = left;
                self.is(resp, Value::Null)
            }
            Cmd::CreateDB(_, t, s) => {
                if self.tenants[t].dbs.contains_key(s.database_name()) {
                    return self.err(resp, "DatabaseAlreadyExists");
                }
                if let Some(e) = self.schema_check(s) {
                    return self.err(resp, e);
                }
                let db = Db { schema: s.clone(), tables: Default::default(), buckets: Default::default() };
                self.tenants.get_mut(t).unwrap().dbs.insert(s.database_name().into(), db);
                self.same_tenant(t, resp)
            }
            Cmd::AlterDB(_, t, s) => {
                if !self.tenants[t].dbs.contains_key(s.database_name()) {
                    return self.err(resp, "DatabaseNotFound");
                }
                if let Some(e) = self.schema_check(s) {
                    return self.err(resp, e);
                }
                self.tenants.get_mut(t).unwrap().dbs.get_mut(s.database_name()).unwrap().schema = s.clone();
                self.same_tenant(t, resp)
            }
            Cmd::SetDBIsHidden(_, t, d, h) => {
                let Some(db) = self.tenants.get_mut(t).unwrap().dbs.get_mut(d) else {
                    return self.err(resp, "DatabaseNotFound");
                };
                db.schema.set_db_is_hidden(*h);
                self.same_tenant(t, resp)
            }
            Cmd::DropDB(_, t, d) => {
                self.tenants.get_mut(t).unwrap().dbs.remove(d);
                self.is(resp, Value::Null)
            }
            Cmd::CreateTable(_, t, s) => {
                let TableSchema::TsKvTableSchema(s) = s else { fail!("not a kept table") };
                let Some(db) = self.tenants.get_mut(t).unwrap().dbs.get_mut(&s.db) else {
                    return self.err(resp, "DatabaseNotFound");
                };
                if db.tables.contains_key(&s.name) {
                    return self.err(resp, "TableAlreadyExists");
                }
                db.tables.insert(s.name.clone(), s.as_ref().clone());
                self.same_tenant(t, resp)
            }
            Cmd::UpdateTable(_, t, s) => {
                let TableSchema::TsKvTableSchema(s) = s else { fail!("not a kept table") };
                let Some(old) = self.tenants.get_mut(t).unwrap().dbs.get_mut(&s.db).and_then(|d| d.tables.get_mut(&s.name)) else {
                    return self.err(resp, "TableNotFound");
                };
                if old.schema_version + 1 != s.schema_version {
                    return self.err(resp, "UpdateTableConflict");
                }
                *old = s.as_ref().clone();
                self.is(resp, Value::Null)
            }
            Cmd::DropTable(_, t, d, n) => {
                if self.tenants.get_mut(t).unwrap().dbs.get_mut(d).and_then(|d| d.tables.remove(n)).is_none() {
                    return self.err(resp, "TableNotFound");
                }
                self.is(resp, Value::Null)
            }
            Cmd::CreateBucket(_, t, d, ts) => self.create_bucket(t, d, *ts, resp),
            Cmd::DeleteBucket(_, t, d, id) => {
                if let Some(db) = self.tenants.get_mut(t).unwrap().dbs.get_mut(d) {
                    db.buckets.remove(id);
                }
                self.is(resp, Value::Null)
            }
            Cmd::UpdateVnode(a) => {
                let i = &a.vnode_info;
                let Some(b) = self.bucket(&i.tenant, &i.db_name, i.bucket_id) else {
                    return self.err(resp, "BucketNotFound");
                };
                for v in b.shard_group.iter_mut().filter(|s| s.id == i.repl_set_id).flat_map(|s| s.vnodes.iter_mut()) {
                    if v.id == i.vnode_id {
                        v.status = i.status;
                    }
                }
                self.is(resp, Value::Null)
            }
            Cmd::ChangeReplSetLeader(a) => {
                let Some(b) = self.bucket(&a.tenant, &a.db_name, a.bucket_id) else {
                    return self.err(resp, "BucketNotFound");
                };
                for s in b.shard_group.iter_mut().filter(|s| s.id == a.repl_id) {
                    (s.leader_node_id, s.leader_vnode_id) = (a.leader_node_id, a.leader_vnode_id);
                }
                self.is(resp, Value::Null)
            }
            Cmd::UpdateVnodeReplSet(a) => {
                let Some(b) = self.bucket(&a.tenant, &a.db_name, a.bucket_id) else {
                    return self.err(resp, "BucketNotFound");
                };
                if let Some(s) = b.shard_group.iter_mut().find(|s| s.id == a.repl_id) {
                    s.vnodes.retain(|v| !a.del_info.iter().any(|d| d.id == v.id && d.node_id == v.node_id));
                    s.vnodes.extend(a.add_info.iter().cloned());
                    if !s.vnodes.iter().any(|v| v.id == s.leader_vnode_id) {
                        if let Some(v) = s.vnodes.first() {
                            (s.leader_vnode_id, s.leader_node_id) = (v.id, v.node_id);
                        }
                    }
                }
                b.shard_group.retain(|s| !s.vnodes.is_empty());
                if b.shard_group.is_empty() {
                    self.tenants.get_mut(&a.tenant).unwrap().dbs.get_mut(&a.db_name).unwrap().buckets.remove(&a.bucket_id);
                }
                self.is(resp, Value::Null)
            }
            Cmd::AddDataNode(_, n) => {
                if self.nodes.values().any(|o| o.id != n.id && o.grpc_addr == n.grpc_addr) {
                    return self.err(resp, "DataNodeExist");
                }
                self.nodes.insert(n.id, n.clone());
                if !self.mark.1 {
                    self.mark = (n.id, true);
                }
                self.is(resp, Value::Null)
            }
            Cmd::ReportNodeMetrics(_, m) => {
                self.metrics.insert(m.id, m.clone());
                self.is(resp, Value::Null)
            }
            Cmd::RetainID(_, n) => {
                let got = self.ok(resp)?;
                let first = got.as_u64().ok_or_else(|| Fail::new(format!("an id was expected: {got}")))? as u32;
                for id in first..first + n {
                    ensure!(self.ids.insert(id), "the id {id} is handed out a second time");
                }
                Ok(())
            }
            Cmd::ResourceInfo(_, n, i) => {
                self.resources.insert(n.clone(), i.clone());
                self.is(resp, Value::Null)
            }
            Cmd::ResourceInfosMark(_, node, lock) => {
                if if *lock { self.mark.1 } else { self.mark.0 != *node } {
                    return self.err(resp, "ResourceInfosMarkIsLock");
                }
                self.mark = (*node, *lock);
                self.is(resp, Value::Null)
            }
            Cmd::WriteQueryInfo(_, id, q) => {
                self.queries.insert(*id, json!(q));
                self.is(resp, Value::Null)
            }
            Cmd::RemoveQueryInfo(_, id) => {
                self.queries.remove(id);
                self.is(resp, Value::Null)
            }
            Cmd::MoveQueryInfo(_, from, to) => {
                for q in self.queries.values_mut() {
                    if q["node_id"] == json!(from) {
                        q["node_id"] = json!(to);
                    }
                }
                self.is(resp, Value::Null)
            }
            _ => fail!("a command the model does not know"),
        }
    }

    fn create_bucket(&mut self, t: &str, d: &str, ts: i64, resp: &Value) -> R {
        let Some(db) = self.tenants[t].dbs.get(d).cloned() else {
            return self.err(resp, "DatabaseNotFound");
        };
        if db.buckets.values().any(|b| b.start_time <= ts && ts < b.end_time) {
            return self.same_tenant(t, resp);
        }
        let nodes = self.placeable(true);
        let (shards, replicas) = (db.schema.options.shard_num(), db.schema.options.replica());
        if replicas.max(1) > nodes.len() as u64 {
            return self.err(resp, "ValidNodeNotEnough");
        }
        if ts < db.schema.time_to_expired() {
            return self.err(resp, "NotSupport");
        }
        if ts == i64::MAX {
            // no half-open range contains it
            ensure!(resp.get("Err").is_some(), "a bucket for the last timestamp: {resp}");
            self.refused += 1;
            return Ok(());
        }
        let buckets = self.ok(resp)?["dbs"][d]["buckets"].take();
        let buckets: Vec<BucketInfo> = serde_json::from_value(buckets).map_err(|e| Fail::new(format!("the buckets in the answer do not parse: {e}")))?;
        let new: Vec<&BucketInfo> = buckets.iter().filter(|b| !db.buckets.contains_key(&b.id)).collect();
        ensure!(new.len() == 1, "one new bucket is expected, there are {new:?}");
        let b = new[0].clone();
        self.buckets_made += 1;

        // the range
        ensure!(b.start_time <= ts && ts < b.end_time, "the bucket [{}, {}) made for {ts} does not contain it", b.start_time, b.end_time);
        for o in db.buckets.values() {
            ensure!(b.end_time <= o.start_time || o.end_time <= b.start_time, "the new bucket [{}, {}) overlaps [{}, {})", b.start_time, b.end_time, o.start_time, o.end_time);
        }
        let len = db.schema.options.vnode_duration().to_precision(*db.schema.config.precision());
        if len > 0 {
            let lo = (ts as i128).div_euclid(len as i128) * len as i128;
            let (mut lo, mut hi) = (lo.max(i64::MIN as i128) as i64, (lo + len as i128).min(i64::MAX as i128) as i64);
            for o in db.buckets.values() {
                if o.end_time <= ts {
                    lo = lo.max(o.end_time);
                }
                if o.start_time > ts {
                    hi = hi.min(o.start_time);
                }
            }
            ensure!((b.start_time, b.end_time) == (lo, hi), "the bucket made for {ts} is [{}, {}), its turn is [{lo}, {hi})", b.start_time, b.end_time);
        }

        // the placement
        ensure!(b.shard_group.len() as u64 == shards, "{} shards where {shards} are asked for", b.shard_group.len());
        let mut ids = vec![b.id];
        let mut used: BTreeMap<u64, u64> = BTreeMap::new();
        for s in &b.shard_group {
            ids.push(s.id);
            ensure!(s.vnodes.len() as u64 == replicas.max(1), "{} replicas where {replicas} are asked for", s.vnodes.len());
            let on: BTreeSet<u64> = s.vnodes.iter().map(|v| v.node_id).collect();
            ensure!(on.len() == s.vnodes.len(), "two replicas of a shard share a node: {s:?}");
            ensure!(s.vnodes.iter().any(|v| v.id == s.leader_vnode_id && v.node_id == s.leader_node_id), "the leader is none of the replicas: {s:?}");
            for v in &s.vnodes {
                ids.push(v.id);
                ensure!(nodes.iter().any(|(id, _)| *id == v.node_id), "a replica is placed on node {} which cannot take it", v.node_id);
                ensure!(v.status == VnodeStatus::Running, "a new replica is {:?}", v.status);
                *used.entry(v.node_id).or_default() += 1;
            }
        }
        for id in &ids {
            ensure!(self.ids.insert(*id), "the id {id} is handed out a second time: {b:?}");
        }
        let counts: Vec<u64> = nodes.iter().map(|(id, _)| used.get(id).copied().unwrap_or(0)).collect();
        let (min, max) = (counts.iter().min().unwrap(), counts.iter().max().unwrap());
        ensure!(max - min <= 1, "replicas are spread unevenly: {used:?} of {nodes:?}");
        if min != max {
            let with = nodes.iter().zip(&counts).filter(|(_, c)| *c == max).map(|(n, _)| n.1).min().unwrap();
            let without = nodes.iter().zip(&counts).filter(|(_, c)| *c == min).map(|(n, _)| n.1).max().unwrap();
            ensure!(with >= without, "a node with less room gets more: {used:?} of {nodes:?}");
        }
        self.tenants.get_mut(t).unwrap().dbs.get_mut(d).unwrap().buckets.insert(b.id, b);
        self.done -= 1;
        self.same_tenant(t, resp)
    }

    // ---------------------------------------------------------- the reads

    /// What a read of the tenant has to show, without the data version.
    pub fn tenant_value(&self, t: &str) -> Value {
        let Some(ten) = self.tenants.get(t) else {
            return json!({"dbs": {}, "roles": {}, "members": {}});
        };
        let dbs: BTreeMap<&String, Value> = ten.dbs.iter().map(|(n, d)| (n, db_value(d))).collect();
        let roles: BTreeMap<&String, Value> = ten
            .roles
            .iter()
            .map(|(n, r)| (n, json!({"name": n, "system_role": r.inherits, "additional_privileges": r.privileges})))
            .collect();
        let members: BTreeMap<String, Value> = ten.members.iter().map(|(id, r)| (id.to_string(), json!(r))).collect();
        json!({"dbs": dbs, "roles": roles, "members": members})
    }

    fn same_tenant(&mut self, t: &str, resp: &Value) -> R {
        let got = self.ok(resp)?;
        self.tenant_is(t, got)
    }

    pub fn tenant_is(&mut self, t: &str, mut got: Value) -> R {
        let v = got["version"].as_u64().unwrap_or(0);
        ensure!(v >= self.version, "the data version went back from {} to {v}", self.version);
        self.version = v;
        canon_tenant(&mut got);
        let want = self.tenant_value(t);
        if got != want {
            return Err(Fail::new(format!("tenant {t}: {}", diff(&got, &want))));
        }
        Ok(())
    }

    /// Every read of every kind.
    pub fn reads(&mut self, read: &dyn Fn(&ReadCommand) -> Value) -> R {
        let cl = self.cluster.clone();
        for t in TENANTS {
            let r = read(&ReadCommand::TenantMetaData(cl.clone(), t.into()));
            let r = r.get("Ok").cloned().ok_or_else(|| Fail::new(format!("metadata of {t}: {r}")))?;
            self.tenant_is(t, r)?;
            let ten = self.tenants.get(t);
            for hidden in [false, true] {
                let want = ten.filter(|t| !(hidden && t.tenant.options().get_tenant_is_hidden())).map(|t| json!(t.tenant));
                same("tenant", &read(&ReadCommand::Tenant(cl.clone(), t.into(), hidden)), json!({ "Ok": want }))?;
            }
            let empty = BTreeMap::new();
            let members = ten.map(|t| &t.members).unwrap_or(&empty);
            let by_name: BTreeMap<&String, Value> = self.users.iter().filter_map(|(n, u)| members.get(u.id()).map(|r| (n, json!(r)))).collect();
            same("members", &read(&ReadCommand::Members(cl.clone(), t.into())), json!({ "Ok": by_name }))?;
            for id in self.users.values().map(|u| *u.id()).chain(self.gone.iter().cloned()) {
                let want = members.get(&id).map(|r| json!(r));
                same("role of a member", &read(&ReadCommand::MemberRole(cl.clone(), t.into(), id)), json!({ "Ok": want }))?;
            }
            let roles = self.tenant_value(t)["roles"].clone();
            let mut got = read(&ReadCommand::CustomRoles(cl.clone(), t.into()));
            let list = got["Ok"].as_array_mut().ok_or_else(|| Fail::new("roles"))?;
            for r in list.iter_mut() {
                r.as_object_mut().unwrap().remove("id");
            }
            list.sort_by_key(|r| r["name"].as_str().unwrap_or("").to_string());
            same("roles", &got, json!({"Ok": roles.as_object().unwrap().values().collect::<Vec<_>>()}))?;
            for r in ROLES {
                let mut got = read(&ReadCommand::CustomRole(cl.clone(), r.into(), t.into()));
                if let Some(o) = got["Ok"].as_object_mut() {
                    o.remove("id");
                }
                same("role", &got, json!({"Ok": roles.get(r)}))?;
            }
            for d in DBS {
                let db = ten.and_then(|t| t.dbs.get(d));
                for n in TABLES {
                    let want = db.and_then(|d| d.tables.get(n)).map(|t| json!(TableSchema::TsKvTableSchema(Arc::new(t.clone()))));
                    same("table", &read(&ReadCommand::TableSchema(cl.clone(), t.into(), d.into(), n.into())), json!({ "Ok": want }))?;
                    let got = read(&ReadCommand::ReadTableSchema(cl.clone(), t.into(), d.into(), n.into()));
                    match want {
                        Some(w) => same("table", &got, json!({ "Ok": w }))?,
                        None => ensure!(got["Err"].get("TableNotFound").is_some(), "a table that is not there: {got}"),
                    }
                }
                if let Some(db) = db {
                    for s in db.buckets.values().flat_map(|b| &b.shard_group) {
                        same("replication set", &read(&ReadCommand::ReplicationSet(cl.clone(), t.into(), d.into(), s.id)), json!({ "Ok": s }))?;
                    }
                }
                same("replication set", &read(&ReadCommand::ReplicationSet(cl.clone(), t.into(), d.into(), 99_999)), json!({ "Ok": null }))?;
            }
        }
        let shown: Vec<Value> = self.tenants.values().filter(|t| !t.tenant.options().get_tenant_is_hidden()).map(|t| json!(t.tenant)).collect();
        same("tenants", &sorted(read(&ReadCommand::Tenants(cl.clone())), "name"), json!({ "Ok": shown }))?;
        let users: Vec<Value> = self.users.values().map(|u| json!(u)).collect();
        same("users", &sorted(read(&ReadCommand::Users(cl.clone())), "name"), json!({ "Ok": users }))?;
        for u in USERS {
            same("user", &read(&ReadCommand::User(cl.clone(), u.into())), json!({"Ok": self.users.get(u)}))?;
        }
        let mut got = read(&ReadCommand::DataNodes(cl.clone()));
        let nodes: Vec<Value> = self.nodes.values().map(|n| json!(n)).collect();
        got = json!({"Ok": got["Ok"][0].take()});
        same("nodes", &sorted(got, "id"), json!({ "Ok": nodes }))?;
        let metrics: Vec<Value> = self.metrics.values().map(|n| json!(n)).collect();
        same("node metrics", &sorted(read(&ReadCommand::NodeMetrics(cl.clone())), "id"), json!({ "Ok": metrics }))?;
        same("mark", &read(&ReadCommand::ResourceInfosMark(cl.clone())), json!({ "Ok": self.mark }))?;
        let all: Vec<Value> = self.resources.values().map(|r| json!(r)).collect();
        same("resources", &sorted(read(&ReadCommand::ResourceInfos(cl.clone())), "name"), json!({ "Ok": all }))?;
        for (n, r) in &self.resources {
            same("resource", &read(&ReadCommand::ResourceInfoByName(cl.clone(), n.clone())), json!({ "Ok": r }))?;
        }
        for node in 1..4u64 {
            let some: Vec<Value> = self.resources.values().filter(|r| *r.get_execute_node_id() == node).map(|r| json!(r)).collect();
            same("resources of a node", &sorted(read(&ReadCommand::ResourceInfosByNodeid(cl.clone(), node)), "name"), json!({ "Ok": some }))?;
            let some: Vec<Value> = self.queries.values().filter(|q| q["node_id"] == json!(node)).cloned().collect();
            same("queries of a node", &sorted(read(&ReadCommand::ReadQueryInfos(cl.clone(), node)), "query_id"), json!({ "Ok": some }))?;
        }
        Ok(())
    }
}

pub fn db_value(d: &Db) -> Value {
    let tables: BTreeMap<&String, Value> = d.tables.iter().map(|(n, t)| (n, json!(TableSchema::TsKvTableSchema(Arc::new(t.clone()))))).collect();
    json!({"schema": d.schema, "tables": tables, "buckets": d.buckets.values().collect::<Vec<_>>()})
}

/// Drops what the model does not predict and puts lists in order.
pub fn canon_tenant(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        o.remove("version");
    }
    if let Some(roles) = v["roles"].as_object_mut() {
        for r in roles.values_mut() {
            if let Some(o) = r.as_object_mut() {
                o.remove("id");
            }
        }
    }
    if let Some(dbs) = v["dbs"].as_object_mut() {
        for d in dbs.values_mut() {
            if let Some(b) = d["buckets"].as_array_mut() {
                b.sort_by_key(|b| b["id"].as_u64());
            }
        }
    }
}

fn sorted(mut v: Value, key: &str) -> Value {
    if let Some(l) = v["Ok"].as_array_mut() {
        l.sort_by_key(|x| match &x[key] {
            Value::Number(n) => (n.as_u64().unwrap_or(0), String::new()),
            o => (0, o.as_str().unwrap_or("").to_string()),
        });
    }
    v
}

pub fn diff(got: &Value, want: &Value) -> String {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys()) {
                let (x, y) = (a.get(k), b.get(k));
                match (x, y) {
                    (Some(x), Some(y)) if x == y => {}
                    (Some(x), Some(y)) => return format!(".{k}{}", diff(x, y)),
                    (Some(x), None) => return format!(".{k}: there is {x}, nothing is expected"),
                    (None, Some(y)) => return format!(".{k}: nothing is there, {y} is expected"),
                    (None, None) => {}
                }
            }
            String::new()
        }
        _ => format!(": there is {got}, {want} is expected"),
    }
}

pub fn same(what: &str, got: &Value, want: Value) -> R {
    if *got != want {
        return Err(Fail::new(format!("{what}{}", diff(got, &want))));
    }
    Ok(())
}
