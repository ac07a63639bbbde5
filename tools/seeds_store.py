# planted bugs in tskv's storage engine (C01, C04-C08); executed by plant.py


def store_kit():
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:xz") as t:
        for name in ("stage.py", "shims", "harness/pbt", "harness/full/Cargo.toml", "harness/full/src/cols.rs",
                     "harness/full/src/engine.rs", "harness/full/src/metasrv.rs"):
            t.add(os.path.join(VERIF, name), name, filter=lambda i: None if "__pycache__" in i.name or "/target" in i.name else i)
    return b.getvalue()


STORE_DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for this history, nonzero when it is broken.
# Compiles demo.rs against the repository's own crates, laid out next to
# stand-ins for third-party crates that are not here (kit.tar.xz).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
tar xJf "$here/kit.tar.xz" -C "$d" || exit 3
cp "$here/demo.rs" "$d/harness/full/src/main.rs"
python3 "$d/stage.py" --repo /repo --set full --out "$d/ws" || exit 3
cd "$d/ws" && sed -i '/^\[profile/,$d' Cargo.toml
cargo build -q --offline -p full 2> "$d/log" || { tail -40 "$d/log"; exit 3; }
cd "$d" && TMPDIR="$d" timeout 120 /repo/target/debug/full
'''

STORE_MAIN = '''#![allow(dead_code, unused_imports)]
mod cols;
mod engine;
mod metasrv;
use cols::V;
use engine::*;
use arrow_schema::DataType;
use datafusion::scalar::ScalarValue;
use models::predicate::domain::{ColumnDomains, Domain, Range, TimeRange};
use pbt::R;
use tskv::compaction::CompactTask;
use utils::precision::Precision;

fn p(table: &str, tags: &[(&str, &str)], ts: i64, fields: &[(&str, V)]) -> Point {
    Point {
        table: table.into(),
        tags: tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        ts,
        fields: fields.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
    }
}

impl Case {
    async fn w(&mut self, points: &[Point]) -> R {
        self.write(points, Precision::NS).await.map_err(pbt::Fail::new)
    }
    async fn del(&mut self, table: &str, ranges: &[(i64, i64)]) -> R {
        let r: Vec<TimeRange> = ranges.iter().map(|(a, b)| TimeRange::new(*a, *b)).collect();
        self.delete(table, &r, ColumnDomains::all()).await?;
        if let Some(t) = self.model.tables.get_mut(table) {
            for rows in t.series.values_mut() {
                rows.retain(|ts, _| !ranges.iter().any(|(a, b)| a <= ts && ts <= b));
            }
        }
        Ok(())
    }
}

fn main() {
    let w = world();
    let r: R = w.rt.block_on(async {
        let cf = CaseConf { kv: KV, precision: Precision::NS, partitions: 1, memcache: 1 << 30, cache_readers: 16, lagging: false, wal: WAL };
        let mut c = Case::new(&cf).await?;
        let r = story(&mut c).await;
        c.close().await;
        r
    });
    let _ = std::fs::remove_dir_all(pbt::scratch_root());
    match r {
        Ok(()) => println!("ok"),
        Err(f) => {
            println!("BROKEN: {}", f.msg);
            std::process::exit(1);
        }
    }
}

'''


def sseed(id, property, file, old, new, needs, breaks, story, kv=0, wal=False, more=()):
    seed(id, property, "tskv/src/" + file, old, new, needs, breaks, [], STORE_DEMO, more)
    main = STORE_MAIN.replace("KV,", f"{kv},").replace("WAL }", f"{str(wal).lower()} }}")
    SEEDS[-1]["files"] = {"demo.rs": main + story.lstrip("\n"), "kit.tar.xz": store_kit()}


sseed("c04-range-miss", "C04", "mem_cache/series_data.rs",
"            if time_range.max_ts < self.range.min_ts || time_range.min_ts > self.range.max_ts {\n                continue;\n            }\n\n            for item",
"            if time_range.max_ts < self.range.min_ts || time_range.min_ts > self.range.max_ts {\n                return;\n            }\n\n            for item",
"a DELETE over several time ranges, one of them before all rows of a series which is still in memory",
"the rows of the later ranges are not deleted", r'''
async fn story(c: &mut Case) -> R {
    c.w(&[p("ma", &[("ta", "a")], 10, &[("fa", V::I(1))]), p("ma", &[("ta", "a")], 20, &[("fa", V::I(2))])]).await?;
    c.del("ma", &[(0, 5), (15, 25)]).await?;
    c.check_all(c.vnode_id, "after the delete").await
}
''')

sseed("c04-tomb-reload", "C04", "tsm/tombstone.rs",
"                                    column_excluded\n                                        .entry((*series_id, *column_id))\n                                        .or_insert_with(TimeRanges::empty)\n                                        .extend_from_slice(time_ranges.as_slice());\n                                    column_excluded_size += 1;",
"                                    column_excluded.insert(\n                                        (*series_id, *column_id),\n                                        TimeRanges::new(time_ranges.clone()),\n                                    );\n                                    column_excluded_size += 1;",
"rows in a data file which are deleted by two DELETE statements, then a restart",
"after the restart only the last of the deletes is still known, rows of the earlier one are back", r'''
async fn story(c: &mut Case) -> R {
    let t = [("ta", "a")];
    c.w(&[p("ma", &t, 10, &[("fa", V::I(1))]), p("ma", &t, 20, &[("fa", V::I(2))]), p("ma", &t, 30, &[("fa", V::I(3))])]).await?;
    c.flush().await?;
    c.del("ma", &[(5, 15)]).await?;
    c.del("ma", &[(25, 35)]).await?;
    c.check_all(c.vnode_id, "after the deletes").await?;
    c.reopen().await?;
    c.check_all(c.vnode_id, "after the restart").await
}
''')

sseed("c05-group-order", "C05", "mem_cache/series_data.rs",
"        for (idx, data, it) in self.vec_pq.iter_mut().rev() {",
"        for (idx, data, it) in self.vec_pq.iter_mut() {",
"a row in memory is overwritten after a column was added to its table",
"the older of the two values is read", r'''
async fn story(c: &mut Case) -> R {
    let t = [("ta", "a")];
    c.w(&[p("ma", &t, 10, &[("fa", V::I(1))])]).await?;
    c.w(&[p("ma", &t, 10, &[("fa", V::I(2)), ("fb", V::I(7))])]).await?;
    c.check_all(c.vnode_id, "after the writes").await
}
''')

sseed("c06-tomb-merge", "C06", "tsm/tombstone.rs",
"                    if !self.all_excluded.includes(&tr) {",
"                    if !self.all_excluded.time_ranges().any(|t| t.overlaps(&tr)) {",
"a delete on a file whose rows are compacted in part, the deleted range reaching beyond that part",
"the tombstones of the rest of the file are dropped, its deleted rows are back", r'''
async fn story(c: &mut Case) -> R {
    let t = [("ta", "a")];
    let at = |ts: i64| p("ma", &t, ts, &[("fa", V::I(ts))]);
    for ts in [10, 20] {
        c.w(&[at(ts)]).await?;
        c.flush().await?;
    }
    c.compact(CompactTask::Delta(c.vnode_id)).await?;
    c.w(&[at(15), at(40)]).await?;
    c.flush().await?;
    c.w(&[at(16), at(45)]).await?;
    c.flush().await?;
    c.del("ma", &[(12, 42)]).await?;
    c.check_all(c.vnode_id, "after the delete").await?;
    for _ in 0..3 {
        c.compact(CompactTask::Delta(c.vnode_id)).await?;
        c.check_all(c.vnode_id, "after a compaction").await?;
    }
    Ok(())
}
''')

sseed("c08-next-file", "C08", "tsfamily/summary.rs",
"        self.file_id.set(max_file_id + 1);",
"        self.file_id.set(max_file_id);",
"data written after a restart, before which there were flushed files",
"the id of an existing file is given out again", r'''
async fn story(c: &mut Case) -> R {
    let t = [("ta", "a")];
    c.w(&[p("ma", &t, 10, &[("fa", V::I(1)), ("fb", V::I(1))])]).await?;
    c.flush().await?;
    c.reopen().await?;
    c.w(&[p("ma", &t, 10, &[("fa", V::I(2))])]).await?;
    c.flush().await?;
    c.check_all(c.vnode_id, "after the second flush").await?;
    c.reopen().await?;
    c.check_all(c.vnode_id, "after the second restart").await
}
''')

sseed("c07-range-cache", "C07", "index/ts_index.rs",
"                    let engine_rb = self.storage.get_series_id_by_range(key_range)?;\n                    bitmap = bitmap.bitor(engine_rb);",
"                    let engine_rb = self.storage.get_series_id_by_range(key_range)?;\n                    if !engine_rb.is_empty() {\n                        bitmap = engine_rb;\n                    }",
"a range of tag values which matches series in the stored index and newer ones in its write cache, or several ranges",
"a condition on a tag does not find all its series", r'''
async fn story(c: &mut Case) -> R {
    let at = |ta: &str| p("ma", &[("ta", ta)], 10, &[("fa", V::I(1))]);
    c.w(&[at("a"), at("b")]).await?;
    c.flush().await?;
    c.reopen().await?;
    c.w(&[at("c")]).await?;
    for bound in ["b", "c", "d"] {
        let range = Range::le(&DataType::Utf8, &ScalarValue::Utf8(Some(bound.to_string())));
        let tags = ColumnDomains::of("ta".to_string(), &Domain::of_ranges(&[range]).map_err(ferr("domain"))?);
        let found = c.read("ma", &Read { tags, ..Default::default() }).await?;
        let want = ["a", "b", "c"].iter().filter(|v| **v <= bound).count();
        if found.len() != want {
            return Err(pbt::Fail::new(format!("ta <= {bound}: {} rows found of {want}", found.len())));
        }
    }
    Ok(())
}
''')

sseed("c01-last-entry", "C01", "wal/wal_store.rs",
"            if entry.log_id.index > last_seq && entry.log_id.index <= apply_id.index {",
"            if entry.log_id.index > last_seq && entry.log_id.index < apply_id.index {",
"a crash when the last applied command is not in a data file yet",
"the last acknowledged command is lost", r'''
async fn story(c: &mut Case) -> R {
    let t = [("ta", "a")];
    c.w(&[p("ma", &t, 10, &[("fa", V::I(1))])]).await?;
    c.w(&[p("ma", &t, 20, &[("fa", V::I(2))])]).await?;
    c.crash().await?;
    c.check_all(c.vnode_id, "after the crash").await
}
''', wal=True)
