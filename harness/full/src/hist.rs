//! Which histories decide which property.
use crate::engine::*;
use crate::store::*;
use pbt::{Check, Sub, G, R};

fn hist(g: &mut G, mix: Mix) -> R {
    let cf = conf(g);
    run(g, cf, |g, c| Box::pin(history(g, c, mix)))
}

fn logged(g: &mut G, mix: Mix) -> R {
    let mut cf = conf(g);
    cf.wal = true;
    run(g, cf, |g, c| Box::pin(history(g, c, mix)))
}

fn base() -> Mix {
    Mix { write: 10, read: 4, len: 12, batch: 8, tags: 2, ..Mix::default() }
}

// C05
fn mem(g: &mut G) -> R {
    hist(g, Mix { switch: 1, len: 10, ..base() })
}
fn mem_columns(g: &mut G) -> R {
    hist(g, Mix { switch: 1, delete: 1, drop_column: 2, drop_table: 1, conflicts: true, ..base() })
}

// C06
fn flush(g: &mut G) -> R {
    hist(g, Mix { flush: 3, switch: 1, ..base() })
}
fn compact(g: &mut G) -> R {
    hist(g, Mix { flush: 5, compact: 5, len: 30, ..base() })
}
fn compact_columns(g: &mut G) -> R {
    hist(g, Mix { flush: 4, compact: 4, delete: 2, drop_column: 2, drop_table: 1, conflicts: true, len: 30, ..base() })
}

// C04
fn delete(g: &mut G) -> R {
    hist(g, Mix { flush: 3, switch: 1, delete: 4, len: 16, ..base() })
}
fn delete_compact(g: &mut G) -> R {
    hist(g, Mix { flush: 4, compact: 4, delete: 4, len: 30, ..base() })
}

// C07
fn index(g: &mut G) -> R {
    hist(g, Mix { write: 6, read: 8, update_tags: 3, flush: 1, reopen: 1, batch: 12, tags: 3, len: 16, ..base() })
}

// C08
fn reopen(g: &mut G) -> R {
    hist(g, Mix { flush: 2, compact: 3, delete: 1, reopen: 3, len: 25, ..base() })
}

// C01
fn crash(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 1, delete: 2, crash: 3, len: 16, ..base() })
}
fn crash_tables(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 1, delete: 2, drop_table: 2, crash: 3, len: 16, ..base() })
}
fn crash_columns(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 1, delete: 2, drop_column: 2, crash: 3, conflicts: true, len: 16, ..base() })
}
fn crash_tags(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 1, delete: 2, update_tags: 2, crash: 3, len: 16, ..base() })
}

fn crash_inside(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 2, delete: 2, crash: 1, cut: 5, len: 16, ..base() })
}
fn crash_inside_tags(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 2, delete: 1, update_tags: 2, crash: 1, cut: 5, len: 16, ..base() })
}
fn crash_inside_drops(g: &mut G) -> R {
    logged(g, Mix { flush: 2, compact: 1, delete: 1, drop_table: 1, drop_column: 2, crash: 1, cut: 5, len: 16, ..base() })
}

// C22
fn filter_mem(g: &mut G) -> R {
    hist(g, Mix { filter: 8, read: 1, switch: 2, delete: 1, drop_column: 1, conflicts: true, len: 14, ..base() })
}
fn filter_files(g: &mut G) -> R {
    hist(g, Mix { filter: 10, read: 1, switch: 1, flush: 4, compact: 3, delete: 1, len: 25, ..base() })
}

// C18
fn snapshot(g: &mut G) -> R {
    hist(g, Mix { flush: 2, compact: 2, snapshot: 4, len: 18, ..base() })
}
fn snapshot_changes(g: &mut G) -> R {
    hist(g, Mix { flush: 2, compact: 2, delete: 3, drop_column: 1, drop_table: 1, update_tags: 1, reopen: 1, snapshot: 4, len: 22, ..base() })
}

const ROWS: &str = "at least one row is expected at the end and the step in question was taken";

macro_rules! check {
    ($name:ident, $prop:expr, [$(($sub:expr, $f:ident, $quick:expr, $thorough:expr)),*]) => {
        pub fn $name() -> Check {
            Check {
                property: $prop,
                level: "sampled",
                assumptions: &["the process is killed, the machine keeps running: written files are not lost", "roaring, heed, skiplist, openraft are stand-ins"],
                subs: vec![$(Sub { name: $sub, rule: ROWS, quick: $quick, thorough: $thorough, serial: false, f: $f }),*],
            }
        }
    };
}

check!(c01, "C01", [("crash", crash, 1500, 60_000), ("crash-tables", crash_tables, 700, 60_000), ("crash-columns", crash_columns, 700, 60_000), ("crash-tags", crash_tags, 700, 60_000), ("crash-inside", crash_inside, 1000, 60_000), ("crash-inside-tags", crash_inside_tags, 700, 60_000), ("crash-inside-drops", crash_inside_drops, 700, 60_000)]);
check!(c04, "C04", [("delete", delete, 1500, 60_000), ("delete-compact", delete_compact, 1500, 60_000)]);
check!(c05, "C05", [("mem", mem, 4000, 200_000), ("mem-columns", mem_columns, 4000, 200_000)]);
check!(c06, "C06", [("flush", flush, 1500, 60_000), ("compact", compact, 1500, 60_000), ("compact-columns", compact_columns, 1500, 60_000)]);
check!(c07, "C07", [("index", index, 2000, 60_000)]);
check!(c08, "C08", [("reopen", reopen, 1500, 60_000)]);
check!(c22, "C22", [("memory", filter_mem, 3000, 100_000), ("files", filter_files, 2000, 100_000)]);
check!(c18, "C18", [("snapshot", snapshot, 1500, 60_000), ("snapshot-changes", snapshot_changes, 1500, 60_000)]);
