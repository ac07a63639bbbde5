prop("C02", "Columns survive encoding and decoding exactly",
     "A column of any type, encoded with any encoding the type allows, with any nulls, decodes to exactly the values and nulls that went in, bit for bit; the first byte names the encoding. The page written for a column, whole or cut from a larger one, holds exactly its rows, its row count and statistics that bound its values (exactly its least and greatest for times and numbers), and data damaged by a flipped bit fails the page's checksum.",
     ["inputs"], "all columns of all types, encodings, lengths and null patterns",
     "Tests encode a few short columns per encoding; packing widths, run lengths, extreme gaps and null positions interact in combinations only generation reaches.",
     ["tskv/src/tsm/codec", "tskv/src/tsm/page.rs", "tskv/src/tsm/mutable_column.rs", "tskv/src/tsm/mutable_column_ref.rs"],
     [("encodings", "tskv/src/tsm/codec"), ("pages and statistics", "tskv/src/tsm/page.rs"), ("columns while writing", "tskv/src/tsm/mutable_column.rs, mutable_column_ref.rs")],
     "property-based testing: round trip of generated columns through every encoding and page builder; bit-flip injection",
     "pco and bzip2 are stand-ins (framing only); the NaN Gorilla reserves is not generated.")
prop("C09", "Line protocol text is stored as the points it says, or refused",
     "Text in line protocol, with any names, values, escapes, spacing, comments and line ends the format allows, is read as exactly the points it describes, in order; a line without a timestamp gets the given default time; a tag or field named twice counts once; anything else is refused, never read as different points and never a crash. The write request built from the lines holds for every line one row with exactly its table, tags, fields (name, type, value) and time, and a column used as two kinds or types in a write is refused; the same holds for arrow columns turned into a request.",
     ["inputs"], "all texts and all sets of points, including damaged texts",
     "Tests parse a list of sample lines; escapes, quotes, missing parts and mixed columns meet in combinations no list of samples has.",
     ["common/protocol_parser/src/line_protocol", "common/protocol_parser/src/lines_convert.rs", "common/models/src/mutable_batch.rs", "common/models/src/column_data_ref.rs"],
     [("parser state machine", "common/protocol_parser/src/line_protocol/parser.rs"), ("columns of a batch", "common/models/src/mutable_batch.rs, column_data_ref.rs"), ("request encoding", "common/protocol_parser/src/lines_convert.rs")],
     "property-based testing: generated points printed with random spellings vs the parse; metamorphic concatenation; decode of the request",
     "Number parsing crates are stand-ins (std); names with backslashes and infinite values are not generated.")
prop("C10", "Every other write format is stored as the points it says, or refused",
     "OpenTSDB text, its JSON and its TCP commands (in any split into packets), ndjson, Elasticsearch bulk and Loki logs, and OTLP trace exports become exactly the points, logs or spans they contain: each once, with every label, attribute, path of a nested document and timestamp; a value that cannot be stored is refused, and no input crashes the parser.",
     ["inputs", "schedules"], "all documents, requests, command streams and their splits into packets, including damaged ones",
     "Tests parse one or two samples of each format; packet boundaries, nesting, out-of-range times and repeated spans need generated input.",
     ["common/protocol_parser/src/open_tsdb", "common/protocol_parser/src/json_protocol", "common/protocol_parser/src/lib.rs"],
     [("OpenTSDB parser", "common/protocol_parser/src/open_tsdb/parser.rs"), ("flattening and log formats", "common/protocol_parser/src/json_protocol/parser.rs")],
     "property-based testing: generated points and documents written in each format vs the parse; packet-splitting metamorphic test",
     "HTTP and socket handling around the parsers is not run.")
prop("C11", "Pushed-down conditions never hide a row the query asks for",
     "A set of time ranges built by any sequence of adding, merging, intersecting and excluding covers exactly the timestamps those steps say, at both ends of the timeline too. The domains a filter is reduced to for the storage (time ranges, tag sets, field filter), also after travelling over the wire, accept every row the filter is true for. The condition of a DELETE is either refused or reduced to exactly the rows it is true for: no row more, no row less.",
     ["inputs"], "all filters, all sets of ranges and all sequences of operations on them",
     "Tests try a handful of expressions; ranges sharing bounds, nulls, casts, nested logic and the extreme timestamps combine without limit.",
     ["common/models/src/predicate"],
     [("value domains and their set algebra", "common/models/src/predicate/domain.rs"), ("filter to domains", "common/models/src/predicate/transformation.rs"), ("splitting and serialising predicates", "common/models/src/predicate")],
     "property-based testing: generated filters judged row by row against an evaluator; set algebra against a point-wise model; wire round trip",
     "DataFusion's expression types are stand-ins; the query crate's conversion of DELETE bounds to the database's precision is not compiled here.")
HIST = "property-based testing: generated histories run on a real storage engine and on a reference model, every read compared"
HISTNOTE = "roaring, heed, skiplist and openraft are stand-ins; schema changes go through the meta client to a loopback meta server running the real state machine."
HISTWHY = "Tests write a few rows to one series and read them back; what is lost depends on how writes, flushes, compactions, deletes and schema changes of several series interleave."
prop("C04", "Deleted rows stay deleted and no other row goes with them",
     "After a DELETE with a time range and tag conditions, every row it covers is gone from every later read, whether the row was in memory, in a data file or in a file compacted afterwards, and stays gone through flushes and compactions; every row it does not cover keeps all its values; a row written after the delete is visible, also at a deleted timestamp.",
     ["histories"], "all histories of writes, deletes, flushes, compactions and reads over several tables, series and columns",
     HISTWHY, ["tskv/src/vnode_store.rs", "tskv/src/tsm/tombstone.rs", "tskv/src/mem_cache", "tskv/src/tsfamily/version.rs"],
     [("delete", "tskv/src/vnode_store.rs delete_from_table"), ("tombstone files", "tskv/src/tsm/tombstone.rs"), ("deletes in memory", "tskv/src/mem_cache")],
     HIST, HISTNOTE + " A delete racing with a running compaction is not run.", observe=("rows of every read, by table, tags, time and column",))
prop("C05", "A read sees every acknowledged write, the last one per field winning",
     "Rows written to tables with any tags, times and fields of any type are read back exactly: per series and timestamp one row, per field the value last written (within a request, the last row's), a field not written being null; columns added, dropped and added again by schema changes, and tables dropped and created again, show only what was written since. A write conflicting with the schema is refused and changes nothing.",
     ["histories", "inputs"], "all histories of writes, schema changes, switches of the memory cache and reads",
     HISTWHY, ["tskv/src/mem_cache", "tskv/src/database.rs", "tskv/src/schema/schemas.rs", "tskv/src/reader"],
     [("memory cache", "tskv/src/mem_cache"), ("schema while writing", "tskv/src/schema/schemas.rs, database.rs"), ("merging rows while reading", "tskv/src/reader")],
     HIST, HISTNOTE, observe=("rows of every read, by table, tags, time and column",))
prop("C06", "Flush and compaction never change what a query returns",
     "Whatever is read before a flush of the memory caches or a compaction of any level is read after it too: no row lost, duplicated or resurrected, no value replaced by an older one, also when files overlap in time and series have different columns in different files, and with deletes and dropped columns between them.",
     ["histories"], "all histories of writes, flushes, compactions of all kinds and reads, with small blocks and files",
     HISTWHY, ["tskv/src/compaction", "tskv/src/tsfamily", "tskv/src/tsm/writer.rs", "tskv/src/reader"],
     [("picking files", "tskv/src/compaction/picker.rs"), ("merging blocks", "tskv/src/compaction/compact.rs, iterator.rs, metrics.rs"), ("flushing", "tskv/src/compaction/flush.rs")],
     HIST, HISTNOTE + " Jobs run one at a time.", observe=("rows of every read, by table, tags, time and column",))
prop("C07", "Tag conditions and tag updates hit exactly the matching series",
     "A read with any condition on tags returns the rows of exactly the series whose tags satisfy it, absent tags included; an UPDATE of tags renames exactly the matching series, moves all their rows, in memory and in files, to the new tags, and is refused, changing nothing, if two series would become one; tables sharing a name prefix stay apart; all of this holds after the index is reopened.",
     ["histories"], "all histories of writes, tag updates, reads with tag conditions, flushes and reopenings",
     HISTWHY, ["tskv/src/index", "tskv/src/vnode_store.rs"],
     [("inverted index", "tskv/src/index/ts_index.rs"), ("index storage", "tskv/src/index/engine2.rs"), ("tag updates", "tskv/src/vnode_store.rs update_tags_value")],
     HIST, HISTNOTE, observe=("rows of every read, by table, tags, time and column",))
prop("C08", "A vnode reopened after a clean stop is the vnode that was closed",
     "After flushing and closing a vnode and opening it again from its summary, index and data files, every read returns what it returned before, at any point of a history of flushes, compactions and deletes; file numbers and levels go on without clashing with existing files.",
     ["histories"], "all histories of writes, flushes, compactions, deletes and reopenings",
     HISTWHY, ["tskv/src/tsfamily/summary.rs", "tskv/src/tsfamily/version.rs", "tskv/src/record_file", "tskv/src/index"],
     [("version edits", "tskv/src/tsfamily/summary.rs"), ("levels and files", "tskv/src/tsfamily/version.rs")],
     HIST, HISTNOTE, observe=("rows of every read, by table, tags, time and column",))
prop("C18", "A vnode restored from a snapshot is the vnode the snapshot was taken of",
     "A snapshot of a vnode, its files fetched and restored into a new vnode or over an existing one, gives a vnode of which every read returns what the original returned when the snapshot was taken: no row is lost, no deleted row, dropped column, dropped table or old tag value comes back, and nothing of what the restored vnode held before is left. The restored vnode goes on as the original would: it can be written, flushed, compacted, closed, opened and snapshot again.",
     ["histories"], "all histories of writes, flushes, compactions, deletes, drops, tag updates, reopenings, snapshots and restorations",
     HISTWHY + " Everything a vnode knows has to be in the snapshot, whatever way it came to be.", ["tskv/src/vnode_store.rs", "tskv/src/database.rs", "tskv/src/tsfamily/tseries_family.rs", "tskv/src/index/ts_index.rs", "tskv/src/lib.rs"],
     [("taking", "tskv/src/vnode_store.rs create_snapshot"), ("restoring", "tskv/src/vnode_store.rs apply_snapshot, database.rs add_tsfamily"), ("index", "tskv/src/tsfamily/tseries_family.rs rebuild_index")],
     HIST, HISTNOTE + " The files of a snapshot are copied by the harness, not by the coordinator's download (which needs crates that are not here).", observe=("rows of every read of the original and the copies, by table, tags, time and column",))
prop("C22", "Filters pushed into the storage give exactly the rows that satisfy them",
     "A read of a table with a filter over its tags, time and fields (comparisons, IN, IS NULL, AND, OR, NOT in SQL's three-valued logic), its result filtered once more as queries do, returns exactly the current rows that satisfy the filter: wherever the rows are (memory, delta files, compacted files), whichever columns a file has, whatever was overwritten, deleted or dropped before, and whatever statistics let it skip.",
     ["histories", "filters"], "all histories of writes, flushes, compactions, deletes and dropped columns, and all filters over the columns of the table",
     HISTWHY + " A filter meets rows that are still in several layers, of which each alone decides otherwise.", ["tskv/src/reader/iterator.rs", "tskv/src/reader/filter.rs", "tskv/src/reader/chunk.rs", "tskv/src/reader/utils.rs", "tskv/src/reader/column_group"],
     [("rows", "tskv/src/reader/filter.rs"), ("skipping by statistics", "tskv/src/reader/chunk.rs filter_column_groups"), ("missing columns", "tskv/src/reader/utils.rs reassign_predicate_columns")],
     HIST, HISTNOTE + " The physical expressions are evaluated by a stand-in for datafusion's.", observe=("rows of every filtered read, by table, tags, time and column",))
prop("C01", "Acknowledged writes survive a crash, refused ones never appear",
     "After the process is killed at any moment - between two requests, or inside a write, delete, drop, tag update, flush, compaction or recovery, with whatever part of its changes to files it had made - and the vnode is recovered from its log, every logged write, delete, drop and tag update is there exactly once and in order, those flushed before are not applied twice, and what was refused or not logged did not happen: every read returns what it returned before the crash. This holds for crash after crash.",
     ["histories", "crash points"], "all histories of writes, flushes, compactions, deletes, drops and tag updates with crashes between any two steps and between any two changes of files within a step",
     HISTWHY, ["tskv/src/wal", "tskv/src/vnode_store.rs", "tskv/src/database.rs", "tskv/src/index", "tskv/src/tsfamily/summary.rs"],
     [("log", "tskv/src/wal/wal_store.rs"), ("replay", "tskv/src/wal/wal_store.rs recover, vnode_store.rs apply"), ("flushed sequence", "tskv/src/tsfamily/version.rs")],
     HIST, HISTNOTE + " Inside a command the process ends at the nth change of a file (a write may be done in part); files written before are not lost.", observe=("rows of every read, by table, tags, time and column",))
METAWHY = "Tests of the metadata service run one command or two. What a command finds depends on every one before it, on restarts, and on which nodes answer."
METANOTE = "heed is a stand-in (ordered map with a file). Commands go to the state machine directly; the raft log that orders them is left out. Rate-limiter buckets refill by the clock and are left out."
METATECH = "stateful model-based property testing: generated command sequences against a reference model of the metadata, with restarts"
prop("C13", "Members of the metadata group that apply the same commands hold the same",
     "Every member of the metadata group that applies the same commands in the same order holds the same metadata and gives the same answers, whether it applied all of them, was restarted in between, or was brought up to date by a snapshot of another member followed by the rest of the commands. A snapshot names the command it is of.",
     ["histories"], "all sequences of metadata commands, with restarts, snapshots and late members",
     METAWHY + " That two members agree is never tested.", ["meta/src/store/storage.rs", "meta/src/store/command.rs", "common/models/src/meta_data.rs"],
     [("applying", "meta/src/store/storage.rs process_write_command"), ("snapshots", "meta/src/store/storage.rs snapshot, restore"), ("placement", "common/models/src/meta_data.rs allocation_replication_set")],
     "stateful property testing: generated command sequences applied by several members; what they hold and answer is compared",
     METANOTE + " The random id of a custom role is left out of the comparison, and the answers of the data nodes are kept the same for all members (both are known findings of their own).", observe=("everything the members store, parsed; the answers of the commands",))
prop("C14", "A node that follows the change log knows what the metadata service knows",
     "A node that follows the changes of the metadata service, in whatever portions they reach it, through restarts of the service, an overflow of the log of changes, another member of the group taking over (from the log or from a snapshot) and its own changes in between, knows the same databases, tables, buckets, members, users and data nodes as a full read shows.",
     ["histories"], "all sequences of metadata commands, own and foreign, and all points at which the node asks for the changes",
     METAWHY + " A node that missed a change writes into buckets that are gone or refuses members that exist.", ["meta/src/store/storage.rs", "meta/src/store/command.rs", "meta/src/model/meta_admin.rs", "meta/src/model/meta_tenant.rs"],
     [("change log", "meta/src/store/command.rs CircleBuf, Watch"), ("reading it", "meta/src/store/storage.rs read_change_logs"), ("following", "meta/src/model/meta_admin.rs process_watch_data, meta_tenant.rs process_watch_log")],
     "stateful property testing: cnosdb's own client with its caches against cnosdb's own state machine over loopback HTTP; caches compared to a full read",
     METANOTE + " The endless loop around the requests is imitated, step by step. Changes of a tenant itself are left out (a known finding of its own).", observe=("databases, tables, buckets, members, users and data nodes as the node and as the service see them",))
prop("C15", "Tenants, users, members, roles and privileges change as commanded",
     "After any sequence of commands creating, altering, hiding and dropping tenants, users, members, roles and privileges, in several clusters, every read shows exactly what the accepted commands left: names are unique, an alteration keeps what it does not mention, a dropped user or tenant leaves no membership, no role and no grant behind, a grant or a revocation is made as a whole or not at all, and each command that does not fit is refused with the error that says why and changes nothing. The data version never goes back.",
     ["histories"], "all sequences of account commands, with restarts",
     METAWHY, ["meta/src/store/storage.rs", "common/models/src/auth", "common/models/src/schema/tenant.rs"],
     [("accounts", "meta/src/store/storage.rs process_*_user, process_*_tenant, process_*_role, process_*_member*"), ("privileges", "common/models/src/auth/role.rs grant_privileges, revoke_privileges"), ("options", "common/models/src/auth/user.rs merge")],
     METATECH, METANOTE, observe=("the answer of each command; every read of accounts",))
prop("C16", "Databases, tables, nodes and jobs change as commanded",
     "After any sequence of commands creating, altering, hiding and dropping databases and tables, registering nodes, and keeping queries, jobs and the lock on them, in several clusters, every read shows exactly what the accepted commands left: a table cannot outlive its database, an alteration of a table is taken only when it was made from the current version, a dropped object does not come back, an object is not confused with another whose name starts like its own, and each command that does not fit is refused with the error that says why and changes nothing. An id handed out is never handed out again.",
     ["histories"], "all sequences of metadata commands on objects, with restarts",
     METAWHY, ["meta/src/store/storage.rs", "meta/src/store/key_path.rs", "common/models/src/schema"],
     [("objects", "meta/src/store/storage.rs process_*_db, process_*_table"), ("keys", "meta/src/store/key_path.rs"), ("children of a key", "meta/src/store/storage.rs children_data")],
     METATECH, METANOTE, observe=("the answer of each command; every read of objects, nodes, queries and jobs",))
prop("C17", "Every timestamp gets one bucket, placed on nodes that can take it",
     "For each timestamp a write needs, the database has, or gets, exactly one bucket that contains it: aligned to the vnode duration, never overlapping another one even after the duration was changed, with as many shards and replicas as the database asks for, no two replicas of a shard on one node, only on nodes that are registered, healthy and answering, spread evenly with those with more room first, and with ids never used before. If that cannot be done, or the timestamp has expired, it is refused. Later changes of leaders, vnode states and replica sets are taken as commanded.",
     ["histories", "failing nodes"], "all sequences of database, bucket and node commands with data nodes that stop and return",
     METAWHY, ["meta/src/store/storage.rs", "common/models/src/meta_data.rs", "common/models/src/schema/database_schema.rs"],
     [("making buckets", "meta/src/store/storage.rs process_create_bucket"), ("ranges and placement", "common/models/src/meta_data.rs get_time_range, allocation_replication_set"), ("replica changes", "meta/src/store/storage.rs process_update_vnode_repl_set, process_change_repl_set_leader")],
     METATECH + " and data nodes (stand-ins that answer pings on the loopback) going down", METANOTE, observe=("the bucket made; every read of the database",))
prop("C23", "A replica's log, vote and applied position are what raft relies on",
     "Whatever a replica acknowledged to raft is there when raft asks: each entry of the log under its index with its term and payload, from the first that was not purged to the last that was not cut off; the vote, the committed, applied and purged positions, the membership; and a snapshot with the position and members it is of. This holds through appends, conflicting tails cut off and replaced, purges of applied entries, snapshots made, installed or failing, files of the log rolled and removed, restarts, and a log whose last write was torn by a crash. Each committed entry reaches the state machine once and in order.",
     ["histories", "crash points"], "all sequences of the calls raft may make on its storage, with restarts, failing restorations and torn log files",
     "Tests append a few entries and read them back. What raft may do next depends on rolled, truncated and purged files, on what a cache still holds and on what a restart finds.",
     ["replication/src/node_store.rs", "replication/src/state_store.rs", "replication/src/entry_store.rs", "replication/src/apply_store.rs", "tskv/src/wal", "tskv/src/record_file"],
     [("log of a vnode", "tskv/src/wal/wal_store.rs"), ("log files", "tskv/src/record_file"), ("storage contract", "replication/src/node_store.rs"), ("positions, vote and members", "replication/src/state_store.rs"), ("log and state machine of the metadata service", "replication/src/entry_store.rs, apply_store.rs")],
     "stateful model-based property testing: generated sequences of raft's storage calls with restarts and torn log files, against a reference model of openraft's storage contract",
     "openraft's own consensus code is not here: its storage traits are driven as openraft 0.9 drives them. heed is a stand-in (ordered map with a file). The log file is torn within what was appended last.",
     observe=("entries, log state, vote, membership, applied state and snapshots; what the state machine was given",))
