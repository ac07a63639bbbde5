#!/usr/bin/env python3
"""Lay out a cargo workspace that compiles cnosdb's own sources offline.

usage: stage.py [--repo /repo] [--out /verif/build/ws]

/repo's workspace cannot be resolved here (datafusion is a git dependency on a
fork; openraft, heed, pco, ... are not in the offline registry).  This script
copies the sources of the cnosdb crates (byte for byte, only when their content
changed, so that cargo rebuilds exactly what changed) next to

  * /verif/shims/*     small stand-ins for the third-party crates that cannot
                       be fetched (never for cnosdb code), and
  * /verif/harness/*   the property-based test harnesses.

Derived (not copied): the root Cargo.toml and each member's Cargo.toml (no
dev-dependencies, benches, bins, optional io_uring), plus the item-level
omissions listed in EDITS.  Nothing is written to the repo.
"""
import argparse
import os
import re
import shutil
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))

# crates of the repository that the harness compiles
MEMBERS = [
    "common/protos", "common/metrics", "common/trace", "common/utils",
    "common/http_protocol", "common/limiter_bucket", "common/cache",
    "common/derive_macros", "common/derive_traits", "common/version",
    "common/memory_pool", "common/models", "common/protocol_parser",
    "config", "meta", "replication", "tskv", "coordinator",
    "query_server/sqllogicaltests",
]

# what the light harness needs (no arrow, no datafusion, no openraft)
LIGHT = {
    "common/protos", "common/metrics", "common/trace", "common/utils",
    "common/http_protocol", "common/limiter_bucket", "common/cache",
    "common/derive_macros", "common/derive_traits", "common/version", "config",
}
LIGHT_EXTRA = {"shims/datafusion", "harness/pbt", "harness/light", "harness/derive"}

# what the model-level harness needs on top (arrow; no openraft, no heed)
MID = LIGHT | {"common/memory_pool", "common/models", "common/protocol_parser"}
MID_SHIMS = {"datafusion", "datafusion-proto", "minivec", "maplit", "integer-encoding", "bcrypt", "openssl",
             "hex", "atoi_simd", "fast-float", "async-recursion", "num_enum", "derive_builder"}

# the storage engine, the metadata store and the replication log (no coordinator, no raft network)
FULL = MID | {"meta", "replication", "tskv"}
FULL_EXTRA = {"harness/pbt", "harness/full"}
MID_EXTRA = {"shims/" + s for s in MID_SHIMS} | {"harness/pbt", "harness/mid"}

# third-party crates replaced by /verif/shims/<name>
SHIMS = {
    "datafusion", "datafusion-proto", "openraft", "heed", "pco", "bzip2",
    "roaring", "skiplist", "minivec", "integer-encoding",
    "num_enum", "dircpy", "maplit", "bcrypt", "openssl", "derive_builder",
    "atoi_simd", "fast-float", "async-recursion", "hex", "warp", "ctrlc",
}

# dependencies removed from members (not used by what is compiled here)
DROP_DEPS = {"radixdb", "actix-web", "serial_test", "sysinfo", "rio", "tokio-uring", "assert_float_eq", "dircpy"}

# item-level omissions: file -> [(regex, replacement)]
EDITS = {
    # raft networking and its HTTP/gRPC servers need the real openraft
    "replication/src/lib.rs": [
        (r"^pub mod metrics;$", ""), (r"^pub mod multi_raft;$", ""), (r"^pub mod network_client;$", ""),
        (r"^pub mod network_grpc;$", ""), (r"^pub mod network_http;$", ""), (r"^pub mod raft_node;$", ""),
    ],
    # the metadata server's own process: HTTP service, signals, command line
    "meta/src/lib.rs": [
        (r"^pub mod meta_cluster_command;$", ""), (r"^pub mod service;$", ""), (r"^pub mod signal;$", ""),
    ],
    # the pre-LMDB index engine (radixdb) and the one-time conversion from it
    "tskv/src/index/mod.rs": [(r"^mod engine;$", ""), (r"^pub use engine::\*;$", "")],
    "tskv/src/index/ts_index.rs": [
        (r"use crate::index::\{IndexEngine, SeriesAlreadyExistsSnafu\};", "use crate::index::SeriesAlreadyExistsSnafu;"),
        (r"^        // update index engine\n.*?^        \}\n", ""),
    ],
    # what the harness reaches into
    "tskv/src/lib.rs": [(r"^mod ([a-z_]+);$", r"pub mod \1;")],
    "tskv/src/reader/mod.rs": [(r"^mod ([a-z_]+);$", r"pub mod \1;")],
}


def read(path):
    with open(path, "rb") as f:
        return f.read()


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path) and read(path) == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".stage-tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def sync_tree(src, dst, keep=()):
    """Make dst an exact copy of src (content-compared); names in keep are left alone."""
    if not os.path.isdir(src):
        return
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src))
    for name in set(os.listdir(dst)) - names - set(keep):
        p = os.path.join(dst, name)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    for name in sorted(names):
        if name in keep or name in ("target", ".git", "__pycache__"):
            continue
        s, d = os.path.join(src, name), os.path.join(dst, name)
        if os.path.islink(s) and not os.path.exists(s):
            continue
        if os.path.isdir(s):
            if os.path.isfile(d) or os.path.islink(d):
                os.unlink(d)
            sync_tree(s, d)
        else:
            if os.path.isdir(d) and not os.path.islink(d):
                shutil.rmtree(d)
            data = read(s)
            rel = os.path.relpath(s, REPO)
            if rel in EDITS:
                data = edit(rel, data)
            write(d, data)


def edit(rel, data):
    text = data.decode()
    for pat, rep in EDITS[rel]:
        # keep line numbers: newlines removed by the match are put back
        def sub(m):
            r = m.expand(rep)
            return r + "\n" * (m.group(0).count("\n") - r.count("\n"))
        text, n = re.subn(pat, sub, text, flags=re.S | re.M)
        if n == 0:
            print(f"stage.py: note: omission {pat!r} matched nothing in {rel}", file=sys.stderr)
    return text.encode()


def drop_sections(text, names):
    """Remove whole [section] / [[section]] blocks whose header matches names."""
    out, skip = [], False
    for line in text.splitlines(keepends=True):
        m = re.match(r"^\s*\[+\s*([^\]]+?)\s*\]+", line)
        if m:
            skip = any(re.fullmatch(n, m.group(1)) for n in names)
        if not skip:
            out.append(line)
    return "".join(out)


def member_toml(text):
    text = drop_sections(text, [
        r"dev-dependencies", r"bench", r"bin", r"example", r"test", r"lints",
    ])
    text = re.sub(r"^default-run\s*=.*\n", "", text, flags=re.M)
    for d in DROP_DEPS:
        text = re.sub(rf"^{re.escape(d)}\s*=.*\n", "", text, flags=re.M)
    # features that name dropped optional dependencies
    text = re.sub(r'^io_uring\s*=.*\n', 'io_uring = []\n', text, flags=re.M)
    text = re.sub(r'^meta_e2e_test\s*=.*\n', 'meta_e2e_test = []\n', text, flags=re.M)
    return text


def root_toml(text, extra_members):
    m = re.search(r"^\[workspace\.dependencies\]\n(.*?)(?=^\[)", text, re.S | re.M)
    deps = []
    for line in m.group(1).splitlines():
        mm = re.match(r"^([A-Za-z0-9_-]+)\s*=", line)
        if mm and mm.group(1) in SHIMS:
            feat = ', features = ["full"]' if mm.group(1) == "datafusion" and SET != "light" else ""
            deps.append(f'{mm.group(1)} = {{ path = "shims/{mm.group(1)}"{feat} }}')
        elif mm and mm.group(1) == "uuid":
            deps.append('uuid = { version = "1.7", features = ["v4"] }')
        elif mm and mm.group(1) in DROP_DEPS:
            continue
        else:
            deps.append(line)
    have = {re.match(r"^([A-Za-z0-9_-]+)", l).group(1) for l in deps if re.match(r"^[A-Za-z0-9_-]+\s*=", l)}
    for s in sorted(SHIMS - have):
        if os.path.isdir(os.path.join(VERIF, "shims", s)):
            deps.append(f'{s} = {{ path = "shims/{s}" }}')
    pkg = re.search(r"^\[workspace\.package\]\n.*?(?=^#|^\[)", text, re.S | re.M).group(0)
    members = "".join(f'    "{x}",\n' for x in extra_members)
    return f"""# generated by /verif/stage.py
[workspace]
resolver = "2"
members = [
{members}]

{pkg}
[workspace.dependencies]
""" + "\n".join(deps) + """

[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = true
codegen-units = 16

[profile.dev.package."*"]
opt-level = 2
debug = false

[profile.dev.build-override]
opt-level = 0
debug = false
"""


def main():
    global REPO, SET
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default=os.environ.get("CNOSDB_REPO", "/repo"))
    ap.add_argument("--out", default=None)
    ap.add_argument("--set", choices=["light", "mid", "full"], default="light")
    args = ap.parse_args()
    SET = args.set
    if args.out is None:
        args.out = os.path.join(VERIF, "build", "ws-" + args.set)
    REPO, out = os.path.abspath(args.repo), os.path.abspath(args.out)

    for m in MEMBERS:
        if (args.set == "light" and m not in LIGHT) or (args.set == "mid" and m not in MID) \
                or (args.set == "full" and m not in FULL):
            continue
        src, dst = os.path.join(REPO, m), os.path.join(out, m)
        sync_tree(src, dst, keep={"Cargo.toml", "tests", "benches", "target"} |
                  ({"trace"} if m == "common/trace" else set()))
        write(os.path.join(dst, "Cargo.toml"), member_toml(read(os.path.join(src, "Cargo.toml")).decode()))
    REPO_SAVE, REPO = REPO, "/nonexistent"
    sync_tree(os.path.join(VERIF, "shims"), os.path.join(out, "shims"))
    sync_tree(os.path.join(VERIF, "harness"), os.path.join(out, "harness"))
    REPO = REPO_SAVE
    extra = []
    for kind in ("shims", "harness"):
        base = os.path.join(out, kind)
        for name in sorted(os.listdir(base)):
            if os.path.isfile(os.path.join(base, name, "Cargo.toml")):
                extra.append(f"{kind}/{name}")
    members = [m for m in MEMBERS if m != "query_server/sqllogicaltests"]
    if args.set == "light":
        members = [m for m in members if m in LIGHT]
        extra = [e for e in extra if e in LIGHT_EXTRA]
    elif args.set == "mid":
        members = [m for m in members if m in MID]
        extra = [e for e in extra if e in MID_EXTRA]
    else:
        members = [m for m in members if m in FULL]
        extra = [e for e in extra if e in FULL_EXTRA or e.startswith("shims/")]
    write(os.path.join(out, "Cargo.toml"), root_toml(read(os.path.join(REPO, "Cargo.toml")).decode(), members + extra))
    lock = os.path.join(out, "Cargo.lock")
    if not os.path.exists(lock):
        saved = os.path.join(VERIF, "ws.Cargo.lock")
        shutil.copyfile(saved if os.path.exists(saved) else os.path.join(REPO, "Cargo.lock"), lock)
    gen = os.path.join(out, "gen", "derive_gen.rs")
    if args.set == "light" and not os.path.exists(gen):
        sys.path.insert(0, VERIF)
        import gen_derive
        gen_derive.write(gen, int(os.environ.get("VERIF_SEED", "1")))
    # toolchain pin, as in the repo
    shutil.copyfile(os.path.join(REPO, "rust-toolchain.toml"), os.path.join(out, "rust-toolchain.toml"))


if __name__ == "__main__":
    sys.exit(main())
