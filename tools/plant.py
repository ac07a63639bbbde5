#!/usr/bin/env python3
"""Developer tool: writes /verif/seeded/<id>/ from the descriptions in seeds_*.py.

usage: plant.py [id...]        write patch.diff, demo.sh, demo.rs, meta.json
"""
import json
import os
import subprocess
import sys
import tempfile
import shutil
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, property, file, old, new, needs, breaks, deps, demo, more=()):
    SEEDS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, deps=deps, demo=demo))


PATHS = {"cache": "common/cache", "utils": "common/utils", "limiter_bucket": "common/limiter_bucket", "config": "config",
         "metrics": "common/metrics", "trace": "common/trace", "protos": "common/protos", "http_protocol": "common/http_protocol",
         "derive_traits": "common/derive_traits"}

DEMO = '''#!/bin/bash
# Exit 0 when the property holds for this input, nonzero when it is broken.
# Builds demo.rs against the crates of the repository as build.sh laid them out.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/stage.py || exit 3
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
TOML
cd "$d" && cargo build -q --offline 2> "$d/log" || { tail -40 "$d/log"; exit 3; }
timeout 120 /repo/target/debug/demo
'''


def main():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds_*.py"))):
        exec(open(f).read(), globals())
    want = set(sys.argv[1:])
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            patch = ""
            texts = {}
            for file, old, new in s["edits"]:
                t = texts.get(file) or subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + file], capture_output=True, text=True, check=True).stdout
                if t.count(old) != 1:
                    print(s["id"], "old text occurs", t.count(old), "times in", file)
                    sys.exit(1)
                texts[file] = t.replace(old, new)
            subprocess.run(["git", "init", "-q", tmp], check=True)
            for file in texts:
                orig = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + file], capture_output=True, text=True, check=True).stdout
                p = os.path.join(tmp, file)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(orig)
            subprocess.run(["git", "-C", tmp, "add", "-A"], check=True)
            for file, t in texts.items():
                open(os.path.join(tmp, file), "w").write(t)
            patch = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True, check=True).stdout
        finally:
            shutil.rmtree(tmp)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        lines = []
        for x in s["deps"]:
            if "=" in x:
                lines.append(x)
            else:
                lines.append(f'{x} = {{ path = "/opt/vp/ws/{PATHS[x]}" }}')
        custom = s["demo"].startswith("#!")
        if custom:
            open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % "\n".join(lines))
            open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip("\n"))
        for name, text in s.get("files", {}).items():
            open(os.path.join(d, name), "wb").write(text if isinstance(text, bytes) else text.encode())
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", s["id"])


main()
