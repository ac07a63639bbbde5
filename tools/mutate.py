#!/usr/bin/env python3
"""Mutation campaign (developer tool; no registered check uses it).

usage: mutate.py SET OUT.jsonl --workers N --per-file K [--seed S] FILE=PROP[,PROP] ...

Makes K single-place changes to each FILE (path in the repository) in a staged
copy under /tmp/mut, builds the harness, runs the quick checks of the PROPs with a
cap and records which changes none of them notices.
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = {"light": "light", "mid": "mid", "full": "full"}

RULES = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]),
    (r"\.\.=", [".."]), (r"\.rev\(\)", [""]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"(?<![\w.\"'#])(\d+)(?![\w.\"'])", ["+1", "-1"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]),
    (r"\bsaturating_add\b", ["wrapping_add"]), (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\bsaturating_mul\b", ["wrapping_mul"]),
    (r"\bSome\((\w+)\)$", ["None"]),
    (r"\?;$", [";"]),
]


def mutants(text):
    """(line number, new line) of every change."""
    lines = text.split("\n")
    out = []
    depth = 0
    intest = False
    for i, line in enumerate(lines):
        s = line.strip()
        if s.startswith(("#[cfg(test)]", "#[cfg(any())]")):
            break
        if not s or s.startswith(("//", "#[", "use ", "pub use", "extern", "debug!", "trace!", "info!", "warn!", "error!", "impl", "pub fn", "fn ", "pub struct", "pub enum", "#!", "assert", "pub async fn", "async fn", "pub(crate) fn", "pub const", "const", "type ", "pub type", "where")):
            if not (s.startswith(("const", "pub const")) and "=" in s and "fn" not in s):
                continue
        code = line.split("//")[0]
        if re.search(r":\s*(?:'?\w+(?:<.*>)?|std::\S+)\s\+\s", code) or "::rand" in code or "rand::" in code:
            continue
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                before = code[:m.start()]
                if pat == r"\?;$" and ("=" in before or before.strip().startswith("return")):
                    continue
                if before.count('"') % 2 == 1:
                    continue
                for r in reps:
                    if r in ("+1", "-1"):
                        n = int(m.group(1)) + int(r)
                        if n < 0:
                            continue
                        r2 = str(n)
                    else:
                        r2 = r
                    out.append((i, line[:m.start()] + r2 + line[m.end():]))
        if s.endswith(";") and re.match(r"^[a-z_][\w.]*(\.\w+)*(\(|\[| [-+|&]?= )", s) and not s.startswith(("let ", "return", "break", "continue")):
            out.append((i, re.sub(r"\S.*", "", line) + "{}"))
        if re.match(r"^return\b.*;$", s):
            out.append((i, re.sub(r"\S.*", "", line) + "{}"))
    return lines, out


def worker(k, q, a, results, lock):
    ws = f"/tmp/mut/{a.set}{k}/ws"
    target = f"/tmp/mut/{a.set}{k}/target"
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.82", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="3")
    subprocess.run([sys.executable, os.path.join(VERIF, "stage.py"), "--set", a.set, "--repo", a.repo, "--out", ws], check=True, stdout=subprocess.DEVNULL)
    pkg = PKG[a.set]
    subprocess.run(["cargo", "build", "-q", "-p", pkg, "--target-dir", target], cwd=ws, env=env, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    scratch = f"/tmp/mut/{a.set}{k}/scratch"
    os.makedirs(scratch, exist_ok=True)
    while True:
        try:
            f, props, ln, new = q.get_nowait()
        except queue.Empty:
            return
        path = os.path.join(ws, f)
        orig = open(path).read()
        lines = orig.split("\n")
        old = lines[ln]
        lines[ln] = new
        open(path, "w").write("\n".join(lines))
        rec = {"file": f, "line": ln + 1, "old": old.strip(), "new": new.strip()}
        try:
            b = subprocess.run(["timeout", "400", "cargo", "build", "-q", "-p", pkg, "--target-dir", target], cwd=ws, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if b.returncode != 0:
                rec["result"] = "no build"
                continue
            rec["result"] = "SURVIVED"
            for p in props:
                cmd = ["timeout", "-s", "KILL", str(a.cap * 2 + 60), os.path.join(target, "debug", pkg), "--property", p, "--tier", "quick", "--seed", "1",
                       "--evidence", f"{scratch}/e.json", "--replays", f"{scratch}/replays", "--findings", os.path.join(VERIF, "KNOWN_FINDINGS.txt"),
                       "--corpus", f"{scratch}/corpus", "--status", f"{scratch}/status", "--cap", str(a.cap)]
                pr = subprocess.Popen(cmd, cwd=scratch, env=dict(env, PBT_SCRATCH=scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                for line in pr.stdout:
                    if " fails (" in line or line.startswith("VIOLATION"):
                        rec["result"] = "caught " + p
                        rec["by"] = line[:160].strip()
                        pr.kill()
                        break
                pr.stdout.close()
                pr.wait()
                if rec["result"] == "SURVIVED" and pr.returncode not in (0,):
                    rec["result"] = f"exit {pr.returncode} {p}"
                if rec["result"] != "SURVIVED":
                    break
        finally:
            open(path, "w").write(orig)
            with lock:
                with open(a.out, "a") as o:
                    o.write(json.dumps(rec) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("set")
    ap.add_argument("out")
    ap.add_argument("files", nargs="+")
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--per-file", type=int, default=10)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cap", type=int, default=30)
    ap.add_argument("--repo", default="/tmp/rw")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    jobs = []
    for spec in a.files:
        f, props = spec.split("=")
        _, ms = mutants(open(os.path.join(a.repo, f)).read())
        rng.shuffle(ms)
        jobs += [(f, props.split(","), ln, new) for ln, new in ms[:a.per_file]]
    rng.shuffle(jobs)
    print(len(jobs), "changes")
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    results, lock = [], threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, a, results, lock)) for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
