#!/usr/bin/env python3
"""Decide one property: build the harness from /repo's working tree, run it.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1 with a VIOLATION line: a
generated case breaks it; anything else: the check could not be carried out.
Environment: VERIF_SEED (default 1), VERIF_TIER, CNOSDB_REPO (default /repo).
"""
import argparse
import fcntl
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import gen_derive  # noqa: E402

BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")

# property -> (package, workspace)
HARNESS = {"C40": ("derive", "light")}
for i in range(30, 40):
    HARNESS[f"C{i}"] = ("light", "light")
EXTRA = os.path.join(VERIF, "harness.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        HARNESS[k] = tuple(v)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.82", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def stage(which):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "stage.py"), "--set", which],
                       stdout=sys.stderr)
    if r.returncode != 0:
        log("run.py: staging the sources failed")
        sys.exit(2)


def build(pkg, which, features=None, quiet=False):
    """True when the harness built. Sources that do not resolve or compile are
    an error of the check, not a violation."""
    cmd = ["cargo", "build", "-q", "-p", pkg, "--target-dir", TARGET]
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
    r = subprocess.run(cmd, cwd=os.path.join(BUILD, "ws-" + which), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 and not quiet:
        lines = r.stdout.splitlines()
        errs = [i for i, l in enumerate(lines) if l.startswith("error")]
        shown = lines if len(lines) < 80 else [l for i in errs[:8] for l in lines[i:i + 10]] + lines[-5:]
        log("\n".join(shown))
    return r.returncode == 0, r.stdout


def violation(prop, replay, what):
    print(what, flush=True)
    print(f"VIOLATION property={prop} replay={replay}", flush=True)
    return 1


def crashed_cases(status):
    """(sub, case_seed, size) of every case that was running when the binary died."""
    try:
        lines = open(status, "rb").read().decode("utf-8", "replace").replace("\0", " ").splitlines()
    except OSError:
        return []
    out = []
    for line in lines:
        f = line.split()
        if len(f) == 3 and f[1].isdigit() and f[2].isdigit():
            out.append((f[0], int(f[1]), int(f[2])))
    return out


def limits():
    # a runaway allocation ends the case, not the sandbox
    lim = 24 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_binary(binary, args, timeout):
    scratch = tempfile.mkdtemp(prefix="pbt-")
    e = env()
    e["PBT_SCRATCH"] = scratch
    e.setdefault("RUST_BACKTRACE", "0")
    p = subprocess.Popen([binary] + args, env=e, cwd=scratch, preexec_fn=limits, start_new_session=True)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        log("run.py: out of time")
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def derive_rejects(prop, seed, tier, replays):
    """Programs the derives must refuse. -> (count, distinct, samples, violation or None)"""
    deps = os.path.join(TARGET, "debug", "deps")
    cands = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("libderive_traits-") and f.endswith(".rlib")]
    if not cands:
        log("run.py: no derive_traits rlib")
        sys.exit(2)
    lib = max(cands, key=os.path.getmtime)
    n = 48 if tier == "quick" else 240
    progs = gen_derive.rejects(seed, n)
    tmp = tempfile.mkdtemp(prefix="rej-")
    samples, bad = [], None

    def compiles(text, name):
        src = os.path.join(tmp, name + ".rs")
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run(["rustc", "--crate-type", "lib", "--edition", "2021", "--emit", "metadata", "-Awarnings",
                            "--extern", "derive_traits=" + lib, "-L", "dependency=" + deps, "--out-dir", tmp, src],
                           env=env(), cwd=os.path.join(BUILD, "ws-light"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout

    try:
        from concurrent.futures import ThreadPoolExecutor
        # the way of compiling works: what is accepted compiles
        ok, out = compiles(gen_derive.accepted(), "acc")
        if not ok:
            log(out)
            log("run.py: the reference program does not compile")
            sys.exit(2)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: compiles(x[1][0], f"r{x[0]}"), enumerate(progs)))
        for (text, why), (ok, _) in zip(progs, res):
            if len(samples) < 3:
                samples.append(f"[reject] {why}")
            if ok and bad is None:
                os.makedirs(replays, exist_ok=True)
                bad = os.path.join(replays, f"{prop}-reject.rs")
                with open(bad, "w") as f:
                    f.write(f"// accepted although: {why}\n" + text)
                bad = (bad, why)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return n, len({t for t, _ in progs}), samples, bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("rest", nargs="*")
    a, rest = ap.parse_known_args()
    rest += a.rest
    prop, tier = a.property, a.tier
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    if prop not in HARNESS:
        log(f"no harness for {prop}")
        return 2
    pkg, which = HARNESS[prop]
    evidence = os.path.join(VERIF, "evidence", f"{prop}.json")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()

    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, "ws-light", "gen", "derive_gen.rs")
    if pkg == "derive":
        gen_derive.write(gen, seed, *((40, 40) if tier == "quick" else (250, 250)))
    stage(which)
    ok, out = build(pkg, which, quiet=(pkg != "derive"))
    if not ok and pkg != "derive":
        # an interface another property's checks use has changed
        ok, out = build(pkg, which, features=prop.lower())
    if not ok and pkg == "derive":
        lib_ok, _ = build("derive_traits", which)
        if lib_ok:
            # the derive crates compile, code that uses them as documented does not
            os.makedirs(replays, exist_ok=True)
            rp = os.path.join(replays, f"{prop}-accept.rs")
            shutil.copyfile(gen, rp)
            log("\n".join(out.splitlines()[:40]))
            fcntl.flock(lock, fcntl.LOCK_UN)
            return violation(prop, rp, "generated types that use the derives as documented do not compile")
    if not ok:
        log(out[-6000:])
        log("run.py: the harness does not build")
        return 2
    # a private copy: another check may rebuild while this one runs
    bindir = tempfile.mkdtemp(prefix="bin-")
    binary = os.path.join(bindir, pkg)
    shutil.copy2(os.path.join(TARGET, "debug", pkg), binary)
    build_s = time.time() - t0
    fcntl.flock(lock, fcntl.LOCK_UN)
    log(f"run.py: {pkg} built in {build_s:.0f} s")
    try:
        if a.replay:
            if a.replay.endswith(".rs"):
                print("compile this file against derive_traits; see its first line")
                return 2
            return run_binary(binary, ["--replay", os.path.abspath(a.replay), "--tier", tier], 600) or 0
        budget = 4 * 3600 if tier == "thorough" else max(120, 860 - int(build_s))
        status = os.path.join(bindir, "status")
        args = ["--property", prop, "--tier", tier, "--seed", str(seed), "--evidence", evidence,
                "--replays", replays, "--findings", os.path.join(VERIF, "KNOWN_FINDINGS.txt"),
                "--corpus", os.path.join(VERIF, "corpus", prop), "--status", status] + rest
        if tier == "quick" and "--cap" not in rest:
            args += ["--cap", "90"]
        rc = run_binary(binary, args, budget)
        if rc is None:
            return 3
        if rc < 0 or rc > 2:
            # the code under test took the process down: find the case again
            print(f"the harness was ended by {'signal ' + str(-rc) if rc < 0 else 'exit ' + str(rc)}", flush=True)
            if rc == -signal.SIGKILL:
                return 3
            os.makedirs(replays, exist_ok=True)
            for k, (sub, cs, size) in enumerate(crashed_cases(status)):
                rp = os.path.join(replays, f"{prop}-crash-{k}.json")
                with open(rp, "w") as f:
                    json.dump({"property": prop, "sub": sub, "case_seed": cs, "size": size,
                               "message": f"the process died ({rc}) while this case ran"}, f)
                r = run_binary(binary, ["--replay", rp, "--tier", tier], 120)
                if r is not None and r != 0 and r != 2 and r != -signal.SIGKILL:
                    return violation(prop, rp, f"{sub}: the process dies")
                os.unlink(rp)
            log("run.py: the process died and no single case does it again")
            return 3
        if rc == 0 and pkg == "derive":
            n, distinct, samples, bad = derive_rejects(prop, seed, tier, replays)
            ev = json.load(open(evidence))
            c = ev["coverage"]
            c["evaluations"] += n
            c["distinct_nontrivial"] += distinct
            c["rule"] += "; [reject] programs that use the derives against their rules (double codes, codes over four digits, module codes that are not two characters, unknown attributes) are given to rustc, which must refuse each; all non-trivial"
            c["samples"] += samples
            ev["wall_s"] = round(time.time() - t0, 3)
            if bad:
                ev["violations"] = ev.get("violations", 0) + 1
            with open(evidence, "w") as f:
                json.dump(ev, f, indent=1)
            if bad:
                return violation(prop, bad[0], f"the derive accepts {bad[1]}")
        return rc
    finally:
        shutil.rmtree(bindir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
