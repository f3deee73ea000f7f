"""Builds and runs the concrete counterexample search (harness/)."""
import json
import os
import re
import resource
import subprocess
import threading

from . import weave

HLOCK = threading.Lock()
COPY = None     # where the harness goes when the code under test is the regenerated copy (vlib/gen.py)
TABLE = None    # and its table of accessors
ROOT = weave.ROOT
HDIR = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e.pop("CARGO_TARGET_DIR", None)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return e


def hdir():
    """the harness crate; a scratch copy when the code under test is elsewhere (development only)"""
    if weave.REPO == "/repo":
        return HDIR, os.path.join(BUILD, "h")
    top = COPY or os.environ.get("VERIF_SCRATCH", "/tmp/vh")
    d = os.path.join(top, "harness")
    os.makedirs(d, exist_ok=True)
    with HLOCK:
        subprocess.run(f"cp -a {HDIR}/src {HDIR}/Cargo.lock {d}/", shell=True, check=True)
    s = open(os.path.join(HDIR, "Cargo.toml")).read().replace("/repo/radius", weave.REPO + "/radius")
    with HLOCK:
        p = os.path.join(d, "Cargo.toml")
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
        if TABLE:
            open(os.path.join(d, "src/bin/dict/table.rs"), "w").write(TABLE)
    return d, os.path.join(top, "h")


def build(feature, bins, timeout=600):
    d, tgt = hdir()
    tgt = tgt + "-" + feature
    cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", feature, "--target-dir", tgt]
    for b in bins:
        cmd += ["--bin", b]
    try:
        r = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "build timed out"
    if r.returncode != 0:
        return None, r.stdout[-400000:]
    return {b: os.path.join(tgt, "debug", b) for b in bins}, ""


def literals(path, files):
    """integer and text constants that occur in the sources (not in their unit tests)"""
    ints, strs = set(), set()
    for f in files:
        try:
            t = open(f).read()
        except OSError:
            continue
        k = t.find("#[cfg(test)]")
        if k >= 0:
            t = t[:k]
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', t):
            s = m.group(1)
            if 0 < len(s) <= 40 and "{" not in s:
                strs.add(s.encode())
        t2 = re.sub(r'"(?:[^"\\\n]|\\.)*"', "", t)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?\b", t2):
            try:
                v = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                try:
                    v = int(m.group(1).replace("_", ""))
                except ValueError:
                    continue
            for x in (v - 1, v, v + 1):
                if 0 <= x < 1 << 32:
                    ints.add(x)
        for m in re.finditer(r"b'(\\?.)'", t2):
            c = m.group(1)
            ints.add(ord(c[-1]))
    with open(path, "w") as o:
        for i in sorted(ints):
            o.write(f"i {i}\n")
        for s in sorted(strs)[:200]:
            o.write(f"s {s.hex()}\n")
    return len(ints), len(strs)


def limits():
    g = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(exe, prop, secs, seed, lits, work, extra=(), timeout=None):
    """-> dict with found/case/message/evaluations/..., or error"""
    cmd = [exe, prop, "--seconds", str(secs), "--seed", str(seed), "--lits", lits] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout or secs * 4 + 150, preexec_fn=limits, cwd=work)
    except subprocess.TimeoutExpired:
        return {"error": "search timed out"}
    for l in reversed(r.stdout.splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    if r.returncode not in (0, 3) and "--trace" not in extra:
        # the process died: find the input that kills it
        tr = os.path.join(work, "trace-" + prop)
        r2 = run(exe, prop, secs, seed, lits, work, ["--trace", tr], timeout)
        if r2.get("died") and os.path.exists(tr):
            return {"found": True, "case": open(tr).read(), "message": f"the process ends abnormally (status {r.returncode})", "evaluations": 1, "distinct": 1, "samples": []}
        return r2 if "error" not in r2 else {"error": f"search ended with status {r.returncode}: {r.stderr[-400:]}"}
    return {"died": True, "error": f"status {r.returncode} {r.stderr[-400:]}"}


def differ(exes, prop, secs, seed, lits, work):
    """the same cases on both back ends; the first case that comes out differently"""
    procs = []
    for k in range(4):
        for f, exe in exes.items():
            out = os.path.join(work, f"dump-{f}-{k}")
            procs.append((k, f, out, subprocess.Popen([exe, prop, "--seconds", str(secs), "--seed", str(seed + k), "--lits", lits, "--dump", out],
                                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits, cwd=work)))
    ok = True
    for *_, p in procs:
        try:
            ok &= p.wait(timeout=secs * 4 + 150) == 0
        except subprocess.TimeoutExpired:
            p.kill()
            ok = False
    n, samples, same_bad, seen = 0, [], 0, set()
    fs = list(exes)
    for k in range(4):
        a, b = (open(os.path.join(work, f"dump-{f}-{k}"), errors="replace") for f in fs)
        for x, y in zip(a, b):
            u, v = x.rstrip("\n").split("\t"), y.rstrip("\n").split("\t")
            if len(u) < 3 or len(v) < 3 or u[2] != v[2]:
                break
            n += 1
            seen.add(hash(u[2]))
            if n % 5003 == 1 and len(samples) < 6 and len(u[2]) < 400:
                samples.append(u[2])
            if u[0] == v[0] and (u[1] == v[1] or u[2].startswith("tpw|")):
                same_bad += u[0] != "ok"
                continue
            i = 0 if u[0] != "ok" else 1
            return {"found": True, "case": u[2], "feature": fs[i], "message": f"{fs[0]}: {u[0]} {u[1]}; {fs[1]}: {v[0]} {v[1]}"[:1500], "evaluations": n, "distinct": len(seen), "samples": samples}
    r = {"found": False, "case": "", "message": "", "evaluations": n, "distinct": len(seen), "samples": samples, "deviating_alike": same_bad}
    if not ok and not n:
        r["error"] = "the differential run ended abnormally"
    return r


def replay_case(exe, prop, case, work):
    p = os.path.join(work, "case.txt")
    open(p, "w").write(case)
    try:
        r = subprocess.run([exe, prop, "--replay", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, preexec_fn=limits, cwd=work)
    except subprocess.TimeoutExpired:
        return 3, "does not terminate"
    return r.returncode, r.stdout.strip()
