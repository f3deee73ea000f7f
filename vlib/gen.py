"""The code generator: builds it from the current sources, runs it on the shipped
dictionaries and on contracts/synth (every data type and option), and puts what it
emits into a scratch copy of the repository.  The contracts of the dictionary
accessors are then verified on that copy, and the concrete harness runs on it."""
import fcntl
import json
import os
import re
import shutil
import subprocess

from . import dictcontracts, dicttable, harness, weave

SYNTH = os.path.join(weave.ROOT, "contracts", "synth")
IGNORE = shutil.ignore_patterns("target", ".git", "*.orig")
_lock = []


def tail(s, n=1200):
    return s[-n:]


def prepare(base):
    """-> (path of the copy, None) or (None, (kind, message, case)); kind 'error' (the machinery) or 'fails' (the generator)"""
    top = os.path.join(harness.BUILD if base == "/repo" else os.environ.get("VERIF_SCRATCH", "/tmp/vh"), "c27")
    os.makedirs(top, exist_ok=True)
    f = open(os.path.join(top, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    _lock.append(f)
    repo, out = os.path.join(top, "repo"), os.path.join(top, "out")
    for d in (repo, out):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(base, repo, ignore=IGNORE, symlinks=True, copy_function=shutil.copyfile)  # fresh times: cargo must see every change
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(repo, "code-generator/Cargo.toml"), "--target-dir", os.path.join(top, "gen")],
                       env=harness.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        return None, ("error", "the code generator does not build: " + tail(r.stdout), "")
    exe = os.path.join(top, "gen", "debug", "code-generator")
    core = os.path.join(repo, "radius/src/core")
    made = []
    for name, d in (("dicts", os.path.join(repo, "dicts")), ("synth", SYNTH)):
        o = os.path.join(out, name)
        os.makedirs(o)
        files = sorted(os.path.join(d, x) for x in os.listdir(d) if x.startswith("dictionary."))
        try:
            r = subprocess.run([exe, "--out-dir=" + o + "/"] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None, ("fails", "the code generator does not end within 60 s", "gen " + " ".join(files))
        want = {os.path.basename(x).split(".")[-1] for x in files}
        lost = sorted(x for x in want if not os.path.exists(os.path.join(o, x + ".rs")))
        if r.returncode != 0 or lost:
            return None, ("fails", f"the code generator ends with status {r.returncode}, modules missing: {lost}: {tail(r.stdout, 600)}", "gen " + " ".join(files))
        for x in want:
            shutil.copyfile(os.path.join(o, x + ".rs"), os.path.join(core, x + ".rs"))
            made.append(x)
    root = core + ".rs" if os.path.exists(core + ".rs") else os.path.join(core, "mod.rs")
    s = open(root).read()
    have = set(re.findall(r"\bmod (\w+)\s*;", s))
    open(root, "w").write(s.rstrip("\n") + "\n" + "".join(f"pub mod {m};\n" for m in sorted(made) if m not in have))
    return repo, None


def enter(repo):
    """from here on everything looks at the copy"""
    weave.REPO = repo
    harness.TABLE = dicttable.table(dictcontracts.DICT)
    harness.COPY = os.path.join(os.path.dirname(repo), "h")


def case():
    return "radius-rs code generator on the shipped dictionaries and on " + SYNTH


def broken(msg):
    """first compiler errors of a failed build"""
    e = re.findall(r"^(error(?:\[E\d+\])?: .*(?:\n\s+--> .*)?)", msg, re.M)
    return "; ".join(re.sub(r"\s+", " ", x) for x in e[:4]) or tail(msg, 500)
