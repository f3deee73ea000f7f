"""One check: verify the contracts of a property on the current sources, search for
a concrete failing input on the real code, write the evidence, give the verdict."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import contracts as tbl, gen, groups, harness, props, solve, theorems, weave

ROOT = weave.ROOT
BUILD = os.path.join(ROOT, "build")
KNOWN = os.path.join(ROOT, "known_findings.txt")


def build_extractor():
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(ROOT, "tools/vextract/Cargo.toml")],
                       env=harness.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("the extractor does not build: " + r.stdout[-1500:])


def setup():
    build_extractor()
    rc = 0
    for f in ("md5", "openssl"):
        ok, msg = harness.build(f, harness_bins(f))
        if ok is None:
            print(msg[-3000:])
            rc = 1
    repo, bad = gen.prepare(weave.REPO)
    if bad:
        print("code generator:", bad[1])
    else:
        gen.enter(repo)
        harness.build("md5", ["dict"])
    print("setup done" if rc == 0 else "setup: the harness does not build")
    return rc


def harness_bins(feature):
    b = sorted({p[2] for p in props.PROPS.values() if p[2] and feature in p[1]})
    return b


def trusted_base():
    """every assumption in the support files"""
    out = []
    for n in ("vx", "spec", "ext", "gh"):
        p = os.path.join(ROOT, "contracts", n + ".rs")
        if not os.path.exists(p):
            continue
        L = open(p).read().split("\n")
        for i, l in enumerate(L):
            if "external_body" in l or re.search(r"\baxiom fn\b", l) or "assume_specification" in l or "uninterp" in l:
                for k in range(i, min(i + 3, len(L))):
                    m = re.search(r"\b(?:fn|struct|enum)\s+(\w+)", L[k])
                    if m or "assume_specification" in L[k]:
                        kind = "axiom" if "axiom fn" in L[k] else ("uninterpreted" if "uninterp" in L[k] else "assumed contract")
                        name = m.group(1) if m else re.sub(r".*\[\s*(.*?)\s*\].*", r"\1", L[k])
                        out.append(f"{n}.rs: {kind} {name}")
                        break
    return sorted(set(out))


def verify(group, feature, prop, work, tier):
    """verify a group; returns (result, contracts, paths verified)"""
    C, ver, mods, extra = groups.select(group)
    w = os.path.join(work, group + "-" + feature)
    os.makedirs(w, exist_ok=True)
    r = solve.solve(C, ver, mods, feature, w, group, extra=extra, use_cache=(tier != "thorough"), canary=(tier == "thorough"))
    return r, C, ver


def relevant(prop, p, c):
    """is this function's contract part of the argument for the property"""
    return c is not None and props.concerns(prop, c) or (prop == "C16" and p.startswith("core::"))


def attributed(prop, p, c, o):
    """does a failed obligation of function p count against the property"""
    if c is None:
        return prop == "C16"
    if o["kind"] == "ensures":
        for e in c.ensures:
            if e.label == o["label"]:
                return props.counts(prop, e)
        return props.concerns(prop, c)
    return relevant(prop, p, c)


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in props.PROPS:
        print("unknown property", prop)
        return 2
    gs, feats, hbin = props.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"work-{prop}-", dir=BUILD)
    try:
        return run(prop, tier, seed, gs, feats, hbin, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, gs, feats, hbin, work, t0):
    if not os.path.exists(weave.VEXTRACT):
        build_extractor()
    secs = 12 if tier == "quick" else 150
    base, fails = weave.REPO, None
    if prop == "C27":
        repo, bad = gen.prepare(base)
        if bad and bad[0] == "error":
            print("not decided:", bad[1])
            return 2
        if bad:
            return gen_failed(prop, tier, seed, bad[2], bad[1], t0)
        gen.enter(repo)
    with cf.ThreadPoolExecutor(8) as ex:
        vf = {(g, f): ex.submit(verify, g, f, prop, work, tier) for g in gs for f in feats if f == "md5" or groups.BOTH[g]}
        th = ex.submit(theorems.prove, prop, work)
        hf = {f: ex.submit(harness.build, f, [hbin]) for f in feats} if hbin else {}
        builds = {f: x.result() for f, x in hf.items()}
        # the first concrete search runs while the verifier does
        lits = os.path.join(work, "lits.txt")
        src = os.path.join(weave.REPO, "radius/src")
        files = [os.path.join(src, f) for f in props.CORE_FILES]
        files += [os.path.join(src, f) for f in props.EXTRA_LITS.get(prop, [])] if hasattr(props, "EXTRA_LITS") else []
        harness.literals(lits, files)
        exes = {f: b[0][hbin] for f, b in builds.items() if b[0] is not None}
        first = search(prop, exes, secs, seed, lits, work) if hbin != "net" else None
        results = {}
        for k, x in vf.items():
            try:
                results[k] = x.result()
            except Exception as e:  # the verifier could not be run at all
                results[k] = e
        try:
            thm = th.result()
        except Exception as e:
            thm = (theorems.names(prop), str(e)[:300], None)
    failed, undecided, verified, notes = [], [], [], []
    for (g, f), r in results.items():
        if isinstance(r, Exception):
            undecided.append((f"{g} ({f})", "the verifier could not be run: " + str(r)[:300]))
            continue
        res, C, ver = r
        if res.global_error:
            undecided.append((f"{g} ({f})", "front end: " + res.global_error[:300]))
        for p, why in res.missing.items():
            if p in C and relevant(prop, p, C[p]):
                undecided.append((f"{p} ({f})", "anchor lost: " + why))
        for p, why in res.unsupported.items():
            if p in C and relevant(prop, p, C[p]):
                undecided.append((f"{p} ({f})", why[:300]))
        for p, l in res.failed.items():
            for o in l:
                if attributed(prop, p, C.get(p) or tbl.T.get(p), o):
                    failed.append((p, f, "failed", o))
        for p, l in res.timeouts.items():
            if relevant(prop, p, C.get(p) or tbl.T.get(p)) and p not in res.failed:
                undecided.append((f"{p} ({f})", "resource limit exceeded"))
        for p in res.vacuous:
            if relevant(prop, p, C[p]):
                undecided.append((f"{p} ({f})", "its body also proves `false`: the proof is vacuous"))
        for c in res.gone if g == "dict" and prop in ("C14", "C27") else []:
            undecided.append((c, "constant not found under this name"))
        for p in res.verified:
            if relevant(prop, p, C[p]):
                verified.append((p, f, C[p], res))
        notes += [f"{g}/{f}: {n}" for n in res.notes] + [f"{g}/{f}: private helper {p} no longer meets its own contract ({m[:120]}); its callers were verified with it inlined" for p, m in res.inlined]

    if prop == "C23":
        failed, more = only_one_back_end(failed, feats, undecided)
        undecided += more
    if thm[1]:
        undecided.append(("theorems over the contracts (" + ", ".join(thm[0][:4]) + (", ..." if len(thm[0]) > 4 else "") + ")", thm[1]))
    # ---- concrete search (replay of failures; cross-check of extraction and assumed contracts)
    found, hstats, herr = None, [], []
    for f, (bins, msg) in builds.items():
        if bins is None and prop == "C27" and base_builds(base, f, hbin):
            return gen_failed(prop, tier, seed, "gen (the emitted modules are used by the crate)", "what the code generator emits does not compile or lacks accessors: " + gen.broken(msg), t0,
                              [f"{p} [{x}] {o['kind']} {o['label']}" for p, x, k, o in failed])
        if bins is None:
            herr.append(f"the replay harness does not build against the current tree ({f}): " + msg[-600:])
    found, hstats, more = first or search(prop, exes, secs, seed, lits, work)
    if not found and tier == "quick" and (failed or undecided):
        found, again, more = search(prop, exes, secs * 3, seed + 1000003, lits, work)
        hstats += again
    herr += more
    wall = time.time() - t0
    known = known_findings(prop)
    rc = 0
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")
    viol = 0
    if found and any(k in found[1]["case"] + " " + found[1]["message"] for k in known):
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        found = None
    fobs = [{"function": p, "backend": f, "status": k, "obligation": f"{o['kind']} {o['label']}", "message": o["msg"], "at": o["at"], "verifier": o["rendered"]} for p, f, k, o in failed]
    if found:
        f, s = found
        json.dump({"property": prop, "kind": "input", "harness": hbin, "feature": f, "case": s["case"], "message": s["message"], "failed_obligations": fobs,
                   "how": f"python3 /verif/check.py --replay {rpath}"}, open(rpath, "w"), indent=1)
        for x in fobs[:6]:
            print(f"failed obligation: {x['function']} [{x['backend']}] {x['obligation']}: {x['message']}")
        print(f"failing input ({f}): {s['case'][:600]}\n  {s['message'][:600]}")
        print(f"VIOLATION property={prop} replay={rpath}")
        rc, viol = 1, 1
    elif failed:
        json.dump({"property": prop, "kind": "obligation", "failed_obligations": fobs, "searched": [s for _, s in hstats]}, open(rpath, "w"), indent=1)
        for x in fobs[:6]:
            print(f"failed obligation: {x['function']} [{x['backend']}] {x['obligation']}: {x['message']}\n    at: {x['at']}")
        print(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
        rc, viol = 1, len(fobs)
    evidence(prop, tier, seed, results, verified, failed, undecided, notes, hstats, herr, wall, viol, thm)
    n = len({p for p, *_ in verified})
    print(f"{prop}: {n} functions verified for {'/'.join(feats)}, {0 if thm[1] else len(thm[0])} theorems, {len(failed)} failed obligations, {len(undecided)} undecided, "
          f"{sum(s['evaluations'] for _, s in hstats)} concrete cases, {wall:.0f} s")
    for a, b in undecided:
        print("  not decided by proof (bounded search only):", a, "-", b[:200])
    for e in herr:
        print("  harness:", e[:300])
    return rc


def search(prop, exes, secs, seed, lits, work):
    """a concrete search -> (what was found, statistics, errors)"""
    found, stats, errs = None, [], []
    if prop == "C23":
        if len(exes) == 2:
            s = harness.differ(exes, prop, secs, seed, lits, work)
            if "error" in s:
                errs.append(s["error"])
            else:
                stats.append(("md5 against openssl", s))
                if s["found"]:
                    found = (s["feature"], s)
    else:
        for f, exe in exes.items():
            s = harness.run(exe, prop, secs, seed, lits, work)
            if "error" in s:
                errs.append(s["error"])
                continue
            stats.append((f, s))
            if s["found"] and found is None:
                found = (f, s)
                break
    if found:
        solve.HIT.append(time.time())
    return found, stats, errs


def base_builds(base, f, hbin):
    keep = weave.REPO, harness.COPY, harness.TABLE
    weave.REPO, harness.COPY, harness.TABLE = base, None, None
    try:
        return harness.build(f, [hbin])[0] is not None
    finally:
        weave.REPO, harness.COPY, harness.TABLE = keep


def gen_failed(prop, tier, seed, case, message, t0, failed=()):
    """the generator itself fails on a dictionary, or what it emits is no valid Rust"""
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")
    json.dump({"property": prop, "kind": "input", "harness": "dict", "feature": "md5", "case": case, "message": message, "failed_obligations": list(failed),
               "how": f"python3 /verif/check.py --replay {rpath}"}, open(rpath, "w"), indent=1)
    print(f"failing input: {case[:800]}\n  {message[:1200]}")
    print(f"VIOLATION property={prop} replay={rpath}")
    h = [("md5", {"evaluations": 1, "distinct": 1, "samples": [case]})]
    evidence(prop, tier, seed, {}, [], [], [("every emitted module", message[:300])], [], h, [], time.time() - t0, 1, ([], None, None))
    return 1


def only_one_back_end(failed, feats, undecided):
    """a contract that both back ends miss alike does not tell them apart: that is left to the differential search"""
    keep, more = [], []
    for p in sorted({x[0] for x in failed}):
        l = [x for x in failed if x[0] == p]
        by = {f: sorted((x[3]["kind"], x[3]["label"]) for x in l if x[1] == f) for f in feats}
        if by[feats[0]] != by[feats[1]] and not any(u.startswith(p + " (") for u, _ in undecided):
            keep += l
        else:
            more.append((p, "both back ends miss the contract: " + ", ".join(sorted({f"{k} {n}" for v in by.values() for k, n in v}))))
    return keep, more


def known_findings(prop):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(rf"finding: property={prop} (.*)", l.strip())
            if m:
                out.append(m.group(1))
    except OSError:
        pass
    return out


def evidence(prop, tier, seed, results, verified, failed, undecided, notes, hstats, herr, wall, viol, thm):
    ob = dis = inv = 0
    smt = 0.0
    fns = {}
    cmds = []
    per = []
    for p, f, c, res in verified:
        cl = [e.label for e in c.ensures if props.counts(prop, e) or prop == "C16"]
        n = len(cl) + 1
        ob += n
        dis += n
        d = fns.setdefault(p, {"clauses": [e.label for e in c.ensures if props.counts(prop, e)], "backends": []})
        d["backends"].append(f)
    for (g, f), r in results.items():
        if isinstance(r, Exception):
            continue
        res = r[0]
        cmds.append(res.cmd)
        smt += res.smt_ms
        inv += res.invariants
        per.append({"group": g, "backend": f, "verus_units_verified": res.total_verified, "functions_with_contracts_verified": len(res.verified), "loop_invariants": res.invariants,
                    "bodies_refused_against_false": res.canaries, "smt_ms": round(res.smt_ms), "rounds": res.rounds, "loops_without_termination_proof": res.loops_without_decreases})
    ob += len(failed) + len(thm[0])
    if not thm[1]:
        dis += len(thm[0])
    bounded = bool(undecided) or not verified
    cov = {
        "obligations": ob, "discharged": dis, "checker_cmd": cmds[0] if cmds else "verus", "trusted_base": trusted_base(),
        "obligations_rule": "one per contract clause of this property plus one per function body (memory safety, arithmetic, indexing, callee preconditions, loop invariants), per back end, plus one per theorem over the contracts, counted on this run",
        "functions_under_contract": fns, "runs": per, "solver_time_ms": round(smt), "loop_invariants": inv,
        "theorems_over_contracts": {"names": thm[0], "proved": not thm[1], "wall_s": round(thm[2]["wall"], 1) if thm[2] else None},
        "undecided_functions_bounded_only": [f"{a}: {b}" for a, b in undecided],
        "failed": [f"{p} [{f}] {o['kind']} {o['label']}" for p, f, k, o in failed],
        "notes": notes,
        "concrete_search": [{"backend": f, "evaluations": s["evaluations"], "enumerated": s.get("enumerated"), "distinct": s["distinct"], "samples": s["samples"]} for f, s in hstats],
        "concrete_search_errors": herr,
        "explanation": "deductive verification (Verus/Z3) of the functions extracted from /repo's current sources; the concrete search only looks for replayable inputs and cross-checks assumed contracts",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other" if bounded else "proof", "coverage": cov,
          "assumptions": ASSUMPTIONS + [f"extraction note {p}: {n}" for p, f, c, res in verified for n in res.fn_notes.get(p, []) if f == "md5"][:20],
          "wall_s": round(wall, 1), "violations": viol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


ASSUMPTIONS = [
    "the extraction (tools/vextract) preserves meaning: iterator chains, `?`, match-on-Result combinators and format!/log macros are rewritten to loops, matches and opaque strings; tests, attributes and doc comments are dropped",
    "assumed contracts of the standard library, md5, openssl, rand, chrono and tokio in contracts/vx.rs and contracts/ext.rs (listed in trusted_base)",
    "MD5 is an uninterpreted function with 16-byte results; openssl's hash succeeds",
    "usize is 64 bits; allocations succeed and no slice exceeds isize::MAX bytes",
    "termination is proved only for loops with a decreases clause (others are listed)",
    "Verus, Z3 and rustc are correct",
]


def replay(path):
    d = json.load(open(path))
    if d.get("kind") != "input":
        for x in d.get("failed_obligations", []):
            print(x["function"], x["obligation"], x["message"])
            print(x["verifier"])
        return 1
    if d["property"] == "C27":
        repo, bad = gen.prepare(weave.REPO)
        if bad:
            print(bad[1])
            return 1 if bad[0] == "fails" else 2
        gen.enter(repo)
    bins, msg = harness.build(d["feature"], [d["harness"]])
    if bins is None and d["case"].startswith("gen "):
        print(gen.broken(msg))
        return 1
    if bins is not None and d["case"].startswith("gen "):
        print("the emitted modules compile")
        return 0
    if bins is None:
        print(msg[-3000:])
        return 2
    with tempfile.TemporaryDirectory() as w:
        rc, out = harness.replay_case(bins[d["harness"]], d["property"], d["case"], w)
    print(out)
    return 1 if rc == 3 else 0
