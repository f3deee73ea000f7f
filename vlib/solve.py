"""The verification loop: weave, run Verus, prune invariant candidates, fall back."""
import copy
import json
import os
import re
import time

from . import dictcontracts, weave
from .weave import Plan, LostAnchor

CACHE = os.path.join(weave.ROOT, "contracts", "invariants.json")
INTERNAL = ("invariant not satisfied", "decreases not satisfied")


SEED = "smt.random_seed="
RETRIES = [((), 10, "bits"), ((), 10, "lemma_add_assoc"), (("--smt-option", SEED + "1"), 10, ""), ((), 10, "lemma_sub_full"), ((), 10, "lemma_push_is_add"),
           (("--smt-option", SEED + "2"), 10, ""), ((), 60, "")]


HIT = []                         # the time a failing input was found in this run


class Result:
    def __init__(self):
        self.verified = {}       # path -> {"time_ms":..}
        self.failed = {}         # path -> [ {kind,label,msg,line,text} ]
        self.unsupported = {}    # path -> reason (contract assumed)
        self.inlined = []        # soft helpers inlined
        self.timeouts = {}
        self.missing = {}
        self.rounds = 0
        self.wall = 0.0
        self.smt_ms = 0
        self.total_verified = 0
        self.notes = []
        self.clauses = 0
        self.invariants = 0
        self.loops_without_decreases = []
        self.global_error = None
        self.cmd = ""
        self.text = ""
        self.fn_notes = {}
        self.gone = []
        self.canaries = None
        self.vacuous = []


def load_cache():
    try:
        return json.load(open(CACHE))
    except Exception:
        return {}


def primary_lines(d, fname):
    out = []
    for sp in d.get("spans", []):
        if os.path.basename(sp["file_name"]) == fname:
            out.append((sp["is_primary"], sp["line_start"], sp.get("label") or "", sp["text"][0]["text"].strip() if sp.get("text") else ""))
    for ch in d.get("children", []):
        out += primary_lines(ch, fname)
    return out


def solve(contracts, verify, modules, feature, work, name, extra=(), log=None, use_cache=True, learn=None, max_rounds=14, budget=300, canary=False):
    """contracts: dict path->Contract (already selected); verify: set of paths"""
    res = Result()
    cache = load_cache() if use_cache else {}
    plan = Plan()
    if name.startswith("rand"):
        plan.broadcast = "lemma_be16_or"
    active = dict(contracts)
    soft_off = set()
    ckey = feature + ("-rand:" if name.startswith("rand") else ":")

    def prepare():
        ex = weave.extract(feature, [p for p in active if p not in soft_off], work)
        gone = dictcontracts.prepare(ex) if any(m.split("::")[-1] in dictcontracts.MODULES for m in modules) else []
        for p, c in gone:
            # a constant that no longer exists under this name: its clause cannot be stated
            if p in active:
                active[p] = copy.copy(active[p])
                active[p].ensures = [e for e in active[p].ensures if e.label != c]
                res.notes.append(f"{p}: constant {c} not found")
                res.gone.append(c)
        present = {f["path"]: f for _, _, f in weave.fn_items(ex)}
        return ex, present

    ex, present = prepare()
    # soft contracts whose function is gone need no verification
    for p in list(active):
        if p in present:
            continue
        if any(p == f["path"] for m in ex["modules"] for it in m["items"] if it["kind"] == "trait" for f in it["fns"]):
            continue
        c = active[p]
        if getattr(c, "soft", False):
            soft_off.add(p)
            del active[p]
            res.notes.append(f"private helper {p} no longer exists; its contract is not used")
        else:
            res.missing[p] = "function not found"
            del active[p]
    if soft_off:
        ex, present = prepare()
    plan.verify = {p for p in verify if p in present and p in active}
    hashes = {p: weave.body_hash(present[p]) for p in plan.verify}

    def load_chosen():
        plan.chosen.clear()
        for p in plan.verify:
            ent = cache.get(ckey + p)
            if ent and ent["hash"] == weave.body_hash(present[p]):
                ids = loop_names(present[p])
                for k, lst in ent["inv"].items():
                    plan.chosen[(p, int(k))] = [uncanon(x, ids) for x in lst]
                for k in ent.get("nodec", []):
                    plan.nodec.add((p, k))
    load_chosen()

    def annotate():
        """types of locals that later code determines, so that no invariant candidate fixes them wrongly"""
        plan.probe = {p for p in plan.verify if p not in plan.annot and weave.untyped(present[p]) and not present[p].get("opaque")
                      and not all((p, l["id"]) in plan.chosen for l in present[p]["loops"])}
        if not plan.probe:
            return
        try:
            text, tags, _ = weave.build_file(ex, active, plan, modules, extra)
        except LostAnchor:
            plan.probe = set()
            return
        r = weave.run_verus(text, work, name + "_probe")
        lines = text.split("\n")
        for p in plan.probe:
            plan.annot.setdefault(p, {})
        for d in r["diags"]:
            for prim, line, label, txt in primary_lines(d, name + "_probe.rs"):
                m = re.match(r"expected `VxProbe`, found `(.*)`$", label or "")
                v = re.search(r"let vx_probe : crate::vx::VxProbe = (\w+);", txt or "")
                if m and line in tags and "_" not in m.group(1) and "..." not in m.group(1) and "Vx" not in m.group(1):
                    for n in ([v.group(1)] if v else []):
                        plan.annot[tags[line][0]][n] = m.group(1)
        if log:
            log(f"types: {plan.annot}")
        plan.probe = set()
    annotate()

    t_end = time.time() + budget

    def left():
        # once a failing input is known, the rest is only about naming obligations
        nonlocal t_end
        if HIT:
            t_end = min(t_end, HIT[0] + 75)
        return t_end - time.time()
    soft_fail = {}
    for rnd in range(max_rounds):
        if left() < 0:
            res.global_error = "time budget exhausted before the invariant search ended"
            break
        res.rounds = rnd + 1
        try:
            text, tags, cands = weave.build_file(ex, active, plan, modules, extra)
        except LostAnchor as e:
            c = active.pop(e.path, None)
            plan.verify.discard(e.path)
            if c is not None and c.soft:
                soft_off.add(e.path)
                ex, present = prepare()
                annotate()
                res.notes.append(f"private helper {e.path}: {e.why}; inlined instead")
            else:
                res.missing[e.path] = e.why
            continue
        r = weave.run_verus(text, work, name)
        res.wall += r["wall"]
        res.cmd = " ".join(r["cmd"])
        res.text = text
        if os.environ.get("VX_KEEP"):
            with open(os.path.join(os.environ["VX_KEEP"], f"{name}_{rnd + 1}.rs"), "w") as f:
                f.write(text)
        fname = name + ".rs"
        vr = (r["json"] or {}).get("verification-results", {})
        errs = [d for d in r["diags"] if d.get("level") == "error" and not d["message"].startswith("aborting due to")]
        front = (r["json"] is None) or vr.get("encountered-vir-error") or "verified" not in vr or "smt" not in r["json"].get("times-ms", {}) \
            or not r["json"]["times-ms"]["smt"].get("smt-run-module-times")
        if log:
            log(f"round {rnd + 1}: front={front} errors={len(errs)} verified={vr.get('verified')} wall={r['wall']:.1f}")
            if os.environ.get("VX_DEBUG"):
                for d in errs[:12]:
                    log("   " + d.get("rendered", d["message"])[:900])
        if front:
            changed = False
            blamed = set()
            for d in errs:
                pl = primary_lines(d, fname)
                pl.sort(key=lambda x: not x[0])
                hit = False
                for prim, line, label, txt in pl:
                    t = tags.get(line)
                    if t is None:
                        continue
                    if t[1] == "inv":
                        plan.dropped.setdefault((t[0], t[2][0]), set()).add(t[2][1])
                        for k in ((t[0], t[2][0]),):
                            if k in plan.chosen:
                                plan.chosen[k] = [x for x in plan.chosen[k] if x != t[2][1]]
                        changed = hit = True
                        break
                    if t[1] == "dec":
                        plan.nodec.add((t[0], t[2]))
                        changed = hit = True
                        break
                    if t[0] in present:
                        blamed.add((t[0], d["message"][:300]))
                        hit = True
                        break
                    if t[1] == "use":
                        for m in ex["modules"]:
                            m["items"] = [i for i in m["items"] if not (i["kind"] == "raw" and i["text"] == t[2] and m["path"] == t[0])]
                        changed = hit = True
                        break
                if not hit:
                    res.notes.append("unattributed front-end error: " + d["message"][:300] + " " + str(pl[:2]))
            if not changed and not blamed:
                res.global_error = "; ".join(d["message"][:200] for d in errs[:3]) or r["raw"][-500:]
                break
            if not changed:
                redo = False
                for p, msg in blamed:
                    c = active.get(p)
                    if c is not None and c.soft and p not in soft_off and p in plan.verify:
                        soft_off.add(p)
                        active.pop(p)
                        plan.verify.discard(p)
                        res.inlined.append((p, msg))
                        redo = True
                    elif p in plan.demoted or p not in plan.verify:
                        # even the signature is outside the verifier's reach
                        active.pop(p, None)
                        plan.verify.discard(p)
                        res.unsupported[p] = msg
                        for m in ex["modules"]:
                            drop_fn(m, p)
                    else:
                        plan.demoted[p] = msg
                        res.unsupported[p] = msg
                if redo:
                    ex, present = prepare()
                    plan.dropped.clear()
                    load_chosen()
                    annotate()
            continue
        # verification ran
        inv_changed = False
        failed = {}
        timeouts = {}
        for d in errs:
            msg = d["message"]
            pl = primary_lines(d, fname)
            owner = None
            for prim, line, label, txt in pl:
                t = tags.get(line)
                if t and t[0] in present:
                    owner = t[0]
            if any(msg.startswith(x) for x in INTERNAL) or "invariant" in msg:
                done = False
                for prim, line, label, txt in pl:
                    t = tags.get(line)
                    if t and t[1] == "inv":
                        plan.dropped.setdefault((t[0], t[2][0]), set()).add(t[2][1])
                        k = (t[0], t[2][0])
                        if k in plan.chosen:
                            plan.chosen[k] = [x for x in plan.chosen[k] if x != t[2][1]]
                        inv_changed = done = True
                        break
                    if t and t[1] == "dec":
                        plan.nodec.add((t[0], t[2]))
                        inv_changed = done = True
                        break
                if done:
                    continue
            if "decreases" in msg:
                done = False
                for prim, line, label, txt in pl:
                    t = tags.get(line)
                    if t and t[1] == "dec":
                        plan.nodec.add((t[0], t[2]))
                        inv_changed = done = True
                if done:
                    continue
            lab, kind = None, "safety"
            body_line = ""
            for prim, line, label, txt in pl:
                t = tags.get(line)
                if t and t[1] == "ensures" and "failed this postcondition" in (label or "") or t and t[1] == "ensures" and lab is None and msg.startswith("postcondition"):
                    lab, kind, owner = t[2], "ensures", t[0]
                elif t and t[1] == "body":
                    body_line = txt
                    owner = owner or t[0]
            o = {"kind": kind, "label": lab or msg[:60], "msg": msg, "at": body_line, "rendered": d.get("rendered", "")[:1500]}
            if "rlimit" in msg or "Resource limit" in msg:
                timeouts.setdefault(owner, []).append(o)
            else:
                failed.setdefault(owner, []).append(o)
        if inv_changed:
            continue
        # a proof that any run accepts is a proof: other solver seeds, and subsets of the (proved) lemmas, get a
        # chance before a failure is reported
        mods_of = {}
        for m in ex["modules"]:
            for it in m["items"]:
                for x in (it["items"] if it["kind"] == "impl" else [it]):
                    if x.get("path"):
                        mods_of[x["path"]] = m["path"]
        for args, rl, wo in RETRIES:
            if not failed and not timeouts or left() < 60 or HIT and failed or (rl > 10 and failed):
                break
            if None in failed or None in timeouts:
                only = []
            else:
                only = [y for m in sorted({mods_of[p] for p in list(failed) + list(timeouts)}) for y in ("--verify-module", m)]
            text2, tags2 = text, tags
            if wo:
                if wo == "bits":
                    if not any(re.search(r"<<|>>| [|&] (?![&|])", present[p]["body"]) for p in list(failed) + list(timeouts) if p):
                        continue
                    plan.bits = True
                    only += ["--verify-module", "bits"] if only else []
                else:
                    plan.without = wo
                text2, tags2, _ = weave.build_file(ex, active, plan, modules, extra)
                plan.without, plan.bits = "", False
            r2 = weave.run_verus(text2, work, name, rlimit=rl, args=list(args) + only, timeout=max(60, left()))
            res.wall += r2["wall"]
            if (r2["json"] or {}).get("verification-results", {}).get("verified") is None or r2["json"]["verification-results"].get("encountered-vir-error"):
                continue
            still = set()
            for d in r2["diags"]:
                if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                    own = {tags2[line][0] for prim, line, label, txt in primary_lines(d, fname) if line in tags2 and tags2[line][0] in present}
                    still |= own or {None}
            if None in still:
                continue
            for p in list(failed) + list(timeouts):
                if p is not None and p not in still:
                    res.notes.append(f"{p}: accepted with {' '.join(args) or wo == 'bits' and 'the shift and mask lemmas' or wo and 'without ' + wo or 'a higher resource limit'}")
                    failed.pop(p, None)
                    timeouts.pop(p, None)
            if log:
                log(f"again {' '.join(args)} {wo} rlimit {rl}: still {sorted(still)} wall={r2['wall']:.1f}")
        # soft helpers that fail are inlined into their callers
        redo = False
        for p in list(failed) + list(timeouts):
            c = active.get(p)
            if c is not None and c.soft and p not in soft_off:
                soft_off.add(p)
                active.pop(p)
                plan.verify.discard(p)
                res.inlined.append((p, (failed.get(p) or timeouts.get(p))[0]["msg"]))
                soft_fail[p] = failed.get(p, [])
                redo = True
        if redo:
            ex, present = prepare()
            plan.verify = {p for p in plan.verify if p in present}
            plan.dropped.clear()
            load_chosen()
            annotate()
            continue
        res.failed = failed
        res.timeouts = timeouts
        fb = {}
        for m in r["json"]["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                fb[f["function"]] = f
                res.smt_ms += f["time-micros"] / 1000.0
        res.total_verified = vr.get("verified", 0)
        res.breakdown = fb
        for p in plan.verify:
            if p in failed or p in timeouts or p in plan.demoted or present[p].get("opaque"):
                if present[p].get("opaque") and p not in res.unsupported:
                    res.unsupported[p] = "uses a construct the extraction cannot express: " + "; ".join(present[p].get("notes", []))[:200]
                continue
            res.verified[p] = True
            res.clauses += len(active[p].ensures) + len(active[p].requires)
            for lid, cs in cands.get(p, {}).items():
                res.invariants += len(cs)
            for l in present[p]["loops"]:
                if (p, l["id"]) in plan.nodec:
                    res.loops_without_decreases.append(f"{p} loop {l['id']}")
            if present[p].get("notes"):
                res.fn_notes[p] = present[p]["notes"]
        if learn is not None:
            for p in res.verified:
                if present[p]["loops"]:
                    ids = loop_names(present[p])
                    learn[ckey + p] = {
                        "hash": weave.body_hash(present[p]),
                        "inv": {str(l): [canon(x, ids) for x in cs] for l, cs in cands.get(p, {}).items()},
                        "nodec": [l["id"] for l in present[p]["loops"] if (p, l["id"]) in plan.nodec]}
        if canary and not failed and not timeouts:
            plan.canary = True
            text, tags, _ = weave.build_file(ex, active, plan, modules, extra)
            r = weave.run_verus(text, work, name + "_canary", rlimit=5)
            plan.canary = False
            hit = set()
            for d in r["diags"]:
                for prim, line, label, txt in primary_lines(d, name + "_canary.rs"):
                    if d.get("level") == "error" and tags.get(line):
                        hit.add(tags[line][0])
            res.canaries = len(plan.canaries & hit)
            res.vacuous = sorted(plan.canaries - hit)
            if not (r["json"] or {}).get("verification-results", {}).get("errors"):
                res.notes.append("the vacuity check could not be run: " + r["raw"][-200:])
        break
    else:
        res.global_error = "no fixed point within the round limit"
    if soft_fail and (res.global_error or any(p in plan.demoted or present.get(p, {}).get("opaque") for p in plan.verify)):
        # the callers of a helper that breaks its contract could not be decided with it inlined
        for p, l in soft_fail.items():
            if l:
                res.failed.setdefault(p, []).extend(l)
    res.present = present
    res.soft_off = soft_off
    return res


def drop_fn(m, p):
    m["items"] = [i for i in m["items"] if not (i["kind"] == "fn" and i["path"] == p)]
    for i in m["items"]:
        if i["kind"] == "impl":
            i["items"] = [x for x in i["items"] if not (x["kind"] == "fn" and x["path"] == p)]


def loop_names(f):
    ids = {}
    for m in re.finditer(r"\bvx_([a-z]+)\d+(?:_h\d+)*\b", f["body"]):
        ids.setdefault(m.group(0), f"vx_{m.group(1)}#{len(ids)}")
    return ids


def canon(x, ids):
    return re.sub(r"\b(vx_[a-z]+\d+(?:_h\d+)*?)(_0)?\b", lambda m: ids.get(m.group(1), m.group(1)) + (m.group(2) or ""), x)


def uncanon(x, ids):
    rev = {v: k for k, v in ids.items()}
    return re.sub(r"vx_[a-z]+#\d+", lambda m: rev.get(m.group(0), m.group(0)), x)
