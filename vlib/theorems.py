"""The property statements as theorems over the contracts: client functions that are
verified against the contracts alone (no body of the repository takes part), so
they say what a caller can rely on.  They depend on the signatures in /repo and on
the contract table, never on how a function is written."""
import os
import re

from . import contracts as tbl, dictcontracts, groups, solve, weave

THM = os.path.join(weave.ROOT, "contracts", "thm.rs")


DICTS = ("C13", "C15", "C27")


def names(prop):
    if prop == "C27":
        return re.findall(r"\bfn (c1[35]_\w+)", dictcontracts.theorems())
    txt = open(THM).read() + (dictcontracts.theorems() if prop in DICTS else "")
    return re.findall(rf"\bfn ({prop.lower()}_\w+)", txt)


def prove(prop, work):
    """returns (names, error or None, run)"""
    ns = names(prop)
    if not ns:
        return [], None, None
    w = os.path.join(work, "thm")
    os.makedirs(w, exist_ok=True)
    if prop in DICTS:
        mods, extra = groups.GROUPS["dict"][0], (("thmd", dictcontracts.theorems()),)
    else:
        mods, extra = groups.CORE | groups.VSA, ("thm",)
    C = {p: c for p, c in tbl.T.items() if groups.modpath(p) in mods}
    ex = weave.extract("md5", list(C), w)
    if prop in DICTS:
        dictcontracts.prepare(ex)
    have = {f["path"] for _, _, f in weave.fn_items(ex)}
    C = {p: c for p, c in C.items() if p in have or not c.soft}
    text, _, _ = weave.build_file(ex, C, solve.Plan(), mods, extra)
    r = weave.run_verus(text, w, "thm", rlimit=30)
    vr = (r["json"] or {}).get("verification-results", {})
    if vr.get("success"):
        return ns, None, r
    errs = [d["message"][:160] for d in r["diags"] if d.get("level") == "error"]
    return ns, "; ".join(errs[:3]) or r["raw"][-300:], r
