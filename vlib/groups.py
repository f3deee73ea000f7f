"""Groups of modules that are verified together."""
from . import contracts, dictcontracts

CORE = {"core::attributes", "core::avp", "core::packet", "core::code", "core::tag", "core::request"}
VSA = {"core::vsa"}
GROUPS = {
    "core": (CORE, CORE),
    "vsa": (CORE | VSA, VSA),
    "server": (CORE | {"server"}, {"server", "core::request"}),
    "client": (CORE | {"client"}, {"client"}),
}
_D = {"core::" + m for m in dictcontracts.MODULES}
GROUPS["dict"] = (CORE | VSA | _D, _D)
GROUPS["rand"] = (CORE, {"core::packet", "core::avp"})
BOTH = {"rand": True, "core": True, "vsa": False, "server": False, "client": False, "dict": False}
ALL = list(GROUPS)


def modpath(p):
    q = p.rsplit("::", 1)[0]
    while "::" in q and q.rsplit("::", 1)[1][:1].isupper():
        q = q.rsplit("::", 1)[0]
    return q


def select(g, pat=""):
    mods, vmods = GROUPS[g]
    C = {p: c for p, c in contracts.T.items() if modpath(p) in mods}
    if g == "rand":
        C.update(contracts.RT)
        return C, set(contracts.RT), mods, ()
    ver = {p for p in C if modpath(p) in vmods and pat in p and p not in contracts.ASSUMED}
    return C, ver, mods, ()
