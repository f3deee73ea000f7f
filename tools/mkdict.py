#!/usr/bin/env python3
"""Pins the dictionary table (contracts/dict.json) from /repo/dicts: attribute
numbers, data types, flags and named values.  Names of constants and accessors
are taken from the public API in dictionary order and cross-checked.  Run by
hand; the checks read only the committed result.
   mkdict.py                 contracts/dict.json, harness/src/bin/dict/table.rs
   mkdict.py synth OUTDIR    contracts/synth/table.json, from contracts/synth and
                             what the code generator made of it in OUTDIR"""
import json, os, re, sys
R = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
norm = lambda s: re.sub(r"[^a-z0-9]", "", s.lower())


def pin(dicts, srcdir):
    out = {"attributes": [], "values": []}
    for d in sorted(x for x in os.listdir(dicts) if x.startswith("dictionary.")):
        rfc = d.split(".")[1]
        src = open(f"{srcdir}/{rfc}.rs").read()
        consts = re.findall(r"pub const (\w+):\s+([\w:]+) =\s*(\d+);", src)
        tys = [(n, int(v)) for n, t, v in consts if t == "AVPType"]
        vals = [(n, t, int(v)) for n, t, v in consts if t != "AVPType"]
        attrs, values = [], {}
        for l in open(f"{dicts}/{d}"):
            l = l.split("#")[0].strip()
            if not l:
                continue
            it = l.split()
            if it[0] == "ATTRIBUTE":
                attrs.append((it[1], int(it[2]), it[3], it[4].split(",") if len(it) > 4 else []))
            else:
                values.setdefault(it[1], []).append((it[2], int(it[3])))
        methods = re.findall(r"pub fn delete_(\w+)\(", src)
        methods_at = iter(methods)
        assert len(attrs) == len(tys) == len(methods), (rfc, len(attrs), len(tys), len(methods))
        for (name, num, typ, opts), (cn, cv), m in zip(attrs, tys, methods):
            assert norm(cn) == norm(name) + "type" and norm(m) == norm(name), (name, cn, m)
            assert num == cv, (name, num, cv)
            enc = next((o for o in opts if o.startswith("encrypt=")), None)
            tag, cc = "has_tag" in opts, "concat" in opts
            mm = re.match(r"octets\[(\d+)\]$", typ)
            kind = {"encrypt=1": "userpw", "encrypt=2": "tunnelpw"}.get(enc) or (
                "fixed" if mm or typ == "ifid" else "concat" if cc else ("tagged_" if tag else "") + typ)
            n = int(mm.group(1)) if mm else 8 if typ == "ifid" else None
            out["attributes"].append({"rfc": rfc, "name": name, "number": num, "kind": kind, "len": n, "const": cn, "fn": m,
                                      "valued": name in values})
        order = sorted(values)
        flat = [(a, n, v) for a in order for n, v in values[a]]
        assert len(flat) == len(vals), (rfc, len(flat), len(vals))
        for (a, n, v), (cn, t, cv) in zip(flat, vals):
            assert norm(cn) == norm(a + n), (a, n, cn)
            assert v == cv, (rfc, a, n, v, cv)
            out["values"].append({"rfc": rfc, "attribute": a, "name": n, "number": v, "const": cn})
    return out


def write(out, p):
    with open(p, "w") as f:
        f.write("{\"attributes\": [\n" + ",\n".join(json.dumps(x) for x in out["attributes"]) + "],\n\"values\": [\n" + ",\n".join(json.dumps(x) for x in out["values"]) + "]}\n")
    print(len(out["attributes"]), "attributes", len(out["values"]), "values")


if len(sys.argv) > 1:
    write(pin(H + "/contracts/synth", sys.argv[2]), H + "/contracts/synth/table.json")
else:
    out = pin(R + "/dicts", R + "/radius/src/core")
    write(out, H + "/contracts/dict.json")
    from vlib import dicttable
    open(H + "/harness/src/bin/dict/table.rs", "w").write(dicttable.table(out))
