"""The table of accessors and constants the concrete harness uses (harness/src/bin/dict/table.rs)."""
VAR = {"string": "Str", "octets": "Bytes", "fixed": "Fixed", "ipaddr": "V4", "ipv6addr": "V6", "integer": "U32", "short": "U16", "date": "Date",
       "ipv4prefix": "P4", "ipv6prefix": "P6", "tagged_integer": "TInt", "tagged_string": "TStr", "userpw": "UPw", "tunnelpw": "TPw", "concat": "Cat", "vsa": "Vsa"}


def table(out):
    L = ["// generated by tools/mkdict.py from the dictionaries", "use super::ops::{Acc, Row};", "use radius::core::*;", "pub fn rows() -> Vec<Row> { vec!["]
    for a in out["attributes"]:
        r, f, k = a["rfc"], a["fn"], a["kind"]
        if k == "vsa":
            acc = f"Acc::Vsa({r}::add_vsa_attribute)"
        elif k == "concat":
            acc = f"Acc::Cat({r}::add_{f}, {r}::lookup_{f})"
        else:
            n = f"{a['len']}, " if k == "fixed" else ""
            acc = f"Acc::{VAR[k]}({n}{r}::add_{f}, {r}::lookup_{f}, {r}::lookup_all_{f})"
        L.append(f"    Row {{ name: \"{r}::{f}\", num: {a['number']}, del: {r}::delete_{f}, acc: {acc} }},")
    L.append("] }")
    L.append("pub fn consts() -> Vec<(&'static str, u64, u64)> { vec![")
    for a in out["attributes"]:
        L.append(f"    (\"{a['rfc']}::{a['const']}\", {a['rfc']}::{a['const']} as u64, {a['number']}),")
    for v in out["values"]:
        L.append(f"    (\"{v['rfc']}::{v['const']}\", {v['rfc']}::{v['const']} as u64, {v['number']}),")
    L.append("] }")
    return "\n".join(L) + "\n"
