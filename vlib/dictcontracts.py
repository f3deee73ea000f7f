"""Contracts of the dictionary accessors (core::rfcNNNN), generated from the pinned
dictionary table contracts/dict.json.  One row of the table gives the contracts of
the constant, the add, the lookup, the lookup-all and the delete accessor."""
import json
import os
import re

from .weave import Contract

HERE = os.path.dirname(os.path.abspath(__file__))
DICT = json.load(open(os.path.join(HERE, "../contracts/dict.json")))
if os.environ.get("VERIF_PROPERTY") == "C27":  # the regenerated modules include those of contracts/synth
    _s = json.load(open(os.path.join(HERE, "../contracts/synth/table.json")))
    DICT = {k: DICT[k] + _s[k] for k in DICT}
MODULES = sorted({a["rfc"] for a in DICT["attributes"] + DICT["values"]})

PW = "packet.secret@, packet.authenticator@"
# kind: (parameters of add, stored value, condition for add (None: always), ok(v), val(v, x))
KINDS = {
    "string": (["value"], "sbytes(value@)", None, "valid_utf8({v})", "sbytes({x}@) == {v}"),
    "octets": (["value"], "value@", None, None, "{x}@ == {v}"),
    "fixed": (["value"], "value@", "value@.len() == {n}", None, "{x}@ == {v}"),
    "ipaddr": (["value"], "value.o@", None, "{v}.len() == 4", "{x}.o@ == {v}"),
    "ipv6addr": (["value"], "value.o@", None, "{v}.len() == 16", "{x}.o@ == {v}"),
    "integer": (["value"], "be32(value)", None, "{v}.len() == 4", "{x} == vbe32({v})"),
    "short": (["value"], "be16(value)", None, "{v}.len() == 2", "{x} == vbe16({v})"),
    "date": (["value"], "be32(value.secs as u32)", None, "{v}.len() == 4", "{x}.secs == vbe32({v}) as i64 && {x}.nanos == 0"),
    "ipv4prefix": (["value"], "seq![0u8, 32u8] + value@", "value@.len() == 4", "{v}.len() == 6", "{x}@ == sk({v}, 2)"),
    "ipv6prefix": (["value"], "seq![0u8, (8 * value@.len()) as u8] + value@", "value@.len() <= 16", "{v}.len() >= 2", "{x}@ == sk({v}, 2)"),
    "tagged_integer": (["tag", "value"], "seq![tagv(tag)] + be32(value)", None, "ok_tagint({v})", "val_tagint({v}, {x}.0, {x}.1)"),
    "tagged_string": (["tag", "value"], "tagged_str(tag, sbytes(value@))", None, "ok_tagstr({v})", "val_tagstr({v}, {x}.0@, {x}.1)"),
    "userpw": (["value"], None, "value@.len() <= 128 && goodpw(old(packet).secret@, old(packet).authenticator@)",
               "16 <= {v}.len() <= 128 && goodpw(%s)" % PW, "{x}@ == upto(unh(%s, {v}))" % PW.replace("packet.secret@, packet.authenticator@", "packet.secret@, packet.authenticator@")),
    "tunnelpw": (["tag", "value"], None, "value@.len() <= 240 && goodpw(old(packet).secret@, old(packet).authenticator@)",
                 "ok_tunnel({v}) && goodpw(%s)" % PW, "val_tunnel(%s, {v}, {x}.0@, {x}.1)" % PW),
}
O, N = "old(packet).attributes.0@", "final(packet).attributes.0@"
FRAME = ("final(packet).code == old(packet).code && final(packet).identifier == old(packet).identifier && "
         "final(packet).authenticator == old(packet).authenticator && final(packet).secret == old(packet).secret")


def build(T):
    def add(path, params, ensures, inv=()):
        c = Contract(path, params, ensures=ensures, inv=inv, seqs=["packet.attributes.0@"])
        T[path] = c

    for a in DICT["attributes"]:
        k, t, n = a["kind"], a["number"], a["len"]
        m = f"core::{a['rfc']}::"
        f = a["fn"]
        add(m + "delete_" + f, ["packet"], [
            ("filter", ["C13"], f"{N} =~= filt({O}, {t}u8, false)"), ("frame", ["C13"], FRAME)])
        L = "packet.attributes.0@"
        F = f"filt({L}, {t}u8, true)"
        if k == "vsa":
            add(m + "add_vsa_attribute", ["packet", "value"], [
                ("append", ["C12", "C13"], f"avs({N}) =~= avs({O}).push(({t}u8, value.vx_msg()))"), ("frame", ["C12", "C13"], FRAME)])
            T[m + "add_vsa_attribute"].requires = ["value.vx_ok()"]
            continue
        if k == "concat":
            add(m + "add_" + f, ["packet", "value"], [
                ("pieces", ["C15"], f"avs({N}) =~= avs({O}) + pieces({t}u8, value@)"), ("frame", ["C15"], FRAME)],
                inv=[f"avs({{A}}) + pieces({t}u8, {{C}}.rest()) =~= pieces({t}u8, value@)",
                     f"avs({{A}}) + pieces({t}u8, {{S}}) =~= pieces({t}u8, value@)", "{I} <= value@.len()",
                     f"avs(packet.attributes.0@) + pieces({t}u8, {{C}}.rest()) =~= avs({O}) + pieces({t}u8, value@)",
                     f"avs(packet.attributes.0@) + pieces({t}u8, {{S}}) =~= avs({O}) + pieces({t}u8, value@)", FRAME.replace("final(packet)", "packet")])
            T[m + "add_" + f].seqs = ["value@"]
            add(m + "lookup_" + f, ["packet"], [
                ("none", ["C15"], f"ret is None <==> firsto({L}, {t}u8) is None"),
                ("whole", ["C15"], f"ret matches Some(v) ==> v@ =~= cat({F})")],
                inv=[f"{{A}} + cat(derefs({{C}}.rest())) =~= cat({F})", f"{{A}} + cat(derefs({{S}})) =~= cat({F})",
                     f"{{A}} + cat(filt({{S}}, {t}u8, true)) =~= cat({F})",
                     f"{{A}} + cat(sk({F}, {{I}})) =~= cat({F})", f"derefs({{C}}.rest()) =~= sk({F}, {{I}})"])
            continue
        params, stored, cond, ok, val = KINDS[k]
        ens = []
        app = None if stored is None else f"avs({N}) =~= avs({O}).push(({t}u8, {stored}))"
        if k == "date":
            app = f"0 <= value.secs <= 0xffff_ffff ==> {app}"
            ens.append(("one", ["C13"], f"added(avs({O}), avs({N}), {t}u8)"))
        if k == "userpw":
            app = f"avs({N}) =~= avs({O}).push(({t}u8, hidden(old(packet).secret@, old(packet).authenticator@, value@)))"
        if k == "tunnelpw":
            app = (f"added(avs({O}), avs({N}), {t}u8) && hid_tunnel(old(packet).secret@, old(packet).authenticator@, tagv(tag), value@, {N}.last().value@)")
        if cond is None:
            ens.append(("append", ["C13"], app))
        else:
            ens += [("ok", ["C13"], "ret is Ok <==> " + cond.replace("{n}", str(n))),
                    ("append", ["C13"], f"ret is Ok ==> ({app})"),
                    ("unchanged", ["C13"], f"ret is Err ==> {N} =~= {O}")]
        ens.append(("frame", ["C13"], FRAME))
        add(m + "add_" + f, ["packet"] + params, ens)
        first = f"firsto({L}, {t}u8)"
        v0 = first + ".unwrap().value@"
        if ok is None:
            add(m + "lookup_" + f, ["packet"], [
                ("none", ["C13"], f"ret is None <==> {first} is None"),
                ("value", ["C13"], f"ret matches Some(x) ==> val_{k}({v0}, x, packet)")])
            add(m + "lookup_all_" + f, ["packet"], [
                ("count", ["C13"], f"ret@.len() == {F}.len()"),
                ("values", ["C13"], f"all_{k}(ret@, {F}, packet)")], inv=inv_all(F, k))
        else:
            add(m + "lookup_" + f, ["packet"], [
                ("none", ["C13"], f"ret is None <==> {first} is None"),
                ("ok", ["C13"], f"{first} is Some ==> (ret.unwrap() is Ok <==> ok_{k}({v0}, packet))"),
                ("value", ["C13"], f"ret matches Some(Ok(x)) ==> val_{k}({v0}, x, packet)")])
            add(m + "lookup_all_" + f, ["packet"], [
                ("ok", ["C13"], f"ret is Ok <==> every_{k}({F}, packet)"),
                ("count", ["C13"], f"ret matches Ok(l) ==> l@.len() == {F}.len()"),
                ("values", ["C13"], f"ret matches Ok(l) ==> all_{k}(l@, {F}, packet)")], inv=inv_all(F, k))
    # constants: one clause each, on an empty function added to every module
    for rfc in MODULES:
        ens = [(a["const"], ["C14"], f"{a['const']} == {a['number']}u8") for a in DICT["attributes"] if a["rfc"] == rfc]
        ens += [(v["const"], ["C14"], f"{v['const']} == {v['number']}u32") for v in DICT["values"] if v["rfc"] == rfc]
        T[f"core::{rfc}::vx_constants"] = Contract(f"core::{rfc}::vx_constants", [], ensures=ens)


TYPES = {"string": "String", "octets": "Vec<u8>", "fixed": "Vec<u8>", "ipaddr": "Ipv4Addr", "ipv6addr": "Ipv6Addr", "integer": "u32", "short": "u16",
         "date": "DateTime<Utc>", "ipv4prefix": "Vec<u8>", "ipv6prefix": "Vec<u8>", "tagged_integer": "(u32, Tag)",
         "tagged_string": "(String, Option<Tag>)", "userpw": "Vec<u8>", "tunnelpw": "(Vec<u8>, Tag)"}


def inv_all(F, k):
    out = [f"todo({{C}}.rest(), {F}, {{A}}.len() as int)", f"todo({{S}}, {F}, {{A}}.len() as int)",
           f"{{V}} is None ==> todo({{C}}.rest(), {F}, {{A}}.len() as int)", f"{{V}} is None ==> todo({{S}}, {F}, {{A}}.len() as int)",
           f"all_{k}({{A}}, {F}, packet)"]
    if KINDS[k][3]:
        out.append(f"{{V}} is Some ==> !every_{k}({F}, packet)")
    return out


def spec():
    """the meaning of each kind of value, as specification functions over the pinned table above"""
    out = []
    for k, (params, stored, cond, ok, val) in KINDS.items():
        t = TYPES[k]
        okt = (ok or "true").replace("{v}", "v")
        out.append(f"pub open spec fn ok_{k}(v: Seq<u8>, packet: &Packet) -> bool {{ {okt} }}")
        out.append(f"pub open spec fn val_{k}(v: Seq<u8>, x: {t}, packet: &Packet) -> bool {{ {val.replace('{v}', 'v').replace('{x}', 'x')} }}")
        out.append(f"pub open spec fn all_{k}(l: Seq<{t}>, f: Seq<AVP>, packet: &Packet) -> bool {{ l.len() <= f.len() && forall|i: int| #![trigger l[i]] #![trigger f[i]] 0 <= i < l.len() ==> ok_{k}(f[i].value@, packet) && val_{k}(f[i].value@, l[i], packet) }}")
        if ok:
            out.append(f"pub open spec fn every_{k}(f: Seq<AVP>, packet: &Packet) -> bool {{ forall|i: int| 0 <= i < f.len() ==> ok_{k}((#[trigger] f[i]).value@, packet) }}")
    return "\n".join(out)


# ---------------------------------------------------------------- theorems: add, look up, delete
PARAMS = {"string": "value: &str", "octets": "value: &[u8]", "fixed": "value: &[u8]", "ipaddr": "value: &Ipv4Addr", "ipv6addr": "value: &Ipv6Addr",
          "integer": "value: u32", "short": "value: u16", "date": "value: &DateTime<Utc>", "ipv4prefix": "value: &[u8]", "ipv6prefix": "value: &[u8]",
          "tagged_integer": "tag: Option<&Tag>, value: u32", "tagged_string": "tag: Option<&Tag>, value: &str", "userpw": "value: &[u8]",
          "tunnelpw": "tag: Option<&Tag>, value: &[u8]", "concat": "value: &[u8]"}
# what must hold of the value for the accessors to store and return it, and what is returned
PRE = {"fixed": ["value@.len() == {n}"], "date": ["0 <= value.secs <= 0xffff_ffff"], "ipv4prefix": ["value@.len() == 4"],
       "ipv6prefix": ["value@.len() <= 16"], "tagged_integer": ["tagv(tag) <= 0x1f"],
       "tagged_string": ["tag matches Some(t) ==> 1 <= t.value <= 0x1f", "tag is None ==> sbytes(value@).len() > 0 && sbytes(value@)[0] > 0x1f"],
       "userpw": ["value@.len() <= 128", "goodpw(old(packet).secret@, old(packet).authenticator@)"],
       "tunnelpw": ["value@.len() <= 240", "goodpw(old(packet).secret@, old(packet).authenticator@)"],
       "concat": ["value@.len() > 0"]}
BACK = {"string": "x@ == value@", "octets": "x@ == value@", "fixed": "x@ == value@", "ipaddr": "x.o@ == value.o@", "ipv6addr": "x.o@ == value.o@",
        "integer": "x == value", "short": "x == value", "date": "x.secs == value.secs && x.nanos == 0", "ipv4prefix": "x@ =~= value@", "ipv6prefix": "x@ =~= value@",
        "tagged_integer": "x.0 == value && x.1.value == tagv(tag)",
        "tagged_string": "x.0@ == value@ && (tag is None <==> x.1 is None) && (tag is Some ==> x.1->Some_0.value == tag->Some_0.value)",
        "userpw": "x@ == upto(value@)", "tunnelpw": "x.0@ == upto(value@) && x.1.value == tagv(tag)", "concat": "x@ == value@"}
TEXTPROOF = "encode_utf8_valid_utf8(value@); encode_utf8_decode_utf8(value@);"


def theorems():
    """for every attribute: what is added to a packet without it is what is looked up, and deleting removes it"""
    out = []
    for a in DICT["attributes"]:
        k, t, n, r, f = a["kind"], a["number"], a["len"], a["rfc"], a["fn"]
        if k == "vsa":
            continue
        prop = "c15" if k == "concat" else "c13"
        names = [x.split(":")[0] for x in PARAMS[k].split(", ")]
        pre = [f"firsto({O}, {t}u8) is None"] + [x.replace("{n}", str(n)) for x in PRE.get(k, [])]
        b = [f"pub fn {prop}_{r}_{f}(packet: &mut Packet, {PARAMS[k]})", "    requires " + ", ".join(pre) + ",",
             f"    ensures firsto({N}, {t}u8) is None, {FRAME},", "{",
             "    let ghost o = packet.attributes.0@;", f"    let r = crate::core::{r}::add_{f}(packet, {', '.join(names)});", "    let ghost m = packet.attributes.0@;"]
        if k in ("fixed", "ipv4prefix", "ipv6prefix", "userpw", "tunnelpw"):
            b.append("    assert(r is Ok);")
        if k == "concat":
            b.append(f"    proof {{ crate::thmd::plain::lemma_pieces_back(o, m, {t}u8, value@); }}")
        else:
            st = "m.last().value@" if k in ("tunnelpw",) else KINDS[k][1] or "hidden(packet.secret@, packet.authenticator@, value@)"
            b.append(f"    proof {{ crate::thmd::plain::lemma_{'added' if k == 'tunnelpw' else 'put'}(o, m, {t}u8{'' if k == 'tunnelpw' else ', ' + st}); }}")
        if k in ("string", "tagged_string"):
            b.append("    proof { " + TEXTPROOF + " }")
        if k == "tagged_string":
            b.append("    proof { if tag is Some { assert(sk(tagged_str(tag, sbytes(value@)), 1) =~= sbytes(value@)); } }")
        if k in ("tagged_integer", "tagged_string", "ipv4prefix", "ipv6prefix"):
            b.append(f"    proof {{ let v = m.last().value@; assert(sk(v, 1).len() == v.len() - 1 || v.len() == 0); }}")
        if k == "tagged_integer":
            b.append("    proof { assert(sk(seq![tagv(tag)] + be32(value), 1) =~= be32(value)); }")
        if k == "ipv4prefix":
            b.append("    proof { assert(sk(seq![0u8, 32u8] + value@, 2) =~= value@); }")
        if k == "ipv6prefix":
            b.append("    proof { assert(sk(seq![0u8, (8 * value@.len()) as u8] + value@, 2) =~= value@); }")
        if k == "userpw":
            b.append("    proof { crate::vs::plain::lemma_hidden(packet.secret@, packet.authenticator@, value@); }")
        if k == "tunnelpw":
            b.append("    proof { let v = m.last().value@; crate::vs::plain::lemma_hidden(packet.secret@, packet.authenticator@ + v.subrange(1, 3), value@); assert(sk(v, 3).len() == v.len() - 3); }")
        b.append(f"    let l = crate::core::{r}::lookup_{f}(packet);")
        b.append("    assert(l is Some);")
        if KINDS.get(k, (0, 0, 0, None))[3]:
            b += ["    if let Some(x) = l {", "        assert(x is Ok);", "        if let Ok(x) = x {"]
            if k == "string":
                b.append("            proof { encode_utf8_decode_utf8(x@); }")
            if k == "tagged_string":
                b.append("            proof { encode_utf8_decode_utf8(x.0@); }")
            b += [f"            assert({BACK[k]});", "        }", "    }"]
        else:
            b += ["    if let Some(x) = l {", f"        assert({BACK[k]});", "    }"]
        b += [f"    crate::core::{r}::delete_{f}(packet);", f"    proof {{ crate::thmd::plain::lemma_gone(m, {t}u8); }}", "}"]
        out.append("\n".join(b))
    return THM_HEAD + "\n".join(out) + THM_TAIL


THM_HEAD = """use vstd::prelude::*;
use vstd::utf8::*;
use crate::vx::*;
use crate::vs::*;
use crate::dv::*;
use crate::core::avp::AVP;
use crate::core::packet::Packet;
use crate::core::tag::Tag;
use crate::ext::std::net::{Ipv4Addr, Ipv6Addr};
use crate::ext::chrono::*;
verus! {
broadcast use {vstd::group_vstd_default, group_sk, group_attr, group_be, group_list, group_dict, axiom_md5_len};
"""
THM_TAIL = """
}
pub mod plain {
use vstd::prelude::*;
use crate::vx::*;
use crate::vs::*;
use crate::core::avp::AVP;
verus! {
/// the one attribute put at the end of a list without that type is the first of its type
pub proof fn lemma_added(o: Seq<AVP>, n: Seq<AVP>, t: u8)
    requires added(avs(o), avs(n), t), firsto(o, t) is None,
    ensures firsto(n, t) == Some(n.last()), n.last().typ == t,
    decreases o.len(),
{
    broadcast use group_sk;
    assert(avs(n).last() == av(n.last()));
    if o.len() > 0 {
        let p = sk(o, 1);
        let q = sk(n, 1);
        assert(avs(n).subrange(0, o.len() as int)[0] == avs(o)[0]);
        assert(av(n[0]) == av(o[0]));
        assert(avs(q).subrange(0, p.len() as int) =~= avs(p)) by {
            assert forall|i: int| 0 <= i < p.len() implies avs(q)[i] == avs(p)[i] by {
                let j = i + 1;
                assert(avs(n).subrange(0, o.len() as int)[j] == avs(n)[j]);
                assert(p[i] == o[j] && q[i] == n[j]);
                assert(avs(o)[j] == av(o[j]));
            }
        }
        assert(q.last() == n.last());
        assert(avs(q).last() == av(q.last()));
        lemma_added(p, q, t);
    } else {
        assert(n[0] == n.last());
    }
}
pub proof fn lemma_put(o: Seq<AVP>, n: Seq<AVP>, t: u8, v: Seq<u8>)
    requires avs(n) == avs(o).push((t, v)), firsto(o, t) is None,
    ensures firsto(n, t) == Some(n.last()), n.last().typ == t, n.last().value@ == v,
{
    assert(avs(n).len() == n.len());
    assert(avs(n).subrange(0, o.len() as int) =~= avs(o));
    assert(avs(n).last() == (t, v));
    lemma_added(o, n, t);
    assert(avs(n).last() == av(n.last()));
}
pub proof fn lemma_gone(s: Seq<AVP>, t: u8)
    ensures firsto(filt(s, t, false), t) is None,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_gone(sk(s, 1), t);
        let q = seq![s[0]] + filt(sk(s, 1), t, false);
        assert(q[0] == s[0]);
        assert(sk(q, 1) =~= filt(sk(s, 1), t, false));
    }
}
/// a list of attributes of one type: filtering keeps all of it
pub proof fn lemma_pieces_back(o: Seq<AVP>, n: Seq<AVP>, t: u8, b: Seq<u8>)
    requires avs(n) == avs(o) + pieces(t, b), firsto(o, t) is None, b.len() > 0,
    ensures cat(filt(n, t, true)) == b, firsto(n, t) is Some, forall|i: int| o.len() <= i < n.len() ==> 0 < (#[trigger] n[i]).value@.len() <= 253,
    decreases o.len(),
{
    broadcast use group_sk;
    if o.len() > 0 {
        let p = sk(o, 1);
        let q = sk(n, 1);
        assert(avs(n)[0] == avs(o)[0]);
        assert(av(n[0]) == av(o[0]));
        assert(avs(q) =~= avs(p) + pieces(t, b)) by {
            assert(avs(q).len() == avs(n).len() - 1);
            assert forall|i: int| 0 <= i < avs(q).len() implies avs(q)[i] == (avs(p) + pieces(t, b))[i] by {
                let j = i + 1;
                assert(avs(n)[j] == (avs(o) + pieces(t, b))[j]);
                assert(q[i] == n[j]);
                if i < p.len() { assert(p[i] == o[j]); }
            }
        }
        lemma_pieces_back(p, q, t, b);
        assert forall|i: int| o.len() <= i < n.len() implies 0 < (#[trigger] n[i]).value@.len() <= 253 by {
            let j = i - 1;
            assert(q[j] == n[i]);
        }
    } else {
        assert(avs(n) =~= pieces(t, b));
        lemma_all(n, t, b);
    }
}
pub proof fn lemma_all(n: Seq<AVP>, t: u8, b: Seq<u8>)
    requires avs(n) == pieces(t, b),
    ensures cat(filt(n, t, true)) == b, b.len() > 0 ==> firsto(n, t) is Some, forall|i: int| 0 <= i < n.len() ==> 0 < (#[trigger] n[i]).value@.len() <= 253,
    decreases b.len(),
{
    broadcast use {lemma_sk_len, lemma_sk_idx};
    if b.len() > 0 {
        let r = sk(b, 253);
        let q = sk(n, 1);
        let h = chunk_head(b, 253);
        let w = seq![(t, h)] + pieces(t, r);
        assert(avs(n) == w);
        assert(w[0] == (t, h));
        assert(avs(n)[0] == av(n[0]));
        assert(avs(q) =~= pieces(t, r)) by {
            assert(sk(w, 1) =~= pieces(t, r));
            assert forall|i: int| 0 <= i < avs(q).len() implies avs(q)[i] == pieces(t, r)[i] by { let j = i + 1; assert(q[i] == n[j]); assert(w[j] == pieces(t, r)[i]); }
        }
        lemma_all(q, t, r);
        let f = filt(q, t, true);
        let g = seq![n[0]] + f;
        assert(filt(n, t, true) == g);
        assert(g[0] == n[0]);
        assert(sk(g, 1) =~= f);
        assert(h + r =~= b);
        assert forall|i: int| 0 <= i < n.len() implies 0 < (#[trigger] n[i]).value@.len() <= 253 by {
            if i > 0 { let j = i - 1; assert(q[j] == n[i]); }
        }
    } else {
        assert(avs(n).len() == 0);
        assert(n.len() == 0);
    }
}
}
}
"""


def prepare(ex):
    """adds the constants function to every dictionary module of an extraction; returns the constants that are gone"""
    gone = []
    for m in ex["modules"]:
        r = m["path"].split("::")[-1]
        if r not in MODULES:
            continue
        have = set(re.findall(r"\bconst (\w+)\s*:", "\n".join(i["text"] for i in m["items"] if i["kind"] == "raw")))
        want = [x["const"] for x in DICT["attributes"] + DICT["values"] if x["rfc"] == r]
        gone += [(m["path"] + "::vx_constants", c) for c in want if c not in have]
        m["items"].append({"kind": "fn", "path": m["path"] + "::vx_constants", "name": "vx_constants", "generics": "", "params": [], "ret": "",
                           "where": "", "vis": "pub ", "body": "{\n}", "loops": [], "trait_impl": None, "hoisted": [], "opaque": False, "notes": [],
                           "file": m.get("file"), "line": 1})
    return gone
