"""Weaves contracts into the mechanically extracted code and runs Verus on it.

Input: the JSON of tools/vextract (real function bodies, normalised), the
contract table (vlib/contracts.py, vlib/dictcontracts.py) and the support files
in /verif/contracts.  Nothing in here knows what a function body looks like; it
only places requires/ensures, loop invariants and ghost snapshots.
"""
import hashlib
import itertools
import copy
import json
import os
import re
import signal
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VEXTRACT = os.path.join(ROOT, "tools/vextract/target/release/vextract")
GROUP_SK = ("lemma_sk_len, lemma_sk_idx, lemma_sk_sk, lemma_skip_is_sk, lemma_sub_is_sk, lemma_sub_sk, lemma_sub_sub, lemma_take_is_sub, "
            "lemma_sub_full, lemma_add_assoc, lemma_add_empty, lemma_push_is_add").split(", ")
MAIN_USE = "broadcast use {vstd::group_vstd_default, group_sk, group_cut, group_attr, group_pw, group_be, group_list};"


class Clause:
    __slots__ = ("label", "props", "text")

    def __init__(self, label, props, text):
        self.label, self.props, self.text = label, tuple(props), text


class Contract:
    """A contract on one repository function."""

    def __init__(self, path, params, requires=(), ensures=(), inv=(), soft=False, head="", props=(), ghost=None,
                 seqs=(), trusted=None, noloopiso=True, ghost_calls=None, rlimit=None, renames=()):
        self.path = path
        self.params = params
        self.requires = list(requires)
        self.ensures = [Clause(*e) for e in ensures]
        self.inv = list(inv)
        self.soft = soft
        self.head = head
        self.seqs = list(seqs)
        self.trusted = trusted      # reason, if the body is not verified
        self.ghost = ghost          # extra ghost parameter text
        self.ghost_calls = ghost_calls or {}
        self.renames = renames      # calls routed to the variant with a ghost ledger
        self.props = set(props)
        for c in self.ensures:
            self.props.update(c.props)
        self.rlimit = rlimit


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def extract(feature, contracted, work):
    lst = os.path.join(work, "contracted.txt")
    with open(lst, "w") as f:
        f.write("\n".join(sorted(contracted)) + "\n")
    r = sh([VEXTRACT, REPO, feature, lst], timeout=120)
    if r.returncode != 0:
        raise RuntimeError("extraction failed: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def fn_items(ex):
    for m in ex["modules"]:
        for it in m["items"]:
            if it["kind"] == "fn":
                yield m, None, it
            elif it["kind"] == "impl":
                for x in it["items"]:
                    if x["kind"] == "fn":
                        yield m, it, x


def body_hash(f):
    """hash of the normalised body with local names canonicalised for vx_ temporaries"""
    ids = {}

    def ren(m):
        return ids.setdefault(m.group(0), f"vx_{m.group(1)}#{len(ids)}")
    t = re.sub(r"\bvx_([a-z]+)\d+(?:_h\d+)*\b", ren, f["body"])
    key = json.dumps([f["path"], [p["text"] for p in f["params"]], f["ret"], t])
    return hashlib.sha256(key.encode()).hexdigest()[:24]


# ---------------------------------------------------------------- substitution of parameter names
def subst(text, mapping):
    if not mapping:
        return text
    return re.sub(r"(?<![\w.:])(" + "|".join(map(re.escape, mapping)) + r")\b(?!\s*::)", lambda m: mapping[m.group(1)], text)


def match_paren(s, i):
    """index just after the parenthesis group opening at s[i]"""
    d = 0
    instr = False
    j = i
    while j < len(s):
        c = s[j]
        if instr:
            if c == "\\":
                j += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return j + 1
        j += 1
    raise ValueError("unbalanced")


def add_call_arg(body, pat, arg):
    """append a ghost argument to every call matched by pat (which ends just before the parenthesis)"""
    out = ""
    pos = 0
    for m in re.finditer(pat, body):
        if m.end() < pos:
            continue
        i = m.end()
        while i < len(body) and body[i].isspace():
            i += 1
        if i >= len(body) or body[i] != "(":
            continue
        e = match_paren(body, i)
        inner = body[i + 1:e - 1]
        inner2 = add_call_arg(inner, pat, arg)
        s = inner2.strip().rstrip(",")
        out += body[pos:i] + "(" + s + (", " if s else "") + arg + ")"
        pos = e
    return out + body[pos:]


# ---------------------------------------------------------------- loop invariant candidates
def cursor_vars(loop):
    return [v["name"] for v in loop["vars"] if re.match(r"vx_c\d+", v["name"])]


READING = "len|is_empty|vx_slice|vx_iter|vx_to_vec|vx_chunks|vx_eq|vx_ne|vx_first|vx_as_ref|is_none|is_some|as_slice|clone|vx_more"


def mutated(n, text):
    """can the local change in this loop"""
    t = re.sub(r"\b%s \. (?:%s) \(" % (n, READING), "", text)
    t = re.sub(r"& %s\b(?! \.)" % n, "", t)
    t = re.sub(r"\b%s (?=[-+*/<>)]|==|!=|&&|\|\||% )(?!\+=|-=|\*=|/=)" .replace("%s", n), "", t)
    for m in reversed(list(re.finditer(r"\b%s \[" % n, t))):
        e = match_bracket(t, m.end() - 1)
        if not re.match(r" ([-+^|&*/]|<<|>>)?=(?!=)|\.| \.", t[e:]) and not re.search(r"& mut $", t[:m.start()]):
            t = t[:m.start()] + t[m.end():]
    return bool(re.search(r"\b" + n + r"\b", t))


def match_bracket(t, i):
    d = 0
    for j in range(i, len(t)):
        d += (t[j] == "[") - (t[j] == "]")
        if d == 0:
            return j + 1
    return len(t)


# every loop that appends the elements it walks over
COPY = [(r"\. push \(\(*(\* ?)*\w+\)*\)", "{A} + {C}.rest() =~= {A}_0 + {C}_0.rest()")]
INTS = ("u8", "u16", "u32", "u64", "usize", "i32", "i64")


def candidates(c, f, loop, lid, ren, text):
    """instantiate the invariant templates of contract c for one loop"""
    names, ty, muts = [], {}, []
    for v in loop["vars"]:
        if v["name"] not in names and v["name"] != "self":
            names.append(v["name"])
            ty[v["name"]] = v["ty"].strip()
            # only what the loop itself mentions, and does more with than reading, can change in it
            if v["mut"] and mutated(v["name"], text):
                muts.append(v["name"])
    curs = [n for n in muts if re.match(r"vx_c\d+", n)]
    body = f["body"]

    def is_int(n):
        if ty[n]:
            return ty[n] in INTS
        return bool(re.search(r"\b%s (\+=|-=) |\b%s = %s [-+] |let (?:mut )?%s = \d\w*;|let (?:mut )?%s = [^;]*\. len \(\);|let (?:mut )?%s = [^;]* as usize;" % (n, n, n, n, n, n), body))

    def is_other(n):
        if ty[n] in ("bool", "char", "AVPType", "Code") or ty[n].startswith("Option"):
            return True
        return bool(re.search(r"let mut %s = (crate :: ext :: rand|true;|false;|None;)" % n, body))
    ints = [n for n in muts if n not in curs and is_int(n)]
    accs = [n for n in muts if n not in curs and n not in ints and not is_other(n)]
    opts = [n for n in muts if n not in curs and n not in ints and (is_other(n) or not ty[n])]
    seqs = [subst(s, ren) for s in c.seqs]
    seqs += [f"{n}@" for n in names if re.match(r"vx_s\d+", n)]
    suff = [f"{n}.rest()" for n in curs] + [f"{n}@" for n in accs]
    for s in seqs:
        for n in ints:
            suff.append(f"sk({s}, {n} as int)")
        for n in curs:
            if re.search(n + r" = vx_range", body):
                suff.append(f"sk({s}, {n}.i as int)")
    for n in names:
        # a suffix of a local list that the loop walks by index
        if n not in muts and not re.match(r"vx_[cxs]\d", n) and ints and re.search(r"\b%s \[ ?(?:%s)\b|\b%s \. len|\b%s \. get" % (n, "|".join(ints), n, n), text) and not is_int(n) and not is_other(n):
            for k in ints:
                suff.append(f"sk({n}@, {k} as int)")
    others = [f"{n}@" for n in names if n not in muts and not re.match(r"vx_[cx]\d", n) and not is_int(n) and not is_other(n)]
    out = []
    for t in list(c.inv) + COPY:
        if isinstance(t, tuple):
            if not re.search(t[0], text):
                continue
            t = t[1]
        holes = list(dict.fromkeys(re.findall(r"\{([A-Z]\d?)\}", t)))
        doms = []
        for h in holes:
            k = h[0]
            if k == "A":
                doms.append([f"{n}@" for n in accs])
            elif k == "S":
                doms.append(suff)
            elif k == "C":
                doms.append(curs)
            elif k == "V":
                doms.append(opts)
            elif k == "Q":
                doms.append(seqs)
            elif k == "O":
                doms.append([x for x in others if re.search(r"\b" + x[:-1] + r"\b", text)])
            elif k == "K":
                doms.append(others)
            elif k == "I":
                doms.append([f"({n} as int)" for n in ints] + [f"({n}.i as int)" for n in curs if re.search(n + r" = vx_range", body)])
            else:
                doms.append([])
        for combo in itertools.product(*doms):
            if len(set(combo)) != len(combo):
                continue
            if "O1" in holes and combo[holes.index("O1")] > combo[holes.index("O2")]:
                continue
            if "C1" in holes and combo[holes.index("C1")] > combo[holes.index("C2")]:
                continue
            txt = subst(t, ren)
            for h, x in zip(holes, combo):
                txt = txt.replace("{%s}" % h, x)
            # X_0 is the ghost snapshot of a cursor, X_l3 that of a local before loop 3
            out.append(re.sub(r"\b(\w+)@_0", rf"\1_l{lid}@", txt))
    for n in curs:
        if re.search(n + r" = .*(vx_range|vx_chunks)", body):
            out.append(f"{n}.n == {n}_0.n")
    for n in muts:
        # the result of an exit from the loop of an inlined helper
        if re.match(r"vx_z\d+", n):
            vals = set(re.findall(r"\b%s = Some \((Err|Ok|None|Some|true|false)\b" % n, text))
            if len(vals) == 1 and len(re.findall(r"\b%s = " % n, text)) == len(re.findall(r"\b%s = Some \(%s\b" % (n, next(iter(vals))), text)):
                v = vals.pop()
                out.append(f"{n} matches Some(vx_q) ==> " + (f"vx_q == {v}" if v in ("true", "false") else f"vx_q is {v}"))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def decreases_of(loop, cond):
    cond = " ".join(cond.split())
    cond = re.sub(r"^while ", "", cond)
    m = re.search(r"(vx_c\d+(?:_h\d+)*) \. vx_more \(\)", cond)
    if m:
        return f"{m.group(1)}.rest().len()"
    path = r"((?:& )?\w+(?: \. \w+)*?)"
    m = re.search(r"\b(\w+) < " + path + r" \. len \(\)", cond)
    if m:
        return f"crate::vx::nz({m.group(2).replace(' ', '').lstrip('&')}@.len() - {m.group(1)})"
    m = re.search(path + r" \. len \(\) > (\w+)", cond)
    if m:
        return f"{m.group(1).replace(' ', '')}@.len() - {m.group(2)}" if not m.group(2).isdigit() else f"{m.group(1).replace(' ', '')}@.len()"
    m = re.search(r"! " + path + r" \. is_empty \(\)", cond)
    if m:
        return f"{m.group(1).replace(' ', '')}@.len()"
    return None


# ---------------------------------------------------------------- emission
class Emitter:
    def __init__(self):
        self.lines = []
        self.tags = {}     # line -> (fnpath, kind, label)

    def put(self, text, tag=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if tag is not None:
                self.tags[len(self.lines)] = tag


class Plan:
    """what to do with every function in this run"""

    def __init__(self):
        self.verify = set()       # paths verified with body
        self.demoted = {}         # path -> reason; contract assumed
        self.dropped = {}         # (path, loopid) -> set of candidate texts dropped
        self.nodec = set()        # (path, loopid) without decreases
        self.canary = False       # also check every body against `false`
        self.canaries = set()
        self.broadcast = ""       # further broadcast lemmas
        self.without = ""         # a lemma of group_sk left out in this attempt
        self.bits = False         # with the lemmas on shifts and masks
        self.probe = set()        # functions whose locals' types are asked for
        self.annot = {}           # path -> {local: type} found that way
        self.chosen = {}          # (path, loopid) -> list (from cache)


def split_loops(body):
    """yield positions of `vx_loop ! (N);` markers"""
    return [(m.start(), m.end(), int(m.group(1))) for m in re.finditer(r"vx_loop ! \((\d+)\);", body)]


UNTYPED = r"\blet mut (\w+) = (?=Vec :: (?:new|with_capacity) \(|vec ! \[\]|None;)"


def untyped(f):
    """locals whose type an invariant could fix wrongly, because it is inferred from later code"""
    return list(dict.fromkeys(re.findall(UNTYPED, f["body"]))) if f["loops"] else []


def add_probes(body, names):
    """type errors at the end of the first loop that mentions a local tell its type"""
    todo = list(names)
    for s, e, lid in split_loops(body):
        b = body.rfind("{", 0, s)
        end = match_paren(body, b) - 1
        for n in todo:
            k = body.find(f"let mut {n} = ")
            if 0 <= k < s and re.search(r"\b" + n + r"\b", body[s:end]):
                body = body[:end] + f"\n; let vx_probe : crate::vx::VxProbe = {n};\n" + body[end:]
                return add_probes(body, [x for x in todo if x != n])
    return body


def emit_fn(em, f, c, plan, indent, trait_decl=False):
    path = f["path"]
    if plan.canary and path in plan.verify and not trait_decl and not f.get("trait_impl"):
        # the same body against the postcondition `false`: it must be refused
        plan.verify.discard(path)
        emit_fn(em, f, c, plan, indent)
        plan.verify.add(path)
        plan.canary = False
        c = copy.copy(c) if c else Contract(path, [])
        c.ensures = [Clause("canary", [], "false")]
        r = emit_fn(em, {**f, "name": f["name"] + "_vx_canary"}, c, plan, indent)
        plan.canary = True
        plan.canaries.add(path)
        return r
    pn = [p["name"] for p in f["params"] if not p["recv"]]
    verify = path in plan.verify and path not in plan.demoted and not f.get("opaque") and not (c and c.trusted) and not trait_decl
    ren = {}
    if c is not None:
        want = [x for x in c.params if x != "self"]
        if len(want) != len(pn):
            raise LostAnchor(path, "parameter list changed")
        ren = {a: b for a, b in zip(want, pn) if a != b}
    attrs = []
    if not trait_decl:
        if not verify:
            attrs.append("#[verifier::external_body]")
        elif f["loops"]:
            attrs.append("#[verifier::loop_isolation(false)]")
            attrs.append("#[verifier::exec_allows_no_decreases_clause]")
        if c and c.rlimit and verify:
            attrs.append(f"#[verifier::rlimit({c.rlimit})]")
    ps = [p["text"].strip() for p in f["params"]]
    if c and c.ghost:
        ps.append(c.ghost)
    ret = f["ret"]
    sig = f"{f.get('vis', '')}fn {f['name']}{f['generics']}({', '.join(ps)})"
    if ret:
        sig += f" -> (ret: {ret.strip()})"
    if f.get("where", "").strip():
        sig += " " + f["where"]
    em.put(indent + " ".join(attrs), (path, "sig", ""))
    em.put(indent + sig, (path, "sig", ""))
    if c:
        if c.requires:
            em.put(indent + "  requires", (path, "sig", ""))
            for r in c.requires:
                em.put(indent + "    " + subst(r, ren).replace("\n", " ") + ",", (path, "requires", ""))
        if c.ensures:
            em.put(indent + "  ensures", (path, "sig", ""))
            for e in c.ensures:
                em.put(indent + "    " + subst(e.text, ren).replace("\n", " ") + ",", (path, "ensures", e.label))
    if trait_decl:
        em.put(indent + ";", (path, "sig", ""))
        return {}
    if not verify:
        em.put(indent + "{ unimplemented!() }", (path, "body", ""))
        return {}
    body = f["body"]
    for n, t in plan.annot.get(path, {}).items():
        body = re.sub(UNTYPED.replace(r"(\w+)", "(" + n + ")"), f"let mut {n} : {t} = ", body)
    if path in plan.probe:
        body = add_probes(body, untyped(f))
    if c:
        for pat, rep in c.renames:
            body = re.sub(pat, rep, body)
        for pat, arg in c.ghost_calls.items():
            body = add_call_arg(body, pat, arg)
    body = re.sub(r"vx_ghost ! \((\w+)\);", r"let ghost \1_0 = \1;", body)
    # a loop followed by a block would be ambiguous after `invariant` clauses
    ends = [match_paren(body, body.rfind("{", 0, s)) for s, e, lid in split_loops(body)]
    for e in sorted(ends, reverse=True):
        body = body[:e] + ";" + body[e:]
    cand = {}
    # place invariants: the marker is the first statement of the loop body, the
    # clauses belong before the opening brace
    out = []
    pos = 0
    for s, e, lid in split_loops(body):
        b = body.rfind("{", pos, s)
        k = max(body.rfind("while ", 0, b), body.rfind("loop ", 0, b)) if b >= 0 else 0
        cond = body[k:b]
        loop = f["loops"][lid]
        key = (path, lid)
        text = body[k:match_paren(body, b)]
        cs = candidates(c or Contract(path, []), f, loop, lid, ren, text)
        if key in plan.chosen:
            cs = list(plan.chosen[key])
        if path in plan.probe:
            cs = []
        cs = [x for x in cs if x not in plan.dropped.get(key, ())]
        cand[lid] = cs
        sn = sorted({x for t in cs for x in re.findall(rf"\b(\w+)_l{lid}\b", t)})
        sn = "".join(f"let ghost {x}_l{lid} = {x}; " for x in sn) if k <= 0 or body[:k].rstrip()[-1:] in ";{}" else ""
        out.append(("code", body[pos:k] + sn + body[k:b] if k >= pos else body[pos:b]))
        inv = []
        for x in cs:
            inv.append((x, ("inv", lid)))
        out.append(("inv", inv))
        d = decreases_of(loop, cond)
        if d and key not in plan.nodec:
            out.append(("dec", (d, lid)))
        out.append(("code", "{"))
        pos = e
    out.append(("code", body[pos:]))
    first = True
    for kind, x in out:
        if kind == "code":
            if first:
                first = False
                i = x.index("{")
                head = x[:i + 1] + ("\n" + subst(c.head, ren) if c and c.head else "")
                em.put(head, (path, "body", ""))
                em.put(x[i + 1:], (path, "body", ""))
            else:
                em.put(x, (path, "body", ""))
        elif kind == "inv":
            if x:
                em.put("  invariant", (path, "body", ""))
                for t, (_, lid) in x:
                    em.put("    (" + t + "),", (path, "inv", (lid, t)))
        elif kind == "dec":
            em.put("  decreases " + x[0], (path, "dec", x[1]))
    return cand


class LostAnchor(Exception):
    def __init__(self, path, why):
        super().__init__(f"{path}: {why}")
        self.path, self.why = path, why


def build_file(ex, contracts, plan, modules, extra):
    from . import contracts as tbl, dictcontracts
    """returns (text, tags, cands, hoisted)"""
    em = Emitter()
    em.put("#![allow(unused, dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_parens, unused_braces, unused_mut)]")
    em.put("use vstd::prelude::*;")
    em.put("global size_of usize == 8;" if False else "")
    cands = {}
    for name in ("vx", "spec", "ext", "gh") + (("bits",) if plan.bits else ()):
        p = os.path.join(ROOT, "contracts", name + ".rs")
        em.put(f"#[path = \"{p}\"] pub mod {'vs' if name == 'spec' else name};")
    for name in extra:
        if isinstance(name, tuple):
            em.put(f"pub mod {name[0]} {{\n{name[1]}\n}}")
            continue
        p = os.path.join(ROOT, "contracts", name + ".rs")
        em.put(f"#[path = \"{p}\"] pub mod {name};")
    if any(m["path"].split("::")[-1] in dictcontracts.MODULES for m in ex["modules"] if m["path"] in modules):
        em.put("pub mod dv { use vstd::prelude::*; use vstd::utf8::*; use crate::vx::*; use crate::vs::*; use crate::core::avp::AVP; use crate::core::tag::Tag; "
               "use crate::core::packet::Packet; use crate::ext::std::net::{Ipv4Addr, Ipv6Addr}; use crate::ext::chrono::*;\nverus! {\n" + dictcontracts.spec() + "\n} }")
    tree = {}
    for m in ex["modules"]:
        if m["path"] and m["path"] in modules:
            cur = tree
            for s in m["path"].split("::"):
                cur = cur.setdefault(s, {})
            cur[""] = m

    def emit_mod(name, node):
        em.put(f"pub mod {name} {{")
        m = node.get("")
        for k, v in node.items():
            if k:
                emit_mod(k, v)
        if m:
            em.put("use vstd::prelude::*; use vstd::utf8::*; use crate::vx::*; use crate::vs::*; " + tbl.USES.get(m["path"], ""))
            for it in m["items"]:
                if it["kind"] == "raw" and it["text"].startswith("use "):
                    t = it["text"]
                    mm = re.match(r"use crate::(core::\w+|server|client)\b", t)
                    if mm and mm.group(1) not in modules and not mm.group(1) == "core":
                        continue
                    em.put(t, (m["path"], "use", t))
            em.put("verus! {")
            g = [tbl.EXTRA_GROUPS.get(m["path"]), plan.broadcast]
            if m["path"] == "core::avp" and any("vx_copy_range" in x.get("body", "") for it in m["items"] for x in (it["items"] if it["kind"] == "impl" else [it])):
                g.append("lemma_zero_tail")
            g = ", ".join(x for x in g if x)
            use = MAIN_USE.replace("group_list}", "group_list" + (", " + g if g else "") + "}")
            if plan.bits:
                use = use.replace("group_list", "group_list, crate::bits::group_bits")
            if plan.without:
                use = use.replace("group_sk", ", ".join(x for x in GROUP_SK if x != plan.without))
            em.put(use)
            tl = tbl.tail(m["path"], m["items"])
            if tl:
                em.put(tl, (m["path"], "raw", "tail"))
            for it in m["items"]:
                if it["kind"] == "raw":
                    if not it["text"].startswith("use "):
                        em.put(it["text"], (m["path"], "raw", it["text"][:80]))
                elif it["kind"] == "fn":
                    emit_item_fn(it, "")
                elif it["kind"] == "trait":
                    em.put(it["header"] + " {", (m["path"], "raw", it["header"]))
                    hd = tbl.HEADS.get(it["header"].replace(" ", ""))
                    if hd:
                        em.put(hd)
                    for f in it["fns"]:
                        c = contracts.get(f["path"])
                        if c and c.head:
                            em.put(c.head)
                        cc = c
                        emit_fn(em, f, cc, plan, "  ", trait_decl=True)
                    em.put("}")
                else:
                    for x in it["items"]:
                        if x["kind"] == "fn":
                            hoist(x)
                    em.put(it["header"] + " {", (m["path"], "raw", it["header"]))
                    hd = tbl.HEADS.get(it["header"].replace(" ", ""))
                    if hd:
                        em.put(hd)
                    for x in it["items"]:
                        if x["kind"] == "raw":
                            em.put(x["text"], (m["path"], "raw", x["text"][:80]))
                        else:
                            emit_item_fn(x, "  ", hoisted=True)
                    em.put("}")
            em.put("} // verus!")
        em.put("}")

    def hoist(f):
        for h in f.get("hoisted", []):
            em.put(h, (f["path"], "body", ""))

    def emit_item_fn(f, ind, hoisted=False):
        c = contracts.get(f["path"])
        if c is None and f["path"] not in plan.verify:
            if not needed_uncontracted(f):
                return
        if not hoisted:
            hoist(f)
        cands[f["path"]] = emit_fn(em, f, c, plan, ind)

    def needed_uncontracted(f):
        # helpers without a contract are inlined at their call sites; they are
        # emitted (body not verified, no postcondition) only inside trait impls
        return bool(f.get("trait_impl")) and f["trait_impl"] not in ("Debug", "Display")

    for k, v in tree.items():
        emit_mod(k, v)
    em.put("fn main() {}")
    return "\n".join(em.lines) + "\n", em.tags, cands


# ---------------------------------------------------------------- running verus
def run_verus(text, work, name, rlimit=10, args=(), timeout=240):
    p = os.path.join(work, name + ".rs")
    with open(p, "w") as f:
        f.write(text)
    cmd = ["verus", p, "--error-format=json", "--output-json", "--multiple-errors", "60", "--rlimit", str(rlimit),
           "--triggers-mode", "silent", "--time-expanded", "--num-threads", "8"] + list(args)
    t0 = time.time()
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=work, start_new_session=True)
    try:
        out, err = pr.communicate(timeout=timeout)
        rc = pr.returncode
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL)   # the solver processes as well
        pr.wait()
        out, err, rc = "", "", 124
    dt = time.time() - t0
    diags = []
    for l in err.splitlines():
        l = l.strip()
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(out)
    except ValueError:
        res = None
    return {"rc": rc, "diags": diags, "json": res, "wall": dt, "raw": err, "path": p, "cmd": cmd}
