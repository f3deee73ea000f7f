"""Contracts on the functions of /repo/radius (hand written from the property
statements; the dictionary accessors' contracts are generated by dictcontracts.py).

Every ensures clause is (label, properties, text).  `ret` is the result.
`soft` contracts are on private helpers: if the helper disappears, changes shape
or no longer meets the contract, it is inlined into its callers instead, so only
public behaviour is fixed by this file.
Invariant templates: {A} mutable local's view, {S} a suffix (cursor rest, or
`sk(seq, index)`), {C} cursor, {I} an index, {Q} a listed sequence.
"""
from .weave import Contract

T = {}
HEADS = {}


def add(*a, **k):
    c = Contract(*a, **k)
    T[c.path] = c
    return c


# ================================================================ core::code
add("core::code::Code::from", ["value"], ensures=[
    ("number", ["C21"], "ret == code_of(value)")])
add("core::code::Code::string", ["self"], ensures=[
    ("name", ["C21"], """match *self {
        Code::AccessRequest => ret@ == "Access-Request"@, Code::AccessAccept => ret@ == "Access-Accept"@,
        Code::AccessReject => ret@ == "Access-Reject"@, Code::AccountingRequest => ret@ == "Accounting-Request"@,
        Code::AccountingResponse => ret@ == "Accounting-Response"@, Code::AccessChallenge => ret@ == "Access-Challenge"@,
        Code::StatusServer => ret@ == "Status-Server"@, Code::StatusClient => ret@ == "Status-Client"@,
        Code::DisconnectRequest => ret@ == "Disconnect-Request"@, Code::DisconnectACK => ret@ == "Disconnect-ACK"@,
        Code::DisconnectNAK => ret@ == "Disconnect-NAK"@, Code::CoARequest => ret@ == "CoA-Request"@,
        Code::CoAACK => ret@ == "CoA-ACK"@, Code::CoANAK => ret@ == "CoA-NAK"@,
        Code::Reserved => ret@ == "Reserved"@, Code::Invalid => ret@ == "Invalid"@ }""")])

# ================================================================ core::tag
add("core::tag::Tag::new", ["value"], ensures=[("value", ["C08"], "ret.value == value")])
add("core::tag::Tag::new_unused", [], ensures=[("zero", ["C08"], "ret.value == 0")])
add("core::tag::Tag::get_value", ["self"], ensures=[("value", ["C08"], "ret == self.value")])
add("core::tag::Tag::is_zero", ["self"], ensures=[("zero", ["C08"], "ret == (self.value == 0)")])
add("core::tag::Tag::is_valid_value", ["self"], ensures=[("range", ["C08"], "ret == (1 <= self.value <= 0x1f)")])

# ================================================================ core::attributes
A = "core::attributes::Attributes::"
add(A + "decode", ["bs"], soft=True, ensures=[
    ("ok", ["C01", "C03"], "ret is Ok <==> dec(bs@) is Some"),
    ("value", ["C01", "C03"], "ret matches Ok(a) ==> dec(bs@) == Some(avs(a.0@))")],
    seqs=["bs@"],
    inv=["dec(bs@) == pre(avs({A}), dec({S}))", "{I} <= bs@.len()"])
add(A + "encode", ["self"], soft=True, ensures=[
    ("ok", ["C02", "C03", "C04"], "ret is Ok <==> fits(avs(self.0@))"),
    ("bytes", ["C02", "C03", "C04"], "ret matches Ok(b) ==> b@ == enc(avs(self.0@))")],
    seqs=["self.0@"],
    inv=["{A} + enc(avs({S})) =~= enc(avs(self.0@))", "rfits(avs({S})) == rfits(avs(self.0@))", "{I} <= self.0@.len()",
         # a separate scan for attributes that are too large
         "!{V} ==> rfits(avs({S})) == rfits(avs(self.0@))", "{V} ==> !rfits(avs(self.0@))",
         "{V} ==> rfits(avs({S})) == rfits(avs(self.0@))", "!{V} ==> !rfits(avs(self.0@))", "rfits(avs({S}))"])
add(A + "add", ["self", "avp"], soft=True, ensures=[
    ("append", ["C06"], "final(self).0@ == old(self).0@.push(avp)")])
add(A + "extend", ["self", "avps"], soft=True, ensures=[
    ("append", ["C06"], "final(self).0@ == old(self).0@ + avps@")],
    inv=["self.0@ + {C}.rest() =~= old(self).0@ + avps@"])
add(A + "del", ["self", "typ"], soft=True, ensures=[
    ("filter", ["C06"], "final(self).0@ =~= filt(old(self).0@, typ, false)")],
    seqs=["self.0@", "old(self).0@"],
    inv=["{A} + filt({S}, typ, false) =~= filt(old(self).0@, typ, false)",
         ("remove", "self.0@.subrange(0, {I}) + filt(sk(self.0@, {I}), typ, false) =~= filt(old(self).0@, typ, false)"), ("remove", "{I} <= self.0@.len()")])
add(A + "lookup", ["self", "typ"], soft=True, ensures=[
    ("first", ["C06"], "dopt(ret) == firsto(self.0@, typ)")],
    seqs=["self.0@"],
    inv=["{V} is None ==> firsto({S}, typ) == firsto(self.0@, typ)", "{V} is Some ==> dopt({V}) == firsto(self.0@, typ)",
         "firsto({S}, typ) == firsto(self.0@, typ)", "{I} <= self.0@.len()",
         (r"Some \(", "self.0@.len() <= usize::MAX"), (r"Some \(", "{C}.rest() =~= sk(self.0@, {I})"), (r"Some \(", "{I} + {C}.rest().len() == self.0@.len()"),
         (r"Some \(", "{V} matches Some(vx_q) ==> vx_q < self.0@.len() && firsto(self.0@, typ) == Some(self.0@[vx_q as int])")])
add(A + "lookup_all", ["self", "typ"], soft=True, ensures=[
    ("all", ["C06"], "derefs(ret@) =~= filt(self.0@, typ, true)")],
    seqs=["self.0@"],
    inv=["derefs({A}) + filt({S}, typ, true) =~= filt(self.0@, typ, true)", "{I} <= self.0@.len()"])

# ================================================================ core::packet
P = "core::packet::Packet::"
WFP = "self.authenticator@.len() == 16"
SAME = ("final(self).code == old(self).code && final(self).authenticator == old(self).authenticator "
        "&& final(self).secret == old(self).secret")
NEW = [("fields", ["C20"], "ret.code == code && ret.secret@ == secret@"),
       ("empty", ["C20"], "ret.attributes.0@.len() == 0"),
       ("auth16", ["C20"], "ret.authenticator@.len() == 16")]
add(P + "new", ["code", "secret"], ensures=NEW)
add(P + "new_with_identifier", ["code", "secret", "identifier"], ensures=NEW + [
    ("identifier", ["C20"], "ret.identifier == identifier")])
add(P + "_new", ["code", "secret", "maybe_identifier"], soft=True, ensures=NEW + [
    ("identifier", ["C20"], "maybe_identifier matches Some(i) ==> ret.identifier == i")],
    inv=["{A}.len() + {C}.rest().len() == 16", "{A}.len() == {I}", "{I} <= 16"])
add(P + "get_code", ["self"], ensures=[("code", ["C20", "C01"], "ret == self.code")])
add(P + "get_identifier", ["self"], ensures=[("id", ["C20", "C01"], "ret == self.identifier")])
add(P + "get_secret", ["self"], ensures=[("secret", ["C20", "C01"], "*ret == self.secret")])
add(P + "get_authenticator", ["self"], ensures=[("auth", ["C20", "C01"], "*ret == self.authenticator")])
add(P + "set_identifier", ["self", "identifier"], ensures=[
    ("id", ["C20"], "final(self).identifier == identifier"),
    ("frame", ["C20"], SAME + " && final(self).attributes == old(self).attributes")])
add(P + "make_response_packet", ["self", "code"], ensures=[
    ("fields", ["C20", "C04"], "ret.code == code && ret.identifier == self.identifier && ret.authenticator@ == self.authenticator@ && ret.secret@ == self.secret@"),
    ("empty", ["C20"], "ret.attributes.0@.len() == 0")])
add(P + "decode", ["bs", "secret"], ensures=[
    ("accepts", ["C01", "C03"], "ret is Ok <==> wf(bs@)"),
    ("fields", ["C01", "C03"], "ret matches Ok(p) ==> p.code == code_of(bs@[0]) && p.identifier == bs@[1] && p.authenticator@ == bs@.subrange(4, 20) && p.secret@ == secret@"),
    ("attributes", ["C01", "C03"], "ret matches Ok(p) ==> dec(bs@.subrange(20, plen(bs@))) == Some(avs(p.attributes.0@))"),
    ("err-short", ["C01"], "ret matches Err(PacketError::InsufficientPacketPayloadLengthError(a, b)) ==> b == bs@.len() && (bs@.len() < 20 || bs@.len() < plen(bs@))"),
    ("err-small", ["C01"], "ret matches Err(PacketError::InsufficientHeaderDefinedPacketLengthError(a, b)) ==> bs@.len() >= 20 && plen(bs@) < 20"),
    ("err-big", ["C01"], "ret matches Err(PacketError::HeaderDefinedPacketLengthExceedsMaximumLimitError(a, b)) ==> bs@.len() >= 20 && plen(bs@) > 4096"),
    ("err-attr", ["C01"], "ret matches Err(PacketError::DecodingError(_)) ==> bs@.len() >= 20 && 20 <= plen(bs@) <= bs@.len() && plen(bs@) <= 4096"),
    ("err-kind", ["C01"], "ret matches Err(e) ==> !(e is EncodingError) && !(e is UnknownCodeError) && !(e is HashComputationFailed)"),
])
add(P + "marshal_binary", ["self"], soft=True, requires=[WFP], ensures=[
    ("ok", ["C02", "C03", "C04"], "ret is Ok <==> fits(avs(self.attributes.0@)) && esz(avs(self.attributes.0@)) + 20 <= 4096"),
    ("bytes", ["C02", "C03", "C04"], "ret matches Ok(b) ==> b@ =~= head4(self.code, self.identifier, (esz(avs(self.attributes.0@)) + 20) as nat) + self.authenticator@ + enc(avs(self.attributes.0@))")])
add(P + "encode", ["self"], requires=[WFP], ensures=[
    ("ok", ["C02", "C03"], "ret is Ok <==> encodable(self.code) && fits(avs(self.attributes.0@)) && esz(avs(self.attributes.0@)) + 20 <= 4096"),
    ("header", ["C02", "C03"], "ret matches Ok(b) ==> b@.len() == 20 + esz(avs(self.attributes.0@)) && b@.subrange(0, 4) =~= head4(self.code, self.identifier, b@.len())"),
    ("attributes", ["C02", "C03"], "ret matches Ok(b) ==> sk(b@, 20) =~= enc(avs(self.attributes.0@))"),
    ("authenticator", ["C04", "C03"], "ret matches Ok(b) ==> b@.subrange(4, 20) =~= auth_field(self.code, self.identifier, self.authenticator@, self.secret@, enc(avs(self.attributes.0@)))"),
    ("err-size", ["C02"], "ret matches Err(PacketError::EncodingError(_)) ==> !fits(avs(self.attributes.0@)) || esz(avs(self.attributes.0@)) + 20 > 4096"),
    ("err-code", ["C02"], "ret matches Err(PacketError::UnknownCodeError(_)) ==> !encodable(self.code)"),
    ("err-kind", ["C02"], "ret matches Err(e) ==> e is EncodingError || e is UnknownCodeError"),
], inv=[(r"\] = ", t) for t in (
    # the digest written over the authenticator octet by octet
    "{A}.len() == {A}_0.len() && {A}_0.len() >= 20", "{I} + {C}.rest().len() == 16", "{I} <= 16", "{C}.rest() =~= sk({C}_0.rest(), {I})", "{C}_0.rest().len() == 16",
    "{A} =~= {A}_0.subrange(0, 4) + {C}_0.rest().subrange(0, {I}) + sk({A}_0, 4 + {I})",
    "{A} =~= {A}_0.subrange(0, 4) + {O}.subrange(0, {I}) + sk({A}_0, 4 + {I})")])
add(P + "Debug::fmt", ["self", "f"], ensures=[
    ("shows-code", ["C22"], "ret is Ok ==> final(f).seen().contains(dbg_of(&self.code))"),
    ("shows-identifier", ["C22"], "ret is Ok ==> final(f).seen().contains(dbg_of(&self.identifier))"),
    ("shows-authenticator", ["C22"], "ret is Ok ==> final(f).seen().contains(dbg_of(&self.authenticator))"),
    ("shows-attributes", ["C22"], "ret is Ok ==> final(f).seen().contains(dbg_of(&self.attributes))")])
# two packets that differ in nothing but the secret are formatted alike; the body is the
# body of Debug::fmt twice (made by the extractor)
add(P + "Debug::vx_fmt_twice", ["vx_a", "vx_b", "vx_f1", "vx_f2"], requires=[
    "vx_a.code == vx_b.code && vx_a.identifier == vx_b.identifier && vx_a.authenticator == vx_b.authenticator && vx_a.attributes == vx_b.attributes",
    "old(vx_f1).log() == old(vx_f2).log() && old(vx_f1).opts() == old(vx_f2).opts() && old(vx_f1).log().len() == 0"], ensures=[
    ("independent", ["C22"], "final(vx_f1).log() == final(vx_f2).log()")])
add(P + "is_authentic_response", ["response", "request", "secret"], ensures=[
    ("exact", ["C05"], "ret == auth_resp(response@, request@, secret@)")])
add(P + "is_authentic_request", ["request", "secret"], ensures=[
    ("exact", ["C05"], "ret == auth_req(request@, secret@)")])
FR = SAME + " && final(self).identifier == old(self).identifier"
add(P + "add", ["self", "avp"], ensures=[
    ("append", ["C06"], "final(self).attributes.0@ =~= old(self).attributes.0@.push(avp)"), ("frame", ["C06"], FR)])
add(P + "extend", ["self", "avps"], ensures=[
    ("append", ["C06"], "final(self).attributes.0@ =~= old(self).attributes.0@ + avps@"), ("frame", ["C06"], FR)])
add(P + "delete", ["self", "typ"], ensures=[
    ("filter", ["C06"], "final(self).attributes.0@ =~= filt(old(self).attributes.0@, typ, false)"), ("frame", ["C06"], FR)])
add(P + "lookup", ["self", "typ"], ensures=[("first", ["C06"], "dopt(ret) == firsto(self.attributes.0@, typ)")])
add(P + "lookup_all", ["self", "typ"], ensures=[("all", ["C06"], "derefs(ret@) =~= filt(self.attributes.0@, typ, true)")])

# ================================================================ core::avp
V = "core::avp::AVP::"


def avp_from(name, params, val, props):
    add(V + name, ["typ"] + params, ensures=[("type", props, "ret.typ == typ"), ("value", props, f"ret.value@ =~= {val}")])


avp_from("from_u32", ["value"], "be32(value)", ["C07"])
avp_from("from_u16", ["value"], "be16(value)", ["C07"])
avp_from("from_string", ["value"], "sbytes(value@)", ["C07"])
avp_from("from_bytes", ["value"], "value@", ["C07", "C15"])
avp_from("from_ipv4", ["value"], "value.o@", ["C07"])
avp_from("from_ipv6", ["value"], "value.o@", ["C07"])
add(V + "from_date", ["typ", "dt"], ensures=[
    ("type", ["C07"], "ret.typ == typ"), ("value", ["C07"], "0 <= dt.secs <= 0xffff_ffff ==> ret.value@ =~= be32(dt.secs as u32)"),
    ("len", ["C07"], "ret.value@ == be32(dt.secs as u32)")][:2])
avp_from("from_tagged_u32", ["tag", "value"], "seq![tagv(tag)] + be32(value)", ["C08"])
avp_from("from_tagged_string", ["tag", "value"], "tagged_str(tag, sbytes(value@))", ["C08"])

BADLEN = "InvalidAttributeLengthError"


def enc_fixed(name, n, val, props):
    add(V + name, ["self"], ensures=[
        ("ok", props, f"ret is Ok <==> self.value@.len() == {n}"),
        ("value", props, f"ret matches Ok(v) ==> {val}"),
        ("err", props, f"ret matches Err(e) ==> e is {BADLEN}")])


enc_fixed("encode_u32", 4, "v == vbe32(self.value@)", ["C07"])
enc_fixed("encode_u16", 2, "v == vbe16(self.value@)", ["C07"])
enc_fixed("encode_ipv4", 4, "v.o@ == self.value@", ["C07"])
enc_fixed("encode_ipv6", 16, "v.o@ == self.value@", ["C07"])
enc_fixed("encode_date", 4, "v.secs == vbe32(self.value@) as i64 && v.nanos == 0", ["C07"])
add(V + "encode_string", ["self"], ensures=[
    ("ok", ["C07"], "ret is Ok <==> valid_utf8(self.value@)"),
    ("value", ["C07"], "ret matches Ok(s) ==> sbytes(s@) == self.value@"),
    ("err", ["C07"], "ret matches Err(e) ==> e is DecodingError")])
add(V + "encode_bytes", ["self"], ensures=[("value", ["C07", "C15"], "ret@ =~= self.value@")])
add(V + "encode_tagged_u32", ["self"], ensures=[
    ("ok", ["C08"], "ret is Ok <==> self.value@.len() == 5 && self.value@[0] <= 0x1f"),
    ("value", ["C08"], "ret matches Ok(v) ==> v.0 == vbe32(sk(self.value@, 1)) && v.1.value == self.value@[0]"),
    ("err-missing", ["C08"], "ret matches Err(e) ==> (e is TagMissingError <==> self.value@.len() == 0)"),
    ("err-tag", ["C08"], "ret matches Err(AVPError::InvalidTagForIntegerValueError()) ==> self.value@.len() > 0 && self.value@[0] > 0x1f"),
    ("err-len", ["C08"], f"ret matches Err(AVPError::{BADLEN}(_, _)) ==> self.value@.len() > 0 && self.value@.len() != 5"),
    ("err-kind", ["C08"], f"ret matches Err(e) ==> e is TagMissingError || e is InvalidTagForIntegerValueError || e is {BADLEN}")])
add(V + "encode_tagged_string", ["self"], ensures=[
    ("tagged", ["C08"], "self.value@.len() > 0 && 1 <= self.value@[0] <= 0x1f && valid_utf8(sk(self.value@, 1)) ==> (ret matches Ok(v) && sbytes(v.0@) == sk(self.value@, 1) && v.1 is Some && v.1.unwrap().value == self.value@[0])"),
    ("tagged-err", ["C08"], "self.value@.len() > 0 && 1 <= self.value@[0] <= 0x1f && !valid_utf8(sk(self.value@, 1)) ==> (ret matches Err(e) && e is DecodingError)"),
    ("zero", ["C08"], "self.value@.len() > 0 && self.value@[0] == 0 ==> (ret matches Err(e) && e is InvalidTagForStringValueError)"),
    ("empty", ["C08"], "self.value@.len() == 0 ==> (ret matches Err(e) && e is TagMissingError)"),
    ("untagged", ["C08"], "self.value@.len() > 0 && self.value@[0] > 0x1f && valid_utf8(self.value@) ==> (ret matches Ok(v) && sbytes(v.0@) == self.value@ && v.1 is None)"),
    ("untagged-err", ["C08"], "self.value@.len() > 0 && self.value@[0] > 0x1f && !valid_utf8(self.value@) ==> (ret matches Err(e) && e is DecodingError)")])
add(V + "from_ipv4_prefix", ["typ", "prefix"], ensures=[
    ("ok", ["C11"], "ret is Ok <==> prefix@.len() == 4"),
    ("type", ["C11"], "ret matches Ok(a) ==> a.typ == typ"),
    ("value", ["C11"], "ret matches Ok(a) ==> a.value@ =~= seq![0u8, 32u8] + prefix@"),
    ("err", ["C11"], f"ret matches Err(e) ==> e is {BADLEN}")])
add(V + "from_ipv6_prefix", ["typ", "prefix"], ensures=[
    ("ok", ["C11"], "ret is Ok <==> prefix@.len() <= 16"),
    ("type", ["C11"], "ret matches Ok(a) ==> a.typ == typ"),
    ("value", ["C11"], "ret matches Ok(a) ==> a.value@ =~= seq![0u8, (8 * prefix@.len()) as u8] + prefix@"),
    ("err", ["C11"], f"ret matches Err(e) ==> e is {BADLEN}")])
add(V + "encode_ipv4_prefix", ["self"], ensures=[
    ("ok", ["C11"], "ret is Ok <==> self.value@.len() == 6"),
    ("value", ["C11"], "ret matches Ok(v) ==> v@ =~= sk(self.value@, 2)"),
    ("err", ["C11"], f"ret matches Err(e) ==> e is {BADLEN}")])
add(V + "encode_ipv6_prefix", ["self"], ensures=[
    ("ok", ["C11"], "ret is Ok <==> self.value@.len() >= 2"),
    ("value", ["C11"], "ret matches Ok(v) ==> v@ =~= sk(self.value@, 2)"),
    ("err", ["C11"], f"ret matches Err(e) ==> e is {BADLEN}")])

XOR = [("xor|\\^", "{A} =~= xorz({C1}_0.rest(), {C2}_0.rest()).subrange(0, {A}.len() as int)"),
       ("xor|\\^", "{C}.rest() =~= sk({C}_0.rest(), {A}.len() as int)"),
       ("xor|\\^", "{A}.len() + {C}.rest().len() == {C}_0.rest().len()"),
       ("xor|\\^", "{A} =~= xorz({O1}, {O2}).subrange(0, {A}.len() as int)"),
       ("xor|\\^", "{A}.len() == {I}")]
XOR += [("", "{S}.len() % 16 == 0"), ("16", "{A}.len() <= 16"), ("16", "{A} =~= {A}_0 + rep(0u8, {A}.len() - {A}_0.len())")]
# XOR in place: X_0 is X before the loop
XOR += [("xor|\\^", "{A}.len() == {A}_0.len()"),
        ("xor|\\^", "{A} =~= xorz({A}_0.subrange(0, {I}), {O}.subrange(0, {I})) + sk({A}_0, {I})"),
        ("xor|\\^", "{A} =~= xorz({A}_0.subrange(0, {I}), {C}_0.rest().subrange(0, {I})) + sk({A}_0, {I})"),
        ("xor|\\^", "{I} + {C}.rest().len() == {C}_0.rest().len()"), ("xor|\\^", "{C}.rest() =~= sk({C}_0.rest(), {I})"),
        ("xor|\\^", "{I} <= {A}.len()"), ("xor|\\^", "{I} <= {O}.len()")]
# XOR appended byte by byte to what was there before the loop
XOR += [("push", "{A} =~= {A}_0 + xorz({O}, {C}_0.rest()).subrange(0, {I})"), ("push", "{A} =~= {A}_0 + xorz({O1}, {O2}).subrange(0, {I})"),
        ("push", "{A} =~= {A}_0 + xorz({C1}_0.rest(), {C2}_0.rest()).subrange(0, {A}.len() - {A}_0.len())"), ("push", "{A}.len() == {A}_0.len() + {I}"),
        ("push", "{A}.len() + {C}.rest().len() == {A}_0.len() + {C}_0.rest().len()"), ("push", "{C}.rest() =~= sk({C}_0.rest(), {A}.len() - {A}_0.len())")]
NUL = [(" 0", "{I} <= {O}.len()"), (" 0", "nonul({O}, {I})"),
       (" 0", "nonul({A}, {A}.len() as int)"), (" 0", "{A} =~= {K}.subrange(0, {A}.len() as int)"),
       # the position of the first zero byte, in a cursor or by index
       (r"Some \(", "{C}.rest() =~= sk({C}_0.rest(), {I})"), (r"Some \(", "{I} + {C}.rest().len() == {C}_0.rest().len()"),
       (r"Some \(", "{V} is None ==> nonul({C}_0.rest(), {I})"), (r"Some \(", "{V} is None ==> nonul({O}, {I})"),
       (r"Some \(", "{V} matches Some(vx_q) ==> vx_q < {C}_0.rest().len() && nonul({C}_0.rest(), vx_q as int) && {C}_0.rest()[vx_q as int] == 0"),
       (r"Some \(", "{V} matches Some(vx_q) ==> vx_q < {O}.len() && nonul({O}, vx_q as int) && {O}[vx_q as int] == 0"),
       # bytes taken until a flag says that a zero byte was met
       ("true|false", "nonul({C}_0.rest(), {A}.len() as int) && {A} =~= {C}_0.rest().subrange(0, {A}.len() as int)"),
       ("true|false", "!{V} ==> {C}.rest() =~= sk({C}_0.rest(), {A}.len() as int)"), ("true|false", "!{V} ==> {A}.len() + {C}.rest().len() == {C}_0.rest().len()"),
       ("true|false", "{V} ==> {A}.len() < {C}_0.rest().len() && {C}_0.rest()[{A}.len() as int] == 0")]
HASH = "compute|hash"
PW_ERR = [
    ("err-secret", "ret matches Err(AVPError::PasswordSecretMissingError()) ==> secret@.len() == 0"),
    ("err-auth", "ret matches Err(AVPError::InvalidRequestAuthenticatorLength()) ==> request_authenticator@.len() != 16")]
GOODPW = "secret@.len() > 0 && request_authenticator@.len() == 16"
add(V + "from_user_password", ["typ", "plain_text", "secret", "request_authenticator"], ensures=[
    ("ok", ["C09", "C23"], f"ret is Ok <==> plain_text@.len() <= 128 && {GOODPW}"),
    ("type", ["C09", "C23"], "ret matches Ok(a) ==> a.typ == typ"),
    ("value", ["C09", "C23"], "ret matches Ok(a) ==> a.value@ =~= hidden(secret@, request_authenticator@, plain_text@)"),
    ("err-len", ["C09"], "ret matches Err(AVPError::UserPasswordPlainTextMaximumLengthExceededError(n)) ==> plain_text@.len() > 128"),
    ("err-kind", ["C09"], "ret matches Err(e) ==> e is UserPasswordPlainTextMaximumLengthExceededError || e is PasswordSecretMissingError || e is InvalidRequestAuthenticatorLength"),
    ] + [(l, ["C09"], t) for l, t in PW_ERR],
    seqs=["plain_text@"],
    inv=[(HASH, "{A} + hid(secret@, {A2}, {S}) == hid(secret@, request_authenticator@, plain_text@)")] + XOR)
add(V + "encode_user_password", ["self", "secret", "request_authenticator"], ensures=[
    ("ok", ["C09", "C23"], f"ret is Ok <==> 16 <= self.value@.len() <= 128 && {GOODPW}"),
    ("value", ["C09", "C23"], "ret matches Ok(v) ==> v@ =~= upto(unh(secret@, request_authenticator@, self.value@))"),
    ("err-len", ["C09"], f"ret matches Err(AVPError::{BADLEN}(_, _)) ==> !(16 <= self.value@.len() <= 128)"),
    ("err-kind", ["C09"], f"ret matches Err(e) ==> e is {BADLEN} || e is PasswordSecretMissingError || e is InvalidRequestAuthenticatorLength"),
    ] + [(l, ["C09"], t) for l, t in PW_ERR],
    seqs=["self.value@"],
    inv=[(HASH, "{A} + unh(secret@, {A2}, {S}) == unh(secret@, request_authenticator@, self.value@)")] + NUL + XOR)
add(V + "from_tunnel_password", ["typ", "tag", "plain_text", "secret", "request_authenticator"], ensures=[
    ("ok", ["C10", "C23"], f"ret is Ok <==> plain_text@.len() <= 240 && {GOODPW}"),
    ("type", ["C10", "C23"], "ret matches Ok(a) ==> a.typ == typ"),
    ("header", ["C10"], "ret matches Ok(a) ==> a.value@.len() >= 3 && a.value@[0] == tagv(tag) && a.value@[1] >= 0x80"),
    ("value", ["C10", "C23"], "ret matches Ok(a) ==> sk(a.value@, 3) =~= hidden(secret@, request_authenticator@ + a.value@.subrange(1, 3), plain_text@)"),
    ("err-len", ["C10"], f"ret matches Err(AVPError::{BADLEN}(_, _)) ==> plain_text@.len() > 240"),
    ("err-kind", ["C10"], f"ret matches Err(e) ==> e is {BADLEN} || e is PasswordSecretMissingError || e is InvalidRequestAuthenticatorLength"),
    ] + [(l, ["C10"], t) for l, t in PW_ERR],
    seqs=["plain_text@"],
    inv=[(HASH, "tphdr({A}, tagv(tag))"),
         (HASH, "sk({A}, 3) + hid(secret@, {A2}, {S}) == hid(secret@, request_authenticator@ + tpsalt({A}), plain_text@)"),
         (HASH, "{A} + hid(secret@, {A2}, {S}) == hid(secret@, request_authenticator@ + {K}, plain_text@)"),
         (HASH, "tpsalt({A}) == {K}")] + XOR)
add(V + "encode_tunnel_password", ["self", "secret", "request_authenticator"], ensures=[
    ("ok", ["C10", "C23"], f"ret is Ok <==> 19 <= self.value@.len() <= 243 && (self.value@.len() - 3) % 16 == 0 && self.value@[1] >= 0x80 && {GOODPW}"),
    ("tag", ["C10", "C23"], "ret matches Ok(v) ==> v.1.value == self.value@[0]"),
    ("value", ["C10", "C23"], "ret matches Ok(v) ==> v.0@ =~= upto(unh(secret@, request_authenticator@ + self.value@.subrange(1, 3), sk(self.value@, 3)))"),
    ("err-len", ["C10"], f"ret matches Err(AVPError::{BADLEN}(_, _)) ==> !(19 <= self.value@.len() <= 243 && (self.value@.len() - 3) % 16 == 0)"),
    ("err-salt", ["C10"], "ret matches Err(AVPError::InvalidSaltMSBError(_)) ==> self.value@.len() < 2 || self.value@[1] < 0x80"),
    ("err-kind", ["C10"], f"ret matches Err(e) ==> e is {BADLEN} || e is PasswordSecretMissingError || e is InvalidRequestAuthenticatorLength || e is InvalidSaltMSBError"),
    ] + [(l, ["C10"], t) for l, t in PW_ERR],
    seqs=["self.value@", "sk(self.value@, 3)"],
    inv=[(HASH, "{A} + unh(secret@, {A2}, {S}) == unh(secret@, request_authenticator@ + self.value@.subrange(1, 3), sk(self.value@, 3))")] + NUL + XOR)

# ================================================================ core::vsa
HEADS["pubtraitVSA"] = "  spec fn vx_ok(&self) -> bool;\n  spec fn vx_msg(&self) -> Seq<u8>;"
add("core::vsa::VSA::message", ["self"], requires=["self.vx_ok()"], ensures=[("message", ["C12"], "ret@ == self.vx_msg()")])
ASSUMED = {"core::vsa::VSA::message"}
for _t, _tag in (("StringVSA", False), ("TaggedStringVSA", True)):
    _p = f"core::vsa::{_t}::"
    _k = 3 if _tag else 2
    add(_p + "new", ["vendor_id", "vendor_type"] + (["tag"] if _tag else []) + ["value"], ensures=[
        ("established", ["C12", "C16"], "ret.vx_ok()"),
        ("vendor-id", ["C12"], "ret.vendor_id@ == be32(vendor_id as u32)"),
        ("vendor-type", ["C12"], "ret.vendor_type == vendor_type"),
        ("length", ["C12"], f"sbytes(value@).len() + {_k} <= 255 ==> ret.length == sbytes(value@).len() + {_k}"),
        ("value", ["C12"], "ret.value@ == sbytes(value@)")] + ([("tag", ["C12"], "ret.tag == tag")] if _tag else []))
    HEADS[f"implVSAfor{_t}"] = "  /// the vendor id has four octets (established by new)\n  open spec fn vx_ok(&self) -> bool { self.vendor_id@.len() == 4 }"
    HEADS[f"implVSAfor{_t}"] += "\n  open spec fn vx_msg(&self) -> Seq<u8> { self.vendor_id@ + seq![self.vendor_type, self.length" + (", self.tag" if _tag else "") + "] + self.value@ }"
    add(_p + "VSA::message", ["self"], ensures=[
        ("layout", ["C12"], "ret@ =~= self.vendor_id@ + seq![self.vendor_type, self.length" + (", self.tag" if _tag else "") + "] + self.value@")])
    add(_p + "VSA::len", ["self"], ensures=[("length", ["C12"], "ret == self.length")])
    add(_p + "VSA::is_empty", ["self"], ensures=[("empty", ["C12"], "ret == (self.length == 0)")])

# ================================================================ where the random octets come from
# (a table of its own: verified in group "rand", where drawing from a generator is
# recorded in a ghost ledger; elsewhere a draw is just an arbitrary value)
RT = {}
DRAWS = "Tracked(rg): Tracked<&mut Draws>"
RCALLS = {r"\. (?:gen_led|fill_led|fill_bytes_led|next_u32_led|next_u64_led)(?:\s*::\s*<[\w\[\];\s]+>)?": "Tracked(rg)", r"\brandom_led(?:\s*::\s*<[\w\[\];\s]+>)?": "Tracked(rg)",
          r"\b(?:Packet|Self) :: (?:_new|new|new_with_identifier)": "Tracked(rg)"}
RNAMES = [(r"\. (gen|fill_bytes|next_u32|next_u64)\b", r". \1_led"), (r"\brand :: random\b", "rand :: random_led")]


def radd(path, params, ensures, **k):
    c = Contract(path, params, ensures=ensures, ghost=DRAWS, ghost_calls=RCALLS, renames=RNAMES, **k)
    RT[path] = c


DINV = ["rg.drawn =~= old(rg).drawn + {A}", "rg.drawn.len() == old(rg).drawn.len() + {I}", "{A}.len() + {C}.rest().len() == 16", "{A}.len() == {I}", "{I} <= 16"]
radd(P + "new", ["code", "secret"], [
    ("authenticator-and-identifier", ["C26"], "from_draws(old(rg).drawn, final(rg).drawn, ret.authenticator@, Some(ret.identifier))")], inv=DINV)
radd(P + "new_with_identifier", ["code", "secret", "identifier"], [
    ("authenticator", ["C26"], "from_draws(old(rg).drawn, final(rg).drawn, ret.authenticator@, None)")], inv=DINV)
radd(P + "_new", ["code", "secret", "maybe_identifier"], [
    ("authenticator-and-identifier", ["C26"], "maybe_identifier is None ==> from_draws(old(rg).drawn, final(rg).drawn, ret.authenticator@, Some(ret.identifier))"),
    ("authenticator", ["C26"], "maybe_identifier is Some ==> from_draws(old(rg).drawn, final(rg).drawn, ret.authenticator@, None)")], soft=True, inv=DINV)

# ================================================================ core::request
R = "core::request::Request::"
add(R + "new", ["local_addr", "remote_addr", "packet"], ensures=[
    ("fields", ["C17"], "ret.local_addr == local_addr && ret.remote_addr == remote_addr && ret.packet == packet")])
add(R + "get_local_addr", ["self"], ensures=[("local", ["C17"], "ret == self.local_addr")])
add(R + "get_remote_addr", ["self"], ensures=[("remote", ["C17"], "ret == self.remote_addr")])
add(R + "get_packet", ["self"], ensures=[("packet", ["C17"], "*ret == self.packet")])

# ================================================================ server
S = "server::Server::"
LED = "Tracked(led): Tracked<&mut Led>"
SCALLS = {r"\bvx_task_begin": "Tracked(led)", r"\bvx_task_end": "Tracked(led)", r"\. fetch_secret": "Tracked(led)", r"\. (?:write|read|lock)": "Tracked(led)", r"\. contains": "Tracked(led)",
          r"\. insert": "Tracked(led)", r"\. remove": "Tracked(led)", r"\. handle_radius_request": "Tracked(led)",
          r"\bprocess_request": "Tracked(led)", r"\. recv_from": "Tracked(led)", r"\. local_addr": "Tracked(led)"}
add("server::SecretProvider::fetch_secret", ["self", "remote_addr"], ghost=LED, ensures=[
    ("logged", [], "*final(led) == (Led { asked: old(led).asked.push((remote_addr, match ret { Ok(v) => Some(v@), Err(_) => None })), ..*old(led) })")])
add("server::RequestHandler::handle_radius_request", ["self", "conn", "request"], ghost=LED,
    requires=["may_handle(*old(led), *request)", "old(led).task"], ensures=[
    ("logged", [], "*final(led) == (Led { calls: old(led).calls + 1, ..*old(led) })")])
add(S + "process_request", ["conn", "request_data", "local_addr", "remote_addr", "undergoing_requests_lock", "request_handler",
                            "secret_provider", "skip_authenticity_validation"], soft=True, ghost=LED, ghost_calls=SCALLS,
    requires=["old(led).got == Some((request_data@, remote_addr))", "old(led).local == local_addr", "old(led).skip == skip_authenticity_validation",
              "old(led).lock == (*undergoing_requests_lock).lid()", "fresh(*old(led))", "old(led).task"],
    ensures=[("frame", ["C17", "C18"], "led_same(*old(led), *final(led)) && final(led).got == old(led).got && final(led).stopped == old(led).stopped && final(led).task == old(led).task"),
             ("asks-provider", ["C17"], "final(led).asked.len() > 0"),
             ("handed-over-once", ["C17", "C24"], "final(led).calls <= 1 && (gate(*final(led)) && !final(led).busy.contains(gotkey(*final(led))) ==> final(led).calls == 1)"),
             ("forgotten", ["C18", "C24"], "final(led).owned =~= Set::<KV>::empty()")],
    props=["C17", "C18", "C24"])
add(S + "run_loop", ["self"], ghost=LED, ghost_calls=SCALLS,
    requires=["old(led).lock == (*self.undergoing_requests_lock_arc).lid()", "old(led).skip == self.skip_authenticity_validation",
              "old(led).local == (*self.conn_arc).at()", "old(led).got is None", "fresh(*old(led))", "!old(led).stopped"],
    ensures=[("keeps-serving", ["C17", "C24"], "final(led).stopped"), ("no-leftover", ["C17", "C18", "C24"], "served(*final(led))")],
    inv=["led_same(*old(led), *led)", "served(*led)", "!led.stopped"], props=["C17", "C18", "C24"])
add(S + "listen", ["host", "port", "request_handler", "secret_provider"], ensures=[
    ("validates-by-default", ["C17"], "ret matches Ok(s) ==> !s.skip_authenticity_validation")])
add(S + "set_skip_authenticity_validation", ["self", "skip_authenticity_validation"], ensures=[
    ("sets", ["C17"], "final(self).skip_authenticity_validation == skip_authenticity_validation"),
    ("frame", ["C17"], "final(self).undergoing_requests_lock_arc == old(self).undergoing_requests_lock_arc && final(self).conn_arc == old(self).conn_arc && final(self).secret_provider_arc == old(self).secret_provider_arc && final(self).request_handler_arc == old(self).request_handler_arc")])
add(S + "set_buffer_size", ["self", "buf_size"], ensures=[
    ("sets", ["C17"], "final(self).buf_size == buf_size"),
    ("frame", ["C17"], "final(self).skip_authenticity_validation == old(self).skip_authenticity_validation && final(self).undergoing_requests_lock_arc == old(self).undergoing_requests_lock_arc && final(self).conn_arc == old(self).conn_arc")])
# user-supplied trait implementations: what the library assumes of them
ASSUMED |= {"server::SecretProvider::fetch_secret", "server::RequestHandler::handle_radius_request"}
USES = {"server": "use crate::gh::*;", "client": "use crate::gh::*;", "core::packet": "use crate::gh::{Draws, from_draws, salt_drawn};", "core::avp": "use crate::gh::{Draws, from_draws, salt_drawn};"}
EXTRA_GROUPS = {"core::avp": "group_pads", "core::attributes": "lemma_filt_first", "core::packet": "lemma_filt_first", "client": "crate::ext::std::net::axiom_any4, crate::ext::std::net::axiom_any6"}

# ================================================================ client
CL = "client::Client::"
NET = "Tracked(net): Tracked<&mut Net>"
CCALLS = {r"\. connect": "Tracked(net)", r"\. request": "Tracked(net)", r"\. send": "Tracked(net)", r"\. send_to": "Tracked(net)",
          r"\. recv": "Tracked(net)", r"\btimeout": "Tracked(net)"}
SENT1 = "(final(net).sent.len() == 0 || (final(net).sent.len() == 1 && is_encoding(final(net).sent[0].0, *request_packet) && final(net).sent[0].1 == *remote_addr))"
add(CL + "new", ["connection_timeout", "socket_timeout"], ensures=[
    ("fields", ["C19", "C25"], "ret.connection_timeout == connection_timeout && ret.socket_timeout == socket_timeout")])
add(CL + "connect", ["self", "conn", "remote_addr"], soft=True, ghost=NET, ghost_calls=CCALLS, ensures=[
    ("peer", ["C19"], "ret is Ok ==> final(net).peer == Some(*remote_addr)"),
    ("wait", ["C25"], "final(net).waits == old(net).waits.push((Wait::Connect, None))"),
    ("frame", ["C19"], "final(net).sent == old(net).sent && final(net).recvd == old(net).recvd && final(net).late == old(net).late"),
    ("error-kind", ["C25"], "ret matches Err(e) ==> !(e is SocketTimeoutError) && !(e is ConnectionTimeoutError)")])
add(CL + "request", ["self", "conn", "request_data", "remote_addr"], soft=True, ghost=NET, ghost_calls=CCALLS,
    requires=["old(net).peer == Some(*remote_addr)"], ensures=[
    ("sent", ["C19"], "final(net).sent == old(net).sent || final(net).sent == old(net).sent.push((request_data@, *remote_addr))"),
    ("answer", ["C19"], "ret matches Ok(v) ==> final(net).sent.len() == old(net).sent.len() + 1 && final(net).recvd == old(net).recvd.push(v@)"),
    ("no-answer", ["C19"], "ret is Err ==> final(net).recvd == old(net).recvd"),
    ("wait", ["C25"], "final(net).waits == old(net).waits.push((Wait::Answer, None))"),
    ("frame", ["C19"], "final(net).late == old(net).late"),
    ("error-kind", ["C25"], "ret matches Err(e) ==> !(e is SocketTimeoutError) && !(e is ConnectionTimeoutError)")])
add(CL + "send_packet", ["self", "remote_addr", "request_packet"], ghost=NET, ghost_calls=CCALLS,
    requires=["request_packet.authenticator@.len() == 16", "old(net).sent.len() == 0 && old(net).recvd.len() == 0 && old(net).peer is None && old(net).late is None && old(net).waits.len() == 0"],
    ensures=[
    ("one-request", ["C19"], SENT1),
    ("authentic", ["C19"], "ret matches Ok(p) ==> final(net).sent.len() == 1 && final(net).recvd.len() == 1 && auth_resp(final(net).recvd[0], final(net).sent[0].0, request_packet.secret@)"),
    ("decoded", ["C19"], "ret matches Ok(p) ==> is_decoding(p, final(net).recvd[0], request_packet.secret@)"),
    ("complete", ["C19"], "final(net).recvd.len() > 0 && final(net).late is None && final(net).sent.len() == 1 && auth_resp(final(net).recvd.last(), final(net).sent[0].0, request_packet.secret@) && wf(final(net).recvd.last()) ==> ret is Ok"),
    ("limits", ["C25"], "limits(final(net).waits, self.connection_timeout, self.socket_timeout)"),
    ("socket-timeout", ["C25"], "ret matches Err(e) ==> (e is SocketTimeoutError <==> final(net).late == Some(Wait::Answer))"),
    ("connection-timeout", ["C25"], "ret matches Err(e) ==> (e is ConnectionTimeoutError <==> final(net).late == Some(Wait::Connect))"),
    ("expiry", ["C19", "C25"], "ret is Ok ==> final(net).late is None"),
    ])

c = T[V + "from_tunnel_password"]
radd(c.path, c.params, [("salt", ["C26"], "ret matches Ok(a) ==> a.value@.len() >= 3 && salt_drawn(old(rg).drawn, final(rg).drawn, a.value@[1], a.value@[2])")],
     seqs=c.seqs, inv=["tphdr({A}, tagv(tag))", "{A}.len() >= 3 && salt_drawn(old(rg).drawn, rg.drawn, {A}[1], {A}[2])", "tpsalt({A}) == {K}"])
del c


def tail(mod, items):
    """extra ghost items: the identity of the keys in the in-flight set"""
    import json as _j
    import re as _r
    if mod != "server":
        return ""
    txt = _j.dumps(items)
    m = _r.search(r"HashSet < (\w+) >", txt)
    if not m:
        return ""
    name = m.group(1)
    for it in items:
        if it["kind"] != "raw":
            continue
        d = _r.search(r"struct " + name + r" \{(.*)\}", it["text"], _r.S)
        if d:
            fs = [x.strip() for x in d.group(1).split(",") if x.strip()]
            fs = [x.replace("pub ", "", 1).split(":", 1) for x in fs]
            fs = [(a.strip(), b.strip()) for a, b in fs]
            ids = [a for a, b in fs if b == "u8"]
            oth = [a for a, b in fs if b != "u8"]
            if len(ids) == 1 and len(oth) == 1:
                return f"impl VxKey for {name} {{ open spec fn kv(&self) -> KV {{ (self.{oth[0]}.kp(), self.{ids[0]}) }} }}"
    return ""


from . import dictcontracts
dictcontracts.build(T)
for _m in dictcontracts.MODULES:
    EXTRA_GROUPS["core::" + _m] = "group_dict"
    USES["core::" + _m] = "use crate::dv::*;"
