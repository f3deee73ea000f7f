// Specification functions and lemmas ("crate::vs"): what the RADIUS RFCs and the
// property statements say, as mathematics over byte sequences.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vx::*;
use crate::core::avp::AVP;
use crate::core::code::Code;
use crate::core::tag::Tag;
verus! {
broadcast use {vstd::group_vstd_default, group_sk};

// ------------------------------------------------------------ MD5: an uninterpreted 16-byte hash
pub uninterp spec fn md5(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_md5_len(s: Seq<u8>)
    ensures (#[trigger] md5(s)).len() == 16;

/// lets the solver compare hash inputs element by element
pub broadcast proof fn lemma_md5_ext(a: Seq<u8>, b: Seq<u8>)
    ensures a =~= b ==> #[trigger] md5(a) == #[trigger] md5(b),
{}

// ------------------------------------------------------------ attributes
pub type P = (u8, Seq<u8>);
pub open spec fn av(a: AVP) -> P { (a.typ, a.value@) }
pub open spec fn avs(s: Seq<AVP>) -> Seq<P> { Seq::new(s.len(), |i: int| av(s[i])) }
pub broadcast proof fn lemma_avs_push(s: Seq<AVP>, x: AVP)
    ensures #[trigger] avs(s + seq![x]) == avs(s) + seq![av(x)],
{ assert(avs(s + seq![x]) =~= avs(s) + seq![av(x)]); }
pub broadcast proof fn lemma_avs_len(s: Seq<AVP>) ensures (#[trigger] avs(s)).len() == s.len() {}
pub broadcast proof fn lemma_avs_sk(s: Seq<AVP>, k: int)
    requires 0 <= k,
    ensures avs(#[trigger] sk(s, k)) == sk(avs(s), k),
{ assert(avs(sk(s, k)) =~= sk(avs(s), k)); }

/// wire form of one attribute and of an attribute list
pub open spec fn enc1(p: P) -> Seq<u8> { seq![p.0, (p.1.len() + 2) as u8] + p.1 }
pub open spec fn enc(s: Seq<P>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc1(s[0]) + enc(sk(s, 1)) }
}
pub open spec fn fits(s: Seq<P>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.len() <= 253 }
pub open spec fn rfits(s: Seq<P>) -> bool decreases s.len() { s.len() == 0 || (s[0].1.len() <= 253 && rfits(sk(s, 1))) }
pub open spec fn pre(x: Seq<P>, o: Option<Seq<P>>) -> Option<Seq<P>> { match o { Some(t) => Some(x + t), None => None } }
pub open spec fn dec(b: Seq<u8>) -> Option<Seq<P>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) }
    else if b.len() < 2 || b[1] < 2 || b[1] > b.len() { None }
    else { pre(seq![(b[0], b.subrange(2, b[1] as int))], dec(sk(b, b[1] as int))) }
}
pub broadcast proof fn lemma_pre_pre(a: Seq<P>, b: Seq<P>, o: Option<Seq<P>>)
    requires o is Some,
    ensures #[trigger] pre(a, pre(b, o)) == pre(a + b, o),
{ }
pub broadcast proof fn lemma_pre_empty(a: Seq<P>, o: Option<Seq<P>>)
    requires a.len() == 0,
    ensures #[trigger] pre(a, o) == o,
{ match o { Some(t) => { assert(a + t =~= t); } None => {} } }
/// size of the wire form, without building it
pub open spec fn esz(s: Seq<P>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0].1.len() + 2 + esz(sk(s, 1)) } }
pub broadcast proof fn lemma_enc_len(s: Seq<P>)
    ensures (#[trigger] enc(s)).len() == esz(s), esz(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_enc_len(sk(s, 1)); } }
pub proof fn lemma_rfits(s: Seq<P>)
    ensures rfits(s) == fits(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_rfits(sk(s, 1));
        if fits(s) { assert forall|i: int| 0 <= i < sk(s, 1).len() implies (#[trigger] sk(s, 1)[i]).1.len() <= 253 by { assert(s[i + 1].1.len() <= 253); } }
        if rfits(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1.len() <= 253 by { if i > 0 { assert(sk(s, 1)[i - 1].1.len() <= 253); } } }
    }
}
pub broadcast proof fn lemma_rfits_b(s: Seq<P>) ensures #[trigger] fits(s) == rfits(s) { lemma_rfits(s); }
/// one attribute in front of a list: its wire form is cut off first
pub proof fn lemma_cut1(p: P, r: Seq<u8>)
    requires p.1.len() <= 253,
    ensures ({
        let e = enc1(p) + r;
        &&& e.len() >= 2 && e[0] == p.0 && e[1] == p.1.len() + 2
        &&& e.subrange(2, e[1] as int) == p.1
        &&& sk(e, e[1] as int) == r
        &&& dec(e) == pre(seq![p], dec(r)) }),
{
    let e = enc1(p) + r;
    let n = p.1.len() as int;
    assert(e[0] == p.0 && e[1] == n + 2);
    assert(e.len() >= n + 2);
    assert(e.subrange(2, n + 2) =~= p.1);
    assert(sk(e, n + 2) =~= r);
    assert((e[0], e.subrange(2, e[1] as int)) == p);
}
/// decoding inverts encoding
pub proof fn lemma_dec_enc(s: Seq<P>)
    requires rfits(s),
    ensures dec(enc(s)) == Some(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = sk(s, 1);
        lemma_dec_enc(t);
        lemma_cut1(s[0], enc(t));
        assert(seq![s[0]] + t =~= s);
    } else { assert(s =~= Seq::empty()); }
}
/// encoding inverts decoding (decoding is canonical)
pub proof fn lemma_enc_dec(b: Seq<u8>)
    requires dec(b) is Some,
    ensures enc(dec(b).unwrap()) == b, rfits(dec(b).unwrap()),
    decreases b.len(),
{
    if b.len() > 0 {
        let t = sk(b, b[1] as int);
        lemma_enc_dec(t);
        let h = (b[0], b.subrange(2, b[1] as int));
        let s = dec(b).unwrap();
        assert(s == seq![h] + dec(t).unwrap());
        assert(s[0] == h);
        assert(sk(s, 1) =~= dec(t).unwrap());
        assert(enc1(h) =~= b.subrange(0, b[1] as int));
        assert(b =~= enc1(h) + t);
    } else { assert(b =~= Seq::empty()); }
}
pub broadcast group group_attr { lemma_avs_push, lemma_avs_len, lemma_avs_sk, lemma_pre_pre, lemma_pre_empty, lemma_enc_len, lemma_rfits_b, axiom_md5_len, lemma_md5_ext }

// ------------------------------------------------------------ list operations
pub open spec fn filt(s: Seq<AVP>, t: u8, keep: bool) -> Seq<AVP> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if (s[0].typ == t) == keep { seq![s[0]] + filt(sk(s, 1), t, keep) }
    else { filt(sk(s, 1), t, keep) }
}
/// one element taken out of a list
pub broadcast proof fn lemma_removed(s: Seq<AVP>, i: int)
    requires 0 <= i < s.len(),
    ensures sk(#[trigger] s.remove(i), i) == sk(s, i + 1), s.remove(i).subrange(0, i) == s.subrange(0, i),
{
    assert(sk(s.remove(i), i) =~= sk(s, i + 1));
    assert(s.remove(i).subrange(0, i) =~= s.subrange(0, i));
}
pub open spec fn derefs(s: Seq<&AVP>) -> Seq<AVP> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_derefs_push(s: Seq<&AVP>, x: &AVP)
    ensures #[trigger] derefs(s + seq![x]) == derefs(s) + seq![*x],
{ assert(derefs(s + seq![x]) =~= derefs(s) + seq![*x]); }
pub broadcast proof fn lemma_derefs_len(s: Seq<&AVP>) ensures (#[trigger] derefs(s)).len() == s.len() {}
/// the first attribute of a type
pub open spec fn firsto(s: Seq<AVP>, t: u8) -> Option<AVP> decreases s.len() {
    if s.len() == 0 { None } else if s[0].typ == t { Some(s[0]) } else { firsto(sk(s, 1), t) }
}
/// the head of the filtered list is the first match
pub broadcast proof fn lemma_filt_first(s: Seq<AVP>, t: u8)
    ensures firsto(s, t) == (if (#[trigger] filt(s, t, true)).len() == 0 { None::<AVP> } else { Some(filt(s, t, true)[0]) }),
    decreases s.len(),
{ if s.len() > 0 && s[0].typ != t { lemma_filt_first(sk(s, 1), t); } }
pub open spec fn dopt(o: Option<&AVP>) -> Option<AVP> { match o { Some(a) => Some(*a), None => None } }

// ------------------------------------------------------------ packets
pub open spec fn code_of(b: u8) -> Code {
    if b == 1 { Code::AccessRequest } else if b == 2 { Code::AccessAccept } else if b == 3 { Code::AccessReject }
    else if b == 4 { Code::AccountingRequest } else if b == 5 { Code::AccountingResponse } else if b == 11 { Code::AccessChallenge }
    else if b == 12 { Code::StatusServer } else if b == 13 { Code::StatusClient } else if b == 40 { Code::DisconnectRequest }
    else if b == 41 { Code::DisconnectACK } else if b == 42 { Code::DisconnectNAK } else if b == 43 { Code::CoARequest }
    else if b == 44 { Code::CoAACK } else if b == 45 { Code::CoANAK } else if b == 255 { Code::Reserved } else { Code::Invalid }
}
pub open spec fn byte_of(c: Code) -> u8 {
    match c {
        Code::AccessRequest => 1, Code::AccessAccept => 2, Code::AccessReject => 3, Code::AccountingRequest => 4,
        Code::AccountingResponse => 5, Code::AccessChallenge => 11, Code::StatusServer => 12, Code::StatusClient => 13,
        Code::DisconnectRequest => 40, Code::DisconnectACK => 41, Code::DisconnectNAK => 42, Code::CoARequest => 43,
        Code::CoAACK => 44, Code::CoANAK => 45, Code::Reserved => 255, Code::Invalid => 0,
    }
}
pub open spec fn verbatim(c: Code) -> bool { c == Code::AccessRequest || c == Code::StatusServer }
pub open spec fn zeroed(c: Code) -> bool { c == Code::AccountingRequest || c == Code::DisconnectRequest || c == Code::CoARequest }
pub open spec fn resp(c: Code) -> bool {
    c == Code::AccessAccept || c == Code::AccessReject || c == Code::AccessChallenge || c == Code::AccountingResponse
    || c == Code::DisconnectACK || c == Code::DisconnectNAK || c == Code::CoAACK || c == Code::CoANAK
}
pub open spec fn z16() -> Seq<u8> { seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] }
pub open spec fn head4(c: Code, id: u8, n: nat) -> Seq<u8> { seq![byte_of(c), id] + be16(n as u16) }
/// the authenticator field that must be emitted
pub open spec fn auth_field(c: Code, id: u8, auth: Seq<u8>, secret: Seq<u8>, a: Seq<u8>) -> Seq<u8> {
    if verbatim(c) { auth }
    else if zeroed(c) { md5(head4(c, id, a.len() + 20) + z16() + a + secret) }
    else { md5(head4(c, id, a.len() + 20) + auth + a + secret) }
}
pub open spec fn wire(c: Code, id: u8, auth: Seq<u8>, secret: Seq<u8>, a: Seq<u8>) -> Seq<u8> {
    head4(c, id, a.len() + 20) + auth_field(c, id, auth, secret, a) + a
}
pub open spec fn auth_req(q: Seq<u8>, s: Seq<u8>) -> bool {
    &&& q.len() >= 20 && s.len() > 0
    &&& verbatim(code_of(q[0])) || (zeroed(code_of(q[0])) && q.subrange(4, 20) == md5(q.subrange(0, 4) + z16() + sk(q, 20) + s))
}
pub open spec fn auth_resp(p: Seq<u8>, q: Seq<u8>, s: Seq<u8>) -> bool {
    &&& p.len() >= 20 && q.len() >= 20 && s.len() > 0
    &&& p.subrange(4, 20) == md5(p.subrange(0, 4) + q.subrange(4, 20) + sk(p, 20) + s)
}
pub open spec fn plen(b: Seq<u8>) -> int { vbe16(b.subrange(2, 4)) as int }
/// a byte string is a well-formed RADIUS packet
pub open spec fn wf(b: Seq<u8>) -> bool {
    b.len() >= 20 && 20 <= plen(b) <= 4096 && plen(b) <= b.len() && dec(b.subrange(20, plen(b))) is Some
}

pub open spec fn encodable(c: Code) -> bool { verbatim(c) || zeroed(c) || resp(c) }

// ------------------------------------------------------------ tags
pub open spec fn tagv(t: Option<&Tag>) -> u8 { match t { Some(x) => x.value, None => 0 } }
pub open spec fn tagged_str(t: Option<&Tag>, s: Seq<u8>) -> Seq<u8> { match t { Some(x) => seq![x.value] + s, None => s } }

// ------------------------------------------------------------ password hiding
pub open spec fn mn(a: nat, b: nat) -> nat { if a < b { a } else { b } }
pub open spec fn xorz(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(mn(a.len(), b.len()), |i: int| a[i] ^ b[i]) }
pub open spec fn pad16(p: Seq<u8>) -> Seq<u8> { if p.len() < 16 { p + rep(0u8, 16 - p.len()) } else { p } }
pub open spec fn hid(secret: Seq<u8>, prev: Seq<u8>, p: Seq<u8>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else { let c = xorz(md5(secret + prev), pad16(chunk_head(p, 16))); c + hid(secret, c, sk(p, 16)) }
}
/// RFC 2865 5.2: an empty password is hidden as one block of NULs
pub open spec fn hidden(secret: Seq<u8>, prev: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    if p.len() == 0 { xorz(md5(secret + prev), rep(0u8, 16)) } else { hid(secret, prev, p) }
}
pub open spec fn unh(secret: Seq<u8>, prev: Seq<u8>, c: Seq<u8>) -> Seq<u8> decreases c.len() {
    if c.len() == 0 { Seq::empty() }
    else { let b = chunk_head(c, 16); xorz(md5(secret + prev), b) + unh(secret, b, sk(c, 16)) }
}
pub open spec fn upto(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s[0] == 0 { Seq::empty() } else { seq![s[0]] + upto(sk(s, 1)) }
}
pub broadcast proof fn lemma_xorz_len(a: Seq<u8>, b: Seq<u8>)
    ensures (#[trigger] xorz(a, b)).len() == mn(a.len(), b.len()),
{}
pub broadcast proof fn lemma_xorz_idx(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i < a.len(), i < b.len(),
    ensures #[trigger] xorz(a, b)[i] == a[i] ^ b[i],
{}
pub broadcast proof fn lemma_xorz_comm(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] xorz(a, b) == xorz(b, a),
{
    assert forall|i: int| 0 <= i < xorz(a, b).len() implies xorz(a, b)[i] == xorz(b, a)[i] by {
        let x = a[i]; let y = b[i];
        assert(x ^ y == y ^ x) by (bit_vector);
    }
    assert(xorz(a, b) =~= xorz(b, a));
}
pub proof fn lemma_xorz_inv(a: Seq<u8>, b: Seq<u8>)
    requires a.len() >= b.len(),
    ensures xorz(a, xorz(a, b)) == b,
{
    broadcast use lemma_xorz_len;
    assert forall|i: int| 0 <= i < b.len() implies xorz(a, xorz(a, b))[i] == b[i] by {
        let x = a[i]; let y = b[i];
        assert(x ^ (x ^ y) == y) by (bit_vector);
    }
    assert(xorz(a, xorz(a, b)) =~= b);
}
/// lets the solver compare XOR operands element by element
pub broadcast proof fn lemma_xorz_ext(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    ensures a =~= c && b =~= d ==> #[trigger] xorz(a, b) == #[trigger] xorz(c, d),
{}
/// padding first and hiding afterwards is the same
pub broadcast proof fn lemma_hid_pad(secret: Seq<u8>, prev: Seq<u8>, p: Seq<u8>, k: int)
    requires 0 <= k < 16, (p.len() + k) % 16 == 0,
    ensures #[trigger] hid(secret, prev, p + rep(0u8, k)) == hid(secret, prev, p),
    decreases p.len(),
{
    let q = p + rep(0u8, k);
    if p.len() == 0 { assert(k == 0); assert(q =~= p); }
    else if p.len() < 16 {
        assert(p.len() + k == 16);
        assert(chunk_head(q, 16) =~= q);
        assert(chunk_head(p, 16) =~= p);
        assert(pad16(p) =~= q && pad16(q) =~= q);
        assert(sk(q, 16) =~= sk(p, 16));
    } else {
        assert(chunk_head(q, 16) =~= chunk_head(p, 16));
        assert(sk(q, 16) =~= sk(p, 16) + rep(0u8, k));
        lemma_hid_pad(secret, xorz(md5(secret + prev), pad16(chunk_head(p, 16))), sk(p, 16), k);
    }
}
/// XOR of a prefix in place is XOR with the operand padded by zeros
pub broadcast proof fn lemma_xorz_pad(a: Seq<u8>, p: Seq<u8>, n: int)
    requires 0 <= n <= a.len(), n <= p.len(),
    ensures #[trigger] (xorz(a.subrange(0, n), p.subrange(0, n)) + sk(a, n)) == xorz(a, p.subrange(0, n) + rep(0u8, a.len() - n)),
{
    let l = xorz(a.subrange(0, n), p.subrange(0, n)) + sk(a, n);
    let r = xorz(a, p.subrange(0, n) + rep(0u8, a.len() - n));
    assert(l.len() == a.len() && r.len() == a.len());
    assert forall|i: int| 0 <= i < a.len() implies l[i] == r[i] by { let x = a[i]; assert(x ^ 0u8 == x) by (bit_vector); }
    assert(l =~= r);
}
/// a chunk copied over a block of zeros is the padded chunk (only where something is copied)
pub broadcast proof fn lemma_zero_tail(z: Seq<u8>, p: Seq<u8>, n: int)
    requires z =~= rep(0u8, 16), n == p.len(), n <= 16,
    ensures #[trigger] (z.subrange(0, 0) + p + sk(z, n)) == pad16(p),
{
    assert(z.subrange(0, 0) + p + sk(z, n) =~= pad16(p));
}
/// XOR with zeros changes nothing
pub broadcast proof fn lemma_xorz_zero(a: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] xorz(a, rep(0u8, n)) == a,
{
    assert forall|i: int| 0 <= i < n implies xorz(a, rep(0u8, n))[i] == a[i] by { let x = a[i]; assert(x ^ 0u8 == x) by (bit_vector); }
    assert(xorz(a, rep(0u8, n)) =~= a);
}
pub broadcast group group_pads { lemma_hid_pad, lemma_xorz_pad, lemma_xorz_zero }
pub open spec fn up16(n: int) -> int { ((n + 15) / 16) * 16 }
/// hiding pads to a multiple of 16 and unhiding recovers the padded text
pub proof fn lemma_unhide(secret: Seq<u8>, prev: Seq<u8>, p: Seq<u8>)
    ensures
        hid(secret, prev, p).len() == up16(p.len() as int),
        unh(secret, prev, hid(secret, prev, p)) == p + rep(0u8, up16(p.len() as int) - p.len()),
    decreases p.len(),
{
    broadcast use lemma_xorz_len, axiom_md5_len;
    if p.len() > 0 {
        let q = pad16(chunk_head(p, 16));
        let m = md5(secret + prev);
        let c = xorz(m, q);
        let h = hid(secret, prev, p);
        let t = hid(secret, c, sk(p, 16));
        lemma_unhide(secret, c, sk(p, 16));
        lemma_xorz_inv(m, q);
        assert(c.len() == 16);
        assert(h =~= c + t);
        assert(chunk_head(h, 16) =~= c);
        assert(sk(h, 16) =~= t);
        if p.len() >= 16 {
            assert(q =~= p.subrange(0, 16));
            assert(p =~= q + sk(p, 16));
            assert(up16(p.len() as int) == 16 + up16(p.len() - 16));
            assert(unh(secret, prev, h) =~= p + rep(0u8, up16(p.len() as int) - p.len()));
        } else {
            assert(sk(p, 16).len() == 0);
            assert(up16(p.len() as int) == 16);
            assert(unh(secret, prev, h) =~= p + rep(0u8, up16(p.len() as int) - p.len()));
        }
    } else {
        assert(up16(0) == 0);
        assert(unh(secret, prev, hid(secret, prev, p)) =~= p + rep(0u8, 0));
    }
}
pub proof fn lemma_upto_pad(p: Seq<u8>, n: int)
    requires n >= 0,
    ensures upto(p + rep(0u8, n)) == upto(p),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(sk(p + rep(0u8, n), 1) =~= sk(p, 1) + rep(0u8, n));
        lemma_upto_pad(sk(p, 1), n);
    } else { assert(p + rep(0u8, n) =~= rep(0u8, n)); }
}
pub proof fn lemma_upto_nonul(p: Seq<u8>)
    requires forall|i: int| 0 <= i < p.len() ==> p[i] != 0,
    ensures upto(p) == p,
    decreases p.len(),
{
    if p.len() > 0 {
        assert forall|i: int| 0 <= i < sk(p, 1).len() implies sk(p, 1)[i] != 0 by { assert(p[i + 1] != 0); }
        lemma_upto_nonul(sk(p, 1));
        assert(seq![p[0]] + sk(p, 1) =~= p);
    }
}
pub open spec fn nonul(s: Seq<u8>, n: int) -> bool { forall|j: int| 0 <= j < n && j < s.len() ==> #[trigger] s[j] != 0 }
/// everything before the first NUL
pub broadcast proof fn lemma_upto_all(s: Seq<u8>, n: int)
    requires #[trigger] nonul(s, n), n >= s.len(),
    ensures #[trigger] upto(s) == s,
{
    assert forall|j: int| 0 <= j < s.len() implies s[j] != 0 by { assert(nonul(s, n)); }
    lemma_upto_nonul(s);
}
pub broadcast proof fn lemma_upto_cut(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), nonul(s, n), n < s.len() ==> s[n] == 0,
    ensures #[trigger] upto(s) == #[trigger] s.subrange(0, n),
    decreases n,
{
    if n > 0 {
        assert forall|j: int| 0 <= j < n - 1 && j < sk(s, 1).len() implies #[trigger] sk(s, 1)[j] != 0 by { assert(s[j + 1] != 0); }
        lemma_upto_cut(sk(s, 1), n - 1);
        assert(s[0] != 0);
        assert(seq![s[0]] + sk(s, 1).subrange(0, n - 1) =~= s.subrange(0, n));
    } else { assert(s.subrange(0, 0) =~= Seq::empty()); }
}
/// header of a hidden tunnel password: tag octet and salt with the top bit set
pub open spec fn tphdr(s: Seq<u8>, t: u8) -> bool { s.len() >= 3 && s[0] == t && s[1] >= 0x80 }
pub open spec fn tpsalt(s: Seq<u8>) -> Seq<u8> { s.subrange(1, 3) }

// ------------------------------------------------------------ dictionary accessors
pub open spec fn goodpw(secret: Seq<u8>, auth: Seq<u8>) -> bool { secret.len() > 0 && auth.len() == 16 }
pub open spec fn ok_tagint(v: Seq<u8>) -> bool { v.len() == 5 && v[0] <= 0x1f }
pub open spec fn val_tagint(v: Seq<u8>, x: u32, t: Tag) -> bool { x == vbe32(sk(v, 1)) && t.value == v[0] }
pub open spec fn ok_tagstr(v: Seq<u8>) -> bool {
    v.len() > 0 && v[0] != 0 && (if v[0] <= 0x1f { valid_utf8(sk(v, 1)) } else { valid_utf8(v) })
}
pub open spec fn val_tagstr(v: Seq<u8>, s: Seq<char>, t: Option<Tag>) -> bool {
    if v[0] <= 0x1f { sbytes(s) == sk(v, 1) && t is Some && t.unwrap().value == v[0] } else { sbytes(s) == v && t is None }
}
pub open spec fn ok_tunnel(v: Seq<u8>) -> bool { 19 <= v.len() <= 243 && (v.len() - 3) % 16 == 0 && v[1] >= 0x80 }
pub open spec fn val_tunnel(secret: Seq<u8>, auth: Seq<u8>, v: Seq<u8>, x: Seq<u8>, t: Tag) -> bool {
    t.value == v[0] && x == upto(unh(secret, auth + v.subrange(1, 3), sk(v, 3)))
}
pub open spec fn hid_tunnel(secret: Seq<u8>, auth: Seq<u8>, t: u8, plain: Seq<u8>, v: Seq<u8>) -> bool {
    v.len() >= 3 && v[0] == t && v[1] >= 0x80 && sk(v, 3) == hidden(secret, auth + v.subrange(1, 3), plain)
}
/// one attribute of type t was put at the end
pub open spec fn added(o: Seq<P>, n: Seq<P>, t: u8) -> bool {
    n.len() == o.len() + 1 && n.subrange(0, o.len() as int) == o && n.last().0 == t
}
/// an over-long value, cut into attributes of at most 253 octets
pub open spec fn pieces(t: u8, b: Seq<u8>) -> Seq<P> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else { seq![(t, chunk_head(b, 253))] + pieces(t, sk(b, 253)) }
}
pub open spec fn cat(s: Seq<AVP>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { s[0].value@ + cat(sk(s, 1)) }
}
pub open spec fn pcat(s: Seq<P>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { s[0].1 + pcat(sk(s, 1)) }
}
pub broadcast proof fn lemma_avs_add(a: Seq<AVP>, b: Seq<AVP>)
    ensures #[trigger] avs(a + b) == avs(a) + avs(b),
{ assert(avs(a + b) =~= avs(a) + avs(b)); }
pub broadcast proof fn lemma_avs_push2(a: Seq<AVP>, x: AVP)
    ensures #[trigger] avs(a.push(x)) == avs(a).push(av(x)),
{ assert(avs(a.push(x)) =~= avs(a).push(av(x))); }
pub broadcast proof fn lemma_derefs_sk(s: Seq<&AVP>, k: int)
    requires 0 <= k,
    ensures derefs(#[trigger] sk(s, k)) == sk(derefs(s), k),
{ assert(derefs(sk(s, k)) =~= sk(derefs(s), k)); }
/// the first attribute of a type is the first of all of that type
pub broadcast proof fn lemma_firsto_filt(s: Seq<AVP>, t: u8)
    ensures
        (#[trigger] filt(s, t, true)).len() == 0 <==> firsto(s, t) is None,
        filt(s, t, true).len() > 0 ==> firsto(s, t) == Some(filt(s, t, true)[0]),
    decreases s.len(),
{ if s.len() > 0 { lemma_firsto_filt(sk(s, 1), t); } }
/// what a walk over f has still to visit after n elements
pub open spec fn todo(rest: Seq<&AVP>, f: Seq<AVP>, n: int) -> bool {
    0 <= n && rest.len() + n == f.len() && forall|i: int| 0 <= i < rest.len() ==> *(#[trigger] rest[i]) == f[n + i]
}
pub broadcast proof fn lemma_derefs_idx(s: Seq<&AVP>, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger derefs(s), s[i]] derefs(s)[i] == *s[i],
{}
pub broadcast group group_dict { lemma_derefs_idx,  lemma_avs_add, lemma_avs_push2, lemma_derefs_sk, lemma_firsto_filt }
pub broadcast group group_list { lemma_removed, lemma_derefs_push, lemma_derefs_len }
pub broadcast group group_pw { lemma_xorz_len, lemma_xorz_idx, lemma_xorz_comm, axiom_md5_len, lemma_upto_cut, lemma_upto_all }
} // verus!
/// proofs done without the rewriting lemmas
pub mod plain {
use vstd::prelude::*;
use crate::vx::*;
use crate::vs::*;
verus! {
/// the pieces put together are the value again, and each fits into an attribute
/// what hiding produces and what recovering it gives
pub proof fn lemma_hidden(secret: Seq<u8>, prev: Seq<u8>, p: Seq<u8>)
    ensures
        hidden(secret, prev, p).len() == (if p.len() == 0 { 16 } else { up16(p.len() as int) }),
        upto(unh(secret, prev, hidden(secret, prev, p))) == upto(p),
{
    broadcast use {lemma_xorz_len, axiom_md5_len};
    if p.len() == 0 {
        let m = md5(secret + prev);
        let z = rep(0u8, 16);
        let c = xorz(m, z);
        lemma_xorz_inv(m, z);
        assert(chunk_head(c, 16) =~= c);
        assert(sk(c, 16).len() == 0);
        assert(unh(secret, c, sk(c, 16)) =~= Seq::empty());
        assert(unh(secret, prev, c) =~= z);
        lemma_upto_pad(p, 16);
        assert(p + z =~= z);
    } else {
        lemma_unhide(secret, prev, p);
        lemma_upto_pad(p, up16(p.len() as int) - p.len());
    }
}
pub proof fn lemma_pieces(t: u8, b: Seq<u8>)
    ensures pcat(pieces(t, b)) == b, rfits(pieces(t, b)), pieces(t, b).len() == 0 <==> b.len() == 0,
    decreases b.len(),
{
    if b.len() > 0 {
        let h = (t, chunk_head(b, 253));
        let r = pieces(t, sk(b, 253));
        let w = seq![h] + r;
        lemma_pieces(t, sk(b, 253));
        assert(w[0] == h);
        assert(sk(w, 1) =~= r);
        assert(chunk_head(b, 253) + sk(b, 253) =~= b);
    }
}
} // verus!
}
