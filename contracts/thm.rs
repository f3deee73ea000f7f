// Theorems ("crate::thm"): the property statements as whole-library consequences of
// the contracts.  Each function below is a client of the library; it is verified
// against the contracts only, so what it asserts follows from them for every input.
// The name starts with the property it belongs to.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vx::*;
use crate::vs::*;
use crate::core::avp::*;
use crate::core::code::Code;
use crate::core::packet::*;
use crate::core::tag::Tag;
use crate::core::vsa::*;
use crate::core::request::Request;
use crate::ext::std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
use crate::ext::chrono::{DateTime, Utc};
verus! {
broadcast use {vstd::group_vstd_default, group_sk, group_cut, group_attr, group_pw, group_be, group_list, group_dict};

pub open spec fn nof0(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }

// ---------------------------------------------------------------- C01, C16
/// nothing but well-formedness decides, and the secret has no influence
pub fn c01_secret_irrelevant(b: &[u8], s: &[u8], t: &[u8]) {
    let x = Packet::decode(b, s);
    let y = Packet::decode(b, t);
    assert(x is Ok == y is Ok);
    if let (Ok(p), Ok(q)) = (x, y) {
        assert(p.code == q.code && p.identifier == q.identifier && p.authenticator@ == q.authenticator@);
        assert(avs(p.attributes.0@) == avs(q.attributes.0@));
    }
}
/// bytes after the length given in the header do not matter
pub fn c01_padding_irrelevant(b: &[u8], c: &[u8], s: &[u8])
    requires b@.len() >= 20, 20 <= plen(b@) <= b@.len(), c@ == b@.subrange(0, plen(b@)),
{
    let x = Packet::decode(b, s);
    let y = Packet::decode(c, s);
    assert(c@.subrange(2, 4) =~= b@.subrange(2, 4));
    assert(c@.subrange(20, plen(b@)) =~= b@.subrange(20, plen(b@)));
    assert(x is Ok == y is Ok);
    if let (Ok(p), Ok(q)) = (x, y) {
        assert(c@.subrange(4, 20) =~= b@.subrange(4, 20));
        assert(p.code == q.code && p.identifier == q.identifier && p.authenticator@ == q.authenticator@ && avs(p.attributes.0@) == avs(q.attributes.0@));
    }
}

// ---------------------------------------------------------------- C02
/// what is emitted is never longer than 4096 octets, says so itself, and is well formed
pub fn c02_well_formed(p: &Packet)
    requires p.authenticator@.len() == 16,
{
    if let Ok(b) = p.encode() {
        proof { crate::thm::plain::lemma_sent(b@, p.code, p.identifier, avs(p.attributes.0@)); }
        assert(20 <= b@.len() <= 4096 && plen(b@) == b@.len() && wf(b@));
        assert(b@[0] == byte_of(p.code) && b@[1] == p.identifier);
    }
}

// ---------------------------------------------------------------- C03
/// encoding and then decoding with the same secret returns the same packet
pub fn c03_round_trip(p: &Packet)
    requires p.authenticator@.len() == 16,
{
    if let Ok(b) = p.encode() {
        proof { crate::thm::plain::lemma_sent(b@, p.code, p.identifier, avs(p.attributes.0@)); }
        let r = Packet::decode(b.as_slice(), p.secret.as_slice());
        assert(r is Ok);
        if let Ok(q) = r {
            assert(q.code == p.code && q.identifier == p.identifier && q.secret@ == p.secret@);
            assert(avs(q.attributes.0@) == avs(p.attributes.0@));
            assert(verbatim(p.code) ==> q.authenticator@ =~= p.authenticator@);
        }
    }
}
/// re-encoding the attributes of a decoded packet reproduces the octets they came from
pub fn c03_canonical(b: &[u8], s: &[u8]) {
    if let Ok(p) = Packet::decode(b, s) {
        proof {
            lemma_enc_dec(b@.subrange(20, plen(b@)));
            assert(p.authenticator@.len() == 16);
        }
        if let Ok(c) = p.encode() {
            assert(sk(c@, 20) == b@.subrange(20, plen(b@)));
            assert(c@.len() == plen(b@));
            proof { crate::thm::plain::lemma_head(b@, p.code, p.identifier); }
            // packets whose authenticator is sent verbatim come out octet for octet
            assert(verbatim(p.code) ==> c@ =~= b@.subrange(0, plen(b@))) by {
                if verbatim(p.code) {
                    assert(c@.subrange(0, 4) == b@.subrange(0, 4));
                    crate::thm::plain::lemma_three(c@, b@, plen(b@));
                }
            }
        } else {
            assert(!encodable(p.code));
        }
    }
}

// ---------------------------------------------------------------- C04
/// every request that can be encoded passes the library's own verification
pub fn c04_requests_verify(p: &Packet)
    requires p.authenticator@.len() == 16, p.secret@.len() > 0, verbatim(p.code) || zeroed(p.code),
{
    if let Ok(b) = p.encode() {
        let ok = Packet::is_authentic_request(b.as_slice(), p.secret.as_slice());
        assert(b@[0] == byte_of(p.code)) by { assert(b@.subrange(0, 4)[0] == b@[0]); }
        assert(code_of(b@[0]) == p.code);
        assert(b@.subrange(0, 4) == head4(p.code, p.identifier, b@.len()));
        assert(ok);
    }
}
/// every response made from a received request verifies against that request
pub fn c04_responses_verify(req: &[u8], s: &[u8], c: Code, more: Vec<AVP>)
    requires s@.len() > 0, resp(c),
{
    if let Ok(q) = Packet::decode(req, s) {
        let mut r = q.make_response_packet(c);
        r.vx_extend(more);
        assert(q.authenticator@.len() == 16);
        if let Ok(b) = r.encode() {
            let ok = Packet::is_authentic_response(b.as_slice(), req, s);
            assert(b@.subrange(0, 4) == head4(c, q.identifier, b@.len()));
            assert(ok);
        }
    }
}

// ---------------------------------------------------------------- C05
/// no secret, no authenticity; and too short means not authentic
pub fn c05_refuses(q: &[u8], p: &[u8], s: &[u8])
    requires s@.len() == 0 || q@.len() < 20,
{
    let a = Packet::is_authentic_request(q, s);
    let b = Packet::is_authentic_response(p, q, s);
    assert(!a && !b);
}

// ---------------------------------------------------------------- C06
pub fn c06_lists(p: &mut Packet, a: AVP, t: u8)
    requires t != a.typ,
{
    let ghost o = old(p).attributes.0@;
    let ghost w = a;
    let d = a.typ;
    p.add(a);
    proof { crate::thm::plain::lemma_filt_push(o, w, w.typ, true); crate::thm::plain::lemma_filt_push(o, w, t, true); }
    // looking a type up sees exactly the added attribute, at the end
    assert(filt(p.attributes.0@, w.typ, true) == filt(o, w.typ, true).push(w));
    assert(filt(p.attributes.0@, t, true) == filt(o, t, true));
    let ghost m = p.attributes.0@;
    p.delete(d);
    proof { crate::thm::plain::lemma_filt_drop(m, w.typ, w.typ); crate::thm::plain::lemma_filt_drop(m, w.typ, t); }
    // deleting a type leaves none of it and all of the others
    assert(filt(p.attributes.0@, w.typ, true).len() == 0);
    assert(filt(p.attributes.0@, t, true) == filt(m, t, true));
    let l = p.lookup(d);
    assert(l is None);
    let all = p.lookup_all(t);
    assert(derefs(all@) == filt(o, t, true));
}
pub fn c06_first_is_first_of_all(p: &Packet, t: u8) {
    let a = p.lookup(t);
    let l = p.lookup_all(t);
    assert(a is None <==> l@.len() == 0);
    if l.len() > 0 { assert(*a.unwrap() == *l@[0]); }
}

// ---------------------------------------------------------------- C07
pub fn c07_u32(t: u8, v: u32) { let r = AVP::from_u32(t, v).encode_u32(); assert(r is Ok && r->Ok_0 == v); }
pub fn c07_u16(t: u8, v: u16) { let r = AVP::from_u16(t, v).encode_u16(); assert(r is Ok && r->Ok_0 == v); }
pub fn c07_ipv4(t: u8, v: &Ipv4Addr) { let r = AVP::from_ipv4(t, v).encode_ipv4(); assert(r is Ok && r->Ok_0.o@ =~= v.o@); }
pub fn c07_ipv6(t: u8, v: &Ipv6Addr) { let r = AVP::from_ipv6(t, v).encode_ipv6(); assert(r is Ok && r->Ok_0.o@ =~= v.o@); }
pub fn c07_bytes(t: u8, v: &[u8]) { let r = AVP::from_bytes(t, v).encode_bytes(); assert(r@ == v@); }
pub fn c07_string(t: u8, v: &str) {
    let a = AVP::from_string(t, v);
    proof { encode_utf8_valid_utf8(v@); }
    let r = a.encode_string();
    assert(r is Ok);
    proof { encode_utf8_decode_utf8(v@); encode_utf8_decode_utf8(r->Ok_0@); }
    assert(r->Ok_0@ == v@);
}
pub fn c07_date(t: u8, v: &DateTime<Utc>)
    requires 0 <= v.secs <= 0xffff_ffff,
{
    let r = AVP::from_date(t, v).encode_date();
    assert(r is Ok && r->Ok_0.secs == v.secs);
}

// ---------------------------------------------------------------- C08
pub fn c08_integer(t: u8, tag: Option<&Tag>, v: u32)
    requires tagv(tag) <= 0x1f,
{
    let r = AVP::from_tagged_u32(t, tag, v).encode_tagged_u32();
    assert(r is Ok && r->Ok_0.1.value == tagv(tag));
    assert(sk(seq![tagv(tag)] + be32(v), 1) =~= be32(v));
    assert(r->Ok_0.0 == v);
}
pub fn c08_string(t: u8, tag: &Tag, v: &str)
    requires 1 <= tag.value <= 0x1f,
{
    let a = AVP::from_tagged_string(t, Some(tag), v);
    proof {
        encode_utf8_valid_utf8(v@); encode_utf8_decode_utf8(v@);
        assert(sk(a.value@, 1) =~= sbytes(v@));
    }
    let r = a.encode_tagged_string();
    assert(r is Ok);
    proof { encode_utf8_decode_utf8(r->Ok_0.0@); }
    assert(r->Ok_0.0@ == v@ && r->Ok_0.1.unwrap().value == tag.value);
}
pub fn c08_untagged_string(t: u8, v: &str)
    requires sbytes(v@).len() > 0, sbytes(v@)[0] > 0x1f,
{
    let a = AVP::from_tagged_string(t, None, v);
    proof { encode_utf8_valid_utf8(v@); encode_utf8_decode_utf8(v@); }
    let r = a.encode_tagged_string();
    assert(r is Ok);
    proof { encode_utf8_decode_utf8(r->Ok_0.0@); }
    assert(r->Ok_0.0@ == v@ && r->Ok_0.1 is None);
}

// ---------------------------------------------------------------- C09
/// hiding is undone: the password comes back up to its first NUL, so exactly when it has none
pub fn c09_undone(t: u8, plain: &[u8], s: &[u8], ra: &[u8])
    requires plain@.len() <= 128, s@.len() > 0, ra@.len() == 16,
{
    let a = AVP::from_user_password(t, plain, s, ra);
    assert(a is Ok);
    if let Ok(a) = a {
        proof { crate::vs::plain::lemma_hidden(s@, ra@, plain@); }
        assert(16 <= a.value@.len() <= 128 && a.value@.len() % 16 == 0);
        let r = a.encode_user_password(s, ra);
        assert(r is Ok && r->Ok_0@ == upto(plain@));
        proof { if nof0(plain@) { lemma_upto_nonul(plain@); } }
        assert(nof0(plain@) ==> r->Ok_0@ == plain@);
    }
}
// ---------------------------------------------------------------- C10
pub fn c10_undone(t: u8, tag: Option<&Tag>, plain: &[u8], s: &[u8], ra: &[u8])
    requires plain@.len() <= 240, s@.len() > 0, ra@.len() == 16,
{
    let a = AVP::from_tunnel_password(t, tag, plain, s, ra);
    assert(a is Ok);
    if let Ok(a) = a {
        proof { crate::vs::plain::lemma_hidden(s@, ra@ + a.value@.subrange(1, 3), plain@); }
        assert(sk(a.value@, 3).len() == a.value@.len() - 3);
        assert(19 <= a.value@.len() <= 243 && (a.value@.len() - 3) % 16 == 0);
        let r = a.encode_tunnel_password(s, ra);
        assert(r is Ok && r->Ok_0.0@ == upto(plain@) && r->Ok_0.1.value == tagv(tag));
        proof { if nof0(plain@) { lemma_upto_nonul(plain@); } }
        assert(nof0(plain@) ==> r->Ok_0.0@ == plain@);
    }
}
// ---------------------------------------------------------------- C11
pub fn c11_ipv4(t: u8, v: &[u8]) requires v@.len() == 4 {
    let a = AVP::from_ipv4_prefix(t, v);
    assert(a is Ok);
    if let Ok(a) = a { let r = a.encode_ipv4_prefix(); assert(r is Ok && r->Ok_0@ =~= v@); }
}
pub fn c11_ipv6(t: u8, v: &[u8]) requires v@.len() <= 16 {
    let a = AVP::from_ipv6_prefix(t, v);
    assert(a is Ok);
    if let Ok(a) = a { let r = a.encode_ipv6_prefix(); assert(a.value@.len() == 2 + v@.len() && a.value@[1] == 8 * v@.len()); assert(r is Ok && r->Ok_0@ =~= v@); }
}
// ---------------------------------------------------------------- C12
pub fn c12_layout(id: i32, ty: u8, v: &str)
    requires sbytes(v@).len() + 2 <= 255,
{
    let a = StringVSA::new(id, ty, v);
    let m = a.message();
    let n = a.len();
    assert(m@ =~= be32(id as u32) + seq![ty, (2 + sbytes(v@).len()) as u8] + sbytes(v@));
    assert(n == 2 + sbytes(v@).len() && m@.len() == 4 + n);
}
pub fn c12_layout_tagged(id: i32, ty: u8, tag: u8, v: &str)
    requires sbytes(v@).len() + 3 <= 255,
{
    let a = TaggedStringVSA::new(id, ty, tag, v);
    let m = a.message();
    let n = a.len();
    assert(m@ =~= be32(id as u32) + seq![ty, (3 + sbytes(v@).len()) as u8, tag] + sbytes(v@));
    assert(n == 3 + sbytes(v@).len() && m@.len() == 4 + n);
}
// ---------------------------------------------------------------- C17
pub fn c17_request_carries_what_it_was_given(l: SocketAddr, r: SocketAddr, p: Packet) {
    let ghost w = p;
    let q = Request::new(l, r, p);
    let a = q.get_local_addr();
    let b = q.get_remote_addr();
    let c = q.get_packet();
    assert(a == l && b == r && *c == w);
}
// ---------------------------------------------------------------- C20
pub fn c20_new(c: Code, s: &[u8], id: u8, other: u8) {
    let p = Packet::new(c, s);
    assert(p.code == c && p.secret@ == s@ && p.authenticator@.len() == 16 && p.attributes.0@.len() == 0);
    let mut q = Packet::new_with_identifier(c, s, id);
    let i = q.get_identifier();
    assert(i == id);
    let ghost w = q;
    q.set_identifier(other);
    assert(q.identifier == other && q.code == w.code && q.secret == w.secret && q.authenticator == w.authenticator && q.attributes == w.attributes);
    let r = q.make_response_packet(Code::AccessReject);
    assert(r.code == Code::AccessReject && r.identifier == other && r.authenticator@ == q.authenticator@ && r.secret@ == s@ && r.attributes.0@.len() == 0);
}
// ---------------------------------------------------------------- C21
pub fn c21_inverse(v: u8, c: Code) {
    let x = Code::from(v);
    assert(byte_of(x) == v || x == Code::Invalid);
    let y = Code::from(2);
    assert(y == Code::AccessAccept);
    assert(code_of(byte_of(c)) == c);
}
// ---------------------------------------------------------------- C23
/// the contracts determine the outcome: two implementations that meet them (one per back end)
/// cannot be told apart
pub fn c23_encode(p: &Packet) requires p.authenticator@.len() == 16 {
    let a = p.encode();
    let b = p.encode();
    assert(a is Ok == b is Ok);
    if let (Ok(x), Ok(y)) = (a, b) { proof { crate::thm::plain::lemma_three(x@, y@, x@.len() as int); assert(x@ =~= y@); } }
}
pub fn c23_hide(t: u8, plain: &[u8], s: &[u8], ra: &[u8]) {
    let a = AVP::from_user_password(t, plain, s, ra);
    let b = AVP::from_user_password(t, plain, s, ra);
    assert(a is Ok == b is Ok);
    if let (Ok(x), Ok(y)) = (a, b) { assert(av(x) == av(y)); }
}
pub fn c23_tunnel(t: u8, tag: Option<&Tag>, plain: &[u8], s: &[u8], ra: &[u8]) {
    let a = AVP::from_tunnel_password(t, tag, plain, s, ra);
    let b = AVP::from_tunnel_password(t, tag, plain, s, ra);
    assert(a is Ok == b is Ok);
    // for the same salt
    if let (Ok(x), Ok(y)) = (a, b) {
        proof {
            if x.value@.subrange(1, 3) == y.value@.subrange(1, 3) {
                assert(sk(x.value@, 3) == sk(y.value@, 3));
                crate::thm::plain::lemma_head3(x.value@, y.value@);
                assert(av(x) == av(y));
            }
        }
    }
}
pub fn c23_recover(a: &AVP, s: &[u8], ra: &[u8]) {
    let x = a.encode_user_password(s, ra);
    let y = a.encode_user_password(s, ra);
    assert(x is Ok == y is Ok && (x is Ok ==> x->Ok_0@ == y->Ok_0@));
    let x = a.encode_tunnel_password(s, ra);
    let y = a.encode_tunnel_password(s, ra);
    assert(x is Ok == y is Ok && (x is Ok ==> x->Ok_0.0@ == y->Ok_0.0@ && x->Ok_0.1 == y->Ok_0.1));
}
pub fn c23_verify(p: &[u8], q: &[u8], s: &[u8]) {
    let a = Packet::is_authentic_response(p, q, s);
    let b = Packet::is_authentic_response(p, q, s);
    assert(a == b);
    let a = Packet::is_authentic_request(q, s);
    let b = Packet::is_authentic_request(q, s);
    assert(a == b);
}
} // verus!
pub mod plain {
use vstd::prelude::*;
use crate::vx::*;
use crate::vs::*;
use crate::core::avp::AVP;
use crate::core::code::Code;
verus! {
/// what encode promises about its octets makes them a well-formed packet with those attributes
pub proof fn lemma_sent(b: Seq<u8>, c: Code, id: u8, s: Seq<P>)
    requires fits(s), b.len() == 20 + esz(s), b.len() <= 4096, b.subrange(0, 4) == head4(c, id, b.len()), sk(b, 20) == enc(s),
    ensures wf(b), plen(b) == b.len(), dec(b.subrange(20, plen(b))) == Some(s), b[0] == byte_of(c), b[1] == id, code_of(b[0]) == c,
        b.subrange(20, plen(b)) == enc(s),
{
    broadcast use {lemma_enc_len, lemma_be16};
    lemma_rfits(s);
    lemma_dec_enc(s);
    let h = head4(c, id, b.len());
    assert(h.len() == 4);
    assert(b.subrange(0, 4)[0] == b[0] && b.subrange(0, 4)[1] == b[1]);
    assert(h[0] == byte_of(c) && h[1] == id);
    assert(b.subrange(2, 4) =~= be16(b.len() as u16)) by {
        assert(b[2] == b.subrange(0, 4)[2] && b[3] == b.subrange(0, 4)[3]);
        assert(h[2] == be16(b.len() as u16)[0] && h[3] == be16(b.len() as u16)[1]);
    }
    assert(vbe16(be16(b.len() as u16)) == b.len() as u16);
    assert(b.subrange(20, b.len() as int) =~= sk(b, 20));
}
/// the header of a well-formed packet with a known code
pub proof fn lemma_head(b: Seq<u8>, c: Code, id: u8)
    requires wf(b), c == code_of(b[0]), id == b[1],
    ensures c != Code::Invalid ==> b.subrange(0, 4) == head4(c, id, plen(b) as nat),
{
    broadcast use lemma_vbe16;
    if c != Code::Invalid {
        assert(byte_of(c) == b[0]);
        let h = head4(c, id, plen(b) as nat);
        assert(be16(vbe16(b.subrange(2, 4))) == b.subrange(2, 4));
        assert(h[2] == b.subrange(2, 4)[0] && h[3] == b.subrange(2, 4)[1]);
        assert(b.subrange(0, 4) =~= h);
    }
}
pub proof fn lemma_three(c: Seq<u8>, b: Seq<u8>, n: int)
    requires 20 <= n <= b.len(), c.len() == n, c.subrange(0, 4) == b.subrange(0, 4), c.subrange(4, 20) == b.subrange(4, 20), sk(c, 20) == b.subrange(20, n),
    ensures c == b.subrange(0, n),
{
    broadcast use group_sk;
    assert forall|i: int| 0 <= i < n implies c[i] == b.subrange(0, n)[i] by {
        let d = b.subrange(0, n);
        assert(d[i] == b[i]);
        if i < 4 { assert(c.subrange(0, 4)[i] == c[i]); assert(b.subrange(0, 4)[i] == b[i]); assert(c[i] == b[i]); }
        else if i < 20 { let j = i - 4; assert(c.subrange(4, 20)[j] == c[j + 4]); assert(b.subrange(4, 20)[j] == b[j + 4]); assert(c[i] == b[i]); }
        else { let j = i - 20; assert(sk(c, 20)[j] == c[j + 20]); assert(b.subrange(20, n)[j] == b[j + 20]); assert(c[i] == b[i]); }
    }
    assert(c =~= b.subrange(0, n));
}
pub proof fn lemma_head3(a: Seq<u8>, b: Seq<u8>)
    requires a.len() >= 3, b.len() >= 3, a[0] == b[0], a.subrange(1, 3) == b.subrange(1, 3), sk(a, 3) == sk(b, 3),
    ensures a == b,
{
    broadcast use group_sk;
    assert(sk(a, 3).len() == a.len() - 3 && sk(b, 3).len() == b.len() - 3);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if 1 <= i < 3 { let j = i - 1; assert(a.subrange(1, 3)[j] == a[j + 1]); assert(b.subrange(1, 3)[j] == b[j + 1]); assert(a[i] == b[i]); }
        else if i >= 3 { let j = i - 3; assert(sk(a, 3)[j] == a[j + 3]); assert(sk(b, 3)[j] == b[j + 3]); assert(a[i] == b[i]); }
    }
    assert(a =~= b);
}
pub proof fn lemma_filt_push(s: Seq<AVP>, x: AVP, t: u8, k: bool)
    ensures filt(s.push(x), t, k) == (if (x.typ == t) == k { filt(s, t, k).push(x) } else { filt(s, t, k) }),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_filt_push(sk(s, 1), x, t, k);
        assert(sk(s.push(x), 1) =~= sk(s, 1).push(x));
        let r = filt(sk(s, 1), t, k);
        assert(s.push(x)[0] == s[0]);
        assert(seq![s[0]] + r.push(x) =~= (seq![s[0]] + r).push(x));
    } else {
        assert(sk(s.push(x), 1) =~= Seq::empty());
        assert(filt(sk(s.push(x), 1), t, k) =~= Seq::empty());
        assert(seq![x] + Seq::<AVP>::empty() =~= Seq::<AVP>::empty().push(x));
        assert(filt(s, t, k) =~= Seq::empty());
    }
}
/// deleting type d: nothing of d is left, everything of another type is
pub proof fn lemma_filt_drop(s: Seq<AVP>, d: u8, t: u8)
    ensures filt(filt(s, d, false), t, true) == (if t == d { Seq::empty() } else { filt(s, t, true) }),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = sk(s, 1);
        lemma_filt_drop(r, d, t);
        if s[0].typ != d {
            let q = seq![s[0]] + filt(r, d, false);
            assert(q[0] == s[0]);
            assert(sk(q, 1) =~= filt(r, d, false));
        }
    }
}
} // verus!
}
