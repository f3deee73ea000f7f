// Ghost ledgers ("crate::gh"): what the outside world has seen of one server task
// or one client call.  Only the assumed contracts in ext.rs update them.
use vstd::prelude::*;
use crate::vx::*;
use crate::vs::*;
use crate::core::request::Request;
use crate::core::packet::Packet;
use crate::ext::std::net::SocketAddr;
use crate::ext::std::time::Duration;
verus! {
/// the identity under which a request in progress is known: sender (with port) and identifier
pub type KV = (Seq<char>, u8);
pub open spec fn akey(a: SocketAddr, id: u8) -> KV { (str_of(&a), id) }
pub trait VxKey { spec fn kv(&self) -> KV; }
impl VxKey for (String, u8) { open spec fn kv(&self) -> KV { (self.0@, self.1) } }
impl VxKey for (SocketAddr, u8) { open spec fn kv(&self) -> KV { akey(self.0, self.1) } }
pub trait VxKeyPart { spec fn kp(&self) -> Seq<char>; }
impl VxKeyPart for String { open spec fn kp(&self) -> Seq<char> { self@ } }
impl VxKeyPart for SocketAddr { open spec fn kp(&self) -> Seq<char> { str_of(self) } }

pub tracked struct Led {
    /// the in-flight set this server shares between its tasks
    pub ghost lock: int,
    /// is authenticity validation switched off
    pub ghost skip: bool,
    /// the datagram received and not yet processed
    pub ghost got: Option<(Seq<u8>, SocketAddr)>,
    pub ghost local: SocketAddr,
    /// answers of the secret provider for the current datagram
    pub ghost asked: Seq<(SocketAddr, Option<Seq<u8>>)>,
    /// keys this task put into the shared set and has not removed
    pub ghost owned: Set<KV>,
    /// keys found in the shared set by this task (put there by another one)
    pub ghost busy: Set<KV>,
    /// number of handler invocations for the current datagram
    pub ghost calls: int,
    /// running in a task of its own, apart from the receiving loop
    pub ghost task: bool,
    /// receiving failed, the only reason to stop
    pub ghost stopped: bool,
}
/// the provider's answer for the current datagram
pub open spec fn answer(l: Led) -> Option<Seq<u8>> { if l.asked.len() > 0 { l.asked.last().1 } else { None } }
/// the conditions under which the current datagram goes to the handler
pub open spec fn gate(l: Led) -> bool {
    &&& l.got is Some && l.asked.len() > 0 && l.asked.last().0 == l.got.unwrap().1
    &&& answer(l) matches Some(s) && s.len() > 0 && (l.skip || auth_req(l.got.unwrap().0, s))
    &&& wf(l.got.unwrap().0)
}
/// the key of the current datagram
pub open spec fn gotkey(l: Led) -> KV { akey(l.got.unwrap().1, l.got.unwrap().0[1]) }
/// nothing of a previous datagram is left over
pub open spec fn fresh(l: Led) -> bool { l.asked.len() == 0 && l.owned =~= Set::<KV>::empty() && l.busy =~= Set::<KV>::empty() && l.calls == 0 }
/// the current datagram was dealt with
pub open spec fn served(l: Led) -> bool {
    &&& l.owned =~= Set::<KV>::empty()
    &&& l.calls <= 1
    &&& l.got is Some ==> l.asked.len() > 0 && (gate(l) && !l.busy.contains(gotkey(l)) ==> l.calls == 1)
}
/// what a handler invocation needs: this is the whole of the acceptance rule
pub open spec fn may_handle(l: Led, r: Request) -> bool {
    &&& gate(l) && l.calls == 0
    &&& l.owned.contains(gotkey(l)) && !l.busy.contains(gotkey(l))
    &&& r.remote_addr == l.got.unwrap().1 && r.local_addr == l.local
    &&& is_decoding(r.packet, l.got.unwrap().0, answer(l).unwrap())
}
#[verifier::external_body]
pub fn vx_task_begin(Tracked(led): Tracked<&mut Led>) ensures *final(led) == (Led { task: true, ..*old(led) }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_task_end(Tracked(led): Tracked<&mut Led>) ensures *final(led) == (Led { task: false, ..*old(led) }) { unimplemented!() }
pub open spec fn led_same(a: Led, b: Led) -> bool { a.lock == b.lock && a.skip == b.skip && a.local == b.local }

/// p is what decoding b with secret s gives
pub open spec fn is_decoding(p: Packet, b: Seq<u8>, s: Seq<u8>) -> bool {
    &&& wf(b)
    &&& p.code == code_of(b[0]) && p.identifier == b[1] && p.authenticator@ == b.subrange(4, 20) && p.secret@ == s
    &&& dec(b.subrange(20, plen(b))) == Some(avs(p.attributes.0@))
}
/// b is what encoding p gives
pub open spec fn is_encoding(b: Seq<u8>, p: Packet) -> bool {
    &&& b.len() == 20 + esz(avs(p.attributes.0@)) && b.len() <= 4096
    &&& b.subrange(0, 4) =~= head4(p.code, p.identifier, b.len())
    &&& sk(b, 20) =~= enc(avs(p.attributes.0@))
    &&& b.subrange(4, 20) =~= auth_field(p.code, p.identifier, p.authenticator@, p.secret@, enc(avs(p.attributes.0@)))
}
pub tracked struct Net {
    pub ghost sent: Seq<(Seq<u8>, SocketAddr)>,
    pub ghost peer: Option<SocketAddr>,
    pub ghost recvd: Seq<Seq<u8>>,
    /// the operation that ran out of time
    pub ghost late: Option<Wait>,
    /// what the client waited for, each with the time limit put on it
    pub ghost waits: Seq<(Wait, Option<Duration>)>,
}
pub enum Wait { Connect, Answer }
/// every wait has the limit configured for it
pub open spec fn limits(w: Seq<(Wait, Option<Duration>)>, c: Option<Duration>, a: Option<Duration>) -> bool {
    forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).1 == (if w[i].0 is Connect { c } else { a })
}
/// the octets drawn so far from cryptographically strong generators
pub tracked struct Draws { pub ghost drawn: Seq<u8> }
/// a (16 octets) and, when asked for, i were drawn after o was, and no octet was used twice
pub open spec fn from_draws(o: Seq<u8>, n: Seq<u8>, a: Seq<u8>, i: Option<u8>) -> bool {
    let k = o.len() as int;
    &&& a.len() == 16
    &&& match i {
        Some(x) => n.len() >= k + 17 && (n.subrange(k, k + 16) =~= a && n[k + 16] == x || n[k] == x && n.subrange(k + 1, k + 17) =~= a),
        None => n.len() >= k + 16 && (n.subrange(k, k + 16) =~= a || n.len() >= k + 17 && n.subrange(k + 1, k + 17) =~= a),
    }
}
/// the salt octets (but for the top bit, which is prescribed) were drawn after o was
pub open spec fn salt_drawn(o: Seq<u8>, n: Seq<u8>, x: u8, y: u8) -> bool {
    let k = o.len() as int;
    n.len() >= k + 2 && (x == n[k] | 0x80 && y == n[k + 1] || x == n[k + 1] | 0x80 && y == n[k])
}
}
