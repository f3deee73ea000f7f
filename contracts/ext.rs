// Assumed contracts of the dependencies ("crate::ext"): md5 / openssl, rand, chrono,
// std::net, std::fmt, tokio.  Every function here is trusted and is reported as such.
pub mod md5 {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::vs::*;
    verus! {
    pub struct Digest(pub [u8; 16]);
    #[verifier::external_body]
    pub fn compute<S: VxSeq<u8>>(s: S) -> (r: Digest) ensures r.0@ == md5(s.sq()) { unimplemented!() }
    impl View for Digest { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
    impl VxToVec for Digest { type T = u8; open spec fn tv(&self) -> Seq<u8> { self.0@ } fn vx_to_vec(&self) -> (r: Vec<u8>) { vstd::array::array_as_slice(&self.0).vx_to_vec() } }
    impl VxSlice for Digest {
        type T = u8;
        open spec fn sl(&self) -> Seq<u8> { self.0@ }
        fn vx_slice<'a>(&'a self) -> (r: &'a [u8]) { vstd::array::array_as_slice(&self.0) }
        fn vx_iter<'a>(&'a self) -> (r: VxRef<'a, u8>) { VxRef { s: vstd::array::array_as_slice(&self.0) } }
        fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, u8>) { VxChunks { s: vstd::array::array_as_slice(&self.0), n } }
    }
    impl vstd::std_specs::core::IndexSpecImpl<usize> for Digest { open spec fn index_req(&self, i: &usize) -> bool { *i < 16 } }
    impl core::ops::Index<usize> for Digest { type Output = u8; fn index(&self, i: usize) -> (r: &u8) ensures *r == self.0@[i as int] { &self.0[i] } }
    impl vstd::std_specs::core::IndexSpecImpl<core::ops::RangeFull> for Digest { open spec fn index_req(&self, i: &core::ops::RangeFull) -> bool { true } }
    impl core::ops::Index<core::ops::RangeFull> for Digest { type Output = [u8]; fn index(&self, i: core::ops::RangeFull) -> (r: &[u8]) ensures r@ == self.0@ { vstd::array::array_as_slice(&self.0) } }
    impl VxAll for Digest { type R = [u8]; open spec fn al(&self, r: &[u8]) -> bool { r@ == self.0@ } fn vx_all(&self) -> (r: &[u8]) { vstd::array::array_as_slice(&self.0) } }
    impl Digest { pub fn vx_eq(&self, o: &[u8]) -> (r: bool) ensures r == (self.0@ == o@) { vx_seq_eq(vstd::array::array_as_slice(&self.0), o) } }
    }
}
pub mod openssl {
    pub mod hash {
        use vstd::prelude::*;
        use crate::vx::*;
        use crate::vs::*;
        verus! {
        pub struct MessageDigest { pub m: u8 }
        impl MessageDigest { pub fn md5() -> (r: MessageDigest) ensures r.m == 5 { MessageDigest { m: 5 } } }
        #[derive(Debug)]
        pub struct ErrorStack;
        pub struct DigestBytes { pub b: Vec<u8> }
        #[verifier::external_body]
        pub fn hash(m: MessageDigest, s: &[u8]) -> (r: Result<DigestBytes, ErrorStack>)
            ensures r is Ok, m.m == 5 ==> r.unwrap().b@ == md5(s@)
        { unimplemented!() }
        impl View for DigestBytes { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.b@ } }
        impl VxToVec for DigestBytes { type T = u8; open spec fn tv(&self) -> Seq<u8> { self.b@ } fn vx_to_vec(&self) -> (r: Vec<u8>) { self.b.as_slice().vx_to_vec() } }
        impl VxSlice for DigestBytes {
            type T = u8;
            open spec fn sl(&self) -> Seq<u8> { self.b@ }
            fn vx_slice<'a>(&'a self) -> (r: &'a [u8]) { self.b.as_slice() }
            fn vx_iter<'a>(&'a self) -> (r: VxRef<'a, u8>) { VxRef { s: self.b.as_slice() } }
            fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, u8>) { VxChunks { s: self.b.as_slice(), n } }
        }
        impl vstd::std_specs::core::IndexSpecImpl<usize> for DigestBytes { open spec fn index_req(&self, i: &usize) -> bool { *i < self.b@.len() } }
        impl core::ops::Index<usize> for DigestBytes { type Output = u8; fn index(&self, i: usize) -> (r: &u8) ensures *r == self.b@[i as int] { &self.b[i] } }
        impl vstd::std_specs::core::IndexSpecImpl<core::ops::RangeFull> for DigestBytes { open spec fn index_req(&self, i: &core::ops::RangeFull) -> bool { true } }
        impl core::ops::Index<core::ops::RangeFull> for DigestBytes { type Output = [u8]; fn index(&self, i: core::ops::RangeFull) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() } }
        impl VxAll for DigestBytes { type R = [u8]; open spec fn al(&self, r: &[u8]) -> bool { r@ == self.b@ } fn vx_all(&self) -> (r: &[u8]) { self.b.as_slice() } }
        impl DigestBytes { pub fn vx_eq(&self, o: &[u8]) -> (r: bool) ensures r == (self.b@ == o@) { vx_seq_eq(self.b.as_slice(), o) } }
        }
    }
}
pub mod rand {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::gh::*;
    pub use crate::ext::rand::rngs::ThreadRng;
    pub mod prelude { pub use crate::ext::rand::{Rng, RngCore, SeedableRng, random, thread_rng}; pub use crate::ext::rand::rngs::{StdRng, ThreadRng}; }
    verus! {
    /// values a generator can be asked for, with the random octets they are made of
    pub trait VxRand: Sized { spec fn octets(self) -> Seq<u8>; }
    impl VxRand for u8 { open spec fn octets(self) -> Seq<u8> { seq![self] } }
    impl VxRand for u16 { open spec fn octets(self) -> Seq<u8> { be16(self) } }
    impl VxRand for u32 { open spec fn octets(self) -> Seq<u8> { be32(self) } }
    impl VxRand for u64 { uninterp spec fn octets(self) -> Seq<u8>; }
    impl VxRand for bool { open spec fn octets(self) -> Seq<u8> { Seq::empty() } }
    impl<const N: usize> VxRand for [u8; N] { open spec fn octets(self) -> Seq<u8> { self@ } }
    #[verifier::external_body]
    pub fn thread_rng() -> (r: ThreadRng) ensures r.secure() { unimplemented!() }
    #[verifier::external_body]
    pub fn random<T>() -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    pub fn random_led<T: VxRand>(Tracked(rg): Tracked<&mut Draws>) -> (r: T) ensures final(rg).drawn == old(rg).drawn + r.octets() { unimplemented!() }
    /// a source of octets; only what a cryptographically strong one yields is entered in the ledger
    pub trait Rng: Sized {
        spec fn secure(&self) -> bool;
        fn gen<T>(&mut self) -> T;
        fn gen_led<T: VxRand>(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: T)
            ensures final(self).secure() == old(self).secure(), final(rg).drawn == (if old(self).secure() { old(rg).drawn + r.octets() } else { old(rg).drawn });
        fn fill_bytes<B: VxSlot>(&mut self, b: &mut B) ensures final(b).sv().len() == old(b).sv().len();
        fn fill_bytes_led<B: VxSlot>(&mut self, b: &mut B, Tracked(rg): Tracked<&mut Draws>)
            ensures final(self).secure() == old(self).secure(), final(b).sv().len() == old(b).sv().len(),
                final(rg).drawn == (if old(self).secure() { old(rg).drawn + final(b).sv() } else { old(rg).drawn });
        fn next_u32(&mut self) -> u32;
        fn next_u32_led(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: u32)
            ensures final(self).secure() == old(self).secure(), final(rg).drawn == (if old(self).secure() { old(rg).drawn + be32(r) } else { old(rg).drawn });
    }
    pub trait VxSlot { spec fn sv(&self) -> Seq<u8>; }
    impl VxSlot for Vec<u8> { open spec fn sv(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> VxSlot for [u8; N] { open spec fn sv(&self) -> Seq<u8> { self@ } }
    pub trait SeedableRng: Sized {
        fn seed_from_u64(s: u64) -> Self;
        fn from_seed(s: [u8; 32]) -> Self;
        fn from_entropy() -> Self;
    }
    }
    pub use self::Rng as RngCore;
    pub mod rngs {
        use vstd::prelude::*;
        use crate::gh::*;
        use super::*;
        verus! {
        #[verifier::external_body] pub struct ThreadRng { p: u8 }
        #[verifier::external_body] pub struct StdRng { p: u8 }
        #[verifier::external_body] pub struct OsRng { p: u8 }
        impl ThreadRng {  }
        impl Rng for ThreadRng {
            open spec fn secure(&self) -> bool { true }
            #[verifier::external_body] fn gen<T>(&mut self) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn gen_led<T: VxRand>(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn fill_bytes<B: VxSlot>(&mut self, b: &mut B) { unimplemented!() }
            #[verifier::external_body] fn fill_bytes_led<B: VxSlot>(&mut self, b: &mut B, Tracked(rg): Tracked<&mut Draws>) { unimplemented!() }
            #[verifier::external_body] fn next_u32(&mut self) -> (r: u32) { unimplemented!() }
            #[verifier::external_body] fn next_u32_led(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: u32) { unimplemented!() }
        }
        impl StdRng {
            pub uninterp spec fn sec(&self) -> bool;
            #[verifier::external_body] pub fn seed_from_u64(s: u64) -> (r: StdRng) { unimplemented!() }
            #[verifier::external_body] pub fn from_seed(s: [u8; 32]) -> (r: StdRng) { unimplemented!() }
            #[verifier::external_body] pub fn from_entropy() -> (r: StdRng) ensures r.sec() { unimplemented!() }
        }
        impl Rng for StdRng {
            open spec fn secure(&self) -> bool { self.sec() }
            #[verifier::external_body] fn gen<T>(&mut self) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn gen_led<T: VxRand>(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn fill_bytes<B: VxSlot>(&mut self, b: &mut B) { unimplemented!() }
            #[verifier::external_body] fn fill_bytes_led<B: VxSlot>(&mut self, b: &mut B, Tracked(rg): Tracked<&mut Draws>) { unimplemented!() }
            #[verifier::external_body] fn next_u32(&mut self) -> (r: u32) { unimplemented!() }
            #[verifier::external_body] fn next_u32_led(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: u32) { unimplemented!() }
        }
        impl OsRng {  }
        impl Rng for OsRng {
            open spec fn secure(&self) -> bool { true }
            #[verifier::external_body] fn gen<T>(&mut self) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn gen_led<T: VxRand>(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn fill_bytes<B: VxSlot>(&mut self, b: &mut B) { unimplemented!() }
            #[verifier::external_body] fn fill_bytes_led<B: VxSlot>(&mut self, b: &mut B, Tracked(rg): Tracked<&mut Draws>) { unimplemented!() }
            #[verifier::external_body] fn next_u32(&mut self) -> (r: u32) { unimplemented!() }
            #[verifier::external_body] fn next_u32_led(&mut self, Tracked(rg): Tracked<&mut Draws>) -> (r: u32) { unimplemented!() }
        }
        impl SeedableRng for StdRng {
            #[verifier::external_body] fn seed_from_u64(s: u64) -> (r: StdRng) { unimplemented!() }
            #[verifier::external_body] fn from_seed(s: [u8; 32]) -> (r: StdRng) { unimplemented!() }
            #[verifier::external_body] fn from_entropy() -> (r: StdRng) ensures r.secure() { unimplemented!() }
        }
        }
    }
}
pub mod chrono {
    use vstd::prelude::*;
    verus! {
    pub struct Utc;
    pub struct DateTime<Z> { pub secs: i64, pub nanos: u32, pub z: Z }
    pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
    impl<T> LocalResult<T> {
        #[verifier::external_body]
        pub fn unwrap(self) -> (r: T) requires self is Single ensures self == LocalResult::Single(r) { unimplemented!() }
        pub fn single(self) -> (r: Option<T>) ensures self matches LocalResult::Single(t) ==> r == Some(t), !(self is Single) ==> r is None { match self { LocalResult::Single(t) => Some(t), _ => None } }
    }
    pub trait TimeZone: Sized { fn timestamp_opt(&self, secs: i64, nsecs: u32) -> LocalResult<DateTime<Self>>; }
    impl TimeZone for Utc {
        #[verifier::external_body]
        fn timestamp_opt(&self, secs: i64, nsecs: u32) -> (r: LocalResult<DateTime<Utc>>)
            ensures 0 <= secs <= 0xffff_ffff && nsecs < 1_000_000_000 ==> (r matches LocalResult::Single(d) && d.secs == secs && d.nanos == nsecs)
        { unimplemented!() }
    }
    impl<Z> DateTime<Z> { pub fn timestamp(&self) -> (r: i64) ensures r == self.secs { self.secs } }
    }
}
pub mod std {
    pub mod net {
        use vstd::prelude::*;
        use crate::vx::*;
        verus! {
        #[derive(Clone, Copy)]
        pub struct Ipv4Addr { pub o: [u8; 4] }
        impl Ipv4Addr {
            pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.o { self.o }
            pub fn from(o: [u8; 4]) -> (r: Ipv4Addr) ensures r.o == o { Ipv4Addr { o } }
            pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r.o@ == seq![a, b, c, d] { Ipv4Addr { o: [a, b, c, d] } }
        }
        #[derive(Clone, Copy)]
        pub struct Ipv6Addr { pub o: [u8; 16] }
        impl Ipv6Addr {
            pub fn octets(&self) -> (r: [u8; 16]) ensures r == self.o { self.o }
            pub fn from(o: [u8; 16]) -> (r: Ipv6Addr) ensures r.o == o { Ipv6Addr { o } }
        }
        #[derive(Clone, Copy)]
        #[verifier::external_body]
        pub struct SocketAddrV4 { p: u8 }
        impl SocketAddrV4 {
            pub uninterp spec fn ipv(&self) -> Ipv4Addr;
            #[verifier::external_body]
            pub fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self.ipv() { unimplemented!() }
            #[verifier::external_body]
            pub fn port(&self) -> u16 { unimplemented!() }
        }
        #[derive(Clone, Copy)]
        #[verifier::external_body]
        pub struct SocketAddrV6 { p: u8 }
        impl SocketAddrV6 {
            pub uninterp spec fn ipv(&self) -> Ipv6Addr;
            #[verifier::external_body]
            pub fn ip(&self) -> (r: &Ipv6Addr) ensures *r == self.ipv() { unimplemented!() }
            #[verifier::external_body]
            pub fn port(&self) -> u16 { unimplemented!() }
        }
        #[derive(Clone, Copy)]
        pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
        impl SocketAddr {
            pub open spec fn v4(&self) -> bool { *self is V4 }
            pub fn is_ipv4(&self) -> (r: bool) ensures r == self.v4() { match self { SocketAddr::V4(_) => true, _ => false } }
            pub fn is_ipv6(&self) -> (r: bool) ensures r == !self.v4() { match self { SocketAddr::V4(_) => false, _ => true } }
            pub open spec fn ipv(&self) -> IpAddr { match *self { SocketAddr::V4(a) => IpAddr::V4(a.ipv()), SocketAddr::V6(a) => IpAddr::V6(a.ipv()) } }
            pub fn ip(&self) -> (r: IpAddr) ensures r == self.ipv() { match self { SocketAddr::V4(a) => IpAddr::V4(*a.ip()), SocketAddr::V6(a) => IpAddr::V6(*a.ip()) } }
            pub fn port(&self) -> u16 { match self { SocketAddr::V4(a) => a.port(), SocketAddr::V6(a) => a.port() } }
        }
        #[derive(Clone, Copy)]
        pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
        /// the textual form of an address with port identifies it
        pub broadcast axiom fn axiom_addr_str(a: SocketAddr, b: SocketAddr)
            ensures #[trigger] str_of(&a) == #[trigger] str_of(&b) ==> a == b;
        /// the two literals the client binds to are valid addresses
        pub broadcast axiom fn axiom_any4() ensures #[trigger] parse_ok::<SocketAddr>("0.0.0.0:0"@);
        pub broadcast axiom fn axiom_any6() ensures #[trigger] parse_ok::<SocketAddr>("[::]:0"@);
        }
    }
    pub mod cmp { pub use crate::vx::{vx_min as min, vx_max as max}; }
    pub mod mem { pub use crate::vx::vx_take_vec as take; }
    pub mod io {
        use vstd::prelude::*;
        verus! {
        #[derive(Debug)]
        pub struct Error;
        pub type Result<T> = core::result::Result<T, Error>;
        }
    }
    pub mod time {
        use vstd::prelude::*;
        verus! {
        #[derive(Clone, Copy)]
        pub struct Duration { pub ns: u128 }
        #[derive(Clone, Copy)] pub struct SystemTime { pub t: u64 }
        #[derive(Clone, Copy)] pub struct Instant { pub t: u64 }
        #[derive(Debug)] pub struct SystemTimeError;
        pub const UNIX_EPOCH: SystemTime = SystemTime { t: 0 };
        /// clocks: any value
        impl SystemTime {
            pub const UNIX_EPOCH: SystemTime = SystemTime { t: 0 };
            #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() }
            #[verifier::external_body] pub fn duration_since(&self, o: SystemTime) -> (r: core::result::Result<Duration, SystemTimeError>) ensures r is Ok { unimplemented!() }
            #[verifier::external_body] pub fn elapsed(&self) -> core::result::Result<Duration, SystemTimeError> { unimplemented!() }
        }
        impl Instant {
            #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
            #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
        }
        impl Duration {
            #[verifier::external_body] pub fn as_secs(&self) -> u64 { unimplemented!() }
            #[verifier::external_body] pub fn as_millis(&self) -> u128 { unimplemented!() }
            #[verifier::external_body] pub fn as_micros(&self) -> u128 { unimplemented!() }
            #[verifier::external_body] pub fn as_nanos(&self) -> u128 { unimplemented!() }
            #[verifier::external_body] pub fn subsec_nanos(&self) -> u32 { unimplemented!() }
            #[verifier::external_body] pub fn subsec_micros(&self) -> u32 { unimplemented!() }
            #[verifier::external_body] pub fn subsec_millis(&self) -> u32 { unimplemented!() }
        }
        }
    }
    pub mod process {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body] pub fn id() -> u32 { unimplemented!() }
        }
    }
    pub mod collections {
        use vstd::prelude::*;
        use crate::gh::*;
        verus! {
        #[verifier::external_body]
        #[verifier::reject_recursive_types(K)]
        pub struct HashSet<K> { k: Option<K> }
        impl<K> HashSet<K> {
            #[verifier::external_body]
            pub fn new() -> (r: HashSet<K>) { unimplemented!() }
        }
        }
    }
    pub mod sync {
        /// shared counters: any value at any time
        pub mod atomic {
            use vstd::prelude::*;
            verus! {
            #[derive(Clone, Copy)] pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
            #[derive(Debug)] pub struct AtomicU8 { pub v: u8 }
            impl AtomicU8 {
                pub const fn new(v: u8) -> AtomicU8 { AtomicU8 { v } }
                #[verifier::external_body] pub fn load(&self, o: Ordering) -> u8 { unimplemented!() }
                #[verifier::external_body] pub fn store(&self, v: u8, o: Ordering) { unimplemented!() }
                #[verifier::external_body] pub fn swap(&self, v: u8, o: Ordering) -> u8 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_add(&self, v: u8, o: Ordering) -> u8 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_sub(&self, v: u8, o: Ordering) -> u8 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_xor(&self, v: u8, o: Ordering) -> u8 { unimplemented!() }
            }
            #[derive(Debug)] pub struct AtomicU16 { pub v: u16 }
            impl AtomicU16 {
                pub const fn new(v: u16) -> AtomicU16 { AtomicU16 { v } }
                #[verifier::external_body] pub fn load(&self, o: Ordering) -> u16 { unimplemented!() }
                #[verifier::external_body] pub fn store(&self, v: u16, o: Ordering) { unimplemented!() }
                #[verifier::external_body] pub fn swap(&self, v: u16, o: Ordering) -> u16 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_add(&self, v: u16, o: Ordering) -> u16 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_sub(&self, v: u16, o: Ordering) -> u16 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_xor(&self, v: u16, o: Ordering) -> u16 { unimplemented!() }
            }
            #[derive(Debug)] pub struct AtomicU32 { pub v: u32 }
            impl AtomicU32 {
                pub const fn new(v: u32) -> AtomicU32 { AtomicU32 { v } }
                #[verifier::external_body] pub fn load(&self, o: Ordering) -> u32 { unimplemented!() }
                #[verifier::external_body] pub fn store(&self, v: u32, o: Ordering) { unimplemented!() }
                #[verifier::external_body] pub fn swap(&self, v: u32, o: Ordering) -> u32 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_add(&self, v: u32, o: Ordering) -> u32 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_sub(&self, v: u32, o: Ordering) -> u32 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_xor(&self, v: u32, o: Ordering) -> u32 { unimplemented!() }
            }
            #[derive(Debug)] pub struct AtomicU64 { pub v: u64 }
            impl AtomicU64 {
                pub const fn new(v: u64) -> AtomicU64 { AtomicU64 { v } }
                #[verifier::external_body] pub fn load(&self, o: Ordering) -> u64 { unimplemented!() }
                #[verifier::external_body] pub fn store(&self, v: u64, o: Ordering) { unimplemented!() }
                #[verifier::external_body] pub fn swap(&self, v: u64, o: Ordering) -> u64 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_add(&self, v: u64, o: Ordering) -> u64 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_sub(&self, v: u64, o: Ordering) -> u64 { unimplemented!() }
                #[verifier::external_body] pub fn fetch_xor(&self, v: u64, o: Ordering) -> u64 { unimplemented!() }
            }
            #[derive(Debug)] pub struct AtomicUsize { pub v: usize }
            impl AtomicUsize {
                pub const fn new(v: usize) -> AtomicUsize { AtomicUsize { v } }
                #[verifier::external_body] pub fn load(&self, o: Ordering) -> usize { unimplemented!() }
                #[verifier::external_body] pub fn store(&self, v: usize, o: Ordering) { unimplemented!() }
                #[verifier::external_body] pub fn swap(&self, v: usize, o: Ordering) -> usize { unimplemented!() }
                #[verifier::external_body] pub fn fetch_add(&self, v: usize, o: Ordering) -> usize { unimplemented!() }
                #[verifier::external_body] pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize { unimplemented!() }
                #[verifier::external_body] pub fn fetch_xor(&self, v: usize, o: Ordering) -> usize { unimplemented!() }
            }
            #[derive(Debug)] pub struct AtomicBool { pub v: bool }
            impl AtomicBool {
                pub const fn new(v: bool) -> AtomicBool { AtomicBool { v } }
                #[verifier::external_body] pub fn load(&self, o: Ordering) -> bool { unimplemented!() }
                #[verifier::external_body] pub fn store(&self, v: bool, o: Ordering) { unimplemented!() }
                #[verifier::external_body] pub fn swap(&self, v: bool, o: Ordering) -> bool { unimplemented!() }
            }
            }
        }
        use vstd::prelude::*;
        use crate::gh::*;
        use super::collections::HashSet;
        verus! {
        #[derive(Debug)]
        pub struct PoisonError;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct RwLock<T> { t: Option<T> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Mutex<T> { t: Option<T> }
        /// an exclusive guard over the shared set; `s` is its content while held
        #[verifier::reject_recursive_types(K)]
        pub struct WGuard<K> { pub s: Ghost<Set<KV>>, pub id: Ghost<int>, pub k: core::marker::PhantomData<K> }
        #[verifier::reject_recursive_types(K)]
        pub struct RGuard<K> { pub s: Ghost<Set<KV>>, pub id: Ghost<int>, pub k: core::marker::PhantomData<K> }
        impl<T> RwLock<T> {
            pub uninterp spec fn lid(&self) -> int;
            #[verifier::external_body]
            pub fn new(t: T) -> (r: RwLock<T>) { unimplemented!() }
        }
        impl<T> Mutex<T> {
            pub uninterp spec fn lid(&self) -> int;
            #[verifier::external_body]
            pub fn new(t: T) -> (r: Mutex<T>) { unimplemented!() }
        }
        // Acquiring the lock: other tasks may have changed the set arbitrarily, except that
        // nobody removes a key this task owns (every removal is checked to be of an owned key).
        impl<K: VxKey> RwLock<HashSet<K>> {
            #[verifier::external_body]
            pub fn write(&self, Tracked(led): Tracked<&mut Led>) -> (r: Result<WGuard<K>, PoisonError>)
                requires self.lid() == old(led).lock,
                ensures r is Ok, old(led).owned.subset_of(r.unwrap().s@), *final(led) == *old(led),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read(&self, Tracked(led): Tracked<&mut Led>) -> (r: Result<RGuard<K>, PoisonError>)
                requires self.lid() == old(led).lock,
                ensures r is Ok, old(led).owned.subset_of(r.unwrap().s@), *final(led) == *old(led),
            { unimplemented!() }
        }
        impl<K: VxKey> Mutex<HashSet<K>> {
            #[verifier::external_body]
            pub fn lock(&self, Tracked(led): Tracked<&mut Led>) -> (r: Result<WGuard<K>, PoisonError>)
                requires self.lid() == old(led).lock,
                ensures r is Ok, old(led).owned.subset_of(r.unwrap().s@), *final(led) == *old(led),
            { unimplemented!() }
        }
        pub open spec fn saw(l: Led, k: KV, found: bool) -> Led {
            if found && !l.owned.contains(k) { Led { busy: l.busy.insert(k), ..l } } else { l }
        }
        impl<K: VxKey> RGuard<K> {
            #[verifier::external_body]
            pub fn contains(&self, k: &K, Tracked(led): Tracked<&mut Led>) -> (r: bool)
                ensures r == self.s@.contains(k.kv()), *final(led) == saw(*old(led), k.kv(), r),
            { unimplemented!() }
        }
        impl<K: VxKey> WGuard<K> {
            #[verifier::external_body]
            pub fn contains(&self, k: &K, Tracked(led): Tracked<&mut Led>) -> (r: bool)
                ensures r == self.s@.contains(k.kv()), *final(led) == saw(*old(led), k.kv(), r),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn insert(&mut self, k: K, Tracked(led): Tracked<&mut Led>) -> (r: bool)
                ensures
                    r == !old(self).s@.contains(k.kv()),
                    final(self).s@ == old(self).s@.insert(k.kv()),
                    r ==> *final(led) == (Led { owned: old(led).owned.insert(k.kv()), ..*old(led) }),
                    !r ==> *final(led) == saw(*old(led), k.kv(), true),
            { unimplemented!() }
            /// only the task that put a key in may take it out
            #[verifier::external_body]
            pub fn remove(&mut self, k: &K, Tracked(led): Tracked<&mut Led>) -> (r: bool)
                requires old(led).owned.contains(k.kv()),
                ensures
                    final(self).s@ == old(self).s@.remove(k.kv()),
                    r == old(self).s@.contains(k.kv()),
                    *final(led) == (Led { owned: old(led).owned.remove(k.kv()), ..*old(led) }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn clear(&mut self) requires false { unimplemented!() }
        }
        }
    }
    pub mod fmt {
        use vstd::prelude::*;
        use crate::vx::*;
        verus! {
        #[derive(Debug)]
        pub struct Error;
        pub type Result = core::result::Result<(), Error>;
        /// A formatter: the sequence of what was written to it, each piece with the
        /// text that labels it; formatting a value is a function of that value.
        #[verifier::external_body]
        pub struct Formatter<'a> { p: core::marker::PhantomData<&'a u8> }
        impl<'a> Formatter<'a> {
            pub uninterp spec fn log(&self) -> Seq<(Seq<char>, DV)>;
            pub uninterp spec fn seen(&self) -> Set<DV>;
            pub uninterp spec fn opts(&self) -> DV;
            #[verifier::external_body]
            pub fn vx_lit(&mut self, n: &str)
                ensures final(self).log() == old(self).log().push((n@, dbg_none())), final(self).seen() == old(self).seen(), final(self).opts() == old(self).opts(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_field<T: ?Sized>(&mut self, n: &str, v: &T)
                ensures final(self).log() == old(self).log().push((n@, dbg_of(v))), final(self).seen() == old(self).seen().insert(dbg_of(v)), final(self).opts() == old(self).opts(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_show<T: ?Sized>(&mut self, v: &T)
                ensures final(self).log() == old(self).log().push((Seq::empty(), dbg_of(v))), final(self).seen() == old(self).seen().insert(dbg_of(v)), final(self).opts() == old(self).opts(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_res(&self) -> (r: Result) ensures r is Ok == fmt_ok(self.log()) { unimplemented!() }
            #[verifier::external_body]
            pub fn alternate(&self) -> (r: bool) ensures r == fmt_alt(self.opts()) { unimplemented!() }
        }
        pub uninterp spec fn fmt_ok(l: Seq<(Seq<char>, DV)>) -> bool;
        pub uninterp spec fn fmt_alt(o: DV) -> bool;
        }
    }
}
pub mod tokio {
    pub mod net {
        use vstd::prelude::*;
        use crate::vx::*;
        use crate::gh::*;
        use crate::ext::std::net::SocketAddr;
        use crate::ext::std::io::Error;
        verus! {
        #[verifier::external_body]
        pub struct UdpSocket { p: u8 }
        /// what arrives of a datagram when it is received into a buffer
        pub open spec fn cut(d: Seq<u8>, n: int) -> Seq<u8> { if d.len() <= n { d } else { d.subrange(0, n) } }
        /// the largest UDP payload
        pub open spec fn max_udp() -> int { 65507 }
        impl UdpSocket {
            pub uninterp spec fn at(&self) -> SocketAddr;
            #[verifier::external_body]
            pub fn bind<A>(a: A) -> (r: Result<UdpSocket, Error>) { unimplemented!() }
            #[verifier::external_body]
            pub fn local_addr(&self, Tracked(led): Tracked<&mut Led>) -> (r: Result<SocketAddr, Error>)
                ensures
                    r matches Ok(a) ==> a == self.at() && *final(led) == *old(led),
                    r is Err ==> *final(led) == (Led { got: None, ..*old(led) }),
            { unimplemented!() }
            /// the next datagram may only be taken when the previous one was processed
            #[verifier::external_body]
            pub fn recv_from(&self, b: &mut Vec<u8>, Tracked(led): Tracked<&mut Led>) -> (r: Result<(usize, SocketAddr), Error>)
                requires served(*old(led)),
                ensures
                    final(b)@.len() == old(b)@.len(),
                    r matches Ok(p) ==> p.0 <= old(b)@.len() && led_same(*old(led), *final(led)) && fresh(*final(led)) && final(led).stopped == old(led).stopped && final(led).got == Some((final(b)@.subrange(0, p.0 as int), p.1)),
                    r is Err ==> *final(led) == (Led { stopped: true, ..*old(led) }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn connect(&self, a: &SocketAddr, Tracked(net): Tracked<&mut Net>) -> (r: Result<(), Error>)
                ensures
                    r is Ok ==> *final(net) == (Net { peer: Some(*a), waits: old(net).waits.push((Wait::Connect, None)), ..*old(net) }),
                    r is Err ==> *final(net) == (Net { waits: old(net).waits.push((Wait::Connect, None)), ..*old(net) }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn send(&self, d: &[u8], Tracked(net): Tracked<&mut Net>) -> (r: Result<usize, Error>)
                requires old(net).peer is Some,
                ensures
                    r is Ok ==> *final(net) == (Net { sent: old(net).sent.push((d@, old(net).peer.unwrap())), waits: old(net).waits.push((Wait::Answer, None)), ..*old(net) }),
                    r is Err ==> *final(net) == (Net { waits: old(net).waits.push((Wait::Answer, None)), ..*old(net) }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn send_to(&self, d: &[u8], a: &SocketAddr, Tracked(net): Tracked<&mut Net>) -> (r: Result<usize, Error>)
                ensures
                    r is Ok ==> *final(net) == (Net { sent: old(net).sent.push((d@, *a)), waits: old(net).waits.push((Wait::Answer, None)), ..*old(net) }),
                    r is Err ==> *final(net) == (Net { waits: old(net).waits.push((Wait::Answer, None)), ..*old(net) }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn recv(&self, b: &mut Vec<u8>, Tracked(net): Tracked<&mut Net>) -> (r: Result<usize, Error>)
                requires old(net).waits.len() > 0 && old(net).waits.last() == (Wait::Answer, None::<crate::ext::std::time::Duration>),
                ensures
                    final(b)@.len() == old(b)@.len(),
                    r matches Ok(n) ==> n <= old(b)@.len()
                        && final(net).recvd.len() == old(net).recvd.len() + 1 && final(net).recvd.drop_last() == old(net).recvd
                        && final(net).recvd.last().len() <= max_udp()
                        && final(b)@.subrange(0, n as int) == cut(final(net).recvd.last(), old(b)@.len() as int)
                        && final(net).sent == old(net).sent && final(net).peer == old(net).peer && final(net).late == old(net).late && final(net).waits == old(net).waits,
                    r is Err ==> *final(net) == *old(net),
            { unimplemented!() }
        }
        }
    }
    pub mod time {
        use vstd::prelude::*;
        use crate::gh::*;
        use crate::ext::std::time::Duration;
        verus! {
        pub struct Elapsed;
        /// either the operation's own result, or the report that time ran out
        #[verifier::external_body]
        pub fn timeout<T>(d: Duration, v: T, Tracked(net): Tracked<&mut Net>) -> (r: Result<T, Elapsed>)
            requires old(net).waits.len() > 0,
            ensures
                r matches Ok(x) ==> x == v && final(net).late == old(net).late,
                r is Err ==> final(net).late == Some(old(net).waits.last().0),
                final(net).waits == if old(net).waits.last().1 is None { old(net).waits.drop_last().push((old(net).waits.last().0, Some(d))) } else { old(net).waits },
                final(net).sent == old(net).sent, final(net).recvd == old(net).recvd, final(net).peer == old(net).peer,
        { unimplemented!() }
        }
    }
}
