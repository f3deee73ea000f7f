//! The accessors of one dictionary attribute against the dictionary.
use chrono::{DateTime, TimeZone, Utc};
use radius::core::avp::AVPError;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};
use std::net::{Ipv4Addr, Ipv6Addr};
use vharness::core_gen as g;
use vharness::core_ops::{header, mk, put, same_attrs};
use vharness::oracle as o;
use vharness::rng::Rng;
use vharness::run::{hex, Case, Lits};

type E = AVPError;
type Look<T> = fn(&Packet) -> Option<Result<T, E>>;
type All<T> = fn(&Packet) -> Result<Vec<T>, E>;
pub enum Acc {
    Str(fn(&mut Packet, &str), Look<String>, All<String>),
    Bytes(fn(&mut Packet, &[u8]), fn(&Packet) -> Option<Vec<u8>>, fn(&Packet) -> Vec<Vec<u8>>),
    Fixed(usize, fn(&mut Packet, &[u8]) -> Result<(), E>, fn(&Packet) -> Option<Vec<u8>>, fn(&Packet) -> Vec<Vec<u8>>),
    V4(fn(&mut Packet, &Ipv4Addr), Look<Ipv4Addr>, All<Ipv4Addr>),
    V6(fn(&mut Packet, &Ipv6Addr), Look<Ipv6Addr>, All<Ipv6Addr>),
    U32(fn(&mut Packet, u32), Look<u32>, All<u32>),
    U16(fn(&mut Packet, u16), Look<u16>, All<u16>),
    Date(fn(&mut Packet, &DateTime<Utc>), Look<DateTime<Utc>>, All<DateTime<Utc>>),
    P4(fn(&mut Packet, &[u8]) -> Result<(), E>, Look<Vec<u8>>, All<Vec<u8>>),
    P6(fn(&mut Packet, &[u8]) -> Result<(), E>, Look<Vec<u8>>, All<Vec<u8>>),
    TInt(fn(&mut Packet, Option<&Tag>, u32), Look<(u32, Tag)>, All<(u32, Tag)>),
    TStr(fn(&mut Packet, Option<&Tag>, &str), Look<(String, Option<Tag>)>, All<(String, Option<Tag>)>),
    UPw(fn(&mut Packet, &[u8]) -> Result<(), E>, Look<Vec<u8>>, All<Vec<u8>>),
    TPw(fn(&mut Packet, Option<&Tag>, &[u8]) -> Result<(), E>, Look<(Vec<u8>, Tag)>, All<(Vec<u8>, Tag)>),
    Cat(fn(&mut Packet, &[u8]), fn(&Packet) -> Option<Vec<u8>>),
    Vsa(fn(&mut Packet, &dyn VSA)),
}
pub struct Row { pub name: &'static str, pub num: u8, pub del: fn(&mut Packet), pub acc: Acc }
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } } }
type R = Result<(), String>;
/// a value as (bytes, tag); the tag is -1 when there is none
type Val = (Vec<u8>, i64);

fn dec(a: &Acc, v: &[u8], s: &[u8], au: &[u8]) -> Option<Val> {
    let when = |c: bool, x: &[u8]| if c { Some((x.to_vec(), -1)) } else { None };
    match a {
        Acc::Str(..) => when(std::str::from_utf8(v).is_ok(), v),
        Acc::Bytes(..) | Acc::Fixed(..) | Acc::Cat(..) | Acc::Vsa(..) => Some((v.to_vec(), -1)),
        Acc::V4(..) | Acc::U32(..) | Acc::Date(..) => when(v.len() == 4, v),
        Acc::V6(..) => when(v.len() == 16, v),
        Acc::U16(..) => when(v.len() == 2, v),
        Acc::P4(..) => when(v.len() == 6, v.get(2..).unwrap_or(&[])),
        Acc::P6(..) => when(v.len() >= 2, v.get(2..).unwrap_or(&[])),
        Acc::TInt(..) => if v.len() == 5 && v[0] <= 0x1f { Some((v[1..].to_vec(), v[0] as i64)) } else { None },
        Acc::TStr(..) => if v.is_empty() || v[0] == 0 { None } else if v[0] <= 0x1f { std::str::from_utf8(&v[1..]).ok().map(|x| (x.as_bytes().to_vec(), v[0] as i64)) }
            else { std::str::from_utf8(v).ok().map(|x| (x.as_bytes().to_vec(), -1)) },
        Acc::UPw(..) => if v.len() >= 16 && v.len() <= 128 && !s.is_empty() && au.len() == 16 { Some((o::unhide(s, au, v), -1)) } else { None },
        Acc::TPw(..) => if v.len() >= 19 && v.len() <= 243 && (v.len() - 3) % 16 == 0 && v[1] & 0x80 != 0 && !s.is_empty() && au.len() == 16 {
            Some((o::unhide(s, &o::cat(&[au, &v[1..3]]), &v[3..]), v[0] as i64)) } else { None },
    }
}
fn look(a: &Acc, p: &Packet) -> (Option<Option<Val>>, Option<Vec<Val>>) {
    macro_rules! go { ($l:expr, $a:expr, $f:expr) => { ($l(p).map(|r| r.ok().map($f)), $a(p).ok().map(|v| v.into_iter().map($f).collect())) } }
    match a {
        Acc::Str(_, l, a) => go!(l, a, |x: String| (x.into_bytes(), -1)),
        Acc::Bytes(_, l, a) => (l(p).map(|x| Some((x, -1))), Some(a(p).into_iter().map(|x| (x, -1)).collect())),
        Acc::Fixed(_, _, l, a) => (l(p).map(|x| Some((x, -1))), Some(a(p).into_iter().map(|x| (x, -1)).collect())),
        Acc::V4(_, l, a) => go!(l, a, |x: Ipv4Addr| (x.octets().to_vec(), -1)),
        Acc::V6(_, l, a) => go!(l, a, |x: Ipv6Addr| (x.octets().to_vec(), -1)),
        Acc::U32(_, l, a) => go!(l, a, |x: u32| (x.to_be_bytes().to_vec(), -1)),
        Acc::U16(_, l, a) => go!(l, a, |x: u16| (x.to_be_bytes().to_vec(), -1)),
        Acc::Date(_, l, a) => go!(l, a, |x: DateTime<Utc>| ((x.timestamp() as u32).to_be_bytes().to_vec(), if x.timestamp() == x.timestamp() as u32 as i64 && x.timestamp_subsec_nanos() == 0 { -1 } else { -2 })),
        Acc::P4(_, l, a) | Acc::P6(_, l, a) | Acc::UPw(_, l, a) => go!(l, a, |x: Vec<u8>| (x, -1)),
        Acc::TInt(_, l, a) => go!(l, a, |x: (u32, Tag)| (x.0.to_be_bytes().to_vec(), x.1.get_value() as i64)),
        Acc::TStr(_, l, a) => go!(l, a, |x: (String, Option<Tag>)| (x.0.into_bytes(), x.1.map(|t| t.get_value() as i64).unwrap_or(-1))),
        Acc::TPw(_, l, a) => go!(l, a, |x: (Vec<u8>, Tag)| (x.0, x.1.get_value() as i64)),
        Acc::Cat(_, l) => (l(p).map(|x| Some((x, -1))), None),
        Acc::Vsa(..) => (None, None),
    }
}
fn lookups(r: &Row, p: &Packet, m: &[o::Attr], s: &[u8], au: &[u8]) -> R {
    let of: Vec<&[u8]> = m.iter().filter(|x| x.0 == r.num).map(|x| &x.1[..]).collect();
    if let Acc::Vsa(..) = r.acc { return Ok(()); }
    let (l, a) = look(&r.acc, p);
    if let Acc::Cat(..) = r.acc {
        let e = if of.is_empty() { None } else { Some(Some((of.concat(), -1))) };
        ck!(l == e, "{}: lookup returns {l:?} instead of {e:?}", r.name);
        return Ok(());
    }
    let e = of.first().map(|v| dec(&r.acc, v, s, au));
    ck!(l == e, "{}: lookup returns {l:?} instead of {e:?}", r.name);
    let e: Option<Vec<Val>> = of.iter().map(|v| dec(&r.acc, v, s, au)).collect();
    ck!(a == e, "{}: lookup_all returns {a:?} instead of {e:?}", r.name);
    Ok(())
}

/// n = row, tag, mode; b = value, secret, authenticator, attributes already there
pub fn acc(rows: &[Row], c: &Case) -> R {
    let r = &rows[c.nn(0) as usize % rows.len()];
    let (v, s) = (c.by(0), c.by(1));
    let mut m: Vec<o::Attr> = c.b.iter().skip(3).map(|x| (x.first().cloned().unwrap_or(0), x.get(1..).unwrap_or(&[]).to_vec())).collect();
    let mut p = mk(1, 7, c.by(2), s);
    put(&mut p, &m, 0);
    let au = p.get_authenticator().clone();
    lookups(r, &p, &m, s, &au)?;
    let tag = if c.nn(1) < 0 { None } else { Some(Tag::new(c.nn(1) as u8)) };
    let t8 = tag.as_ref().map(|t| t.get_value()).unwrap_or(0);
    let text = String::from_utf8_lossy(v).into_owned();
    let arr = |n: usize| { let mut k = v.to_vec(); k.resize(n, 0); k };
    let pwok = !s.is_empty() && au.len() == 16;
    let n = r.num;
    // what must be stored (None: an error), in one piece unless concatenated
    let (got, want): (bool, Option<Vec<Vec<u8>>>) = match &r.acc {
        Acc::Str(f, ..) => { f(&mut p, &text); (true, Some(vec![text.into_bytes()])) }
        Acc::Bytes(f, ..) => { f(&mut p, v); (true, Some(vec![v.to_vec()])) }
        Acc::Fixed(k, f, ..) => (f(&mut p, v).is_ok(), if v.len() == *k { Some(vec![v.to_vec()]) } else { None }),
        Acc::V4(f, ..) => { let k = arr(4); f(&mut p, &Ipv4Addr::new(k[0], k[1], k[2], k[3])); (true, Some(vec![k])) }
        Acc::V6(f, ..) => { let k = arr(16); let mut a = [0u8; 16]; a.copy_from_slice(&k); f(&mut p, &Ipv6Addr::from(a)); (true, Some(vec![k])) }
        Acc::U32(f, ..) => { let k = arr(4); f(&mut p, u32::from_be_bytes([k[0], k[1], k[2], k[3]])); (true, Some(vec![k])) }
        Acc::U16(f, ..) => { let k = arr(2); f(&mut p, u16::from_be_bytes([k[0], k[1]])); (true, Some(vec![k])) }
        Acc::Date(f, ..) => { let k = arr(4); f(&mut p, &Utc.timestamp_opt(u32::from_be_bytes([k[0], k[1], k[2], k[3]]) as i64, 99).unwrap()); (true, Some(vec![k])) }
        Acc::P4(f, ..) => (f(&mut p, v).is_ok(), if v.len() == 4 { Some(vec![o::cat(&[&[0, 32], v])]) } else { None }),
        Acc::P6(f, ..) => (f(&mut p, v).is_ok(), if v.len() <= 16 { Some(vec![o::cat(&[&[0, 8 * v.len() as u8], v])]) } else { None }),
        Acc::TInt(f, ..) => { let k = arr(4); f(&mut p, tag.as_ref(), u32::from_be_bytes([k[0], k[1], k[2], k[3]])); (true, Some(vec![o::cat(&[&[t8], &k])])) }
        Acc::TStr(f, ..) => { f(&mut p, tag.as_ref(), &text); (true, Some(vec![if tag.is_some() { o::cat(&[&[t8], text.as_bytes()]) } else { text.into_bytes() }])) }
        Acc::UPw(f, ..) => (f(&mut p, v).is_ok(), if v.len() <= 128 && pwok { Some(vec![o::hidden(s, &au, v)]) } else { None }),
        Acc::TPw(f, ..) => {
            let ok = f(&mut p, tag.as_ref(), v).is_ok();
            let st = p.lookup_all(n).last().map(|a| a.encode_bytes()).unwrap_or_default();
            let salt = if ok && st.len() >= 3 { st[1..3].to_vec() } else { vec![0x80, 0] };
            ck!(salt[0] & 0x80 != 0, "{}: top bit of the salt is clear", r.name);
            (ok, if v.len() <= 240 && pwok { Some(vec![o::cat(&[&[t8], &salt, &o::hidden(s, &o::cat(&[&au, &salt]), v)])]) } else { None })
        }
        Acc::Cat(f, ..) => { f(&mut p, v); (true, Some(v.chunks(253).map(|x| x.to_vec()).collect())) }
        Acc::Vsa(f) => {
            let k = arr(4);
            let id = i32::from_be_bytes([k[0], k[1], k[2], k[3]]);
            let a: Box<dyn VSA> = if tag.is_some() { Box::new(TaggedStringVSA::new(id, k[0] ^ 0x55, t8, &text)) } else { Box::new(StringVSA::new(id, k[0] ^ 0x55, &text)) };
            f(&mut p, &*a);
            (true, Some(vec![a.message()]))
        }
    };
    ck!(got == want.is_some(), "{}: add with {} {}", r.name, hex(v), if got { "succeeded although it must fail" } else { "failed" });
    for x in want.unwrap_or_default() { m.push((n, x)); }
    header(&p, 1, 7, Some(&au), s)?;
    same_attrs(&p, &m).map_err(|e| format!("{}: after add: {e}", r.name))?;
    lookups(r, &p, &m, s, &au)?;
    if c.nn(2) & 1 == 1 {
        (r.del)(&mut p);
        m.retain(|x| x.0 != n);
        header(&p, 1, 7, Some(&au), s)?;
        same_attrs(&p, &m).map_err(|e| format!("{}: after delete: {e}", r.name))?;
        lookups(r, &p, &m, s, &au)?;
    }
    Ok(())
}
fn raw(rows: &[Row], row: usize, r: &mut Rng, l: &Lits, s: &[u8], au: &[u8]) -> Vec<u8> {
    match &rows[row].acc {
        Acc::Str(..) => if r.flip(4) { g::bytes(r, 80, l) } else { g::text(r, 80, l) },
        Acc::Bytes(..) | Acc::Cat(..) | Acc::Vsa(..) => g::bytes(r, 253, l),
        Acc::Fixed(n, ..) => if r.flip(3) { g::bytes(r, 40, l) } else { g::fill(r, *n, l) },
        Acc::V4(..) | Acc::U32(..) | Acc::Date(..) => if r.flip(5) { g::bytes(r, 40, l) } else { g::fill(r, 4, l) },
        Acc::V6(..) => if r.flip(5) { g::bytes(r, 40, l) } else { g::fill(r, 16, l) },
        Acc::U16(..) => if r.flip(5) { g::bytes(r, 40, l) } else { g::fill(r, 2, l) },
        Acc::P4(..) => if r.flip(5) { g::bytes(r, 40, l) } else { g::fill(r, 6, l) },
        Acc::P6(..) => { let n = r.range(0, 20); g::fill(r, n, l) }
        Acc::TInt(..) => { let mut v = if r.flip(5) { g::bytes(r, 40, l) } else { g::fill(r, 5, l) }; if !v.is_empty() && !r.flip(4) { v[0] = r.below(0x21) as u8; } v }
        Acc::TStr(..) => { let mut v = g::text(r, 80, l); if !v.is_empty() && r.flip(2) { v[0] = r.below(0x21) as u8; } v }
        Acc::UPw(..) => if r.flip(4) { g::bytes(r, 140, l) } else { let p = g::bytes(r, 128, l); o::hidden(s, au, &p) },
        Acc::TPw(..) => if r.flip(4) { g::bytes(r, 250, l) } else { let p = g::bytes(r, 240, l); let salt = [0x80 | r.byte(), r.byte()]; o::cat(&[&[r.byte()], &salt, &o::hidden(s, &o::cat(&[au, &salt]), &p)]) },
    }
}
pub fn gen(rows: &[Row], only_cat: bool, r: &mut Rng, l: &Lits) -> Case {
    let mut row = r.below(rows.len() as u64) as usize;
    if only_cat { while !matches!(rows[row].acc, Acc::Cat(..)) { row = r.below(rows.len() as u64) as usize; } }
    let (s, au) = (if r.flip(10) { vec![] } else { g::nzsecret(r, l) }, g::fill(r, 16, l));
    let v = if let Acc::Cat(..) = rows[row].acc { let n = match r.below(4) { 0 => 253 * r.range(0, 4) + r.range(0, 2), 1 => (253 * r.range(1, 4)).saturating_sub(1), _ => r.range(0, 1100) }; g::fill(r, n, l) } else {
        let x = raw(rows, row, r, l, &s, &au);
        match rows[row].acc { Acc::UPw(..) => g::bytes(r, 140, l), Acc::TPw(..) => g::bytes(r, 250, l), Acc::P4(..) if r.flip(2) => g::fill(r, 4, l), _ => x }
    };
    let mut b = vec![v, s.clone(), au.clone()];
    for _ in 0..r.below(5) {
        let mut x;
        if r.flip(2) { x = vec![rows[row].num]; x.extend(raw(rows, row, r, l, &s, &au)); } else { x = vec![g::typ(r, l)]; x.extend(g::bytes(r, 20, l)); }
        b.push(x);
    }
    Case::new("acc", b, vec![row as i64, if r.flip(3) { -1 } else { r.byte() as i64 }, r.below(4) as i64])
}
