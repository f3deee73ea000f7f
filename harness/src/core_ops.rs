//! One operation per observable statement; each compares the real code with the oracle.
use crate::oracle as o;
use crate::run::{hex, Case};
use chrono::{TimeZone, Utc};
use radius::core::avp::{AVPError, AVP};
use radius::core::code::Code;
use radius::core::packet::{Packet, PacketError};
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn code(b: u8) -> Code {
    match b {
        1 => Code::AccessRequest, 2 => Code::AccessAccept, 3 => Code::AccessReject, 4 => Code::AccountingRequest, 5 => Code::AccountingResponse,
        11 => Code::AccessChallenge, 12 => Code::StatusServer, 13 => Code::StatusClient, 40 => Code::DisconnectRequest, 41 => Code::DisconnectACK,
        42 => Code::DisconnectNAK, 43 => Code::CoARequest, 44 => Code::CoAACK, 45 => Code::CoANAK, 255 => Code::Reserved, _ => Code::Invalid,
    }
}
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } } }
type R = Result<(), String>;

fn attrs(c: &Case, from: usize) -> Vec<o::Attr> {
    c.b.iter().skip(from).map(|x| (x.first().cloned().unwrap_or(0), x.get(1..).unwrap_or(&[]).to_vec())).collect()
}
/// a packet with the given header fields; `auth` of 16 bytes is stored verbatim
pub fn mk(cd: u8, id: u8, auth: &[u8], secret: &[u8]) -> Packet {
    if auth.len() == 16 {
        let w = o::cat(&[&[cd, id, 0, 20], auth]);
        if let Ok(p) = Packet::decode(&w, secret) {
            if p.get_code() == code(cd) && p.get_identifier() == id && p.get_authenticator()[..] == *auth { return p; }
        }
    }
    Packet::new_with_identifier(code(cd), secret, id)
}
pub fn put(p: &mut Packet, a: &[o::Attr], mode: i64) {
    if mode & 1 == 0 {
        for (t, v) in a { p.add(AVP::from_bytes(*t, v)); }
    } else {
        let k = a.len() / 2;
        p.extend(a[..k].iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
        p.extend(a[k..].iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
    }
}
/// everything that can be read of the attribute list
pub fn same_attrs(p: &Packet, want: &[o::Attr]) -> R {
    for t in 0..=255u8 {
        let got: Vec<Vec<u8>> = p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect();
        let exp: Vec<Vec<u8>> = want.iter().filter(|x| x.0 == t).map(|x| x.1.clone()).collect();
        ck!(got == exp, "attributes of type {t}: {got:?} instead of {exp:?}");
        let f = p.lookup(t).map(|a| a.encode_bytes());
        ck!(f == exp.first().cloned(), "lookup of type {t}: {f:?} instead of {:?}", exp.first());
        for a in p.lookup_all(t) { ck!(*a == AVP::from_bytes(t, &a.encode_bytes()), "lookup_all({t}) returned an attribute of another type"); }
        if let Some(a) = p.lookup(t) { ck!(*a == AVP::from_bytes(t, &a.encode_bytes()), "lookup({t}) returned an attribute of another type"); }
    }
    if o::fits(want) && o::size(want) + 20 <= 4096 {
        let mut q = p.make_response_packet(Code::AccessAccept);
        let _ = &mut q;
        if let Ok(b) = p.encode() { ck!(b[20..] == o::enc(want)[..], "order of attributes: {} instead of {}", hex(&b[20..]), hex(&o::enc(want))); }
    }
    Ok(())
}
pub fn header(p: &Packet, cd: u8, id: u8, auth: Option<&[u8]>, secret: &[u8]) -> R {
    ck!(p.get_code() == code(cd), "code {:?} instead of {:?}", p.get_code(), code(cd));
    ck!(p.get_identifier() == id, "identifier {} instead of {id}", p.get_identifier());
    ck!(p.get_secret() == secret, "secret {:?} instead of {secret:?}", p.get_secret());
    ck!(p.get_authenticator().len() == 16, "authenticator has {} bytes", p.get_authenticator().len());
    if let Some(a) = auth { ck!(p.get_authenticator() == a, "authenticator {} instead of {}", hex(p.get_authenticator()), hex(a)); }
    Ok(())
}
fn decode(b: &[u8], s: &[u8]) -> R {
    match (Packet::decode(b, s), o::wf(b)) {
        (Ok(p), Some(a)) => {
            header(&p, o::known(b[0]), b[1], Some(&b[4..20]), s)?;
            same_attrs(&p, &a)
        }
        (Ok(_), None) => Err("a malformed packet was accepted".into()),
        (Err(e), Some(_)) => Err(format!("a well-formed packet was rejected: {e}")),
        (Err(e), None) => {
            let n = if b.len() >= 20 { o::plen(b) } else { 0 };
            let ok = match &e {
                PacketError::InsufficientPacketPayloadLengthError(_, _) => b.len() < 20 || b.len() < n,
                PacketError::InsufficientHeaderDefinedPacketLengthError(_, _) => b.len() >= 20 && n < 20,
                PacketError::HeaderDefinedPacketLengthExceedsMaximumLimitError(_, _) => b.len() >= 20 && n > 4096,
                PacketError::DecodingError(_) => b.len() >= 20 && n >= 20 && n <= b.len() && n <= 4096,
                _ => false,
            };
            ck!(ok, "error of the wrong kind: {e:?}");
            Ok(())
        }
    }
}
/// the packet described by the case: n = code, id, mode; b = secret, authenticator, attributes..
fn described(c: &Case) -> (Packet, u8, u8, Vec<u8>, Vec<u8>, Vec<o::Attr>) {
    let (cd, id) = (o::known(c.nn(0) as u8), c.nn(1) as u8);
    let a = attrs(c, 2);
    let mut p = mk(cd, id, c.by(1), c.by(0));
    put(&mut p, &a, c.nn(2));
    let au = p.get_authenticator().clone();
    (p, cd, id, au, c.by(0).to_vec(), a)
}
fn encode(c: &Case, auth: bool) -> R {
    let (p, cd, id, au, s, a) = described(c);
    let good = o::encodable(cd) && o::fits(&a) && o::size(&a) + 20 <= 4096;
    match p.encode() {
        Ok(b) => {
            ck!(good, "encoded although it must fail ({} attribute bytes)", o::size(&a));
            let w = o::wire(cd, id, &au, &s, &o::enc(&a));
            ck!(b.len() == w.len(), "{} bytes instead of {}", b.len(), w.len());
            ck!(b[..4] == w[..4], "header {} instead of {}", hex(&b[..4]), hex(&w[..4]));
            ck!(b[20..] == w[20..], "attributes differ: {} instead of {}", hex(&b[20..]), hex(&w[20..]));
            if auth { ck!(b[4..20] == w[4..20], "authenticator field {} instead of {}", hex(&b[4..20]), hex(&w[4..20])); }
            Ok(())
        }
        Err(e) => {
            ck!(!good, "failed to encode: {e}");
            let sizeok = o::fits(&a) && o::size(&a) + 20 <= 4096;
            match e {
                PacketError::EncodingError(_) => ck!(!sizeok, "encoding error without a size problem"),
                PacketError::UnknownCodeError(_) => ck!(!o::encodable(cd), "unknown code error for code {cd}"),
                e => return Err(format!("error of the wrong kind: {e:?}")),
            }
            Ok(())
        }
    }
}
fn roundtrip(c: &Case) -> R {
    let (p, cd, id, au, s, a) = described(c);
    if let Ok(b) = p.encode() {
        let q = Packet::decode(&b, &s).map_err(|e| format!("the encoding does not decode: {e}"))?;
        header(&q, cd, id, if o::verbatim(cd) { Some(&au) } else { None }, &s)?;
        same_attrs(&q, &a)?;
    }
    Ok(())
}
fn reencode(b: &[u8], s: &[u8], cd: u8) -> R {
    if let Ok(p) = Packet::decode(b, s) {
        let n = o::plen(b);
        let mut q = p.make_response_packet(code(cd));
        let _ = &mut q;
        if let Ok(e) = p.encode() { ck!(e[20..] == b[20..n], "re-encoding changes the attributes: {}", hex(&e[20..])); } else {
            ck!(!o::encodable(o::known(b[0])), "a decoded packet does not re-encode");
        }
    }
    Ok(())
}
fn selfverify(c: &Case) -> R {
    let (p, cd, _, _, s, _) = described(c);
    if s.is_empty() { return Ok(()); }
    if let Ok(b) = p.encode() {
        if o::verbatim(cd) || o::zeroed(cd) {
            ck!(Packet::is_authentic_request(&b, &s), "an encoded request does not verify");
            for (src, what) in [(Some(&p), "constructed"), (None, "decoded")] {
                let q = match src { Some(q) => q.clone(), None => match Packet::decode(&b, &s) { Ok(q) => q, Err(e) => return Err(format!("{e}")) } };
                if what == "constructed" && !o::verbatim(cd) { continue; }
                for r in [2u8, 3, 5, 11, 41, 42, 44, 45] {
                    let mut x = q.make_response_packet(code(r));
                    put(&mut x, &attrs(c, 2), c.nn(2));
                    if let Ok(y) = x.encode() {
                        ck!(Packet::is_authentic_response(&y, &b, &s), "an encoded response (code {r}) to a {what} request does not verify");
                    }
                }
            }
        }
    }
    Ok(())
}
fn list(c: &Case) -> R {
    let mut p = mk(o::known(c.nn(0) as u8), c.nn(1) as u8, &[7; 16], b"s3cret");
    let au = p.get_authenticator().clone();
    let mut m: Vec<o::Attr> = vec![];
    for x in &c.b {
        let t = x.get(1).cloned().unwrap_or(0);
        let v = x.get(2..).unwrap_or(&[]).to_vec();
        match x.first().cloned().unwrap_or(0) % 3 {
            0 => { p.add(AVP::from_bytes(t, &v)); m.push((t, v)); }
            1 => {
                let add: Vec<o::Attr> = v.chunks(2).map(|k| (k[0], k[1..].to_vec())).collect();
                p.extend(add.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
                m.extend(add);
            }
            _ => { p.delete(t); m.retain(|y| y.0 != t); }
        }
        header(&p, o::known(c.nn(0) as u8), c.nn(1) as u8, Some(&au), b"s3cret")?;
    }
    same_attrs(&p, &m)
}
fn is(a: &AVP, t: u8, v: &[u8]) -> R {
    ck!(a.encode_bytes() == v, "value {} instead of {}", hex(&a.encode_bytes()), hex(v));
    ck!(*a == AVP::from_bytes(t, v), "type differs from {t}");
    let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s", 1);
    p.add(a.clone());
    ck!(p.lookup(t).is_some(), "not found under type {t}");
    Ok(())
}
fn badlen<T: std::fmt::Debug>(r: Result<T, AVPError>) -> R {
    match r { Err(AVPError::InvalidAttributeLengthError(_, _)) => Ok(()), x => Err(format!("{x:?} instead of a length error")) }
}
fn tag(n: i64) -> Option<Tag> { if n < 0 { None } else { Some(Tag::new(n as u8)) } }
fn utf8(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

/// parts of decoders shared with the dictionary accessors
pub fn d_user_password(v: &[u8], s: &[u8], au: &[u8], r: Result<Vec<u8>, AVPError>) -> R {
    let lenok = v.len() >= 16 && v.len() <= 128;
    match r {
        Ok(x) => {
            ck!(lenok && !s.is_empty() && au.len() == 16, "accepted a bad length, secret or authenticator");
            let e = o::unhide(s, au, v);
            ck!(x == e, "recovered {} instead of {}", hex(&x), hex(&e));
        }
        Err(AVPError::InvalidAttributeLengthError(_, _)) => ck!(!lenok, "length error for {} bytes", v.len()),
        Err(AVPError::PasswordSecretMissingError()) => ck!(s.is_empty(), "secret is not missing"),
        Err(AVPError::InvalidRequestAuthenticatorLength()) => ck!(au.len() != 16, "authenticator has 16 bytes"),
        Err(e) => return Err(format!("error of the wrong kind: {e:?}")),
    }
    Ok(())
}
pub fn user_password(t: u8, pw: &[u8], s: &[u8], au: &[u8], r: Result<AVP, AVPError>) -> R {
    match r {
        Ok(a) => {
            ck!(pw.len() <= 128 && !s.is_empty() && au.len() == 16, "accepted a bad length, secret or authenticator");
            is(&a, t, &o::hidden(s, au, pw))?;
            let back = a.encode_user_password(s, au);
            ck!(back == Ok(o::upto(pw)), "recovered {back:?} instead of {:?}", o::upto(pw));
        }
        Err(AVPError::UserPasswordPlainTextMaximumLengthExceededError(_)) => ck!(pw.len() > 128, "length error for {} bytes", pw.len()),
        Err(AVPError::PasswordSecretMissingError()) => ck!(s.is_empty(), "secret is not missing"),
        Err(AVPError::InvalidRequestAuthenticatorLength()) => ck!(au.len() != 16, "authenticator has 16 bytes"),
        Err(e) => return Err(format!("error of the wrong kind: {e:?}")),
    }
    Ok(())
}
pub fn tunnel_password(t: u8, tg: i64, pw: &[u8], s: &[u8], au: &[u8], r: Result<AVP, AVPError>) -> R {
    match r {
        Ok(a) => {
            ck!(pw.len() <= 240 && !s.is_empty() && au.len() == 16, "accepted a bad length, secret or authenticator");
            let v = a.encode_bytes();
            ck!(v.len() >= 19, "only {} bytes", v.len());
            ck!(v[0] == if tg < 0 { 0 } else { tg as u8 }, "tag octet {}", v[0]);
            ck!(v[1] & 0x80 != 0, "top bit of the salt is clear");
            let e = o::cat(&[&v[..3], &o::hidden(s, &o::cat(&[au, &v[1..3]]), pw)]);
            is(&a, t, &e)?;
            let back = a.encode_tunnel_password(s, au);
            match back {
                Ok((x, g)) => ck!(x == o::upto(pw) && g.get_value() == v[0], "recovered {} / {}", hex(&x), g.get_value()),
                Err(e) => return Err(format!("cannot recover: {e:?}")),
            }
        }
        Err(AVPError::InvalidAttributeLengthError(_, _)) => ck!(pw.len() > 240, "length error for {} bytes", pw.len()),
        Err(AVPError::PasswordSecretMissingError()) => ck!(s.is_empty(), "secret is not missing"),
        Err(AVPError::InvalidRequestAuthenticatorLength()) => ck!(au.len() != 16, "authenticator has 16 bytes"),
        Err(e) => return Err(format!("error of the wrong kind: {e:?}")),
    }
    Ok(())
}
pub fn d_tunnel_password(v: &[u8], s: &[u8], au: &[u8], r: Result<(Vec<u8>, Tag), AVPError>) -> R {
    let lenok = v.len() >= 19 && v.len() <= 243 && (v.len() - 3) % 16 == 0;
    match r {
        Ok((x, g)) => {
            ck!(lenok && v[1] & 0x80 != 0 && !s.is_empty() && au.len() == 16, "accepted a bad length, salt, secret or authenticator");
            ck!(g.get_value() == v[0], "tag {} instead of {}", g.get_value(), v[0]);
            let e = o::unhide(s, &o::cat(&[au, &v[1..3]]), &v[3..]);
            ck!(x == e, "recovered {} instead of {}", hex(&x), hex(&e));
        }
        Err(AVPError::InvalidAttributeLengthError(_, _)) => ck!(!lenok, "length error for {} bytes", v.len()),
        Err(AVPError::InvalidSaltMSBError(_)) => ck!(v.len() < 2 || v[1] & 0x80 == 0, "salt is valid"),
        Err(AVPError::PasswordSecretMissingError()) => ck!(s.is_empty(), "secret is not missing"),
        Err(AVPError::InvalidRequestAuthenticatorLength()) => ck!(au.len() != 16, "authenticator has 16 bytes"),
        Err(e) => return Err(format!("error of the wrong kind: {e:?}")),
    }
    Ok(())
}
pub fn d_tagged_u32(v: &[u8], r: Result<(u32, Tag), AVPError>) -> R {
    match r {
        Ok((x, g)) => {
            ck!(v.len() == 5 && v[0] <= 0x1f, "accepted {}", hex(v));
            ck!(x == u32::from_be_bytes([v[1], v[2], v[3], v[4]]) && g.get_value() == v[0], "{x} tag {}", g.get_value());
        }
        Err(AVPError::TagMissingError()) => ck!(v.is_empty(), "tag is not missing"),
        Err(AVPError::InvalidTagForIntegerValueError()) => ck!(!v.is_empty() && v[0] > 0x1f, "tag is fine"),
        Err(AVPError::InvalidAttributeLengthError(_, _)) => ck!(!v.is_empty() && v.len() != 5, "length is fine"),
        Err(e) => return Err(format!("error of the wrong kind: {e:?}")),
    }
    Ok(())
}
pub fn d_tagged_str(v: &[u8], r: Result<(String, Option<Tag>), AVPError>) -> R {
    let e: Result<(Vec<u8>, Option<u8>), u8> = if v.is_empty() { Err(0) } else if v[0] == 0 { Err(1) } else if v[0] <= 0x1f {
        if std::str::from_utf8(&v[1..]).is_ok() { Ok((v[1..].to_vec(), Some(v[0]))) } else { Err(2) }
    } else if std::str::from_utf8(v).is_ok() { Ok((v.to_vec(), None)) } else { Err(2) };
    match (&r, &e) {
        (Ok((x, g)), Ok((y, h))) => ck!(x.as_bytes() == &y[..] && g.as_ref().map(|t| t.get_value()) == *h, "{r:?} instead of {e:?}"),
        (Err(AVPError::TagMissingError()), Err(0)) | (Err(AVPError::InvalidTagForStringValueError()), Err(1)) | (Err(AVPError::DecodingError(_)), Err(2)) => {}
        _ => return Err(format!("{r:?} instead of {e:?}")),
    }
    Ok(())
}
pub fn d_string(v: &[u8], r: Result<String, AVPError>) -> R {
    match r {
        Ok(x) => ck!(x.as_bytes() == v, "{:?} instead of {}", x, hex(v)),
        Err(AVPError::DecodingError(_)) => ck!(std::str::from_utf8(v).is_err(), "valid text rejected"),
        Err(e) => return Err(format!("error of the wrong kind: {e:?}")),
    }
    Ok(())
}

pub fn exec(c: &Case) -> R {
    let t = c.nn(0) as u8;
    let v = c.by(0);
    match c.op.as_str() {
        "decode" => decode(v, c.by(1)),
        "encode" => encode(c, false),
        "authfield" => encode(c, true),
        "roundtrip" => roundtrip(c),
        "reencode" => reencode(v, c.by(1), 2),
        "selfverify" => selfverify(c),
        "authreq" => {
            let (g, e) = (Packet::is_authentic_request(v, c.by(1)), o::auth_req(v, c.by(1)));
            ck!(g == e, "returned {g} instead of {e}");
            Ok(())
        }
        "authresp" => {
            let (g, e) = (Packet::is_authentic_response(v, c.by(1), c.by(2)), o::auth_resp(v, c.by(1), c.by(2)));
            ck!(g == e, "returned {g} instead of {e}");
            Ok(())
        }
        "list" => list(c),
        "u32" => { let x = c.nn(1) as u32; let a = AVP::from_u32(t, x); is(&a, t, &x.to_be_bytes())?; ck!(a.encode_u32() == Ok(x), "reads back {:?}", a.encode_u32()); Ok(()) }
        "u16" => { let x = c.nn(1) as u16; let a = AVP::from_u16(t, x); is(&a, t, &x.to_be_bytes())?; ck!(a.encode_u16() == Ok(x), "reads back {:?}", a.encode_u16()); Ok(()) }
        "str" => { let x = utf8(v); let a = AVP::from_string(t, &x); is(&a, t, x.as_bytes())?; ck!(a.encode_string() == Ok(x.clone()), "reads back {:?}", a.encode_string()); Ok(()) }
        "bytes" => { let a = AVP::from_bytes(t, v); is(&a, t, v) }
        "ipv4" => {
            let mut k = v.to_vec(); k.resize(4, 0);
            let x = Ipv4Addr::new(k[0], k[1], k[2], k[3]);
            let a = AVP::from_ipv4(t, &x);
            is(&a, t, &k)?; ck!(a.encode_ipv4() == Ok(x), "reads back {:?}", a.encode_ipv4()); Ok(())
        }
        "ipv6" => {
            let mut k = [0u8; 16]; for (i, b) in v.iter().take(16).enumerate() { k[i] = *b; }
            let x = Ipv6Addr::from(k);
            let a = AVP::from_ipv6(t, &x);
            is(&a, t, &k)?; ck!(a.encode_ipv6() == Ok(x), "reads back {:?}", a.encode_ipv6()); Ok(())
        }
        "date" => {
            let x = Utc.timestamp_opt(c.nn(1) as u32 as i64, (c.nn(2) as u64 % 1_000_000_000) as u32).unwrap();
            let a = AVP::from_date(t, &x);
            is(&a, t, &(c.nn(1) as u32).to_be_bytes())?;
            match a.encode_date() { Ok(d) => ck!(d.timestamp() == x.timestamp() && d.timestamp_subsec_nanos() == 0, "reads back {d:?}"), Err(e) => return Err(format!("{e:?}")) }
            Ok(())
        }
        "du32" => { let r = AVP::from_bytes(t, v).encode_u32(); if v.len() == 4 { ck!(r == Ok(u32::from_be_bytes([v[0], v[1], v[2], v[3]])), "{r:?}"); Ok(()) } else { badlen(r) } }
        "du16" => { let r = AVP::from_bytes(t, v).encode_u16(); if v.len() == 2 { ck!(r == Ok(u16::from_be_bytes([v[0], v[1]])), "{r:?}"); Ok(()) } else { badlen(r) } }
        "dstr" => d_string(v, AVP::from_bytes(t, v).encode_string()),
        "dipv4" => { let r = AVP::from_bytes(t, v).encode_ipv4(); if v.len() == 4 { ck!(r.as_ref().map(|x| x.octets().to_vec()) == Ok(v.to_vec()), "{r:?}"); Ok(()) } else { badlen(r) } }
        "dipv6" => { let r = AVP::from_bytes(t, v).encode_ipv6(); if v.len() == 16 { ck!(r.as_ref().map(|x| x.octets().to_vec()) == Ok(v.to_vec()), "{r:?}"); Ok(()) } else { badlen(r) } }
        "ddate" => {
            let r = AVP::from_bytes(t, v).encode_date();
            if v.len() == 4 { ck!(r.as_ref().map(|x| (x.timestamp(), x.timestamp_subsec_nanos())) == Ok((u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as i64, 0)), "{r:?}"); Ok(()) } else { badlen(r) }
        }
        "tagv" => {
            let g = Tag::new(t);
            ck!(g.get_value() == t && g.is_zero() == (t == 0) && g.is_valid_value() == (t >= 1 && t <= 0x1f), "tag {t}: value {} zero {} valid {}", g.get_value(), g.is_zero(), g.is_valid_value());
            ck!(Tag::new_unused().get_value() == 0, "the unused tag is {}", Tag::new_unused().get_value());
            Ok(())
        }
        "tu32" => {
            let (g, x) = (c.nn(1), c.nn(2) as u32);
            let a = AVP::from_tagged_u32(t, tag(g).as_ref(), x);
            is(&a, t, &o::cat(&[&[if g < 0 { 0 } else { g as u8 }], &x.to_be_bytes()]))?;
            d_tagged_u32(&a.encode_bytes(), a.encode_tagged_u32())
        }
        "tstr" => {
            let (g, x) = (c.nn(1), utf8(v));
            let a = AVP::from_tagged_string(t, tag(g).as_ref(), &x);
            is(&a, t, &if g < 0 { x.as_bytes().to_vec() } else { o::cat(&[&[g as u8], x.as_bytes()]) })?;
            d_tagged_str(&a.encode_bytes(), a.encode_tagged_string())
        }
        "dtu32" => d_tagged_u32(v, AVP::from_bytes(t, v).encode_tagged_u32()),
        "dtstr" => d_tagged_str(v, AVP::from_bytes(t, v).encode_tagged_string()),
        "upw" => user_password(t, v, c.by(1), c.by(2), AVP::from_user_password(t, v, c.by(1), c.by(2))),
        "dupw" => d_user_password(v, c.by(1), c.by(2), AVP::from_bytes(t, v).encode_user_password(c.by(1), c.by(2))),
        "tpw" => tunnel_password(t, c.nn(1), v, c.by(1), c.by(2), AVP::from_tunnel_password(t, tag(c.nn(1)).as_ref(), v, c.by(1), c.by(2))),
        "dtpw" => d_tunnel_password(v, c.by(1), c.by(2), AVP::from_bytes(t, v).encode_tunnel_password(c.by(1), c.by(2))),
        "p4" => { let r = AVP::from_ipv4_prefix(t, v); if v.len() == 4 { let a = r.map_err(|e| format!("{e:?}"))?; is(&a, t, &o::cat(&[&[0, 32], v]))?; ck!(a.encode_ipv4_prefix() == Ok(v.to_vec()), "reads back {:?}", a.encode_ipv4_prefix()); Ok(()) } else { badlen(r) } }
        "p6" => { let r = AVP::from_ipv6_prefix(t, v); if v.len() <= 16 { let a = r.map_err(|e| format!("{e:?}"))?; is(&a, t, &o::cat(&[&[0, (v.len() * 8) as u8], v]))?; ck!(a.encode_ipv6_prefix() == Ok(v.to_vec()), "reads back {:?}", a.encode_ipv6_prefix()); Ok(()) } else { badlen(r) } }
        "dp4" => { let r = AVP::from_bytes(t, v).encode_ipv4_prefix(); if v.len() == 6 { ck!(r == Ok(v[2..].to_vec()), "{r:?}"); Ok(()) } else { badlen(r) } }
        "dp6" => { let r = AVP::from_bytes(t, v).encode_ipv6_prefix(); if v.len() >= 2 { ck!(r == Ok(v[2..].to_vec()), "{r:?}"); Ok(()) } else { badlen(r) } }
        "vsa" => {
            let x = utf8(v); let id = c.nn(1) as i32;
            let a = StringVSA::new(id, t, &x);
            let n = x.len() + 2;
            let e = o::cat(&[&id.to_be_bytes(), &[t, n as u8], x.as_bytes()]);
            let m = a.message();
            ck!(m.len() == e.len() && m[..5] == e[..5] && m[6..] == e[6..] && (n > 255 || m[5] == e[5]), "{} instead of {}", hex(&m), hex(&e));
            if n <= 255 { ck!(a.len() == n && !a.is_empty(), "length {}", a.len()); }
            vsa_added(&a, &m)
        }
        "tvsa" => {
            let x = utf8(v); let (id, g) = (c.nn(1) as i32, c.nn(2) as u8);
            let a = TaggedStringVSA::new(id, t, g, &x);
            let n = x.len() + 3;
            let e = o::cat(&[&id.to_be_bytes(), &[t, n as u8, g], x.as_bytes()]);
            let m = a.message();
            ck!(m.len() == e.len() && m[..5] == e[..5] && m[6..] == e[6..] && (n > 255 || m[5] == e[5]), "{} instead of {}", hex(&m), hex(&e));
            if n <= 255 { ck!(a.len() == n && !a.is_empty(), "length {}", a.len()); }
            vsa_added(&a, &m)
        }
        "new" => {
            let (cd, id) = (o::known(t), c.nn(1) as u8);
            let p = Packet::new(code(cd), v);
            header(&p, cd, p.get_identifier(), None, v)?;
            same_attrs(&p, &[])?;
            let mut p = Packet::new_with_identifier(code(cd), v, id);
            header(&p, cd, id, None, v)?;
            same_attrs(&p, &[])?;
            let a = attrs(c, 1);
            put(&mut p, &a, 0);
            let au = p.get_authenticator().clone();
            let k = c.nn(2) as u8;
            p.set_identifier(k);
            header(&p, cd, k, Some(&au), v)?;
            same_attrs(&p, &a)?;
            for r in o::CODES {
                let q = p.make_response_packet(code(r));
                header(&q, r, k, Some(&au), v)?;
                same_attrs(&q, &[])?;
                header(&p, cd, k, Some(&au), v)?;
            }
            Ok(())
        }
        "code" => {
            let k = o::known(t);
            ck!(Code::from(t) == code(k) && Code::from(t) as u8 == k, "{t} converts to {:?}", Code::from(t));
            let i = o::CODES.iter().position(|x| *x == k).unwrap();
            ck!(Code::from(t).string() == o::NAMES[i], "name {:?} instead of {:?}", Code::from(t).string(), o::NAMES[i]);
            ck!(code(k) as u8 == k, "number of {:?} is {}", code(k), code(k) as u8);
            Ok(())
        }
        "debug" => {
            if let (Ok(p), Ok(q)) = (Packet::decode(v, c.by(1)), Packet::decode(v, c.by(2))) {
                let (x, y) = (format!("{p:?}"), format!("{q:?}"));
                ck!(x == y, "the debug output depends on the secret: {x} / {y}");
                let (x, y) = (format!("{p:#?}"), format!("{q:#?}"));
                ck!(x == y, "the alternate debug output depends on the secret: {x} / {y}");
                // every other field shows
                let base = format!("{p:?}");
                for i in [0usize, 1, 4, 19] {
                    let mut w = v.to_vec();
                    w[i] = w[i].wrapping_add(1);
                    if i == 0 && o::known(w[0]) == o::known(v[0]) { continue; }
                    if let Ok(z) = Packet::decode(&w, c.by(1)) { ck!(format!("{z:?}") != base, "the debug output does not show byte {i} of the header"); }
                }
                let mut z = p.clone();
                z.add(AVP::from_bytes(9, &[1, 2, 3]));
                ck!(format!("{z:?}") != base, "the debug output does not show an attribute");
            }
            Ok(())
        }
        _ => crate::fresh::exec(c),
    }
}
/// adding a vendor-specific attribute stores its message under type 26 and changes nothing else
fn vsa_added(a: &dyn VSA, m: &[u8]) -> R {
    let mut p = mk(1, 7, &[3; 16], b"s");
    let mut l = vec![(26u8, vec![1u8, 2]), (1, b"u".to_vec())];
    put(&mut p, &l, 0);
    let au = p.get_authenticator().clone();
    radius::core::rfc2865::add_vsa_attribute(&mut p, a);
    l.push((26, m.to_vec()));
    header(&p, 1, 7, Some(&au), b"s")?;
    same_attrs(&p, &l)
}
