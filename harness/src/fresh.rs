//! Bounded statistical look at values that are to be unpredictable (C26). Every threshold is so far from what
//! a uniform source yields that a false alarm has probability below 1e-9 per run.
use crate::core_ops::code;
use crate::run::{hex, Case};
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use std::collections::{HashMap, HashSet};
type R = Result<(), String>;
const N: usize = 2048;

fn top(it: impl Iterator<Item = u8>) -> (u8, usize) {
    let mut m = [0usize; 256];
    for x in it { m[x as usize] += 1; }
    let k = (0..256).max_by_key(|i| m[*i]).unwrap();
    (k as u8, m[k])
}
/// rows of octets, each octet of which is to be fresh in the bits of `mask`
fn rows(what: &str, v: &[Vec<u8>], mask: &[u8]) -> R {
    let n = v.len();
    let w = mask.len();
    if let Some(r) = v.iter().find(|r| r.len() != w) { return Err(format!("{what}: {} octets instead of {w}", r.len())); }
    let few = n / 8;
    for i in 0..w {
        let m = mask[i];
        let need = (m.count_ones().min(7) as f64).exp2() as usize * 3 / 4;
        let d = v.iter().map(|r| r[i] & m).collect::<HashSet<_>>().len();
        if d < need { return Err(format!("{what}: octet {i} takes only {d} values in {n} draws")); }
        for b in 0..8 {
            if m >> b & 1 == 1 {
                let c = v.iter().filter(|r| r[i] >> b & 1 == 1).count();
                if c < n / 2 - n * 3 / 20 || c > n / 2 + n * 3 / 20 { return Err(format!("{what}: bit {b} of octet {i} is set {c} times in {n} draws")); }
            }
        }
        // the next value is a constant away from this one
        let (k, c) = top(v.windows(2).map(|x| x[1][i].wrapping_sub(x[0][i]) & m));
        if c > few { return Err(format!("{what}: octet {i} moves by {k} between consecutive draws {c} times in {n}")); }
        let (k, c) = top(v.windows(2).map(|x| (x[1][i] ^ x[0][i]) & m));
        if c > few { return Err(format!("{what}: octet {i} differs by the bits {k:#x} between consecutive draws {c} times in {n}")); }
        // one octet of a row is a function of another one
        for j in 0..i {
            let mm = m & mask[j];
            let (k, c) = top(v.iter().map(|r| (r[i] ^ r[j]) & mm));
            if c > few { return Err(format!("{what}: octets {j} and {i} differ by the bits {k:#x} {c} times in {n}")); }
            let (k, c) = top(v.iter().map(|r| r[i].wrapping_sub(r[j]) & mm));
            if c > few { return Err(format!("{what}: octet {i} is octet {j} plus {k} {c} times in {n}")); }
        }
    }
    Ok(())
}
fn packets(c: &Case, n: usize) -> Vec<Packet> {
    let cd = code(c.nn(0) as u8);
    (0..n).map(|_| if c.nn(1) == 1 { Packet::new_with_identifier(cd, c.by(0), c.nn(2) as u8) } else { Packet::new(cd, c.by(0)) }).collect()
}
fn salts(c: &Case, n: usize) -> Result<Vec<Vec<u8>>, String> {
    let tag = Tag::new(c.nn(3) as u8);
    (0..n).map(|_| {
        let a = AVP::from_tunnel_password(c.nn(0) as u8, if c.nn(3) < 0 { None } else { Some(&tag) }, c.by(1), c.by(0), c.by(2)).map_err(|e| format!("{e:?}"))?;
        let v = a.encode_bytes();
        if v.len() < 3 { return Err(format!("{} octets of tunnel password", v.len())); }
        Ok(v[1..3].to_vec())
    }).collect()
}
pub fn emit() {
    let c = Case::new("", vec![b"secret".to_vec(), b"pw".to_vec(), vec![7; 16]], vec![1, 0, 0, 1]);
    for p in packets(&c, 4) { println!("{}", hex(p.get_authenticator())); }
    let ids: Vec<u8> = packets(&c, 16).iter().map(|p| p.get_identifier()).collect();
    println!("{}", hex(&ids));
    println!("{}", hex(&salts(&c, 12).unwrap_or_default().concat()));
}
pub fn exec(c: &Case) -> R {
    match &c.op[..] {
        "fresh" => {
            let p = packets(c, N);
            let a: Vec<Vec<u8>> = p.iter().map(|x| { let mut v = x.get_authenticator().clone(); if c.nn(1) == 0 { v.push(x.get_identifier()); } v }).collect();
            rows(if c.nn(1) == 0 { "authenticator and identifier (octet 16)" } else { "authenticator" }, &a, &vec![255; if c.nn(1) == 0 { 17 } else { 16 }])?;
            let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
            for (i, x) in a.iter().enumerate() {
                for h in [&x[..8], &x[8..16]] { if let Some(j) = seen.insert(h.to_vec(), i) { return Err(format!("half of an authenticator occurs in packet {j} and again in packet {i}: {}", hex(h))); } }
            }
            Ok(())
        }
        "salts" => {
            let v = salts(c, N)?;
            rows("salt", &v, &[0x7f, 0xff])?;
            let d = v.iter().collect::<HashSet<_>>().len();
            if d < N * 3 / 4 { return Err(format!("only {d} salts in {N} draws")); }
            Ok(())
        }
        // fresh threads and fresh processes do not repeat each other
        "threads" => {
            let v: Vec<Vec<u8>> = (0..8).map(|_| { let c = c.clone(); std::thread::spawn(move || packets(&c, 2).iter().map(|p| p.get_authenticator().clone()).collect::<Vec<_>>()).join().unwrap_or_default() }).flatten().collect();
            if v.iter().collect::<HashSet<_>>().len() != v.len() { return Err("two threads drew the same authenticator".into()); }
            Ok(())
        }
        "processes" => {
            let me = std::env::current_exe().map_err(|e| e.to_string())?;
            let run = || -> Vec<String> { std::process::Command::new(&me).arg("C26emit").output().map(|o| String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()).collect()).unwrap_or_default() };
            let (a, b) = (run(), run());
            for (x, y) in a.iter().zip(&b) { if x == y && !x.is_empty() { return Err(format!("two processes drew the same values {x}")); } }
            Ok(())
        }
        _ => Err(format!("unknown operation {}", c.op)),
    }
}
