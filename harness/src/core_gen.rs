//! Inputs: exhaustive lists of small ones, then random ones biased by constants
//! that occur in the sources under test.
use crate::oracle as o;
use crate::rng::Rng;
use crate::run::{Case, Lits};

pub fn fill(r: &mut Rng, n: usize, l: &Lits) -> Vec<u8> {
    match r.below(5) {
        0 => vec![*r.pick(&[0u8, 1, 0x61, 0x7f, 0x80, 0xff]); n],
        1 => (0..n).map(|i| i as u8).collect(),
        2 => (0..n).map(|_| *r.pick(&l.ints) as u8).collect(),
        3 => { let s = r.pick(&l.strs).clone(); (0..n).map(|i| if s.is_empty() { 0 } else { s[i % s.len()] }).collect() }
        _ => (0..n).map(|_| r.byte()).collect(),
    }
}
pub fn len(r: &mut Rng, max: usize, l: &Lits) -> usize {
    let x = match r.below(4) {
        0 => r.below(8) as usize,
        1 => (*r.pick(&l.ints) as usize % (max + 2)).wrapping_add(r.below(3) as usize).saturating_sub(1),
        2 => r.below(max as u64 + 1) as usize,
        _ => *r.pick(&[0usize, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 48, 112, 127, 128, 129, 239, 240, 241, 242, 243, 252, 253, 254, 255, 256]),
    };
    x.min(max)
}
pub fn bytes(r: &mut Rng, max: usize, l: &Lits) -> Vec<u8> { let n = len(r, max, l); fill(r, n, l) }
pub fn secret(r: &mut Rng, l: &Lits) -> Vec<u8> {
    match r.below(6) { 0 => vec![], 1 => b"secret".to_vec(), 2 => fill(r, 16, l), 3 => vec![0], _ => { let n = r.range(1, 40); fill(r, n, l) } }
}
pub fn nzsecret(r: &mut Rng, l: &Lits) -> Vec<u8> { let s = secret(r, l); if s.is_empty() { b"x".to_vec() } else { s } }
pub fn typ(r: &mut Rng, l: &Lits) -> u8 { if r.flip(3) { *r.pick(&l.ints) as u8 } else { r.byte() } }
pub fn text(r: &mut Rng, max: usize, l: &Lits) -> Vec<u8> {
    let n = len(r, max, l);
    let mut s = String::new();
    while s.len() < n {
        s.push(match r.below(6) { 0 => 'é', 1 => '漢', 2 => '\u{1F600}', 3 => (r.below(32) as u8) as char, _ => (32 + r.below(95) as u8) as char });
    }
    let mut b = s.into_bytes();
    while std::str::from_utf8(&b[..n.min(b.len())]).is_err() { b.pop(); b.truncate(n); if b.is_empty() { break; } if std::str::from_utf8(&b).is_ok() { break; } }
    b.truncate(n);
    if std::str::from_utf8(&b).is_err() { b = String::from_utf8_lossy(&b).into_owned().into_bytes(); }
    b
}
/// attribute list
pub fn attrs(r: &mut Rng, l: &Lits) -> Vec<o::Attr> {
    let k = match r.below(8) { 0 => 0, 1 => 1, 2 => r.below(40) as usize, 3 if r.flip(3) => 16, 4 if r.flip(8) => r.range(250, 300), _ => r.below(5) as usize };
    let big = r.flip(4);
    let pool: Vec<u8> = (0..3).map(|_| typ(r, l)).collect();
    let mut v: Vec<o::Attr> = (0..k).map(|_| {
        let t = if r.flip(2) { *r.pick(&pool) } else { typ(r, l) };
        let b = if big { let n = *r.pick(&[253usize, 252, 200, 254, 255, 253, 253]); let n = if r.flip(20) { 300 } else { n.min(if r.flip(6) { 255 } else { 253 }) }; fill(r, n, l) } else { bytes(r, 254, l) };
        (t, b)
    }).collect();
    // hit the packet size limit from both sides
    if r.flip(4) {
        v.retain(|x| x.1.len() <= 253);
        let target = *r.pick(&[4076usize, 4077, 4075, 4074, 4078, 4079, 65516, 65515, 65517, 65536, 65536 + 20, 65535]);
        if target < 5000 || r.flip(6) {
            while o::size(&v) > target { v.pop(); }
            while o::size(&v) < target {
                let d = target - o::size(&v);
                if d < 2 { break; }
                let n = if d - 2 > 253 { if d - 255 < 2 { 252 } else { 253 } } else { d - 2 };
                let t = typ(r, l);
                v.push((t, fill(r, n, l)));
            }
        }
    }
    v
}
pub fn rcode(r: &mut Rng) -> u8 { *r.pick(&o::CODES) }
pub fn wirepkt(r: &mut Rng, l: &Lits, s: &[u8]) -> Vec<u8> {
    let mut a = attrs(r, l);
    a.retain(|x| x.1.len() <= 253);
    while o::size(&a) > 4076 { a.pop(); }
    let c = if r.flip(6) { r.byte() } else { rcode(r) };
    let au = fill(r, 16, l);
    o::wire(c, r.byte(), &au, s, &o::enc(&a))
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, l: &Lits) {
    match r.below(9) {
        0 => { let k = r.below(b.len() as u64 + 1) as usize; b.truncate(k); }
        1 => { let n = r.range(1, 300); let x = fill(r, n, l); b.extend(x); }
        2 if b.len() > 3 => { let d = r.range(0, 6) as i64 - 3; let n = (o::plen(b) as i64 + d).clamp(0, 65535) as usize; b[2] = (n >> 8) as u8; b[3] = n as u8; }
        3 if b.len() > 3 => { let n = *r.pick(&[0usize, 1, 19, 20, 21, 4095, 4096, 4097, 8192, 65535, 256]); b[2] = (n >> 8) as u8; b[3] = n as u8; }
        4 if b.len() > 20 => { let i = r.range(20, b.len() - 1); b[i] = *r.pick(&[0u8, 1, 2, 3, 255, 254, 128]); }
        5 if !b.is_empty() => { let i = r.below(b.len() as u64) as usize; b[i] = r.byte(); }
        6 if !b.is_empty() => { let i = r.below(b.len() as u64) as usize; b[i] ^= 1 << r.below(8); }
        7 if b.len() >= 20 => { let i = r.range(4, 19); b[i] ^= 1 << r.below(8); }
        8 if b.len() >= 20 => { let n = b.len().min(65535); b[2] = (n >> 8) as u8; b[3] = n as u8; }
        _ => {}
    }
}
/// bytes whose attribute area was edited and whose Length is right again
fn areaedit(r: &mut Rng, l: &Lits) -> Vec<u8> {
    let s = secret(r, l);
    let mut b = wirepkt(r, l, &s);
    for _ in 0..r.range(1, 3) {
        if b.len() > 20 { match r.below(4) { 0 => { let i = r.range(20, b.len() - 1); b[i] = *r.pick(&[0u8, 1, 2, 3, 4, 255]); } 1 => { b.pop(); } 2 => { let x = r.byte() % 4; b.push(x); } _ => { let k = r.range(20, b.len()); b.truncate(k); } } }
        else { let x = *r.pick(&[0u8, 1, 2, 3, 255]); b.push(x); }
    }
    if b.len() > 4096 { b.truncate(4096); }
    let n = b.len();
    b[2] = (n >> 8) as u8;
    b[3] = n as u8;
    if r.flip(4) { let x = fill(r, 7, l); b.extend(x); }
    b
}
pub fn anybytes(r: &mut Rng, l: &Lits) -> (Vec<u8>, Vec<u8>) {
    let s = secret(r, l);
    let b = match r.below(6) {
        0 => bytes(r, 64, l),
        1 | 2 => areaedit(r, l),
        3 => wirepkt(r, l, &s),
        _ => { let mut b = wirepkt(r, l, &s); for _ in 0..r.range(1, 3) { mutate(r, &mut b, l); } b }
    };
    (b, s)
}
fn described(r: &mut Rng, l: &Lits, op: &str) -> Case {
    let a = attrs(r, l);
    let (s, au) = (secret(r, l), fill(r, 16, l));
    let mut b = vec![s, if r.flip(8) { vec![] } else { au }];
    b.extend(a.iter().map(|(t, v)| { let mut x = vec![*t]; x.extend(v); x }));
    Case::new(op, b, vec![rcode(r) as i64, r.byte() as i64, r.below(2) as i64])
}
fn int(r: &mut Rng, l: &Lits) -> i64 {
    match r.below(4) { 0 => *r.pick(&l.ints) as u32 as i64, 1 => (1u64 << r.below(33)).wrapping_sub(r.below(2)) as u32 as i64, _ => r.next() as u32 as i64 }
}
fn auth(r: &mut Rng, l: &Lits) -> Vec<u8> { if r.flip(8) { bytes(r, 40, l) } else { fill(r, 16, l) } }
fn pw(r: &mut Rng, max: usize, l: &Lits) -> Vec<u8> {
    let mut p = bytes(r, max, l);
    if !r.flip(5) { for x in p.iter_mut() { if *x == 0 { *x = 0x31; } } }
    p
}

pub fn gen(prop: &str, r: &mut Rng, l: &Lits) -> Case {
    let t = typ(r, l) as i64;
    match prop {
        "C01" => { let (b, s) = anybytes(r, l); Case::new("decode", vec![b, s], vec![]) }
        "C02" => described(r, l, "encode"),
        "C03" => if r.flip(2) { described(r, l, "roundtrip") } else { let (b, s) = anybytes(r, l); Case::new("reencode", vec![b, s], vec![]) },
        "C04" => if r.flip(2) { described(r, l, "authfield") } else { described(r, l, "selfverify") },
        "C05" => {
            let s = if r.flip(8) { vec![] } else { nzsecret(r, l) };
            let mut s2 = s.clone();
            if r.flip(6) { s2 = secret(r, l); }
            let mut q = wirepkt(r, l, &s);
            if r.flip(2) { q[0] = *r.pick(&[1u8, 4, 12, 40, 43, 2, 13]); q = o::wire(q[0], q[1], &q[4..20], &s, &q[20..]); }
            if r.flip(2) {
                // padding after the declared length, hashed as given
                if r.flip(4) { let x = fill(r, 3, l); q.extend(x); if o::zeroed(q[0]) && r.flip(2) { let h = o::md5(&o::cat(&[&q[..4], &[0; 16], &q[20..], &s])); q[4..20].copy_from_slice(&h); } }
                if !r.flip(3) { mutate(r, &mut q, l); }
                Case::new("authreq", vec![q, s2], vec![])
            } else {
                let mut a = attrs(r, l);
                a.retain(|x| x.1.len() <= 253);
                while o::size(&a) > 4076 { a.pop(); }
                let c = if r.flip(4) { r.byte() } else { *r.pick(&[2u8, 3, 5, 11, 41, 42, 44, 45]) };
                let e = o::enc(&a);
                let n = e.len() + 20;
                let head = [c, if r.flip(3) { r.byte() } else { q[1] }, (n >> 8) as u8, n as u8];
                let mut p = o::cat(&[&head, &o::md5(&o::cat(&[&head, &q[4..20], &e, &s])), &e]);
                match r.below(4) { 0 => mutate(r, &mut p, l), 1 => mutate(r, &mut q, l), _ => {} }
                Case::new("authresp", vec![p, q, s2], vec![])
            }
        }
        "C06" => {
            let pool: Vec<u8> = (0..4).map(|_| typ(r, l)).collect();
            let k = r.below(14) as usize;
            let b = (0..k).map(|_| { let ty = *r.pick(&pool); match r.below(5) { 0 => vec![2, ty], 1 => { let mut v = vec![1, 0]; for _ in 0..r.below(5) { v.push(*r.pick(&pool)); v.push(r.byte()); } v } _ => { let mut v = vec![0, ty]; v.extend(bytes(r, 6, l)); v } } }).collect();
            Case::new("list", b, vec![rcode(r) as i64, r.byte() as i64])
        }
        "C07" => match r.below(13) {
            0 => Case::new("u32", vec![], vec![t, int(r, l)]),
            1 => Case::new("u16", vec![], vec![t, int(r, l)]),
            2 => Case::new("str", vec![text(r, 300, l)], vec![t]),
            3 => Case::new("bytes", vec![bytes(r, 300, l)], vec![t]),
            4 => Case::new("ipv4", vec![fill(r, 4, l)], vec![t]),
            5 => Case::new("ipv6", vec![fill(r, 16, l)], vec![t]),
            6 => Case::new("date", vec![], vec![t, int(r, l), r.below(1_000_000_000) as i64]),
            7 => Case::new("du32", vec![bytes(r, 40, l)], vec![t]),
            8 => Case::new("du16", vec![bytes(r, 40, l)], vec![t]),
            9 => Case::new("dstr", vec![if r.flip(2) { text(r, 300, l) } else { bytes(r, 300, l) }], vec![t]),
            10 => Case::new("dipv4", vec![if r.flip(2) { fill(r, 4, l) } else { bytes(r, 40, l) }], vec![t]),
            11 => Case::new("dipv6", vec![if r.flip(2) { fill(r, 16, l) } else { bytes(r, 40, l) }], vec![t]),
            _ => Case::new("ddate", vec![if r.flip(2) { fill(r, 4, l) } else { bytes(r, 40, l) }], vec![t]),
        },
        "C08" => match r.below(5) {
            0 => Case::new("tu32", vec![], vec![t, if r.flip(4) { -1 } else { r.byte() as i64 }, int(r, l)]),
            1 => Case::new("tstr", vec![text(r, 300, l)], vec![t, if r.flip(4) { -1 } else { r.byte() as i64 }]),
            2 => Case::new("dtu32", vec![if r.flip(2) { fill(r, 5, l) } else { bytes(r, 40, l) }], vec![t]),
            3 => { let mut v = if r.flip(2) { text(r, 300, l) } else { bytes(r, 300, l) }; if !v.is_empty() && r.flip(2) { v[0] = r.below(0x28) as u8; } Case::new("dtstr", vec![v], vec![t]) }
            _ => Case::new("tagv", vec![], vec![r.byte() as i64]),
        },
        "C09" => if r.flip(2) { Case::new("upw", vec![pw(r, 300, l), secret(r, l), auth(r, l)], vec![t]) } else {
            let (s, a) = (secret(r, l), auth(r, l));
            let v = if r.flip(2) && a.len() == 16 { o::hidden(&s, &a, &pw(r, 128, l)) } else { bytes(r, 300, l) };
            Case::new("dupw", vec![v, s, a], vec![t])
        },
        "C10" => if r.flip(2) { Case::new("tpw", vec![pw(r, 300, l), secret(r, l), auth(r, l)], vec![t, if r.flip(4) { -1 } else { r.byte() as i64 }]) } else {
            let (s, a) = (secret(r, l), auth(r, l));
            let mut v = if r.flip(2) && a.len() == 16 { let salt = [r.byte() | 0x80, r.byte()]; o::cat(&[&[r.byte()], &salt, &o::hidden(&s, &o::cat(&[&a, &salt]), &pw(r, 240, l))]) } else { bytes(r, 300, l) };
            if v.len() > 1 && r.flip(8) { v[1] &= 0x7f; }
            if r.flip(6) { let n = r.below(20) as usize; v.truncate(v.len().saturating_sub(n)); }
            Case::new("dtpw", vec![v, s, a], vec![t])
        },
        "C11" => { let op = *r.pick(&["p4", "p6", "dp4", "dp6"]); let n = match r.below(3) { 0 => 4, 1 => r.below(20) as usize, _ => 6 }; let v = if r.flip(6) { bytes(r, 300, l) } else { fill(r, n, l) }; Case::new(op, vec![v], vec![t]) }
        "C12" => if r.flip(2) { Case::new("vsa", vec![text(r, 300, l)], vec![t, int(r, l) as i32 as i64]) } else { Case::new("tvsa", vec![text(r, 300, l)], vec![t, int(r, l) as i32 as i64, r.byte() as i64]) },
        "C20" => { let mut b = vec![bytes(r, 80, l)]; for _ in 0..r.below(5) { let mut x = vec![typ(r, l)]; x.extend(bytes(r, 20, l)); b.push(x); } Case::new("new", b, vec![rcode(r) as i64, r.byte() as i64, r.byte() as i64]) }
        "C21" => Case::new("code", vec![], vec![r.byte() as i64]),
        "C22" => { let s = secret(r, l); let b = wirepkt(r, l, &s); let s2 = if r.flip(4) { let mut x = s.clone(); x.reverse(); x } else { secret(r, l) }; Case::new("debug", vec![b, s, s2], vec![]) }
        "C16" => { let k = r.range(1, 12); let p = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"][k - 1]; gen(p, r, l) }
        "C23" => { let p = *r.pick(&["C02", "C04", "C05", "C09", "C10"]); gen(p, r, l) }
        "C26" => {
            let s = nzsecret(r, l);
            match r.below(4) {
                0 | 1 => { let n = *r.pick(&[0usize, 1, 5, 15, 16, 17, 200]); Case::new("salts", vec![s, fill(r, n, l), fill(r, 16, l)], vec![t, 0, 0, if r.flip(4) { -1 } else { r.byte() as i64 }]) }
                2 => Case::new("fresh", vec![if r.flip(6) { vec![] } else { s }], vec![rcode(r) as i64, 0, 0]),
                _ => Case::new("fresh", vec![s], vec![rcode(r) as i64, 1, r.byte() as i64]),
            }
        }
        _ => Case::new("code", vec![], vec![1]),
    }
}
pub fn fixed(prop: &str, l: &Lits) -> Vec<Case> {
    let mut v = vec![];
    let mut r = Rng::new(77);
    let mut ty: Vec<u8> = l.ints.iter().filter(|x| **x < 256).map(|x| *x as u8).collect();
    ty.sort();
    ty.dedup();
    match prop {
        "C26" => {
            v.push(Case::new("processes", vec![], vec![]));
            for c in o::CODES { v.push(Case::new("fresh", vec![b"secret".to_vec()], vec![c as i64, 0, 0])); v.push(Case::new("fresh", vec![b"secret".to_vec()], vec![c as i64, 1, 7])); v.push(Case::new("threads", vec![b"secret".to_vec()], vec![c as i64, 0, 0])); }
        }
        "C21" => for i in 0..256 { v.push(Case::new("code", vec![], vec![i])); },
        "C20" => for c in o::CODES { for id in [0, 1, 127, 128, 255] { v.push(Case::new("new", vec![b"sec".to_vec(), vec![1, 2, 3]], vec![c as i64, id, 255 - id])); } },
        "C01" => {
            for n in 0..64usize { for d in 0..=n + 2 { let mut b = vec![1u8; n]; if n > 3 { b[2] = 0; b[3] = d as u8; } v.push(Case::new("decode", vec![b, b"s".to_vec()], vec![])); } }
            // every small attribute area over {0,1,2,3,4}
            for n in 0..=5u32 { for k in 0..5u64.pow(n) { let mut x = k; let mut a = vec![]; for _ in 0..n { a.push((x % 5) as u8); x /= 5; } let m = 20 + a.len(); let h = [2u8, 9, 0, m as u8]; v.push(Case::new("decode", vec![o::cat(&[&h, &[5; 16], &a]), b"s".to_vec()], vec![])); } }
            for c in 0..=255u8 { v.push(Case::new("decode", vec![o::cat(&[&[c, c, 0, 20], &[c; 16]]), vec![]], vec![])); }
            for n in [4094usize, 4095, 4096, 4097, 5000, 65535] { let mut b = vec![3u8; n]; b[2] = (n >> 8) as u8; b[3] = n as u8; for i in (20..n).step_by(3) { if i + 1 < n { b[i + 1] = if n - i < 6 { (n - i) as u8 } else { 3 }; } if n - i < 6 { break; } } v.push(Case::new("decode", vec![b, vec![1]], vec![])); }
        }
        "C02" | "C04" | "C23" => {
            let ops: &[&str] = if prop == "C02" { &["encode"] } else { &["authfield", "selfverify"] };
            for op in ops { for c in o::CODES { for n in [0usize, 1, 252, 253, 254, 255, 256, 300] { v.push(Case::new(op, vec![b"secret".to_vec(), vec![9; 16], { let mut x = vec![1u8]; x.extend(vec![7u8; n]); x }], vec![c as i64, 5, 0])); } } }
            for op in ops { for total in [4074usize, 4075, 4076, 4077, 4078, 65515, 65516, 65517, 65536, 65556] { for c in [1u8, 4, 2] {
                let mut a: Vec<Vec<u8>> = vec![b"secret".to_vec(), vec![9; 16]];
                let mut s = 0;
                while s < total { let d = total - s; if d < 2 { break; } let k = if d - 2 > 253 { if d - 255 < 2 { 252 } else { 253 } } else { d - 2 }; let mut x = vec![80u8]; x.extend(vec![1u8; k]); a.push(x); s += k + 2; }
                v.push(Case::new(op, a, vec![c as i64, 5, 0]));
            } } }
            if prop == "C23" { v.extend(fixed("C09", l)); v.extend(fixed("C10", l)); }
        }
        "C05" => {
            for s in [vec![], b"secret".to_vec()] {
                for c in 0..=255u8 { for z in [false, true] { let w = o::wire(c, 3, &[4; 16], &s, &[1, 3, 9]); let mut w2 = w.clone(); if z { let h = o::md5(&o::cat(&[&w[..4], &[0; 16], &w[20..], &s])); w2[4..20].copy_from_slice(&h); } v.push(Case::new("authreq", vec![w2, s.clone()], vec![])); } }
                for c in [4u8, 40, 43] { let w = o::wire(c, 3, &[4; 16], &s, &[1, 3, 9]); for i in 0..w.len() { for bit in 0..8 { let mut x = w.clone(); x[i] ^= 1 << bit; v.push(Case::new("authreq", vec![x, s.clone()], vec![])); } } }
                for n in 0..40 { let w = o::wire(4, 3, &[4; 16], &s, &[1, 20, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9]); v.push(Case::new("authreq", vec![w[..n].to_vec(), s.clone()], vec![])); v.push(Case::new("authreq", vec![vec![1; n], s.clone()], vec![])); }
                let q = o::wire(1, 3, &[6; 16], &s, &[1, 3, 9]);
                for c in 0..=255u8 { let h = [c, 3, 0, 23]; let p = o::cat(&[&h, &o::md5(&o::cat(&[&h, &q[4..20], &[1, 3, 8], &s])), &[1, 3, 8]]); v.push(Case::new("authresp", vec![p.clone(), q.clone(), s.clone()], vec![]));
                    if c == 2 { for i in 0..p.len() { for bit in 0..8 { let mut x = p.clone(); x[i] ^= 1 << bit; v.push(Case::new("authresp", vec![x, q.clone(), s.clone()], vec![])); } }
                        for i in 0..q.len() { let mut x = q.clone(); x[i] ^= 4; v.push(Case::new("authresp", vec![p.clone(), x, s.clone()], vec![])); }
                        for n in 0..24 { v.push(Case::new("authresp", vec![p.clone(), q[..n.min(q.len())].to_vec(), s.clone()], vec![])); v.push(Case::new("authresp", vec![p[..n.min(p.len())].to_vec(), q.clone(), s.clone()], vec![])); }
                    } }
                // well-authenticated short inputs
                for n in 16..24usize { let p = vec![7u8; n]; v.push(Case::new("authresp", vec![p.clone(), p, s.clone()], vec![])); }
            }
        }
        "C07" => {
            for x in 0..65536 { v.push(Case::new("u16", vec![], vec![(x % 256) as i64, x])); }
            for n in 0..40usize { for op in ["du32", "du16", "dipv4", "dipv6", "ddate", "dstr", "bytes", "str"] { v.push(Case::new(op, vec![(0..n as u8).map(|x| x + 40).collect()], vec![n as i64])); v.push(Case::new(op, vec![vec![0; n]], vec![n as i64])); v.push(Case::new(op, vec![vec![0xff; n]], vec![n as i64])); } }
            for t in 0..=255i64 { v.push(Case::new("u32", vec![], vec![t, 0x01020304])); v.push(Case::new("str", vec![b"ab".to_vec()], vec![t])); v.push(Case::new("bytes", vec![vec![t as u8, 1]], vec![t])); v.push(Case::new("dstr", vec![vec![t as u8]], vec![t])); v.push(Case::new("str", vec![vec![t as u8]], vec![t])); v.push(Case::new("ipv4", vec![vec![t as u8, 2, 3, t as u8]], vec![t])); v.push(Case::new("ipv6", vec![vec![t as u8; 16]], vec![t])); }
            for k in 0..33 { for d in [-1i64, 0, 1] { let x = ((1i64 << k) + d).clamp(0, 0xffff_ffff); v.push(Case::new("u32", vec![], vec![3, x])); v.push(Case::new("date", vec![], vec![3, x, 5])); v.push(Case::new("ddate", vec![(x as u32).to_be_bytes().to_vec()], vec![3])); v.push(Case::new("du32", vec![(x as u32).to_be_bytes().to_vec()], vec![3])); } }
            for n in 248..260usize { v.push(Case::new("bytes", vec![vec![1; n]], vec![1])); v.push(Case::new("str", vec![vec![0x61; n]], vec![1])); }
        }
        "C08" => {
            for t in 0..=255i64 { v.push(Case::new("tagv", vec![], vec![t])); v.push(Case::new("tu32", vec![], vec![64, t, 0xa1b2c3d4])); v.push(Case::new("tstr", vec![b"hello".to_vec()], vec![t, t])); v.push(Case::new("tstr", vec![vec![]], vec![t, t]));
                for n in 0..9usize { let mut b = vec![0x41u8; n]; if n > 0 { b[0] = t as u8; } v.push(Case::new("dtu32", vec![b.clone()], vec![t])); v.push(Case::new("dtstr", vec![b.clone()], vec![t])); if n > 2 { b[2] = 0xff; v.push(Case::new("dtstr", vec![b], vec![t])); } } }
            v.push(Case::new("tu32", vec![], vec![64, -1, 7]));
            v.push(Case::new("tstr", vec![b"x".to_vec()], vec![64, -1]));
            v.push(Case::new("tstr", vec![vec![]], vec![64, -1]));
            v.push(Case::new("tstr", vec![vec![5]], vec![64, -1]));
        }
        "C09" => {
            for n in 0..=145usize { for s in [b"secret".to_vec(), vec![0u8; 20]] { let p: Vec<u8> = (0..n).map(|i| (i % 250 + 1) as u8).collect(); v.push(Case::new("upw", vec![p, s, (0..16).collect()], vec![2])); } }
            for n in 0..=160usize { let p: Vec<u8> = (0..n).map(|_| r.byte()).collect(); v.push(Case::new("dupw", vec![p, b"secret".to_vec(), (1..17).collect()], vec![2])); }
            for n in 0..=40usize { v.push(Case::new("upw", vec![b"hello".to_vec(), b"s".to_vec(), vec![3; n]], vec![2])); v.push(Case::new("dupw", vec![vec![7; 16], b"s".to_vec(), vec![3; n]], vec![2])); v.push(Case::new("upw", vec![b"hello".to_vec(), vec![1; n], vec![3; 16]], vec![2])); v.push(Case::new("dupw", vec![vec![7; 16], vec![1; n], vec![3; 16]], vec![2])); }
            for t in 0..=255 { v.push(Case::new("upw", vec![vec![t as u8; 3], b"s".to_vec(), vec![3; 16]], vec![t])); }
            // plain texts with NULs at every place
            for n in 1..40usize { for k in 0..n { let mut p = vec![0x41u8; n]; p[k] = 0; let h = o::hidden(b"secret", &[1; 16], &p); v.push(Case::new("dupw", vec![h, b"secret".to_vec(), vec![1; 16]], vec![2])); } }
        }
        "C10" => {
            for n in 0..=256usize { let p: Vec<u8> = (0..n).map(|i| (i % 250 + 1) as u8).collect(); v.push(Case::new("tpw", vec![p, b"secret".to_vec(), (0..16).collect()], vec![69, (n % 256) as i64])); }
            for n in 0..=260usize { let mut p: Vec<u8> = (0..n).map(|_| r.byte()).collect(); if n > 1 { p[1] |= 0x80; } v.push(Case::new("dtpw", vec![p, b"secret".to_vec(), (1..17).collect()], vec![69])); }
            for n in 0..=40usize { v.push(Case::new("tpw", vec![b"hello".to_vec(), b"s".to_vec(), vec![3; n]], vec![2, 1])); let mut c = vec![7u8; 19]; c[1] = 0x85; v.push(Case::new("dtpw", vec![c.clone(), b"s".to_vec(), vec![3; n]], vec![2])); v.push(Case::new("tpw", vec![b"hello".to_vec(), vec![1; n], vec![3; 16]], vec![2, -1])); v.push(Case::new("dtpw", vec![c, vec![1; n], vec![3; 16]], vec![2])); }
            for t in 0..=255i64 { let mut c = vec![7u8; 35]; c[1] = t as u8; v.push(Case::new("dtpw", vec![c.clone(), b"s".to_vec(), vec![3; 16]], vec![2])); c[1] = 0x80; c[0] = t as u8; v.push(Case::new("dtpw", vec![c, b"s".to_vec(), vec![3; 16]], vec![2])); v.push(Case::new("tpw", vec![b"abc".to_vec(), b"s".to_vec(), vec![3; 16]], vec![t, t])); }
            for n in 1..40usize { for k in 0..n { let mut p = vec![0x41u8; n]; p[k] = 0; let h = o::hidden(b"secret", &o::cat(&[&[1; 16], &[0x90, 4]]), &p); v.push(Case::new("dtpw", vec![o::cat(&[&[3, 0x90, 4], &h]), b"secret".to_vec(), vec![1; 16]], vec![2])); } }
        }
        "C11" => for n in 0..300usize { for op in ["p4", "p6", "dp4", "dp6"] { v.push(Case::new(op, vec![(0..n).map(|i| (i * 7 + 3) as u8).collect()], vec![(n % 256) as i64])); } },
        "C12" => {
            for n in 0..300usize { v.push(Case::new("vsa", vec![vec![0x61; n]], vec![(n % 256) as i64, 9])); v.push(Case::new("tvsa", vec![vec![0x62; n]], vec![(n % 256) as i64, 9, ((n + 5) % 256) as i64])); }
            for k in 0..32 { for d in [-1i64, 0, 1] { let id = ((1i64 << k) + d) as i32 as i64; v.push(Case::new("vsa", vec![b"x".to_vec()], vec![1, id])); v.push(Case::new("tvsa", vec![b"x".to_vec()], vec![1, -id, 4])); } }
        }
        "C16" => for p in ["C01", "C02", "C05", "C08", "C09", "C10", "C11", "C12"] { v.extend(fixed(p, l)); },
        _ => {}
    }
    if prop == "C06" { for t in 0..=255u8 { v.push(Case::new("list", vec![vec![0, t, 1], vec![0, t.wrapping_add(1), 2], vec![0, t, 3], vec![2, t.wrapping_add(1)]], vec![1, 1])); v.push(Case::new("list", vec![vec![1, 0, t, 1, t, 2, 9, 3], vec![2, 9]], vec![1, 1])); } }
    v
}
