//! The property statements, executable.
pub type Attr = (u8, Vec<u8>);

pub fn md5(msg: &[u8]) -> Vec<u8> {
    let s: [u32; 64] = [7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4,
        11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21];
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_le_bytes());
    for ch in m.chunks(64) {
        let w: Vec<u32> = ch.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = d;
            d = c;
            c = b;
            b = b.wrapping_add(a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]).rotate_left(s[i]));
            a = t;
        }
        a0 = a0.wrapping_add(a);
        b0 = b0.wrapping_add(b);
        c0 = c0.wrapping_add(c);
        d0 = d0.wrapping_add(d);
    }
    [a0, b0, c0, d0].iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
pub const CODES: [u8; 16] = [1, 2, 3, 4, 5, 11, 12, 13, 40, 41, 42, 43, 44, 45, 255, 0];
pub const NAMES: [&str; 16] = ["Access-Request", "Access-Accept", "Access-Reject", "Accounting-Request", "Accounting-Response", "Access-Challenge",
    "Status-Server", "Status-Client", "Disconnect-Request", "Disconnect-ACK", "Disconnect-NAK", "CoA-Request", "CoA-ACK", "CoA-NAK", "Reserved", "Invalid"];
pub fn known(c: u8) -> u8 { if CODES.contains(&c) { c } else { 0 } }
pub fn verbatim(c: u8) -> bool { c == 1 || c == 12 }
pub fn zeroed(c: u8) -> bool { c == 4 || c == 40 || c == 43 }
pub fn resp(c: u8) -> bool { matches!(c, 2 | 3 | 11 | 5 | 41 | 42 | 44 | 45) }
pub fn encodable(c: u8) -> bool { verbatim(c) || zeroed(c) || resp(c) }

pub fn dec(b: &[u8]) -> Option<Vec<Attr>> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b.len() - i < 2 { return None; }
        let l = b[i + 1] as usize;
        if l < 2 || l > b.len() - i { return None; }
        out.push((b[i], b[i + 2..i + l].to_vec()));
        i += l;
    }
    Some(out)
}
pub fn enc(a: &[Attr]) -> Vec<u8> {
    let mut out = vec![];
    for (t, v) in a {
        out.push(*t);
        out.push((v.len() + 2) as u8);
        out.extend_from_slice(v);
    }
    out
}
pub fn fits(a: &[Attr]) -> bool { a.iter().all(|x| x.1.len() <= 253) }
pub fn size(a: &[Attr]) -> usize { a.iter().map(|x| x.1.len() + 2).sum() }
pub fn plen(b: &[u8]) -> usize { (b[2] as usize) * 256 + b[3] as usize }
pub fn wf(b: &[u8]) -> Option<Vec<Attr>> {
    if b.len() < 20 { return None; }
    let n = plen(b);
    if n < 20 || n > 4096 || n > b.len() { return None; }
    dec(&b[20..n])
}
pub fn wire(code: u8, id: u8, auth: &[u8], secret: &[u8], a: &[u8]) -> Vec<u8> {
    let n = a.len() + 20;
    let head = [code, id, (n >> 8) as u8, n as u8];
    let f = if verbatim(code) { auth.to_vec() } else if zeroed(code) { md5(&cat(&[&head, &[0; 16], a, secret])) } else { md5(&cat(&[&head, auth, a, secret])) };
    cat(&[&head, &f, a])
}
pub fn auth_req(q: &[u8], s: &[u8]) -> bool {
    if q.len() < 20 || s.is_empty() { return false; }
    verbatim(q[0]) || (zeroed(q[0]) && q[4..20] == md5(&cat(&[&q[..4], &[0; 16], &q[20..], s]))[..])
}
pub fn auth_resp(p: &[u8], q: &[u8], s: &[u8]) -> bool {
    if p.len() < 20 || q.len() < 20 || s.is_empty() { return false; }
    p[4..20] == md5(&cat(&[&p[..4], &q[4..20], &p[20..], s]))[..]
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() }
pub fn hidden(secret: &[u8], prev: &[u8], p: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut prev = prev.to_vec();
    let mut q = p.to_vec();
    if q.is_empty() { q = vec![0; 16]; }
    while q.len() % 16 != 0 { q.push(0); }
    for c in q.chunks(16) {
        let x = xor(&md5(&cat(&[secret, &prev])), c);
        out.extend_from_slice(&x);
        prev = x;
    }
    out
}
pub fn unhide(secret: &[u8], prev: &[u8], c: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut prev = prev.to_vec();
    for b in c.chunks(16) {
        out.extend(xor(&md5(&cat(&[secret, &prev])), b));
        prev = b.to_vec();
    }
    upto(&out)
}
pub fn upto(s: &[u8]) -> Vec<u8> { s.iter().take_while(|x| **x != 0).cloned().collect() }
