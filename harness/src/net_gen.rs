//! Scenarios for net_ops.
use crate::core_gen::{bytes, fill, mutate, nzsecret, wirepkt};
use crate::net_ops::sender_secret;
use crate::oracle as o;
use crate::rng::Rng;
use crate::run::{Case, Lits};

fn pre(i: u8, d: Vec<u8>) -> Vec<u8> { let mut v = vec![i]; v.extend(d); v }
fn request(r: &mut Rng, l: &Lits, s: &[u8]) -> Vec<u8> {
    let c = if r.flip(8) { r.byte() } else { *r.pick(&[1u8, 4, 12, 40, 43]) };
    let n = r.below(5) as usize;
    let mut a: Vec<o::Attr> = (0..n).map(|_| (r.byte(), bytes(r, 60, l))).collect();
    if r.flip(6) { let k = r.range(1, 5); for _ in 0..k { a.push((r.byte(), fill(r, 253, l))); } }
    o::wire(c, r.byte(), &fill(r, 16, l), s, &o::enc(&a))
}
fn srv(r: &mut Rng, l: &Lits) -> Case {
    let s = nzsecret(r, l);
    let mode = if r.flip(2) { 0 } else { r.below(6) as i64 };
    let k = r.range(1, 6);
    let mut b = vec![s.clone()];
    for _ in 0..k {
        let i = r.below(3) as u8;
        let sec = sender_secret(mode, &s, i as usize).unwrap_or_else(|| s.clone());
        let mut d = match r.below(8) { 0 => bytes(r, 60, l), 1 => { let x = nzsecret(r, l); request(r, l, &x) } 2 => { let mut w = wirepkt(r, l, &sec); w.truncate(4100); w } _ => request(r, l, &sec) };
        if r.flip(3) { mutate(r, &mut d, l); }
        if b.len() > 1 && r.flip(5) { let j = r.range(1, b.len() - 1); let x: Vec<u8> = b[j].clone(); b.push(x); } else { b.push(pre(i, d)); }
    }
    let buf = match r.below(10) { 0 => r.range(1, 40) as i64, 1 => 4096, 2 => r.range(40, 1600) as i64, 3 => 65535, _ => 0 };
    Case::new("srv", b, vec![match r.below(5) { 0 => 1, 1 => 2, 2 => 3, _ => 0 }, buf, r.below(2) as i64, mode])
}
fn dup(r: &mut Rng) -> Case {
    let k = r.range(2, 14);
    let ids = [r.byte(), r.byte()];
    let b = (0..k).map(|_| if r.flip(3) { vec![1 + r.below(2) as u8, r.byte()] } else { vec![0, r.below(4) as u8, *r.pick(&ids), r.byte()] }).collect();
    Case::new("dup", b, vec![])
}
fn burst(r: &mut Rng) -> Case {
    let k = r.range(4, 40);
    Case::new("burst", (0..k).map(|_| vec![r.byte(), r.byte()]).collect(), vec![r.below(2) as i64, r.below(2) as i64])
}
fn cli(r: &mut Rng, l: &Lits) -> Case {
    let c = if r.flip(6) { *r.pick(&o::CODES) } else { *r.pick(&[1u8, 4, 12, 40, 43]) };
    let n = r.below(4) as usize;
    let mut a: Vec<Vec<u8>> = (0..n).map(|_| pre(r.byte(), bytes(r, 60, l))).collect();
    if r.flip(8) { let k = r.range(14, 18); for _ in 0..k { a.push(pre(r.byte(), fill(r, 253, l))); } }
    if r.flip(12) { a.push(pre(1, fill(r, 254, l))); }
    let m = r.below(5) as usize;
    let ra: Vec<o::Attr> = (0..m).map(|_| (r.byte(), bytes(r, 60, l))).collect();
    let mut x = o::enc(&ra);
    if r.flip(10) { while x.len() < 4076 { let k = (4076 - x.len()).min(255); if k < 2 { break; } x.push(1); x.push(k as u8); x.extend(fill(r, k - 2, l)); } }
    if r.flip(12) { while x.len() < 4500 { x.push(1); x.push(255); x.extend(fill(r, 253, l)); } }
    if r.flip(5) { mutate(r, &mut x, l); }
    let s = if r.flip(10) { vec![] } else { nzsecret(r, l) };
    let mode = if r.flip(3) { 0 } else { r.below(14) as i64 };
    let mut b = vec![s, fill(r, 16, l), x];
    b.extend(a);
    Case::new("cli", b, vec![c as i64, r.byte() as i64, mode, r.below(60000) as i64, r.flip(6) as i64, r.below(2) as i64])
}
fn ctos() -> Vec<Case> {
    let mut v = vec![];
    for n in [[-1, -1, 0], [-1, -1, 600], [8000, 8000, 0], [-1, 60, -1], [60, 60, -1], [1, 400, -1], [5000, 60, -1], [30, -1, 500], [40, 6000, 600], [-1, 5000, 300], [60, 200, 2500], [8000, 150, 2500], [0, 300, -1]] {
        v.push(Case::new("cto", vec![], n.to_vec()));
    }
    v
}
pub fn fixed(p: &str, l: &Lits) -> Vec<Case> {
    let mut v = vec![];
    let mut r = Rng::new(7);
    match p {
        "C17" => {
            // every code, right and wrong secret, flag states
            for skip in 0..4 { for good in [true, false] { for c in o::CODES {
                let d = o::wire(c, c ^ 0x55, &[3; 16], if good { b"sec" } else { b"bad" }, &o::enc(&[(1, b"bob".to_vec())]));
                v.push(Case::new("srv", vec![b"sec".to_vec(), pre(0, d.clone()), pre(1, d)], vec![skip, 0, 0, 0]));
            } } }
            for mode in 0..6 { for skip in 0..2 { for fail in 0..2 {
                let mut b = vec![b"sec".to_vec()];
                for i in 0..3u8 { let s = sender_secret(mode, b"sec", i as usize).unwrap_or(b"sec".to_vec()); for c in [1u8, 4] { b.push(pre(i, o::wire(c, 9, &[0; 16], &s, &[]))); b.push(pre(i, o::wire(c, 9, &[0; 16], b"", &[]))); } }
                v.push(Case::new("srv", b, vec![skip, 0, fail, mode]));
            } } }
            // datagrams around the buffer size
            for n in [1499usize, 1500, 1501, 1502, 2000] {
                let mut a: Vec<o::Attr> = vec![];
                while o::size(&a) + 20 < n { let k = (n - 20 - o::size(&a)).min(255); if k < 2 { break; } a.push((79, vec![7; k - 2])); }
                for c in [1u8, 4] { for buf in [0, 4096] { v.push(Case::new("srv", vec![b"sec".to_vec(), pre(0, o::wire(c, 1, &[0; 16], b"sec", &o::enc(&a)))], vec![0, buf, 0, 0])); } }
            }
            for n in 0..24usize { v.push(Case::new("srv", vec![b"sec".to_vec(), pre(0, o::wire(1, 1, &[0; 16], b"sec", &[])[..n.min(20)].to_vec()), pre(1, vec![1; n])], vec![(n % 2) as i64, 0, 0, 0])); }
        }
        "C18" | "C24" => {
            let s = |i: u8, id: u8, x: u8| vec![0, i, id, x];
            for (ok, x) in [(1u8, 0u8), (2, 0), (1, 1), (2, 1)] {
                v.push(Case::new("dup", vec![s(0, 5, x), s(0, 5, x), vec![ok, 0], s(0, 5, x), s(0, 5, 1 - x), s(0, 6, x), s(1, 5, x), s(2, 5, x), s(3, 6, x), s(1, 5, 7)], vec![]));
                v.push(Case::new("dup", vec![s(0, 5, x), s(1, 5, x), s(2, 5, x), vec![ok, 0], s(1, 5, x), s(2, 5, x), s(0, 5, x), vec![ok, 1], vec![ok, 1], s(0, 5, x)], vec![]));
                v.push(Case::new("dup", vec![s(0, 0, x), s(0, 255, x), s(0, 1, x), vec![ok, 2], s(0, 0, x), s(0, 1, x), s(0, 255, x)], vec![]));
            }
            for k in 2..5 { v.push(Case::new("race", vec![], vec![k, 120])); }
            for m in 0..4i64 { v.push(Case::new("burst", (0..40u8).map(|i| vec![i, i.wrapping_mul(37)]).collect(), vec![m & 1, m >> 1])); }
        }
        "C19" => {
            for mode in 0..14i64 { for c in [1u8, 4, 12, 40, 43, 2, 13] { for par in [0i64, 3, 5, 21] {
                v.push(Case::new("cli", vec![b"sec".to_vec(), vec![9; 16], o::enc(&[(18, b"hello".to_vec()), (1, vec![])]), vec![1, 98, 111, 98]], vec![c as i64, 77, mode, par, 0, par & 1]));
            } } }
            for par in 0..30i64 * 8 { v.push(Case::new("cli", vec![b"sec".to_vec(), vec![9; 16], o::enc(&[(18, b"hello".to_vec()), (1, vec![])])], vec![1, 77, 1, par, 0, 0])); }
            for mode in [0i64, 1, 2, 13] { v.push(Case::new("cli", vec![vec![], vec![9; 16], vec![]], vec![1, 77, mode, 0, 0, 0])); v.push(Case::new("cli", vec![b"sec".to_vec(), vec![9; 16], vec![]], vec![1, 77, mode, 0, 1, 0])); }
            for n in [4076usize, 4077, 4090, 20000] { let mut x = vec![]; while x.len() < n { let k = (n - x.len()).min(255); if k < 2 { break; } x.push(1); x.push(k as u8); x.extend(vec![3; k - 2]); } v.push(Case::new("cli", vec![b"sec".to_vec(), vec![9; 16], x], vec![1, 77, 0, 0, 0, 0])); }
        }
        "C25" => v.extend(ctos()),
        _ => {}
    }
    let _ = &mut r;
    let _ = l;
    v
}
pub fn gen(p: &str, r: &mut Rng, l: &Lits) -> Case {
    match p {
        "C17" => if r.flip(8) { dup(r) } else { srv(r, l) },
        "C18" => match r.below(8) { 0 => Case::new("race", vec![], vec![r.range(2, 4) as i64, 60]), _ => dup(r) },
        "C24" => match r.below(3) { 0 => dup(r), 1 => srv(r, l), _ => burst(r) },
        "C25" => { let v = ctos(); r.pick(&v).clone() }
        _ => cli(r, l),
    }
}
