//! Cases, the search driver and its output.
use crate::rng::Rng;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case { pub op: String, pub b: Vec<Vec<u8>>, pub n: Vec<i64> }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
impl Case {
    pub fn new(op: &str, b: Vec<Vec<u8>>, n: Vec<i64>) -> Case { Case { op: op.into(), b, n } }
    pub fn line(&self) -> String {
        format!("{}|{}|{}", self.op, self.b.iter().map(|x| format!("x{}", hex(x))).collect::<Vec<_>>().join(","), self.n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
    pub fn parse(s: &str) -> Case {
        let p: Vec<&str> = s.trim().split('|').collect();
        let n: Vec<i64> = if p[2].is_empty() { vec![] } else { p[2].split(',').map(|x| x.parse().unwrap()).collect() };
        let b: Vec<Vec<u8>> = if p[1].is_empty() { vec![] } else { p[1].split(',').map(|x| unhex(&x[1..])).collect() };
        Case { op: p[0].into(), b, n }
    }
    pub fn by(&self, i: usize) -> &[u8] { self.b.get(i).map(|x| &x[..]).unwrap_or(&[]) }
    pub fn nn(&self, i: usize) -> i64 { *self.n.get(i).unwrap_or(&0) }
}

/// constants mined from the sources under test
#[derive(Clone, Default)]
pub struct Lits { pub ints: Vec<u64>, pub strs: Vec<Vec<u8>> }
impl Lits {
    pub fn load(path: &str) -> Lits {
        let mut l = Lits::default();
        if let Ok(t) = std::fs::read_to_string(path) {
            for x in t.lines() {
                if let Some(i) = x.strip_prefix("i ") { if let Ok(v) = i.parse() { l.ints.push(v); } }
                if let Some(s) = x.strip_prefix("s ") { l.strs.push(unhex(s)); }
            }
        }
        if l.ints.is_empty() { l.ints = vec![0, 1, 2, 15, 16, 17, 20, 127, 128, 253, 255, 4096]; }
        if l.strs.is_empty() { l.strs = vec![b"secret".to_vec()]; }
        l
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Want { All, PanicsOnly }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub struct Args { pub prop: String, pub secs: f64, pub seed: u64, pub lits: Lits, pub replay: Option<String>, pub trace: Option<String>, pub dump: Option<String>, pub max: u64 }
pub fn args() -> Args {
    let v: Vec<String> = std::env::args().collect();
    let mut a = Args { prop: v.get(1).cloned().unwrap_or_default(), secs: 10.0, seed: 1, lits: Lits::default(), replay: None, trace: None, dump: None, max: u64::MAX };
    let mut i = 2;
    let mut lits = String::new();
    while i + 1 < v.len() {
        match v[i].as_str() {
            "--seconds" => a.secs = v[i + 1].parse().unwrap(),
            "--seed" => a.seed = v[i + 1].parse().unwrap(),
            "--lits" => lits = v[i + 1].clone(),
            "--replay" => a.replay = Some(v[i + 1].clone()),
            "--trace" => a.trace = Some(v[i + 1].clone()),
            "--dump" => a.dump = Some(v[i + 1].clone()),
            "--max" => a.max = v[i + 1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    a.lits = Lits::load(&lits);
    a
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// runs one case; Err((is_panic, message))
pub fn one(f: &(dyn Fn(&Case) -> Result<(), String> + Sync), c: &Case) -> Result<(), (bool, String)> {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err((false, e)),
        Err(_) => Err((true, format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))),
    }
}

type Cur = Arc<Mutex<(Option<(Instant, String)>, u64)>>;

/// search: exhaustive list first, then random cases until the time is up
pub fn search(a: &Args, want: Want, fixed: Vec<Case>, gen: &(dyn Fn(&mut Rng, u64) -> Case + Sync), f: &(dyn Fn(&Case) -> Result<(), String> + Sync), shrink: bool) -> i32 {
    quiet_panics();
    if let Some(r) = &a.replay {
        let c = Case::parse(&std::fs::read_to_string(r).unwrap_or_else(|_| r.clone()));
        return match one(f, &c) {
            Ok(()) => { println!("replay: the case holds"); 0 }
            Err((p, e)) => { println!("replay: FAILS ({}): {}", if p { "panic" } else { "mismatch" }, e); 3 }
        };
    }
    let start = Instant::now();
    if let Some(p) = &a.dump {
        // one thread, one line per case: what came out, then the case
        let mut w = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        let mut rng = Rng::new(a.seed);
        let mut n = 0u64;
        while (n as usize) < fixed.len() && a.seed == 1 || start.elapsed().as_secs_f64() < a.secs {
            let c = if a.seed == 1 && (n as usize) < fixed.len() { fixed[n as usize].clone() } else { gen(&mut rng, n) };
            let (st, m) = match one(f, &c) { Ok(()) => ("ok", String::new()), Err((true, e)) => ("panic", e), Err((false, e)) => ("mismatch", e) };
            let _ = writeln!(w, "{}\t{}\t{}", st, esc(&m), c.line());
            n += 1;
        }
        return 0;
    }
    let threads = if a.trace.is_some() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) };
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let curs: Vec<Cur> = (0..threads).map(|_| Arc::new(Mutex::new((None, 0)))).collect();
    let distinct: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let done = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let nfixed = fixed.len();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (found, cur, distinct, samples, done, fixed) = (found.clone(), curs[t].clone(), distinct.clone(), samples.clone(), done.clone(), &fixed);
            s.spawn(move || {
                let mut rng = Rng::new(a.seed.wrapping_mul(1000).wrapping_add(t as u64));
                let mut i = t;
                let mut local: HashSet<u64> = HashSet::new();
                let mut n = 0u64;
                loop {
                    if found.lock().unwrap().is_some() { break; }
                    let c = if i < fixed.len() { fixed[i].clone() } else {
                        if start.elapsed().as_secs_f64() > a.secs || n >= a.max { break; }
                        gen(&mut rng, n)
                    };
                    i += threads;
                    n += 1;
                    if let Some(tr) = &a.trace {
                        let mut f = std::fs::File::create(tr).unwrap();
                        let _ = f.write_all(c.line().as_bytes());
                    }
                    let line = if n % 64 == 1 || c.b.iter().map(|x| x.len()).sum::<usize>() < 2000 { c.line() } else { String::new() };
                    { let mut g = cur.lock().unwrap(); *g = (Some((Instant::now(), c.line())), n); }
                    let r = one(f, &c);
                    { let mut g = cur.lock().unwrap(); g.0 = None; }
                    if local.len() < 200_000 && c.b.iter().any(|x| !x.is_empty()) || !c.n.is_empty() {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        if line.is_empty() { c.line().hash(&mut h) } else { line.hash(&mut h) }
                        local.insert(h.finish());
                    }
                    if n % 997 == 1 && !line.is_empty() {
                        let mut g = samples.lock().unwrap();
                        if g.len() < 6 && line.len() < 400 { g.push(line.clone()); }
                    }
                    if let Err((p, e)) = r {
                        if p || want == Want::All {
                            let mut g = found.lock().unwrap();
                            if g.is_none() { *g = Some((c, e)); }
                            break;
                        }
                    }
                }
                distinct.lock().unwrap().extend(local);
                done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            });
        }
        // watchdog
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if done.load(std::sync::atomic::Ordering::SeqCst) == threads { break; }
            for c in &curs {
                let g = c.lock().unwrap();
                if let Some((t, l)) = &g.0 {
                    if t.elapsed() > Duration::from_secs(30) {
                        println!("{{\"found\": true, \"case\": \"{}\", \"message\": \"does not terminate within 30 s\", \"evaluations\": 1, \"distinct\": 1, \"samples\": []}}", esc(l));
                        std::process::exit(3);
                    }
                }
            }
        }
    });
    let total: u64 = curs.iter().map(|c| c.lock().unwrap().1).sum();
    let fd = found.lock().unwrap().clone();
    let (fnd, case, msg) = match fd {
        Some((c, e)) => {
            let (c, e) = if shrink { minimise(f, want, c, e) } else { (c, e) };
            (true, c.line(), e)
        }
        None => (false, String::new(), String::new()),
    };
    println!("{{\"found\": {}, \"case\": \"{}\", \"message\": \"{}\", \"evaluations\": {}, \"enumerated\": {}, \"distinct\": {}, \"samples\": [{}]}}", fnd, esc(&case), esc(&msg), total, nfixed,
        distinct.lock().unwrap().len(), samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "));
    if fnd { 3 } else { 0 }
}

fn minimise(f: &(dyn Fn(&Case) -> Result<(), String> + Sync), want: Want, c: Case, e: String) -> (Case, String) {
    let start = Instant::now();
    let (mut best, mut msg) = (c, e);
    let bad = |c: &Case| match one(f, c) { Err((p, e)) if p || want == Want::All => Some(e), _ => None };
    loop {
        let mut cands = vec![];
        for i in 0..best.b.len() {
            let l = best.b[i].len();
            let mut k = l / 2;
            while k > 0 {
                let mut d = best.clone();
                d.b[i].truncate(l - k);
                cands.push(d);
                let mut d = best.clone();
                d.b[i].drain(..k);
                cands.push(d);
                k /= 2;
            }
            if best.b[i].iter().any(|x| *x != 0) {
                let mut d = best.clone();
                for x in d.b[i].iter_mut() { *x = 0; }
                cands.push(d);
            }
        }
        for i in 0..best.n.len() {
            for v in [0, 1] { if best.n[i] > v { let mut d = best.clone(); d.n[i] = v; cands.push(d); } }
        }
        let mut progress = false;
        for d in cands {
            if start.elapsed() > Duration::from_secs(3) { return (best, msg); }
            if let Some(e) = bad(&d) { best = d; msg = e; progress = true; break; }
        }
        if !progress { return (best, msg); }
    }
}
