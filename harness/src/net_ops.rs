//! Scenarios for the server and the client over loopback UDP.  Only a datagram
//! that must be handled is waited for with a long limit; one that must not be
//! handled is followed by a good one from elsewhere (the fence).
use crate::core_ops::{code, header, mk, put, same_attrs};
use crate::oracle as o;
use crate::run::{hex, Case};
use radius::client::{Client, ClientError};
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::collections::HashMap;
use std::net::{SocketAddr, UdpSocket as Std};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;
use tokio::sync::oneshot;

macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } } }
type R = Result<(), String>;
const LONG: Duration = Duration::from_secs(8);
const FENCE: &[u8] = b"fence-secret";

struct Rec { local: SocketAddr, remote: SocketAddr, at: Option<SocketAddr>, packet: Packet, release: Option<oneshot::Sender<bool>>, done: Arc<AtomicUsize> }
#[derive(Default)]
struct World { log: Mutex<Vec<Rec>>, asked: Mutex<Vec<SocketAddr>>, fences: Mutex<Vec<u8>>, fence: Mutex<Option<SocketAddr>>, active: Mutex<HashMap<(SocketAddr, u8), usize>>, overlap: AtomicUsize, block: bool, fail: bool }
struct H(Arc<World>);
#[async_trait::async_trait]
impl RequestHandler<(), String> for H {
    async fn handle_radius_request(&self, conn: &UdpSocket, r: &Request) -> Result<(), String> {
        if Some(r.get_remote_addr()) == *self.0.fence.lock().unwrap() {
            self.0.fences.lock().unwrap().push(r.get_packet().get_identifier());
            return Ok(());
        }
        let key = (r.get_remote_addr(), r.get_packet().get_identifier());
        {
            let mut a = self.0.active.lock().unwrap();
            let n = a.entry(key).or_insert(0);
            *n += 1;
            if *n > 1 { self.0.overlap.fetch_add(1, Ordering::SeqCst); }
        }
        let (tx, rx) = oneshot::channel();
        let done = Arc::new(AtomicUsize::new(0));
        self.0.log.lock().unwrap().push(Rec { local: r.get_local_addr(), remote: r.get_remote_addr(), at: conn.local_addr().ok(), packet: r.get_packet().clone(),
            release: if self.0.block { Some(tx) } else { None }, done: done.clone() });
        let mut ok = !self.0.fail;
        if self.0.block { if let Ok(x) = rx.await { ok = x; } }
        if let Some(n) = self.0.active.lock().unwrap().get_mut(&key) { *n -= 1; }
        done.store(1, Ordering::SeqCst);
        if ok { Ok(()) } else { Err("handler failure".into()) }
    }
}
type Ask = Box<dyn Fn(SocketAddr) -> Result<Vec<u8>, SecretProviderError> + Send + Sync>;
struct P(Arc<World>, Ask);
impl SecretProvider for P {
    fn fetch_secret(&self, a: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        if Some(a) == *self.0.fence.lock().unwrap() { return Ok(FENCE.to_vec()); }
        self.0.asked.lock().unwrap().push(a);
        (self.1)(a)
    }
}
struct Rig { w: Arc<World>, addr: SocketAddr, run: tokio::task::JoinHandle<std::io::Result<()>>, stop: Option<oneshot::Sender<()>>, fsock: Std, fid: u8, cut: usize }
fn sock(ip: &str, port: u16) -> Result<Std, String> { Std::bind((ip, port)).map_err(|e| format!("HARNESS cannot bind: {e}")) }
impl Rig {
    async fn start(w: World, ask: Ask, skip: i64, buf: i64) -> Result<Rig, String> {
        let fsock = sock("127.0.0.1", 0)?;
        *w.fence.lock().unwrap() = Some(fsock.local_addr().unwrap());
        let w = Arc::new(w);
        let mut s = Server::listen("127.0.0.1", 0, H(w.clone()), P(w.clone(), ask)).await.map_err(|e| format!("HARNESS cannot listen: {e}"))?;
        match skip { 1 => s.set_skip_authenticity_validation(true), 2 => s.set_skip_authenticity_validation(false), 3 => { s.set_skip_authenticity_validation(true); s.set_skip_authenticity_validation(false) } _ => {} }
        if buf > 0 { s.set_buffer_size(buf as usize); }
        let addr = s.get_listen_address().map_err(|e| e.to_string())?;
        let (tx, rx) = oneshot::channel::<()>();
        let run = tokio::spawn(async move { s.run(async { let _ = rx.await; }).await });
        Ok(Rig { w, addr, run, stop: Some(tx), fsock, fid: 0, cut: if buf > 0 { buf as usize } else { 1500 } })
    }
    fn count(&self) -> usize { self.w.log.lock().unwrap().len() }
    /// a good request from elsewhere is served: everything received before was dealt with
    async fn fence(&mut self) -> R {
        if self.cut < 20 { tokio::time::sleep(Duration::from_millis(25)).await; return Ok(()); }
        self.fid = self.fid.wrapping_add(1);
        let d = o::wire(1, self.fid, &[9; 16], FENCE, &[]);
        let t = Instant::now();
        let mut last: Option<Instant> = None;
        loop {
            if last.map(|l| l.elapsed() > Duration::from_millis(700)).unwrap_or(true) { let _ = self.fsock.send_to(&d, self.addr); last = Some(Instant::now()); }
            if self.w.fences.lock().unwrap().contains(&self.fid) { break; }
            ck!(!self.run.is_finished(), "the server stopped although its shutdown trigger did not fire");
            ck!(t.elapsed() < LONG, "a good request from another sender is not handled (the server no longer serves)");
            tick().await;
        }
        self.w.fences.lock().unwrap().clear();
        Ok(())
    }
    /// waits for the n-th handler invocation; re-sends only when nothing happens
    async fn wait(&mut self, n: usize, s: &Std, d: &[u8], what: &str) -> Result<bool, String> {
        let t = Instant::now();
        let mut last = Instant::now();
        let mut resent = false;
        while self.count() < n {
            ck!(!self.run.is_finished(), "the server stopped although its shutdown trigger did not fire");
            ck!(t.elapsed() < LONG, "{what}: the handler is not invoked");
            if last.elapsed() > Duration::from_millis(700) { let _ = s.send_to(d, self.addr); last = Instant::now(); resent = true; }
            tick().await;
        }
        Ok(resent)
    }
    async fn stop(mut self) -> R {
        let _ = self.stop.take().unwrap().send(());
        match tokio::time::timeout(LONG, &mut self.run).await {
            Ok(Ok(Ok(()))) => Ok(()),
            Ok(r) => Err(format!("the server ended with {r:?} instead of a clean shutdown")),
            Err(_) => Err("the server does not stop when its shutdown trigger fires".into()),
        }
    }
}
async fn tick() { tokio::time::sleep(Duration::from_micros(300)).await; }

fn cur() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }

fn senders(n: usize) -> Result<Vec<Std>, String> {
    let a = sock("127.0.0.1", 0)?;
    let p = a.local_addr().unwrap().port();
    let mut v = vec![a, sock("127.0.0.1", 0)?];
    v.push(sock("127.0.0.2", p).or_else(|_| sock("127.0.0.1", 0))?);
    while v.len() < n { v.push(sock("127.0.0.1", 0)?); }
    Ok(v)
}
pub fn sender_secret(mode: i64, s: &[u8], i: usize) -> Option<Vec<u8>> {
    match mode { 1 => None, 2 => Some(vec![]), 3 => Some([s, &[i as u8 + 1][..]].concat()), 4 => if i == 0 { None } else { Some(s.to_vec()) }, 5 => if i == 0 { Some(vec![]) } else { Some(s.to_vec()) }, _ => Some(s.to_vec()) }
}
fn srv(c: &Case) -> R {
    cur().block_on(async {
        let (skip, buf, fail, mode) = (c.nn(0), c.nn(1), c.nn(2), c.nn(3));
        let ss = senders(3)?;
        let addrs: Vec<SocketAddr> = ss.iter().map(|x| x.local_addr().unwrap()).collect();
        let (a2, s2) = (addrs.clone(), c.by(0).to_vec());
        let ask: Ask = Box::new(move |a| {
            let i = a2.iter().position(|x| *x == a).unwrap_or(99);
            if i == 99 { return Ok(b"unknown sender".to_vec()); }
            sender_secret(mode, &s2, i).ok_or_else(|| if i % 2 == 0 { SecretProviderError::GenericError("no secret".into()) } else { SecretProviderError::FailedFetchingError("no secret".into()) })
        });
        let mut rig = Rig::start(World { fail: fail == 1, ..Default::default() }, ask, skip, buf).await?;
        for d in c.b.iter().skip(1) {
            let i = (d.first().cloned().unwrap_or(0) % 3) as usize;
            let d = d.get(1..).unwrap_or(&[]);
            let got = &d[..d.len().min(rig.cut)];
            let sec = sender_secret(mode, c.by(0), i);
            let want = match &sec { Some(s) => !s.is_empty() && (skip == 1 || o::auth_req(got, s)) && o::wf(got).is_some(), None => false };
            let n0 = rig.count();
            let asked0 = rig.w.asked.lock().unwrap().len();
            let _ = ss[i].send_to(d, rig.addr);
            let mut resent = false;
            if want { resent = rig.wait(n0 + 1, &ss[i], d, "an authentic, well-formed request with a known secret").await?; }
            rig.fence().await?;
            let n1 = rig.count();
            if !want { ck!(n1 == n0, "the handler was invoked for a datagram that must be dropped: {}", hex(d)); } else if !resent { ck!(n1 == n0 + 1, "{} invocations for one datagram", n1 - n0); }
            for a in &rig.w.asked.lock().unwrap()[asked0..] { ck!(*a == addrs[i], "the secret provider was asked with {a}, the sender is {}", addrs[i]); }
            if want {
                let log = rig.w.log.lock().unwrap();
                let r = &log[n0];
                ck!(r.remote == addrs[i], "remote address {} instead of {}", r.remote, addrs[i]);
                ck!(r.local == rig.addr, "local address {} instead of {}", r.local, rig.addr);
                ck!(r.at == Some(rig.addr), "the connection is bound to {:?} instead of {}", r.at, rig.addr);
                header(&r.packet, o::known(got[0]), got[1], Some(&got[4..20]), sec.as_ref().unwrap())?;
                same_attrs(&r.packet, &o::wf(got).unwrap())?;
            }
        }
        rig.stop().await
    })
}
/// blocked handlers: [0, sender, id, variant] sends, [1|2, k] lets the k-th running handler finish
fn dup(c: &Case) -> R {
    cur().block_on(async {
        let ss = senders(4)?;
        let addrs: Vec<SocketAddr> = ss.iter().map(|x| x.local_addr().unwrap()).collect();
        let mut rig = Rig::start(World { block: true, ..Default::default() }, Box::new(|_| Ok(b"sec".to_vec())), 0, 0).await?;
        let mut running: Vec<((usize, u8), oneshot::Sender<bool>, Arc<AtomicUsize>)> = vec![];
        for st in &c.b {
            let g = |i: usize| st.get(i).cloned().unwrap_or(0);
            if g(0) % 3 == 0 {
                let (i, id, v) = ((g(1) % 4) as usize, g(2), g(3));
                let au = [v; 16];
                let d = o::wire(if v & 1 == 0 { 1 } else { 4 }, id, &au, b"sec", &o::enc(&[(1, vec![v, id])]));
                let busy = running.iter().any(|r| r.0 == (i, id));
                let n0 = rig.count();
                let _ = ss[i].send_to(&d, rig.addr);
                if busy {
                    rig.fence().await?;
                    ck!(rig.count() == n0, "a duplicate of a request in progress was handed over (sender {}, identifier {id})", addrs[i]);
                } else {
                    let what = format!("sender {}, identifier {id}, in progress: {:?}", addrs[i], running.iter().map(|r| (addrs[r.0 .0], r.0 .1)).collect::<Vec<_>>());
                    rig.wait(n0 + 1, &ss[i], &d, &what).await?;
                    rig.fence().await?;
                    ck!(rig.count() == n0 + 1, "{} concurrent invocations for one sender and identifier", rig.count() - n0);
                    let mut log = rig.w.log.lock().unwrap();
                    let r = &mut log[n0];
                    ck!(r.remote == addrs[i] && r.packet.get_identifier() == id, "the wrong request was handed over");
                    running.push(((i, id), r.release.take().unwrap(), r.done.clone()));
                }
            } else if !running.is_empty() {
                let k = g(1) as usize % running.len();
                let (_, tx, done) = running.remove(k);
                let _ = tx.send(g(0) % 3 == 1);
                let t = Instant::now();
                while done.load(Ordering::SeqCst) == 0 { ck!(t.elapsed() < LONG, "a handler does not finish"); tick().await; }
            }
        }
        rig.fence().await?;
        // abandoned handlers end with the runtime
        rig.stop().await
    })
}
/// several datagrams of one sender and identifier, their tasks aligned in the secret provider
fn race(c: &Case) -> R {
    let (k, rounds) = (c.nn(0).clamp(2, 4) as usize, c.nn(1).clamp(1, 400) as usize);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(k + 1).enable_all().build().unwrap();
    let r = rt.block_on(async {
        let s = sock("127.0.0.1", 0)?;
        let arrived = Arc::new(AtomicUsize::new(0));
        let a2 = arrived.clone();
        let ask: Ask = Box::new(move |_| {
            let n = a2.fetch_add(1, Ordering::SeqCst) + 1;
            let goal = n.div_ceil(k) * k;
            let t = Instant::now();
            while a2.load(Ordering::SeqCst) < goal && t.elapsed() < Duration::from_millis(20) { std::hint::spin_loop(); }
            Ok(b"sec".to_vec())
        });
        let mut rig = Rig::start(World { block: true, ..Default::default() }, ask, 0, 0).await?;
        for r in 0..rounds.min(250) {
            let d = o::wire(1, r as u8, &[r as u8; 16], b"sec", &[]);
            let base = arrived.load(Ordering::SeqCst).div_ceil(k) * k;
            arrived.store(base, Ordering::SeqCst);
            let n0 = rig.count();
            for _ in 0..k { let _ = s.send_to(&d, rig.addr); }
            let t = Instant::now();
            while arrived.load(Ordering::SeqCst) < base + k && t.elapsed() < Duration::from_millis(100) { tokio::task::yield_now().await; }
            rig.wait(n0 + 1, &s, &d, "one of several concurrent duplicates").await?;
            rig.fence().await?;
            ck!(rig.w.overlap.load(Ordering::SeqCst) == 0, "two handlers run at the same time for one sender and identifier");
            // the one of this round; a late duplicate of an earlier round may be there as well
            let (tx, done) = { let mut l = rig.w.log.lock().unwrap(); match l.iter_mut().find(|x| x.packet.get_identifier() == r as u8 && x.release.is_some()) { Some(x) => (x.release.take().unwrap(), x.done.clone()), None => continue } };
            let _ = tx.send(r % 3 != 0);
            let t = Instant::now();
            while done.load(Ordering::SeqCst) == 0 { ck!(t.elapsed() < LONG, "a handler does not finish"); tokio::task::yield_now().await; }
        }
        rig.stop().await
    });
    rt.shutdown_background();
    r
}
/// many different requests at once, some of them bad: every good one is handled exactly once
fn burst(c: &Case) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let r = rt.block_on(async {
        let ss = senders(4)?;
        let a0 = ss[0].local_addr().unwrap();
        let slow = c.nn(0);
        let ask: Ask = Box::new(move |a| { if slow == 1 && a == a0 { std::thread::sleep(Duration::from_millis(3)); } Ok(b"sec".to_vec()) });
        let mut rig = Rig::start(World { fail: c.nn(1) == 1, ..Default::default() }, ask, 0, 0).await?;
        let mut want: HashMap<(SocketAddr, u8), Vec<u8>> = HashMap::new();
        for (j, st) in c.b.iter().take(48).enumerate() {
            let i = (st.first().cloned().unwrap_or(0) % 4) as usize;
            let id = j as u8;
            let good = st.get(1).cloned().unwrap_or(0) % 3 != 0;
            let d = o::wire(4, id, &[0; 16], if good { b"sec" } else { b"bad" }, &o::enc(&[(1, vec![j as u8; 5])]));
            let _ = ss[i].send_to(&d, rig.addr);
            if good { want.insert((ss[i].local_addr().unwrap(), id), d); }
        }
        let t = Instant::now();
        let mut last = Instant::now();
        let mut resent = false;
        loop {
            let missing: Vec<_> = { let l = rig.w.log.lock().unwrap(); want.iter().filter(|(k, _)| !l.iter().any(|r| r.remote == k.0 && r.packet.get_identifier() == k.1)).map(|(k, d)| (*k, d.clone())).collect() };
            if missing.is_empty() { break; }
            ck!(t.elapsed() < LONG, "{} of {} good requests sent together are not handled", missing.len(), want.len());
            if last.elapsed() > Duration::from_millis(1000) {
                for (k, d) in &missing { if let Some(s) = ss.iter().find(|s| s.local_addr().unwrap() == k.0) { let _ = s.send_to(d, rig.addr); } }
                last = Instant::now();
                resent = true;
            }
            tick().await;
        }
        rig.fence().await?;
        {
            let l = rig.w.log.lock().unwrap();
            for r in l.iter() {
                let d = want.get(&(r.remote, r.packet.get_identifier()));
                ck!(d.is_some(), "a request that must be dropped was handled");
                let d = d.unwrap();
                header(&r.packet, 4, d[1], Some(&d[4..20]), b"sec")?;
                same_attrs(&r.packet, &o::wf(d).unwrap())?;
            }
            ck!(resent || l.len() == want.len(), "{} invocations for {} requests", l.len(), want.len());
        }
        rig.stop().await
    });
    rt.shutdown_background();
    r
}

/// the answer a fake server gives: mode, parameter, attribute bytes
pub fn answer(mode: i64, par: usize, extra: &[u8], req: &[u8], secret: &[u8]) -> Option<Vec<u8>> {
    let id = *req.get(1).unwrap_or(&0);
    let au = req.get(4..20).unwrap_or(&[0; 16]).to_vec();
    let sign = |head: [u8; 4], au: &[u8], body: &[u8], s: &[u8]| o::cat(&[&head, &o::md5(&o::cat(&[&head, au, body, s])), body]);
    let hd = |l: usize| [2u8, id, (l >> 8) as u8, l as u8];
    let n = extra.len() + 20;
    Some(match mode {
        0 => sign(hd(n), &au, extra, secret),
        1 => { let mut x = sign(hd(n), &au, extra, secret); let k = x.len(); x[par % k] ^= 1 << (par / k % 8); x }
        2 => sign(hd(n), &au, extra, &o::cat(&[secret, b"x"])),
        3 => extra.to_vec(),
        4 => { let mut x = sign(hd(n), &au, extra, secret); x.truncate(par % x.len()); x }
        5 => { let mut a = au.clone(); a[par % 16] ^= 1; sign(hd(n), &a, extra, secret) }
        6 => sign(hd(20 + par % (extra.len() + 1)), &au, extra, secret),
        7 => sign(hd((n + par) & 0xffff), &au, extra, secret),
        8 => { let body = vec![26; par % 60000]; sign(hd(20), &au, &body, secret) }
        9 => sign([par as u8, id, (n >> 8) as u8, n as u8], &au, extra, secret),
        10 => sign([2, par as u8, (n >> 8) as u8, n as u8], &au, extra, secret),
        11 => sign(hd(n), &[0; 16], extra, secret),
        12 => req.to_vec(),
        13 => { let mut x = vec![2, id, (n >> 8) as u8, n as u8]; x.extend([par as u8; 16]); x.extend(extra); x }
        _ => return None,
    })
}
fn cli(c: &Case) -> R {
    cur().block_on(async {
        let (cd, id, v6) = (o::known(c.nn(0) as u8), c.nn(1) as u8, c.nn(4) == 1);
        let sec = c.by(0).to_vec();
        let mut p = mk(cd, id, c.by(1), &sec);
        let a: Vec<o::Attr> = c.b.iter().skip(3).map(|x| (x.first().cloned().unwrap_or(0), x.get(1..).unwrap_or(&[]).to_vec())).collect();
        put(&mut p, &a, 0);
        let au = p.get_authenticator().clone();
        let good = o::encodable(cd) && o::fits(&a) && o::size(&a) + 20 <= 4096;
        let fake = match if v6 { Std::bind("[::1]:0") } else { Std::bind("127.0.0.1:0") } { Ok(x) => x, Err(_) if v6 => return Ok(()), Err(e) => return Err(format!("HARNESS cannot bind: {e}")) };
        fake.set_nonblocking(true).unwrap();
        let to = fake.local_addr().unwrap();
        let fake = UdpSocket::from_std(fake).unwrap();
        let lim = if c.nn(5) == 1 { Some(Duration::from_secs(8)) } else { None };
        let cl = Client::new(lim, lim);
        let sent: Mutex<Vec<(Vec<u8>, SocketAddr, Vec<u8>)>> = Mutex::new(vec![]);
        let srv = async {
            let mut b = vec![0; 70000];
            loop {
                if let Ok((n, from)) = fake.recv_from(&mut b).await {
                    let x = answer(c.nn(2), c.nn(3) as usize, c.by(2), &b[..n], &sec).unwrap_or_default();
                    sent.lock().unwrap().push((b[..n].to_vec(), from, x.clone()));
                    let _ = fake.send_to(&x, from).await;
                }
            }
        };
        let r = tokio::select! {
            r = tokio::time::timeout(LONG, cl.send_packet(&to, &p)) => r.map_err(|_| "send_packet does not return although an answer was sent".to_string())?,
            _ = srv => unreachable!(),
        };
        // everything sent is in the socket by now
        let mut b = vec![0; 70000];
        while let Ok((n, from)) = fake.try_recv_from(&mut b) { sent.lock().unwrap().push((b[..n].to_vec(), from, vec![])); }
        let sent = sent.into_inner().unwrap();
        if !good {
            ck!(matches!(r, Err(ClientError::FailedRadiusPacketEncodingError(_))), "{r:?} for a packet that does not encode");
            ck!(sent.is_empty(), "a datagram was sent for a packet that does not encode");
            return Ok(());
        }
        ck!(sent.len() == 1, "{} datagrams sent for one request", sent.len());
        let w = o::wire(cd, id, &au, &sec, &o::enc(&a));
        ck!(sent[0].0 == w, "sent {} instead of {}", hex(&sent[0].0), hex(&w));
        let x = &sent[0].2;
        let ok = o::auth_resp(x, &w, &sec) && o::wf(x).is_some();
        match r {
            Ok(q) => {
                ck!(o::auth_resp(x, &w, &sec), "an answer with a wrong authenticator was returned as the response");
                ck!(ok, "a malformed answer was returned as the response");
                header(&q, o::known(x[0]), x[1], Some(&x[4..20]), &sec)?;
                same_attrs(&q, &o::wf(x).unwrap())?;
            }
            Err(ClientError::SocketTimeoutError()) | Err(ClientError::ConnectionTimeoutError()) => return Err("timeout error although the answer was sent at once".into()),
            Err(e) => ck!(!ok, "an authentic, well-formed response was refused: {e}"),
        }
        Ok(())
    })
}
/// n = connection limit, socket limit, delay of the answer, all in ms, negative for none
fn cto(c: &Case) -> R {
    cur().block_on(async {
        let (ct, st, delay) = (c.nn(0), c.nn(1), c.nn(2));
        let d = |x: i64| if x < 0 { None } else { Some(Duration::from_millis(x as u64)) };
        let fake = Std::bind("127.0.0.1:0").map_err(|e| format!("HARNESS cannot bind: {e}"))?;
        fake.set_nonblocking(true).unwrap();
        let to = fake.local_addr().unwrap();
        let fake = UdpSocket::from_std(fake).unwrap();
        let p = mk(1, 7, &[5; 16], b"sec");
        let cl = Client::new(d(ct), d(st));
        let srv = async {
            let mut b = vec![0; 5000];
            if let Ok((n, from)) = fake.recv_from(&mut b).await {
                if delay >= 0 {
                    tokio::time::sleep(Duration::from_millis(delay as u64)).await;
                    let _ = fake.send_to(&answer(0, 0, &[], &b[..n], b"sec").unwrap(), from).await;
                }
            }
            std::future::pending::<()>().await
        };
        let t = Instant::now();
        let r = tokio::select! {
            r = tokio::time::timeout(LONG, cl.send_packet(&to, &p)) => match r { Ok(r) => r, Err(_) => return Err(format!("no result after {LONG:?} (limit {st} ms, answer after {delay} ms)")) },
            _ = srv => unreachable!(),
        };
        let el = t.elapsed().as_millis() as i64;
        let late = st >= 0 && (delay < 0 || delay > st);
        match r {
            Ok(q) => { ck!(!late, "a response was returned after the limit"); ck!(q.get_code() == code(2), "wrong packet"); }
            Err(ClientError::SocketTimeoutError()) => { ck!(late, "socket timeout after {el} ms with limit {st} ms, answer after {delay} ms"); ck!(el >= st - 2, "socket timeout after {el} ms instead of {st} ms"); ck!(el < st + 4000, "socket timeout only after {el} ms instead of {st} ms"); }
            Err(e) => return Err(format!("{e:?} after {el} ms with limits {ct} and {st} ms, answer after {delay} ms")),
        }
        Ok(())
    })
}

fn once(c: &Case) -> R {
    match c.op.as_str() { "srv" => srv(c), "dup" => dup(c), "race" => race(c), "burst" => burst(c), "cli" => cli(c), "cto" => cto(c), _ => Err(format!("HARNESS unknown operation {}", c.op)) }
}
/// failures that depend on timing must repeat; trouble of the harness itself is no failure
pub fn exec(c: &Case) -> R {
    let e = match once(c) { Ok(()) => return Ok(()), Err(e) => e };
    if e.starts_with("HARNESS") { return Ok(()); }
    let timing = ["not handled", "not invoked", "timeout", "no result", "does not return", "does not finish", "does not stop", "refused"].iter().any(|x| e.contains(x));
    if !timing { return Err(e); }
    std::thread::sleep(Duration::from_millis(200));
    match once(c) { Err(e2) if !e2.starts_with("HARNESS") => Err(e), _ => Ok(()) }
}
