//! C18, C19, C20: a listening agent and real TCP peers on the loopback network.
//!
//! The agent runs in a thread of its own with its own runtime; peers are plain blocking sockets driven by
//! the case. Expected things get a generous deadline, absent things are established by end of stream.
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::io::{self, Read, Write};
use std::net::{Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex, Weak};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use haproxy_spoa::{
    runtime::{Builder, Runtime},
    Agent, Connection,
};
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_util::sync::CancellationToken;

use crate::conv::{echo, notify, step_bytes, Step, TestErr};
use crate::ensure;
use crate::model::*;
use crate::props::codec::short;
use crate::props::convs;
use crate::runner::{deadline, Leg, LegDyn, Obs, R};
use crate::wire;

// ------------------------------------------------------------------ the service

#[derive(Default)]
pub struct Hub {
    log: Mutex<Vec<(u32, Vec<Msg>)>>,
    made: AtomicU32,
    /// Milliseconds the maker takes, and what it does the next time instead (1: fail, 2: panic, 3: panic later).
    maker_delay: AtomicU32,
    maker_next: AtomicU32,
    /// Services that still exist: one per connection that got so far.
    live: AtomicI64,
    /// Calls that have started and not ended.
    running: AtomicI64,
    gate: gate::Gate,
    /// Milliseconds those at the gate go on after it was opened.
    linger: AtomicU32,
    /// The bytes held by the agent's thread, when asked for.
    held: AtomicI64,
    /// When the last service was made, by the clock of the runtime.
    made_at: Mutex<Option<tokio::time::Instant>>,
}

/// A gate that is opened once.
mod gate {
    pub struct Gate(pub tokio::sync::watch::Sender<bool>);
    impl Default for Gate {
        fn default() -> Self {
            Gate(tokio::sync::watch::channel(false).0)
        }
    }
    impl Gate {
        pub fn open(&self) {
            self.0.send_replace(true);
        }
        pub async fn pass(&self) {
            let mut r = self.0.subscribe();
            while !*r.borrow_and_update() {
                if r.changed().await.is_err() {
                    return;
                }
            }
        }
    }
}

struct HubMaker(Arc<Hub>);
struct HubSvc {
    hub: Arc<Hub>,
    id: u32,
    n: usize,
}
impl Drop for HubSvc {
    fn drop(&mut self) {
        self.hub.live.fetch_sub(1, SeqCst);
    }
}
struct Running(Arc<Hub>);
impl Drop for Running {
    fn drop(&mut self) {
        self.0.running.fetch_sub(1, SeqCst);
    }
}

type Fut<T> = Pin<Box<dyn Future<Output = Result<T, TestErr>> + Send>>;

impl tower::Service<u32> for HubMaker {
    type Response = HubSvc;
    type Error = TestErr;
    type Future = Fut<HubSvc>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u32) -> Fut<HubSvc> {
        let hub = self.0.clone();
        *hub.made_at.lock().unwrap() = Some(tokio::time::Instant::now());
        let (delay, next) = (hub.maker_delay.load(SeqCst), hub.maker_next.swap(0, SeqCst));
        if next == 2 {
            panic!("the maker panics on purpose");
        }
        Box::pin(async move {
            if delay > 0 {
                tokio::time::sleep(Duration::from_millis(delay.into())).await;
            }
            match next {
                1 => return Err(TestErr("the maker fails on purpose".into())),
                3 => panic!("the maker panics on purpose"),
                _ => {}
            }
            hub.live.fetch_add(1, SeqCst);
            let id = hub.made.fetch_add(1, SeqCst) + 1;
            Ok(HubSvc { hub, id, n: 0 })
        })
    }
}

impl tower::Service<Vec<spop::Message>> for HubSvc {
    type Response = Vec<spop::Action>;
    type Error = TestErr;
    type Future = Fut<Vec<spop::Action>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, msgs: Vec<spop::Message>) -> Fut<Vec<spop::Action>> {
        let msgs = msgs_from(&msgs);
        let n = self.n;
        self.n += 1;
        self.hub.log.lock().unwrap().push((self.id, msgs.clone()));
        let what = msgs.first().map(|m| m.name.clone()).unwrap_or_default();
        if what == "!panic" {
            panic!("the service panics on purpose");
        }
        self.hub.running.fetch_add(1, SeqCst);
        let run = Running(self.hub.clone());
        Box::pin(async move {
            match what.as_str() {
                "!fail" => return Err(TestErr("fails on purpose".into())),
                "!panic-later" => {
                    tokio::task::yield_now().await;
                    panic!("the service panics on purpose")
                }
                "!hang" => std::future::pending().await,
                "!gate" => {
                    run.0.gate.pass().await;
                    let ms = run.0.linger.load(SeqCst);
                    if ms > 0 {
                        tokio::time::sleep(Duration::from_millis(ms.into())).await;
                    }
                }
                _ => {}
            }
            let big = if what == "!big" { vec![Act::Set(0, "big".into(), Val::Bin(Hex(vec![7; 12_000])))] } else { vec![] };
            let mut acts = echo(n, &msgs);
            acts.extend(big);
            drop(run);
            Ok(acts_to(&acts))
        })
    }
}

fn plain_hello() -> Fr {
    Fr::HHello { versions: vec![(2, 0)], mfs: 16384, caps: vec![FRAGMENTATION], hc: None, eid: None }
}

// ------------------------------------------------------------------ the agent in its thread

enum Ask {
    /// Another call of serve.
    Serve,
    /// How many bytes the thread of the agent holds.
    Held,
    /// Open the gate, and let the clock jump from now on.
    Open,
}

pub struct Server {
    pub addr: SocketAddr,
    hub: Arc<Hub>,
    token: CancellationToken,
    /// The runtime the agent was given.
    used: Weak<Runtime<HubMaker, u32>>,
    /// One result per call of serve that has returned, with the services alive at that moment.
    done: mpsc::Receiver<(Result<(), String>, i64)>,
    quit: Arc<tokio::sync::Notify>,
    ask: tokio::sync::mpsc::UnboundedSender<Ask>,
}
impl Drop for Server {
    fn drop(&mut self) {
        self.hub.gate.open();
        self.token.cancel();
        self.quit.notify_one();
    }
}

static ADDRS: AtomicU32 = AtomicU32::new(1);

/// A listener on a loopback address of its own, so that no case runs out of ports.
pub fn listen(v6: bool) -> io::Result<TcpListener> {
    if v6 {
        return TcpListener::bind((Ipv6Addr::LOCALHOST, 0));
    }
    let n = ADDRS.fetch_add(1, SeqCst);
    let a = Ipv4Addr::new(127, (std::process::id() % 200) as u8 + 1, (n >> 8) as u8, (n % 250) as u8 + 1);
    TcpListener::bind((a, 0)).or_else(|_| TcpListener::bind((Ipv4Addr::LOCALHOST, 0)))
}

struct Start {
    listener: TcpListener,
    threads: u8,
    mpt_ms: u64,
    /// Concurrent calls of serve.
    calls: u8,
    /// Cancelled before serving.
    cancelled: bool,
    traced: bool,
    /// Let the clock of the runtime jump whenever it only waits for a timer.
    paused: bool,
}

fn start(s: Start) -> Result<Server, String> {
    let addr = s.listener.local_addr().map_err(|e| e.to_string())?;
    let hub = Arc::new(Hub::default());
    let quit = Arc::new(tokio::sync::Notify::new());
    let (ask, mut asked) = tokio::sync::mpsc::unbounded_channel();
    let (done_tx, done) = mpsc::channel();
    let (tok_tx, tok_rx) = mpsc::channel();
    let (hub2, quit2) = (hub.clone(), quit.clone());
    std::thread::Builder::new()
        .name("agent".into())
        .spawn(move || {
            let rt = if s.threads == 0 {
                tokio::runtime::Builder::new_current_thread().enable_all().start_paused(s.paused).build()
            } else {
                tokio::runtime::Builder::new_multi_thread().worker_threads(s.threads as usize).enable_all().build()
            };
            let rt = match rt {
                Ok(rt) => rt,
                Err(e) => {
                    let _ = tok_tx.send(Err(format!("runtime: {e}")));
                    return;
                }
            };
            let hub = hub2;
            let main = async {
                let runtime = Builder::new()
                    .fragmentation()
                    .max_process_time(Duration::from_millis(s.mpt_ms))
                    .make_service(HubMaker(hub.clone()), 1u32);
                let weak = Arc::downgrade(&runtime);
                let agent = match Agent::new(runtime, s.listener) {
                    Ok(a) => Arc::new(a),
                    Err(e) => {
                        let _ = tok_tx.send(Err(format!("agent: {e}")));
                        return;
                    }
                };
                let token = agent.shutdown();
                if s.cancelled {
                    token.cancel();
                }
                let _ = tok_tx.send(Ok((token, weak)));
                let serve = |agent: Arc<Agent<HubMaker, u32>>| {
                    let (done, hub) = (done_tx.clone(), hub.clone());
                    tokio::spawn(async move {
                        let r = agent.serve().await.map_err(|e| e.to_string());
                        let live = hub.live.load(SeqCst);
                        let _ = done.send((r, live));
                    });
                };
                for _ in 0..s.calls {
                    serve(agent.clone());
                }
                loop {
                    tokio::select! {
                        _ = quit2.notified() => break,
                        Some(a) = asked.recv() => match a {
                            Ask::Serve => serve(agent.clone()),
                            Ask::Open => {
                                tokio::time::pause();
                                hub.gate.open();
                            }
                            Ask::Held => {
                                *hub.log.lock().unwrap() = vec![];
                                hub.held.store(crate::alloc::live(), SeqCst);
                            }
                        },
                    }
                }
            };
            if s.traced {
                super::trace::traced(|| rt.block_on(main));
            } else {
                rt.block_on(main);
            }
            rt.shutdown_background();
        })
        .map_err(|e| e.to_string())?;
    let (token, used) = tok_rx.recv_timeout(deadline()).map_err(|_| "the agent's thread did not start".to_string())??;
    Ok(Server { addr, hub, token, used, done, quit, ask })
}

// ------------------------------------------------------------------ peers

pub struct Peer {
    s: TcpStream,
    buf: Vec<u8>,
    eof: bool,
    /// What ended it, other than the end of the stream.
    err: Option<io::Error>,
}

/// Closing resets, so that no port stays in use.
pub fn linger0(s: &impl std::os::fd::AsRawFd) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

impl Peer {
    fn connect(addr: SocketAddr) -> R<Peer> {
        let s = TcpStream::connect_timeout(&addr, deadline()).map_err(|e| format!("connecting failed: {e}"))?;
        s.set_nodelay(true).ok();
        s.set_write_timeout(Some(deadline())).ok();
        linger0(&s);
        Ok(Peer { s, buf: vec![], eof: false, err: None })
    }
    fn send(&mut self, b: &[u8]) -> io::Result<()> {
        self.s.write_all(b)
    }
    /// Reads once, within the time left. False at the end of the stream.
    fn fill(&mut self, until: Instant) -> R<bool> {
        if self.eof {
            return Ok(false);
        }
        let left = until.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return Err(format!("nothing in time (received so far: {} bytes)", self.buf.len()).into());
        }
        self.s.set_read_timeout(Some(left.max(Duration::from_millis(1)))).ok();
        let mut b = [0u8; 8192];
        match self.s.read(&mut b) {
            Ok(0) => {
                self.eof = true;
                Ok(false)
            }
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(true)
            }
            Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut | io::ErrorKind::Interrupted) => {
                Ok(true)
            }
            Err(e) => {
                self.eof = true;
                self.err = Some(e);
                Ok(false)
            }
        }
    }
    fn frames(&self) -> R<Vec<Fr>> {
        let (fs, _) = wire::split(&self.buf);
        fs.iter()
            .map(|f| {
                wire::decode(f)
                    .map_err(|b| format!("the agent sent a frame that is not conformant ({b:?}): {:?}", Hex(f.to_vec())).into())
            })
            .collect()
    }
    /// Waits for that many frames in all.
    fn want(&mut self, n: usize) -> R<Vec<Fr>> {
        let until = Instant::now() + deadline();
        loop {
            let f = self.frames()?;
            if f.len() >= n {
                return Ok(f);
            }
            if !self.fill(until)? {
                return Err(format!("closed after {} of {n} frames: {}", f.len(), short(&f)).into());
            }
        }
    }
    /// Everything up to the end of the stream.
    fn rest(&mut self) -> R<Vec<Fr>> {
        let until = Instant::now() + deadline();
        while self.fill(until)? {}
        let (_, left) = wire::split(&self.buf);
        ensure!(left.is_empty(), "{} bytes that are no whole frame", left.len());
        self.frames()
    }
    fn hello(&mut self) -> R {
        self.send(&wire::encode_prefixed(&plain_hello())).map_err(|e| format!("sending the hello failed: {e}"))?;
        let f = self.want(1)?;
        ensure!(matches!(f[0], Fr::AHello { version: (2, 0), .. }), "hello answered by {:?}", f[0]);
        Ok(())
    }
}

fn named(what: &str, peer: usize) -> Msg {
    Msg { name: what.into(), args: vec![("peer".into(), Val::U64(peer as u64))] }
}
fn note(sid: u64, fid: u64, msgs: Vec<Msg>) -> Vec<u8> {
    wire::encode_prefixed(&Fr::Notify { frag: false, sid, fid, msgs })
}
fn ack(sid: u64, fid: u64, n: usize, msgs: &[Msg]) -> Fr {
    Fr::Ack { frag: false, abort: false, sid, fid, acts: echo(n, msgs) }
}

/// A fresh connection is accepted and served.
fn probe(addr: SocketAddr, id: usize) -> R {
    let mut p = Peer::connect(addr)?;
    p.hello()?;
    let m = vec![named("probe", id)];
    p.send(&note(1, 1, m.clone())).map_err(|e| format!("sending failed: {e}"))?;
    let f = p.want(2)?;
    ensure!(f[1] == ack(1, 1, 0, &m), "the probe got {}", short(&f[1]));
    p.s.shutdown(Shutdown::Write).ok();
    let f = p.rest()?;
    ensure!(f.len() == 2, "the probe got {} frames", f.len());
    Ok(())
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Silent,
    Garbage(Hex),
    /// Bytes of the hello sent.
    MidHello(u16),
    MidNotify(u16),
    Breach(Step),
    Reset(bool),
    /// The service's misbehaviour.
    Service(u8),
    /// Never reads its replies.
    Deaf,
    /// Leaves a fragment behind, on ids the others use.
    Fragment(u64, u64),
    Gone,
    /// Its service cannot be made.
    Maker(u8),
    /// Many at once; those of the mask leave without waiting for an answer.
    Rush(u8, u8),
    /// Many that stay; those of the mask say nothing.
    Herd(u8, u8),
}
const SERVICE: [&str; 4] = ["!fail", "!panic", "!panic-later", "!hang"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    threads: u8,
    mpt_ms: u64,
    bad: Vec<Bad>,
    /// Per good peer, its frames, and whether it waits for each reply.
    good: Vec<(Vec<(Fr, bool)>, bool)>,
    schedule: Vec<u8>,
    /// Milliseconds the maker takes.
    #[serde(default)]
    maker_ms: u8,
}

/// Several peers shake hands at the same time.
fn rush(n: u8, mask: u8, addr: SocketAddr, id: usize) -> R {
    let n = 2 + n as usize % 5;
    let mut peers = (0..n).map(|_| Peer::connect(addr)).collect::<R<Vec<_>>>()?;
    for p in &mut peers {
        p.send(&wire::encode_prefixed(&plain_hello())).map_err(|e| format!("sending the hello failed: {e}"))?;
    }
    let mut i = 0;
    peers.retain(|_| {
        i += 1;
        mask >> i & 1 == 0
    });
    for p in &mut peers {
        let f = p.want(1)?;
        ensure!(matches!(f[0], Fr::AHello { version: (2, 0), .. }), "hello answered by {:?}", f[0]);
    }
    let m = vec![named("rush", id)];
    for p in &mut peers {
        p.send(&note(1, 1, m.clone())).map_err(|e| format!("sending failed: {e}"))?;
    }
    for p in &mut peers {
        let f = p.want(2)?;
        ensure!(f[1..] == [ack(1, 1, 0, &m)], "one of the rush got {}", short(&f));
    }
    Ok(())
}

/// Opens that many connections that stay, and shakes hands on those not in the mask.
fn herd(n: usize, mask: u8, addr: SocketAddr) -> R<Vec<Peer>> {
    (0..n)
        .map(|i| {
            let mut p = Peer::connect(addr).map_err(|f| format!("connection {i} of {n}: {}", f.msg))?;
            if mask >> (i % 8) & 1 == 0 {
                p.hello().map_err(|f| format!("connection {i} of {n}: {}", f.msg))?;
            }
            Ok(p)
        })
        .collect()
}

/// How many connections this process may have, both ends counted, when several cases run at a time.
fn affordable(cases: usize) -> usize {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    (l.rlim_cur as usize).saturating_sub(256) / 2 / cases
}

fn misbehave(b: &Bad, srv: &Server, id: usize) -> R<Vec<Peer>> {
    let addr = srv.addr;
    match b {
        Bad::Rush(n, mask) => {
            rush(*n, *mask, addr, id)?;
            return Ok(vec![]);
        }
        Bad::Herd(n, mask) => return herd((*n as usize).min(affordable(32)), *mask, addr),
        _ => {}
    }
    let mut p = Peer::connect(addr)?;
    let hello = wire::encode_prefixed(&plain_hello());
    // A peer of this kind cannot complain about a connection that is reset under it.
    let _ = match b {
        Bad::Silent => Ok(()),
        Bad::Gone | Bad::Rush(..) | Bad::Herd(..) => return Ok(vec![]),
        Bad::Maker(k) => {
            srv.hub.maker_next.store(1 + u32::from(*k % 3), SeqCst);
            let r = p.send(&hello);
            // A peer that left without waiting may have got the failure instead.
            let until = Instant::now() + deadline();
            while p.frames()?.is_empty() && p.fill(until)? {}
            r
        }
        Bad::Garbage(g) => p.send(&g.0),
        Bad::MidHello(n) => p.send(&hello[..*n as usize % hello.len()]),
        Bad::MidNotify(n) => {
            p.hello()?;
            let f = note(1, 1, vec![named("cut", id)]);
            p.send(&f[..*n as usize % f.len()])
        }
        Bad::Breach(s) => {
            p.hello()?;
            p.send(&step_bytes(s, 16384))
        }
        Bad::Reset(hello) => {
            if *hello {
                p.hello()?;
                let _ = p.send(&note(1, 1, vec![named("reset", id)]));
            }
            linger0(&p.s);
            return Ok(vec![]);
        }
        Bad::Service(k) => {
            p.hello()?;
            let r = p.send(&note(1, 1, vec![named(SERVICE[*k as usize % 4], id)]));
            if *k % 4 != 3 {
                // It is over with this one.
                let _ = p.rest()?;
            }
            r
        }
        Bad::Deaf => {
            p.hello()?;
            p.s.set_write_timeout(Some(Duration::from_millis(20))).ok();
            let one = note(1, 1, vec![named("!big", id)]);
            (0..600).try_for_each(|_| p.send(&one))
        }
        Bad::Fragment(sid, fid) => {
            p.hello()?;
            p.send(&wire::encode_prefixed(&Fr::Notify { frag: true, sid: *sid, fid: *fid, msgs: vec![named("left behind", id)] }))
        }
    };
    Ok(vec![p])
}

struct Good {
    peer: Option<Peer>,
    at: usize,
    parts: HashMap<(u64, u64), Vec<Msg>>,
    expect: Vec<Fr>,
    calls: Vec<Vec<Msg>>,
}

fn c18_check(c: &Crowd, obs: &mut Obs) -> R {
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    let srv = start(Start {
        listener,
        threads: c.threads,
        mpt_ms: c.mpt_ms,
        calls: 1,
        cancelled: false,
        traced: false,
        paused: false,
    })?;
    srv.hub.maker_delay.store(c.maker_ms.into(), SeqCst);
    let mut good: Vec<Good> =
        c.good.iter().map(|_| Good { peer: None, at: 0, parts: HashMap::new(), expect: vec![], calls: vec![] }).collect();
    let mut bad: Vec<Option<Vec<Peer>>> = c.bad.iter().map(|_| None).collect();
    obs.nontrivial_if(c.good.iter().filter(|g| !g.0.is_empty()).count() > 1 || (!c.bad.is_empty() && !c.good.is_empty()));
    for b in &c.bad {
        obs.label(match b {
            Bad::Silent => "silent peer",
            Bad::Garbage(_) => "garbage",
            Bad::MidHello(_) | Bad::MidNotify(_) => "stall in a frame",
            Bad::Breach(_) => "breach",
            Bad::Reset(_) => "reset",
            Bad::Service(k) => ["service fails", "service panics", "service panics later", "service hangs"][*k as usize % 4],
            Bad::Deaf => "never reads",
            Bad::Fragment(..) => "pending fragment",
            Bad::Gone => "closes at once",
            Bad::Maker(_) => "maker fails",
            Bad::Rush(..) => "rush",
            Bad::Herd(..) => "many that stay",
        });
    }
    obs.label(if c.threads > 0 { "several worker threads" } else { "one thread" });

    let step = |i: usize, g: &mut Good| -> R {
        let (frames, _) = &c.good[i];
        let peer = match &mut g.peer {
            Some(p) => p,
            None => {
                let mut p = Peer::connect(srv.addr).map_err(|f| format!("good peer {i}: {}", f.msg))?;
                p.hello().map_err(|f| format!("good peer {i}: {}", f.msg))?;
                g.peer = Some(p);
                return Ok(());
            }
        };
        let Some((Fr::Notify { frag, sid, fid, msgs }, wait)) = frames.get(g.at) else {
            return Ok(());
        };
        g.at += 1;
        let mut msgs = msgs.clone();
        for m in &mut msgs {
            m.name.retain(|c| c != '!');
            m.args.truncate(200);
            m.args.push(("peer".into(), Val::U64(i as u64)));
        }
        let f = Fr::Notify { frag: *frag, sid: *sid, fid: *fid, msgs: msgs.clone() };
        peer.send(&wire::encode_prefixed(&f)).map_err(|e| format!("good peer {i}: sending failed: {e}"))?;
        if *frag {
            g.parts.entry((*sid, *fid)).or_default().extend(msgs);
        } else {
            let mut all = g.parts.remove(&(*sid, *fid)).unwrap_or_default();
            all.extend(msgs);
            g.expect.push(ack(*sid, *fid, g.calls.len(), &all));
            g.calls.push(all);
            if *wait {
                peer.want(1 + g.expect.len()).map_err(|f| format!("good peer {i}: {}", f.msg))?;
            }
        }
        Ok(())
    };

    let n = c.bad.len() + c.good.len();
    for s in &c.schedule {
        if n == 0 {
            break;
        }
        let k = *s as usize % n;
        if k < c.bad.len() {
            if bad[k].is_none() {
                bad[k] = Some(
                    misbehave(&c.bad[k], &srv, 1000 + k)
                        .map_err(|f| format!("bad peer {k} ({}): {}", short(&c.bad[k]), f.msg))?,
                );
            }
        } else {
            step(k - c.bad.len(), &mut good[k - c.bad.len()])?;
        }
    }
    for (i, g) in good.iter_mut().enumerate() {
        while g.peer.is_none() || g.at < c.good[i].0.len() {
            step(i, g)?;
        }
    }
    probe(srv.addr, 999)?;
    for (i, g) in good.iter_mut().enumerate() {
        let p = g.peer.as_mut().unwrap();
        p.s.shutdown(Shutdown::Write).ok();
        let got = p.rest().map_err(|f| format!("good peer {i}: {}", f.msg))?;
        let got = &got[1..];
        for (j, want) in g.expect.iter().enumerate() {
            ensure!(got.get(j) == Some(want), "good peer {i}: reply {j} is {} instead of {}", short(&got.get(j)), short(want));
        }
        ensure!(
            got.len() == g.expect.len(),
            "good peer {i}: {} replies instead of {}: {}",
            got.len(),
            g.expect.len(),
            short(&got)
        );
    }
    ensure!(srv.done.try_recv().is_err(), "the agent stopped serving");
    // Whose messages went where.
    let mut of: BTreeMap<u32, Vec<Vec<Msg>>> = BTreeMap::new();
    for (svc, msgs) in srv.hub.log.lock().unwrap().iter() {
        of.entry(*svc).or_default().push(msgs.clone());
    }
    for (svc, calls) in &of {
        let mut owners: Vec<u64> = calls
            .iter()
            .flatten()
            .filter_map(|m| {
                m.args
                    .iter()
                    .rev()
                    .find(|(k, _)| k == "peer")
                    .and_then(|(_, v)| if let Val::U64(n) = v { Some(*n) } else { None })
            })
            .collect();
        owners.dedup();
        ensure!(owners.len() <= 1, "service {svc} got messages of the peers {owners:?}");
        if let Some(i) = owners.first().map(|i| *i as usize).filter(|i| *i < good.len()) {
            ensure!(*calls == good[i].calls, "good peer {i}: calls {} instead of {}", short(calls), short(&good[i].calls));
        }
    }
    for (i, g) in good.iter().enumerate() {
        if g.calls.iter().any(|c| !c.is_empty()) {
            ensure!(of.values().any(|c| *c == g.calls), "good peer {i}: its calls are missing");
        }
    }
    Ok(())
}

fn c18_gen() -> BoxedStrategy<Crowd> {
    let bad = prop_oneof![
        2 => Just(Bad::Silent),
        1 => Just(Bad::Gone),
        2 => blob(300).prop_map(Bad::Garbage),
        2 => any::<u16>().prop_map(Bad::MidHello),
        2 => any::<u16>().prop_map(Bad::MidNotify),
        3 => convs::malformed().prop_map(Bad::Breach),
        1 => (any::<bool>()).prop_map(Bad::Reset),
        6 => any::<u8>().prop_map(Bad::Service),
        1 => Just(Bad::Deaf),
        2 => any::<u8>().prop_map(Bad::Maker),
        3 => any::<(u8, u8)>().prop_map(|(a, b)| Bad::Rush(a, b)),
        1 => (20u8..200, any::<u8>()).prop_map(|(a, b)| Bad::Herd(a, b)),
        3 => (1u64..4, 1u64..4).prop_map(|(a, b)| Bad::Fragment(a, b)),
    ];
    let good = (
        vec((notify(35).prop_map(|s| if let Step::Frame(f) = s { f } else { unreachable!() }), any::<bool>()), 0..8),
        any::<bool>(),
    );
    (
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        prop_oneof![2 => Just(15_000u64), 1 => 1u64..50],
        vec(bad, 0..6),
        vec(good, 1..5),
        vec(any::<u8>(), 0..50),
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(threads, mpt_ms, bad, good, schedule, maker_ms)| Crowd { threads, mpt_ms, bad, good, schedule, maker_ms })
        .boxed()
}

/// Very many connections at a time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Herd {
    threads: u8,
    n: u16,
    silent: u8,
    /// Who sends something, and how many notifications.
    talk: Vec<(u16, u8)>,
    /// Who leaves in between.
    leave: u8,
    /// Whose service hangs from the beginning.
    #[serde(default)]
    hang: u8,
}

fn c18_herd(c: &Herd, obs: &mut Obs) -> R {
    let n = (c.n as usize).min(affordable(1));
    obs.nontrivial_if(n > 100);
    obs.label_if(n > 1000, "more than a thousand");
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    // Those that hang do so until the end.
    let srv =
        start(Start { listener, threads: c.threads, mpt_ms: 600_000, calls: 1, cancelled: false, traced: false, paused: false })?;
    let mut peers: Vec<Option<Peer>> = herd(n, c.silent, srv.addr)?.into_iter().map(Some).collect();
    let silent = |i: usize| c.silent >> (i % 8) & 1 == 1;
    let hangs = |i: usize| !silent(i) && c.hang >> (i % 8) & 1 == 1;
    let mut hanging = 0;
    for (i, p) in peers.iter_mut().enumerate().filter(|(i, _)| hangs(*i)) {
        if let Some(p) = p {
            p.send(&note(1, 1, vec![named("!hang", i)])).map_err(|e| format!("peer {i} of {n}: sending failed: {e}"))?;
            hanging += 1;
        }
    }
    obs.label_if(hanging > 100, "more than a hundred hanging services");
    let mut expect: Vec<Vec<Fr>> = vec![vec![]; n];
    for (k, (who, cnt)) in c.talk.iter().enumerate() {
        if n == 0 {
            break;
        }
        let i = *who as usize % n;
        let Some(p) = &mut peers[i] else { continue };
        if silent(i) || hangs(i) {
            continue;
        }
        for j in 0..*cnt {
            let m = vec![named(&format!("talk {k} {j}"), i)];
            p.send(&note(1, u64::from(j) + 1, m.clone())).map_err(|e| format!("peer {i} of {n}: sending failed: {e}"))?;
            let nth = expect[i].len();
            expect[i].push(ack(1, u64::from(j) + 1, nth, &m));
        }
        let f = p.want(1 + expect[i].len()).map_err(|f| format!("peer {i} of {n}: {}", f.msg))?;
        ensure!(f[1..] == expect[i], "peer {i} of {n}: got {}", short(&f));
        if k % 8 == 3 {
            for (i, p) in peers.iter_mut().enumerate() {
                if c.leave >> ((i + k) % 8) & 1 == 1 {
                    *p = None;
                }
            }
            probe(srv.addr, 999)?;
        }
    }
    probe(srv.addr, 999)?;
    for (i, p) in peers.iter_mut().enumerate().filter(|(i, _)| !hangs(*i)) {
        let Some(p) = p else { continue };
        p.s.shutdown(Shutdown::Write).ok();
        let f = p.rest().map_err(|f| format!("peer {i} of {n}: {}", f.msg))?;
        let hello = usize::from(!silent(i));
        ensure!(f.len() >= hello && f[hello..] == expect[i], "peer {i} of {n}: got {}", short(&f));
    }
    Ok(())
}

fn c18_herd_gen() -> BoxedStrategy<Herd> {
    (
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        prop_oneof![1 => 2u16..100, 2 => 100u16..600, 1 => 1000u16..1300],
        any::<u8>(),
        vec((any::<u16>(), 1u8..4), 0..60),
        any::<u8>(),
        prop_oneof![1 => Just(0u8), 2 => any::<u8>()],
    )
        .prop_map(|(threads, n, silent, talk, leave, hang)| Herd { threads, n, silent, talk, leave, hang })
        .boxed()
}

/// Peers that send all the time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flooding {
    threads: u8,
    /// Lengths of the argument, flooder by flooder.
    floods: Vec<u16>,
    probes: u8,
}

fn c18_flooding(c: &Flooding, obs: &mut Obs) -> R {
    obs.nontrivial_if(c.floods.len() > c.threads as usize || c.threads == 0);
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    let srv =
        start(Start { listener, threads: c.threads, mpt_ms: 15_000, calls: 1, cancelled: false, traced: false, paused: false })?;
    let mut socks = vec![];
    let mut threads = vec![];
    for (i, n) in c.floods.iter().enumerate() {
        let mut p = Peer::connect(srv.addr)?;
        p.hello()?;
        let one =
            note(1, 1, vec![Msg { name: format!("flood {i}"), args: vec![("a".into(), Val::Bin(Hex(vec![7; *n as usize])))] }]);
        let many = one.repeat(1 + 60_000 / one.len());
        let mut r = p.s.try_clone().map_err(|e| e.to_string())?;
        let mut w = p.s.try_clone().map_err(|e| e.to_string())?;
        socks.push(p.s);
        threads.push(std::thread::spawn(move || while w.write_all(&many).is_ok() {}));
        threads.push(std::thread::spawn(move || {
            let mut b = vec![0; 1 << 16];
            while matches!(r.read(&mut b), Ok(n) if n > 0) {}
        }));
    }
    let until = Instant::now() + Duration::from_millis(200);
    while srv.hub.log.lock().unwrap().len() < 500 && Instant::now() < until {
        std::thread::sleep(Duration::from_millis(1));
    }
    let r = (0..1 + c.probes as usize % 4).try_for_each(|i| {
        // What was seen so far is of no interest.
        srv.hub.log.lock().unwrap().clear();
        probe(srv.addr, i).map_err(|f| format!("while {} others flood: {}", c.floods.len(), f.msg).into())
    });
    for s in &socks {
        let _ = s.shutdown(Shutdown::Both);
    }
    drop(socks);
    for t in threads {
        let _ = t.join();
    }
    r
}

fn c18_flooding_gen() -> BoxedStrategy<Flooding> {
    (prop_oneof![2 => Just(0u8), 1 => 1u8..3], vec(prop_oneof![3 => 0u16..60, 1 => 0u16..2000], 1..4), any::<u8>())
        .prop_map(|(threads, floods, probes)| Flooding { threads, floods, probes })
        .boxed()
}

pub fn c18() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "flooding",
            quick: 40,
            thorough: 1_000,
            threads: 1,
            rule: "as many peers that always have another notification ready as the runtime has threads",
            strategy: c18_flooding_gen,
            check: c18_flooding,
        }),
        Box::new(Leg {
            name: "crowd",
            quick: 3_000,
            thorough: 60_000,
            threads: 8,
            rule: "at least two peers that matter to one another",
            strategy: c18_gen,
            check: c18_check,
        }),
        Box::new(Leg {
            name: "herd",
            quick: 24,
            thorough: 600,
            threads: 1,
            rule: "more than a hundred connections at a time",
            strategy: c18_herd_gen,
            check: c18_herd,
        }),
    ]
}

// ------------------------------------------------------------------ C24

/// The same few peers over and over again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Returning {
    bad: Vec<Bad>,
    notes: u8,
}

fn descriptors() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn c24_agent(c: &Returning, obs: &mut Obs) -> R {
    const ROUNDS: usize = 90;
    obs.nontrivial = true;
    obs.label_if(c.bad.is_empty(), "well-behaved only");
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    let srv = start(Start { listener, threads: 0, mpt_ms: 5, calls: 1, cancelled: false, traced: false, paused: false })?;
    let mut held = vec![];
    let mut open = vec![];
    let mut users = vec![];
    for r in 0..ROUNDS {
        for (k, b) in c.bad.iter().enumerate() {
            let mut peers = misbehave(b, &srv, 1000 + k).map_err(|f| format!("bad peer {k} ({}): {}", short(b), f.msg))?;
            for p in &mut peers {
                p.s.shutdown(Shutdown::Write).ok();
            }
            // One that reads its replies sees the end of the connection.
            for p in peers.iter_mut().filter(|_| !matches!(b, Bad::Deaf)) {
                let until = Instant::now() + deadline();
                while p.fill(until).map_err(|_| format!("round {r}: the connection of {} does not end", short(b)))? {}
            }
        }
        if c.notes > 0 {
            let mut p = Peer::connect(srv.addr)?;
            p.hello()?;
            for i in 0..c.notes {
                p.send(&note(1 + r as u64, 1 + u64::from(i), vec![named("again", 0)]))
                    .map_err(|e| format!("sending failed: {e}"))?;
            }
            p.want(1 + c.notes as usize)?;
            p.s.shutdown(Shutdown::Write).ok();
            p.rest()?;
        } else {
            probe(srv.addr, 999)?;
        }
        // The agent needs a moment to notice that the last one has left.
        let until = Instant::now() + deadline();
        loop {
            let live = srv.hub.live.load(SeqCst);
            if live == 0 {
                break;
            }
            ensure!(Instant::now() < until, "round {r}: {live} services still exist after their connections ended");
            std::thread::sleep(Duration::from_micros(200));
        }
        srv.hub.held.store(i64::MIN, SeqCst);
        let _ = srv.ask.send(Ask::Held);
        let bytes = loop {
            match srv.hub.held.load(SeqCst) {
                i64::MIN => ensure!(Instant::now() < until, "the agent's thread does not answer"),
                bytes => break bytes,
            }
            std::thread::sleep(Duration::from_micros(50));
        };
        held.push(bytes);
        open.push(descriptors());
        users.push(srv.used.strong_count());
    }
    let half = ROUNDS / 2;
    if std::env::var_os("VH_HELD").is_some() {
        eprintln!("{held:?}");
    }
    let lowest = |v: &[usize]| *v.iter().min().unwrap();
    ensure!(
        lowest(&open[half..]) < lowest(&open[..half]) + half / 2,
        "descriptors pile up: {} in the first half of the repetitions, {} in the second",
        lowest(&open[..half]),
        lowest(&open[half..])
    );
    ensure!(
        lowest(&users[half..]) < lowest(&users[..half]) + half / 2,
        "references to the runtime pile up: {} in the first half of the repetitions, {} in the second",
        lowest(&users[..half]),
        lowest(&users[half..])
    );
    let least = |v: &[i64]| *v.iter().min().unwrap();
    let growth = least(&held[ROUNDS - 10..]) - least(&held[half..half + 10]);
    let each = 64;
    ensure!(growth < each * (ROUNDS - half) as i64, "{growth} more bytes held after {ROUNDS} repetitions than after {half}");
    Ok(())
}

fn c24_agent_gen() -> BoxedStrategy<Returning> {
    let bad = prop_oneof![
        2 => Just(Bad::Silent),
        1 => Just(Bad::Gone),
        2 => blob(300).prop_map(Bad::Garbage),
        2 => any::<u16>().prop_map(Bad::MidHello),
        2 => any::<u16>().prop_map(Bad::MidNotify),
        3 => convs::malformed().prop_map(Bad::Breach),
        2 => (any::<bool>()).prop_map(Bad::Reset),
        4 => any::<u8>().prop_map(Bad::Service),
        2 => any::<u8>().prop_map(Bad::Maker),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Bad::Rush(a, b)),
        3 => (1u64..4, 1u64..4).prop_map(|(a, b)| Bad::Fragment(a, b)),
    ];
    (vec(bad, 0..4), 0u8..6).prop_map(|(bad, notes)| Returning { bad, notes }).boxed()
}

pub fn c24() -> Box<dyn LegDyn> {
    Box::new(Leg {
        name: "agent",
        quick: 60,
        thorough: 4_000,
        threads: 1,
        rule: "every case: some hundred connections accepted by one agent",
        strategy: c24_agent_gen,
        check: c24_agent,
    })
}

// ------------------------------------------------------------------ C19

/// What a connection is doing when shutdown is requested.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum At {
    Connected,
    MidHello(u16),
    Idle,
    MidFrame(u16),
    /// The service was called and waits; more notifications may be queued behind.
    InCall(u8),
    Fragment,
    /// Never served: the peer is gone already.
    Left,
    /// The call never ends by itself.
    Overrun,
    /// Ended already, in one of these ways.
    Over(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Closing {
    threads: u8,
    calls: u8,
    cancelled_before: bool,
    conns: Vec<(At, u8)>,
    again: bool,
    /// A connection arrives while it shuts down.
    late: bool,
    mpt_ms: u64,
    #[serde(default)]
    traced: bool,
    /// The calls in progress go on that long (of a clock that jumps), in milliseconds.
    #[serde(default)]
    linger: u32,
}

fn c19_agent(c: &Closing, obs: &mut Obs) -> R {
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    obs.label_if(c.cancelled_before, "requested before serving");
    obs.label_if(c.conns.is_empty(), "without connection");
    obs.label_if(c.calls > 1, "several calls of serve");
    let srv = start(Start {
        listener,
        threads: c.threads,
        mpt_ms: c.mpt_ms,
        calls: c.calls,
        cancelled: c.cancelled_before,
        traced: c.traced,
        paused: false,
    })?;
    let returned = |n: usize, what: &str| -> R<Vec<i64>> {
        (0..n)
            .map(|_| match srv.done.recv_timeout(deadline()) {
                Ok((Ok(()), live)) => Ok(live),
                Ok((Err(e), _)) => Err(format!("serving failed: {e}").into()),
                Err(_) => Err(format!("{what}: serving did not return in time").into()),
            })
            .collect()
    };
    if c.cancelled_before {
        returned(c.calls as usize, "shutdown requested before serving")?;
        return after(c, &srv, &returned);
    }
    struct Open {
        id: usize,
        peer: Peer,
        at: At,
        /// ACKs before the state was entered.
        acked: Vec<Fr>,
        /// The call in progress, and those behind.
        due: Vec<Fr>,
    }
    let mut open = vec![];
    let mut running = 0;
    for (i, (at, before)) in c.conns.iter().enumerate() {
        let mut p = Peer::connect(srv.addr)?;
        let mut acked = vec![];
        let mut due = vec![];
        if !matches!(at, At::Connected | At::MidHello(_) | At::Left | At::Over(_)) {
            p.hello()?;
            for n in 0..*before {
                let m = vec![named("before", i)];
                p.send(&note(5, u64::from(n) + 1, m.clone())).map_err(|e| e.to_string())?;
                acked.push(ack(5, u64::from(n) + 1, n as usize, &m));
            }
            let f = p.want(1 + acked.len())?;
            ensure!(f[1..] == acked[..], "connection {i}: got {} before shutdown", short(&f));
        }
        match at {
            At::Connected | At::Idle => {}
            At::Left => {
                drop(p);
                continue;
            }
            At::Over(k) => {
                let bad = match k % 8 {
                    k @ 0..=2 => Bad::Service(k),
                    k @ 3..=5 => Bad::Maker(k - 3),
                    6 => Bad::Garbage(Hex(vec![0, 0, 0, 1, 9])),
                    _ => Bad::Breach(Step::Frame(Fr::HDisc { code: 0, msg: "bye".into() })),
                };
                for mut p in misbehave(&bad, &srv, i)? {
                    p.rest().map_err(|f| format!("connection {i} ({bad:?}) is not closed: {}", f.msg))?;
                }
                obs.label(
                    ["service failed", "service panicked", "service panicked later"]
                        .get(*k as usize % 8)
                        .unwrap_or(&"ended before"),
                );
                continue;
            }
            At::MidHello(n) => {
                let h = wire::encode_prefixed(&plain_hello());
                p.send(&h[..1 + *n as usize % (h.len() - 1)]).map_err(|e| e.to_string())?;
            }
            At::MidFrame(n) => {
                let f = note(9, 9, vec![named("cut", i)]);
                p.send(&f[..1 + *n as usize % (f.len() - 1)]).map_err(|e| e.to_string())?;
            }
            At::Fragment => {
                let f = Fr::Notify { frag: true, sid: 9, fid: 9, msgs: vec![named("part", i)] };
                p.send(&wire::encode_prefixed(&f)).map_err(|e| e.to_string())?;
            }
            At::Overrun => {
                p.send(&note(7, 7, vec![named("!hang", i)])).map_err(|e| e.to_string())?;
                running += 1;
            }
            At::InCall(more) => {
                let m = vec![named("!gate", i)];
                p.send(&note(7, 7, m.clone())).map_err(|e| e.to_string())?;
                due.push(ack(7, 7, *before as usize, &m));
                for k in 0..*more {
                    let m = vec![named("behind", i)];
                    p.send(&note(8, u64::from(k) + 1, m.clone())).map_err(|e| e.to_string())?;
                    due.push(ack(8, u64::from(k) + 1, *before as usize + 1 + k as usize, &m));
                }
                running += 1;
            }
        }
        obs.label(match at {
            At::Connected => "just connected",
            At::MidHello(_) => "in the middle of the hello",
            At::Idle => "idle",
            At::MidFrame(_) => "in the middle of a frame",
            At::InCall(0) => "in a call",
            At::InCall(_) => "in a call, more queued",
            At::Fragment => "fragment pending",
            At::Overrun => "call that overruns",
            At::Left | At::Over(_) => "over",
        });
        open.push(Open { id: i, peer: p, at: at.clone(), acked, due });
    }
    if matches!(open.last().map(|o| &o.at), Some(At::Connected | At::MidHello(_))) {
        // Connections are accepted in order: once this one is served the others are no longer just waiting.
        let mut p = Peer::connect(srv.addr)?;
        p.hello()?;
        open.push(Open { id: c.conns.len(), peer: p, at: At::Idle, acked: vec![], due: vec![] });
    }
    obs.nontrivial_if(open.len() > 1);
    // Everybody is where it should be.
    let until = Instant::now() + deadline();
    let overruns = open.iter().filter(|o| o.at == At::Overrun).count() as i64;
    let begun = || {
        srv.hub
            .log
            .lock()
            .unwrap()
            .iter()
            .filter(|(_, m)| m.first().is_some_and(|m| ["!gate", "!hang"].contains(&&*m.name)))
            .count() as i64
    };
    while begun() < running {
        ensure!(Instant::now() < until, "the service was not called");
        std::thread::sleep(Duration::from_micros(200));
    }
    let in_call = running - overruns > 0;
    srv.token.cancel();
    if in_call {
        // The call is still going on: serving cannot have ended.
        std::thread::sleep(Duration::from_millis(3));
        ensure!(srv.done.try_recv().is_err(), "serving returned although a notification is still being processed");
    }
    let mut late = None;
    if c.late {
        obs.label("a connection arrives meanwhile");
        late = TcpStream::connect_timeout(&srv.addr, Duration::from_secs(2)).ok();
        if let Some(s) = &mut late {
            linger0(s);
            let _ = s.write_all(&wire::encode_prefixed(&plain_hello()));
        }
    }
    // Those not in a call are closed meanwhile.
    for o in &mut open {
        let i = o.id;
        if matches!(o.at, At::InCall(_)) {
            continue;
        }
        let got = o.peer.rest().map_err(|f| format!("connection {i} ({:?}) is not closed: {}", o.at, f.msg))?;
        let hello = usize::from(!matches!(o.at, At::Connected | At::MidHello(_)));
        let base = hello + o.acked.len();
        ensure!(got.len() >= base, "connection {i}: replies lost");
        let extra = &got[base..];
        match o.at {
            At::Overrun => {
                ensure!(matches!(extra, [Fr::ADisc { code: 2, .. }]), "connection {i}: the overrun call got {}", short(&extra))
            }
            // Told so or not.
            _ => ensure!(
                extra.is_empty() || matches!(extra, [Fr::ADisc { .. }]),
                "connection {i} ({:?}): got {}",
                o.at,
                short(&extra)
            ),
        }
    }
    if in_call {
        ensure!(srv.done.try_recv().is_err(), "serving returned although a notification is still being processed");
    }
    if c.linger > 0 && c.threads == 0 {
        obs.label_if(in_call, "calls that go on for long");
        srv.hub.linger.store(c.linger, SeqCst);
        srv.ask.send(Ask::Open).ok();
    } else {
        srv.hub.gate.open();
    }
    let live = returned(c.calls as usize, "after shutdown was requested")?;
    // Of several, one may still accept after another has returned.
    ensure!(live.last() == Some(&0), "serving returned while {live:?} connections were still going on");
    for o in &mut open {
        let i = o.id;
        let At::InCall(_) = o.at else { continue };
        let got = o.peer.rest().map_err(|f| format!("connection {i} ({:?}) is not closed: {}", o.at, f.msg))?;
        let base = 1 + o.acked.len();
        ensure!(got.len() > base, "connection {i}: the notification in progress was not acknowledged: {}", short(&got));
        let mut extra = got[base..].to_vec();
        if matches!(extra.last(), Some(Fr::ADisc { .. })) {
            extra.pop();
        }
        ensure!(
            !extra.is_empty() && extra.len() <= o.due.len() && extra[..] == o.due[..extra.len()],
            "connection {i}: got {} instead of the beginning of {}",
            short(&extra),
            short(&o.due)
        );
        // Whatever was handed to the service was acknowledged.
        let calls = srv
            .hub
            .log
            .lock()
            .unwrap()
            .iter()
            .filter(|(_, m)| {
                m.first().is_some_and(|m| m.name != "before" && m.args == [("peer".to_string(), Val::U64(i as u64))])
            })
            .count();
        ensure!(
            calls == extra.len(),
            "connection {i}: {calls} notifications were processed and {} acknowledged ({:?}): {}",
            extra.len(),
            o.peer.err,
            short(&got)
        );
    }
    drop(late);
    after(c, &srv, &returned)
}

/// Nothing is served once serving is over.
fn after(c: &Closing, srv: &Server, returned: &dyn Fn(usize, &str) -> R<Vec<i64>>) -> R {
    let made = srv.hub.made.load(SeqCst);
    if let Ok(mut s) = TcpStream::connect_timeout(&srv.addr, Duration::from_millis(500)) {
        linger0(&s);
        let _ = s.write_all(&wire::encode_prefixed(&plain_hello()));
        s.set_read_timeout(Some(Duration::from_millis(10))).ok();
        let mut b = [0u8; 64];
        if let Ok(n) = s.read(&mut b) {
            ensure!(n == 0, "a connection was answered after serving had returned");
        }
    }
    ensure!(srv.hub.made.load(SeqCst) == made, "a service was created after serving had returned");
    if c.again {
        // Whether this one still serves what waits is its own business, but it returns.
        srv.ask.send(Ask::Serve).ok();
        let live = returned(1, "serving again after shutdown")?;
        ensure!(live == [0], "serving again returned while {live:?} connections were still going on");
    }
    Ok(())
}

fn c19_agent_gen() -> BoxedStrategy<Closing> {
    let at = prop_oneof![
        2 => Just(At::Connected),
        1 => any::<u16>().prop_map(At::MidHello),
        3 => Just(At::Idle),
        2 => any::<u16>().prop_map(At::MidFrame),
        4 => (0u8..4).prop_map(At::InCall),
        1 => Just(At::Fragment),
        1 => Just(At::Left),
        1 => Just(At::Overrun),
        1 => any::<u8>().prop_map(At::Over),
    ];
    (
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        prop_oneof![4 => Just(1u8), 1 => 2u8..4],
        prop::bool::weighted(0.1),
        prop_oneof![1 => Just(vec![]), 12 => vec((at.clone(), 0u8..3), 1..7), 1 => vec((at, 0u8..2), 7..40)],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![2 => Just(0u32), 1 => 1u32..100_000, 1 => 100_000u32..3_600_000],
    )
        .prop_map(|(threads, calls, cancelled_before, conns, again, late, linger)| {
            // Only a call that overruns needs a short limit, and no other call may meet it.
            let overrun = conns.iter().any(|(a, _)| *a == At::Overrun);
            let conns = if overrun { conns.into_iter().filter(|(a, _)| !matches!(a, At::InCall(_))).collect() } else { conns };
            Closing {
                threads,
                calls,
                cancelled_before,
                conns,
                again,
                late,
                mpt_ms: if overrun { 80 } else { 7_200_000 },
                traced: false,
                linger,
            }
        })
        .boxed()
}

/// One connection, cancelled at a chosen moment of virtual time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cancelled {
    /// Whole notifications, with the milliseconds each call takes.
    notes: Vec<u32>,
    /// Bytes of one more frame.
    cut: u16,
    /// When, in milliseconds.
    at: u32,
    hello: bool,
    pace: u16,
    /// What the transport takes at a time, how long the peer pauses before each read, and the length of a
    /// value in each reply.
    pipe: u32,
    read_pace: u16,
    big: u16,
}

struct SlowMaker(Arc<Mutex<Vec<u64>>>, Vec<u32>, usize);
struct SlowSvc(Arc<Mutex<Vec<u64>>>, Vec<u32>, usize, usize);
impl tower::Service<u32> for SlowMaker {
    type Response = SlowSvc;
    type Error = TestErr;
    type Future = Fut<SlowSvc>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u32) -> Fut<SlowSvc> {
        let s = SlowSvc(self.0.clone(), self.1.clone(), 0, self.2);
        Box::pin(async move { Ok(s) })
    }
}
impl tower::Service<Vec<spop::Message>> for SlowSvc {
    type Response = Vec<spop::Action>;
    type Error = TestErr;
    type Future = Fut<Vec<spop::Action>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: Vec<spop::Message>) -> Fut<Vec<spop::Action>> {
        let n = self.2;
        self.2 += 1;
        self.0.lock().unwrap().push(n as u64);
        let d = Duration::from_millis(u64::from(self.1.get(n).copied().unwrap_or(0)));
        let big = self.3;
        Box::pin(async move {
            tokio::time::sleep(d).await;
            let mut acts = vec![spop::Action::set_var(spop::Scope::Request, "n", n as u64)];
            if big > 0 {
                acts.push(spop::Action::set_var(spop::Scope::Request, "big", "b".repeat(big)));
            }
            Ok(acts)
        })
    }
}

fn c19_conn(c: &Cancelled, obs: &mut Obs) -> R {
    crate::io::block_on(async {
        let calls = Arc::new(Mutex::new(vec![]));
        let rt = Builder::new()
            .max_process_time(Duration::from_secs(7200))
            .make_service(SlowMaker(calls.clone(), c.notes.clone(), c.big as usize), 1u32);
        let (mut peer, io) = tokio::io::duplex(c.pipe as usize);
        let tok = CancellationToken::new();
        let mut conn = Connection::new(rt, io, tok.clone());
        let begin = tokio::time::Instant::now();
        let task = tokio::spawn(async move { conn.serve().await.map_err(|e| e.to_string()) });
        let mut wire_bytes: Vec<Vec<u8>> = vec![];
        if c.hello {
            wire_bytes.push(wire::encode_prefixed(&plain_hello()));
            for i in 0..c.notes.len() {
                wire_bytes.push(note(1, i as u64 + 1, vec![]));
            }
            let f = note(9, 9, vec![named("cut", 1)]);
            wire_bytes.push(f[..c.cut as usize % f.len()].to_vec());
        } else {
            let f = wire::encode_prefixed(&plain_hello());
            wire_bytes.push(f[..c.cut as usize % f.len()].to_vec());
        }
        let pace = Duration::from_millis(u64::from(c.pace));
        let (mut pr, mut pw) = tokio::io::split(peer_half(&mut peer));
        let writer = tokio::spawn(async move {
            for b in wire_bytes {
                if pw.write_all(&b).await.is_err() {
                    break;
                }
                tokio::time::sleep(pace).await;
            }
            // The peer stays.
            std::future::pending::<()>().await;
            drop(pw);
        });
        let got = Arc::new(Mutex::new(vec![]));
        let read_pace = Duration::from_millis(u64::from(c.read_pace));
        let reader = tokio::spawn({
            let got = got.clone();
            async move {
                let mut b = [0u8; 512];
                loop {
                    if !read_pace.is_zero() {
                        tokio::time::sleep(read_pace).await;
                    }
                    match pr.read(&mut b).await {
                        Ok(0) | Err(_) => return,
                        Ok(n) => got.lock().unwrap().extend_from_slice(&b[..n]),
                    }
                }
            }
        });
        tokio::time::sleep(Duration::from_millis(u64::from(c.at))).await;
        tokio::task::yield_now().await;
        let before = calls.lock().unwrap().len();
        tok.cancel();
        let total: u64 = c.notes.iter().map(|n| u64::from(*n)).sum();
        let bytes = (c.notes.len() as u64 + 2) * (u64::from(c.big) + 200);
        let reads = bytes / u64::from(c.pipe.min(512)) + c.notes.len() as u64 + 4;
        let bound = Duration::from_millis(total + 1000) + read_pace * reads as u32;
        let closed = tokio::time::timeout(bound, reader).await;
        ensure!(closed.is_ok(), "the connection is still open {bound:?} after it was cancelled at {} ms", c.at);
        let _ = begin;
        ensure!(task.is_finished(), "serving the connection goes on after it was closed");
        let r = task.await.map_err(|e| e.to_string())?;
        ensure!(r.is_ok(), "a graceful end is reported as {r:?}");
        writer.abort();
        let bytes = std::mem::take(&mut *got.lock().unwrap());
        let (fs, rest) = wire::split(&bytes);
        ensure!(rest.is_empty(), "ends in the middle of a frame");
        let mut got: Vec<Fr> = vec![];
        for f in fs {
            got.push(wire::decode(f).map_err(|e| format!("{e:?}"))?);
        }
        if matches!(got.last(), Some(Fr::ADisc { .. })) {
            got.pop();
        }
        let acks = got.iter().filter(|f| matches!(f, Fr::Ack { .. })).count();
        let called = calls.lock().unwrap().len();
        obs.label_if(called > 0 && before == called, "none called after the cancellation");
        obs.label_if(before > 0, "called before the cancellation");
        obs.nontrivial_if(before > 0 || c.cut > 0);
        ensure!(acks == called, "{called} notifications were handed to the service and {acks} acknowledged");
        for (i, f) in got.iter().filter(|f| matches!(f, Fr::Ack { .. })).enumerate() {
            let mut acts = vec![Act::Set(3, "n".into(), Val::U64(i as u64))];
            if c.big > 0 {
                acts.push(Act::Set(3, "big".into(), Val::Str("b".repeat(c.big as usize))));
            }
            let want = Fr::Ack { frag: false, abort: false, sid: 1, fid: i as u64 + 1, acts };
            ensure!(*f == want, "acknowledgement {i} is {} instead of {}", short(f), short(&want));
        }
        Ok(())
    })
}

fn peer_half(p: &mut tokio::io::DuplexStream) -> tokio::io::DuplexStream {
    std::mem::replace(p, tokio::io::duplex(1).0)
}

fn c19_conn_gen() -> BoxedStrategy<Cancelled> {
    (
        vec(prop_oneof![2 => Just(0u32), 4 => 1u32..100, 1 => 100u32..7_000_000], 0..6),
        prop_oneof![1 => Just(0u16), 2 => any::<u16>()],
        prop_oneof![1 => Just(0u32), 3 => 0u32..400],
        prop_oneof![4 => Just(None), 1 => any::<prop::sample::Index>().prop_map(Some)],
        prop::bool::weighted(0.9),
        prop_oneof![2 => Just(0u16), 1 => 0u16..60],
        prop_oneof![3 => Just(1u32 << 20), 1 => 1u32..64, 1 => 64u32..4096],
        prop_oneof![3 => Just(0u16), 1 => 1u16..100],
        prop_oneof![2 => Just(0u16), 1 => 1u16..2000, 1 => 2000u16..16_000],
    )
        .prop_map(|(notes, cut, at, within, hello, pace, pipe, read_pace, big)| {
            // Or some time in the course of all the calls.
            let total: u32 = notes.iter().sum();
            let at = within.map_or(at, |i| i.index(total as usize + 1) as u32);
            Cancelled { notes, cut, at, hello, pace, pipe, read_pace, big }
        })
        .boxed()
}

/// A peer that never pauses: there is always another notification, and room for another reply.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flooded {
    /// Notifications before the connection is cancelled, and whether the service does that or the peer.
    before: u16,
    by_service: bool,
    /// Bytes handed over at a time.
    piece: u16,
    args: u16,
}

struct Flood {
    next: Vec<u8>,
    at: usize,
    given: u64,
    case: Flooded,
    tok: CancellationToken,
    out: Arc<Mutex<Vec<u8>>>,
}
impl tokio::io::AsyncRead for Flood {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.at == self.next.len() {
            self.given += 1;
            if self.given > u64::from(self.case.before) && !self.case.by_service {
                self.tok.cancel();
            }
            if self.given > u64::from(self.case.before) + FLOOD {
                return Poll::Ready(Ok(()));
            }
            let arg = Val::Bin(Hex(vec![7; self.case.args as usize]));
            self.next = note(1, self.given, vec![Msg { name: "m".into(), args: vec![("a".into(), arg)] }]);
            self.at = 0;
        }
        let n = (self.case.piece as usize).min(self.next.len() - self.at).min(buf.remaining());
        buf.put_slice(&self.next[self.at..self.at + n]);
        self.at += n;
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncWrite for Flood {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.out.lock().unwrap().extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Notifications a cancelled connection may still get: it notices between any two of them, or after the next
/// few, never as many as these. What was read ahead counts.
const FLOOD: u64 = 3000;

fn c19_flood(c: &Flooded, obs: &mut Obs) -> R {
    obs.nontrivial_if(c.before > 0);
    obs.label_if(c.by_service, "by the service");
    let calls = Arc::new(AtomicU32::new(0));
    let tok = CancellationToken::new();
    let out = Arc::new(Mutex::new(vec![]));
    let rt = Builder::new().make_service(
        tower::service_fn({
            let (calls, tok, c) = (calls.clone(), tok.clone(), c.clone());
            move |_: u32| {
                let (calls, tok, c) = (calls.clone(), tok.clone(), c.clone());
                std::future::ready(Ok::<_, TestErr>(tower::service_fn(move |_: Vec<spop::Message>| {
                    if calls.fetch_add(1, SeqCst) + 1 >= u32::from(c.before) && c.by_service {
                        tok.cancel();
                    }
                    std::future::ready(Ok::<_, TestErr>(vec![]))
                })))
            }
        }),
        1u32,
    );
    let io = Flood {
        next: wire::encode_prefixed(&plain_hello()),
        at: 0,
        given: 0,
        case: c.clone(),
        tok: tok.clone(),
        out: out.clone(),
    };
    let r = crate::io::block_on(async move { Connection::new(rt, io, tok).serve().await.map_err(|e| e.to_string()) });
    let called = u64::from(calls.load(SeqCst));
    let most = u64::from(c.before) + FLOOD;
    ensure!(called < most, "cancelled with {} notifications, it went on serving: {called} calls", c.before);
    ensure!(r.is_ok(), "a graceful end is reported as {r:?}");
    let bytes = std::mem::take(&mut *out.lock().unwrap());
    let (fs, rest) = wire::split(&bytes);
    ensure!(rest.is_empty(), "ends in the middle of a frame");
    let acks = fs.iter().filter(|f| matches!(wire::decode(f), Ok(Fr::Ack { .. }))).count() as u64;
    ensure!(acks == called, "{called} notifications were handed to the service and {acks} acknowledged");
    Ok(())
}

fn c19_flood_gen() -> BoxedStrategy<Flooded> {
    (
        prop_oneof![1 => Just(0u16), 2 => 1u16..10, 2 => 10u16..400],
        any::<bool>(),
        prop_oneof![1 => 1u16..30, 2 => Just(u16::MAX)],
        prop_oneof![2 => 0u16..100, 1 => 100u16..4000],
    )
        .prop_map(|(before, by_service, piece, args)| Flooded { before, by_service, piece, args })
        .boxed()
}

pub fn c19() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "flooded",
            quick: 2_000,
            thorough: 60_000,
            threads: 8,
            rule:
                "a peer with always another notification ready, cancelled by it or the service; non-trivial: after at least one",
            strategy: c19_flood_gen,
            check: c19_flood,
        }),
        Box::new(Leg {
            name: "connection",
            quick: 40_000,
            thorough: 1_500_000,
            threads: 8,
            rule: "cancelled after a call or in the middle of a frame",
            strategy: c19_conn_gen,
            check: c19_conn,
        }),
        Box::new(Leg {
            name: "agent",
            quick: 2_000,
            thorough: 40_000,
            threads: 8,
            rule: "at least two connections",
            strategy: c19_agent_gen,
            check: c19_agent,
        }),
    ]
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Listening {
    nonblocking: bool,
    v6: bool,
    threads: u8,
    /// Connections waiting before the agent exists, some of them reset.
    early: Vec<bool>,
    /// Connections after that; true: sequential.
    later: Vec<bool>,
    shutdown: bool,
}

fn c20_listen(c: &Listening, obs: &mut Obs) -> R {
    obs.nontrivial_if(!c.early.is_empty() || c.later.len() > 1);
    obs.label(if c.nonblocking { "non-blocking listener" } else { "blocking listener" });
    let listener = match listen(c.v6) {
        Ok(l) => l,
        Err(_) if c.v6 => listen(false).map_err(|e| format!("bind: {e}"))?,
        Err(e) => return Err(format!("bind: {e}").into()),
    };
    listener.set_nonblocking(c.nonblocking).map_err(|e| e.to_string())?;
    let addr = listener.local_addr().map_err(|e| e.to_string())?;
    let mut peers = vec![];
    for reset in &c.early {
        let mut p = Peer::connect(addr)?;
        if *reset {
            obs.label("reset before accepted");
            let _ = p.send(b"x");
            drop(p);
        } else {
            obs.label("waiting before the agent");
            p.send(&wire::encode_prefixed(&plain_hello())).map_err(|e| e.to_string())?;
            peers.push(p);
        }
    }
    let srv =
        start(Start { listener, threads: c.threads, mpt_ms: 15_000, calls: 1, cancelled: false, traced: false, paused: false })?;
    for seq in &c.later {
        if *seq {
            probe(addr, 1)?;
        } else {
            let mut p = Peer::connect(addr)?;
            p.send(&wire::encode_prefixed(&plain_hello())).map_err(|e| e.to_string())?;
            peers.push(p);
        }
    }
    for (i, p) in peers.iter_mut().enumerate() {
        p.want(1).map_err(|f| format!("connection {i}: {}", f.msg))?;
        let m = vec![named("m", i)];
        p.send(&note(1, 1, m.clone())).map_err(|e| e.to_string())?;
        let f = p.want(2).map_err(|f| format!("connection {i}: {}", f.msg))?;
        ensure!(f[1] == ack(1, 1, 0, &m), "connection {i}: got {}", short(&f[1]));
    }
    ensure!(srv.done.try_recv().is_err(), "the agent stopped serving");
    if c.shutdown {
        obs.label("shutdown");
        srv.token.cancel();
        match srv.done.recv_timeout(deadline()) {
            Ok((Ok(()), _)) => {}
            Ok((Err(e), _)) => return Err(format!("serving failed: {e}").into()),
            Err(_) => return Err("shutdown does not complete".into()),
        }
    }
    Ok(())
}

fn c20_listen_gen() -> BoxedStrategy<Listening> {
    (
        any::<bool>(),
        prop::bool::weighted(0.2),
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        vec(prop::bool::weighted(0.3), 0..5),
        vec(any::<bool>(), 0..5),
        any::<bool>(),
    )
        .prop_map(|(nonblocking, v6, threads, early, later, shutdown)| Listening {
            nonblocking,
            v6,
            threads,
            early,
            later,
            shutdown,
        })
        .boxed()
}

/// Descriptors run out in the agent's process.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exhausted {
    /// Descriptors left for connections.
    room: u8,
    rounds: Vec<Round>,
    threads: u8,
    /// Shut down while there are no descriptors left.
    end_exhausted: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    /// Connections beyond the room.
    beyond: u8,
    /// Milliseconds of exhaustion.
    hold_ms: u8,
    /// Close the connections that are served one by one (the last ones first) or all at once.
    one_by_one: bool,
}

/// The agent's side, in a process of its own: `vharness child-agent ROOM THREADS`.
pub fn child(args: &[String]) -> ! {
    let room: u64 = args[0].parse().unwrap();
    let threads: u8 = args[1].parse().unwrap();
    let listener = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).expect("bind");
    let srv = start(Start { listener, threads, mpt_ms: 15_000, calls: 1, cancelled: false, traced: false, paused: false })
        .expect("start");
    // Serve one to have everything open that is ever opened, then set the limit.
    if let Err(f) = probe(srv.addr, 1) {
        println!("FAIL first connection: {}", f.msg);
        std::process::exit(0);
    }
    // The probe's connection has ended on both sides.
    let count = || std::fs::read_dir("/proc/self/fd").map(|d| d.count() as u64 - 1).unwrap_or(16);
    let mut used = count();
    for _ in 0..200 {
        std::thread::sleep(Duration::from_millis(2));
        let n = count();
        if n >= used {
            break;
        }
        used = n;
    }
    let highest = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse::<u64>().ok()).max().unwrap_or(0))
        .unwrap_or(16);
    // Occupy the holes so that the limit leaves exactly the room.
    let mut plugs = vec![];
    while let Ok(f) = std::fs::File::open("/dev/null") {
        use std::os::fd::AsRawFd;
        if f.as_raw_fd() as u64 > highest {
            break;
        }
        plugs.push(f);
    }
    let lim = libc::rlimit { rlim_cur: highest + 1 + room, rlim_max: highest + 1 + room };
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &lim) };
    println!("READY {}", srv.addr);
    io::stdout().flush().ok();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut l = String::new();
        let _ = io::stdin().read_line(&mut l);
        let _ = tx.send(());
    });
    loop {
        if let Ok((r, _)) = srv.done.try_recv() {
            println!("FAIL serving ended by itself: {r:?}");
            break;
        }
        if rx.recv_timeout(Duration::from_millis(10)).is_ok() {
            srv.token.cancel();
            match srv.done.recv_timeout(deadline()) {
                Ok((Ok(()), _)) => println!("DONE"),
                Ok((Err(e), _)) => println!("FAIL serving failed: {e}"),
                Err(_) => println!("FAIL shutdown does not complete"),
            }
            break;
        }
    }
    io::stdout().flush().ok();
    std::process::exit(0)
}

fn c20_exhausted(c: &Exhausted, obs: &mut Obs) -> R {
    use std::io::BufRead;
    let mut child = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["child-agent", &c.room.to_string(), &c.threads.to_string()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| format!("spawn: {e}"))?;
    struct Kill(std::process::Child);
    impl Drop for Kill {
        fn drop(&mut self) {
            let _ = self.0.kill();
            let _ = self.0.wait();
        }
    }
    let mut stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let _kill = Kill(child);
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in io::BufReader::new(stdout).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let line = rx.recv_timeout(deadline() * 2).map_err(|_| "the agent's process does not start")?;
    let addr: SocketAddr = match line.strip_prefix("READY ") {
        Some(a) => a.parse().map_err(|e| format!("{e}"))?,
        None => return Err(line.into()),
    };
    let ended = |when: &str| -> R {
        match rx.try_recv() {
            Ok(l) => Err(format!("{when}: {l}").into()),
            Err(mpsc::TryRecvError::Disconnected) => Err(format!("{when}: the agent's process died").into()),
            Err(_) => Ok(()),
        }
    };
    let room = c.room as usize;
    let mut exhausted = false;
    let mut peers: Vec<Peer> = vec![];
    let open = |n: usize, peers: &mut Vec<Peer>| -> R {
        for _ in 0..n {
            let mut p = Peer::connect(addr)?;
            p.send(&wire::encode_prefixed(&plain_hello())).map_err(|e| e.to_string())?;
            peers.push(p);
        }
        Ok(())
    };
    let serve_all = |peers: &mut [Peer], what: &str| -> R {
        for (i, p) in peers.iter_mut().enumerate() {
            p.want(1).map_err(|f| format!("{what}: connection {i} of those that fit is not served: {}", f.msg))?;
        }
        Ok(())
    };
    for (k, r) in c.rounds.iter().enumerate() {
        // Fill the room, then go beyond.
        let missing = room.saturating_sub(peers.len());
        open(missing, &mut peers)?;
        serve_all(&mut peers, &format!("round {k}"))?;
        open(r.beyond as usize, &mut peers)?;
        if r.beyond > 0 {
            exhausted = true;
            obs.label("out of descriptors");
        }
        std::thread::sleep(Duration::from_millis(u64::from(r.hold_ms)));
        ended(&format!("round {k}"))?;
        // Give the descriptors back: everybody left is served in the end.
        let go = (r.beyond as usize).min(peers.len());
        if r.one_by_one {
            for _ in 0..go {
                drop(peers.remove(0));
                std::thread::sleep(Duration::from_millis(1));
            }
        } else {
            peers.drain(..go);
        }
        serve_all(&mut peers, &format!("round {k}, after descriptors became free"))?;
        for (i, p) in peers.iter_mut().enumerate() {
            let n = p.frames()?.len();
            let m = vec![named("round", i)];
            p.send(&note(1, n as u64, m.clone())).map_err(|e| e.to_string())?;
            let f = p.want(n + 1).map_err(|f| format!("round {k}: connection {i}: {}", f.msg))?;
            ensure!(f[n] == ack(1, n as u64, n - 1, &m), "round {k}: connection {i}: got {}", short(&f[n]));
        }
        ended(&format!("round {k}"))?;
    }
    if c.end_exhausted {
        obs.label("shutdown while out of descriptors");
        let n = room.saturating_sub(peers.len()) + 2;
        open(n, &mut peers)?;
        std::thread::sleep(Duration::from_millis(5));
        exhausted = true;
    }
    obs.nontrivial_if(exhausted);
    stdin.write_all(b"shutdown\n").map_err(|e| e.to_string())?;
    let l = rx.recv_timeout(deadline() * 2).map_err(|_| "shutdown does not complete")?;
    ensure!(l == "DONE", "{l}");
    Ok(())
}

fn c20_exhausted_gen() -> BoxedStrategy<Exhausted> {
    (
        1u8..6,
        vec(
            (0u8..5, prop_oneof![2 => 0u8..5, 1 => 0u8..120], any::<bool>()).prop_map(|(beyond, hold_ms, one_by_one)| Round {
                beyond,
                hold_ms,
                one_by_one,
            }),
            0..4,
        ),
        prop_oneof![2 => Just(0u8), 1 => 1u8..3],
        prop::bool::weighted(0.4),
    )
        .prop_map(|(room, rounds, threads, end_exhausted)| Exhausted { room, rounds, threads, end_exhausted })
        .boxed()
}

/// Accepting fails for a while, for any of the reasons accept(2) lists as temporary. The agent's clock jumps
/// over what it waits in between, and is read to know how long that was.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Faults {
    phases: Vec<Phase>,
    /// Shut down while accepting fails.
    end_failing: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    errs: Vec<u8>,
    repeat: u16,
    /// Goes on until those served already have been served again.
    meanwhile: Option<u8>,
    nodelay: bool,
    /// The connection goes away again before it is accepted.
    gone: bool,
}
const TEMPORARY: [i32; 14] = [
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOBUFS,
    libc::ENOMEM,
    libc::ECONNABORTED,
    libc::EPROTO,
    libc::EPERM,
    libc::EINTR,
    libc::ENETDOWN,
    libc::ENETUNREACH,
    libc::EHOSTDOWN,
    libc::EHOSTUNREACH,
    libc::ENONET,
    libc::ETIMEDOUT,
];

fn c20_faults(c: &Faults, obs: &mut Obs) -> R {
    use std::os::fd::AsRawFd;
    let errno = |k: u8| TEMPORARY[k as usize % TEMPORARY.len()];
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    let faulty = crate::faults::Faulty::new(listener.as_raw_fd());
    let srv = start(Start { listener, threads: 0, mpt_ms: 15_000, calls: 1, cancelled: false, traced: false, paused: true })?;
    let mut served: Vec<(Peer, u64)> = vec![];
    let talk = |i: usize, p: &mut Peer, n: &mut u64| -> R {
        let m = vec![named("m", i)];
        p.send(&note(1, *n + 1, m.clone())).map_err(|e| format!("connection {i}: {e}"))?;
        let f = p.want(*n as usize + 2).map_err(|f| format!("connection {i}: {}", f.msg))?;
        ensure!(f[*n as usize + 1] == ack(1, *n + 1, *n as usize, &m), "connection {i}: got {}", short(&f));
        *n += 1;
        Ok(())
    };
    let open = || -> R<Peer> {
        let mut p = Peer::connect(srv.addr)?;
        p.send(&wire::encode_prefixed(&plain_hello())).map_err(|e| e.to_string())?;
        Ok(p)
    };
    let failing = |why: &str| -> R {
        let until = Instant::now() + deadline();
        while faulty.with(|s| s.failed) == 0 {
            ensure!(Instant::now() < until, "{why}: accepting was not tried");
            std::thread::sleep(Duration::from_micros(100));
        }
        Ok(())
    };
    for (k, ph) in c.phases.iter().enumerate() {
        faulty.with(|s| {
            s.failed = 0;
            s.last = None;
            for _ in 0..ph.repeat {
                s.errs.extend(ph.errs.iter().map(|e| errno(*e)));
            }
            s.forever = ph.meanwhile.map(errno);
            s.nodelay = ph.nodelay;
        });
        let failures = ph.errs.len() * ph.repeat as usize;
        obs.label_if(failures > 0, "accepting fails");
        obs.label_if(failures > 50, "accepting fails more than 50 times");
        obs.label_if(ph.nodelay, "an option is refused");
        obs.nontrivial_if(failures > 0 || ph.meanwhile.is_some());
        if ph.gone && (failures > 0 || ph.meanwhile.is_some()) {
            obs.label("gone before accepted");
            let p = open()?;
            failing("gone")?;
            drop(p);
        }
        let mut p = open()?;
        if ph.meanwhile.is_some() {
            obs.label("others are served meanwhile");
            failing("meanwhile")?;
            for (i, (p, n)) in served.iter_mut().enumerate() {
                talk(i, p, n).map_err(|f| format!("phase {k}, while accepting fails: {}", f.msg))?;
            }
            faulty.with(|s| s.forever = None);
        }
        p.want(1).map_err(|f| format!("phase {k}, after {failures} failures to accept: {}", f.msg))?;
        let mut n = 0;
        talk(served.len(), &mut p, &mut n).map_err(|f| format!("phase {k}: {}", f.msg))?;
        let (last, left) = faulty.with(|s| (s.last, s.errs.len()));
        ensure!(left == 0, "{left} failures did not happen");
        if let (Some(a), Some(b)) = (last, *srv.hub.made_at.lock().unwrap()) {
            let waited = b.saturating_duration_since(a);
            ensure!(
                waited <= Duration::from_secs(60),
                "phase {k}: served {waited:?} after the last of {failures} failures to accept"
            );
        }
        served.push((p, n));
    }
    for (i, (p, n)) in served.iter_mut().enumerate() {
        talk(i, p, n)?;
    }
    ensure!(srv.done.try_recv().is_err(), "the agent stopped serving");
    let mut waiting = None;
    if let Some(e) = c.end_failing {
        obs.label("shutdown while accepting fails");
        faulty.with(|s| {
            s.failed = 0;
            s.forever = Some(errno(e));
        });
        waiting = Some(open()?);
        failing("shutdown")?;
    }
    srv.token.cancel();
    match srv.done.recv_timeout(deadline()) {
        Ok((Ok(()), _)) => {}
        Ok((Err(e), _)) => return Err(format!("serving failed: {e}").into()),
        Err(_) => return Err("shutdown does not complete".into()),
    }
    drop(waiting);
    Ok(())
}

fn c20_faults_gen() -> BoxedStrategy<Faults> {
    (
        vec(
            (
                vec(any::<u8>(), 0..4),
                prop_oneof![4 => 1u16..4, 1 => 4u16..60, 1 => 60u16..400],
                prop::option::weighted(0.3, any::<u8>()),
                prop::bool::weighted(0.2),
                prop::bool::weighted(0.2),
            )
                .prop_map(|(errs, repeat, meanwhile, nodelay, gone)| Phase {
                    errs,
                    repeat,
                    meanwhile,
                    nodelay,
                    gone,
                }),
            1..6,
        ),
        prop::option::weighted(0.3, any::<u8>()),
    )
        .prop_map(|(phases, end_failing)| Faults { phases, end_failing })
        .boxed()
}

pub fn c20() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "faults",
            quick: 1_000,
            thorough: 30_000,
            threads: 8,
            rule: "accepting failed at least once",
            strategy: c20_faults_gen,
            check: c20_faults,
        }),
        Box::new(Leg {
            name: "listeners",
            quick: 2_000,
            thorough: 40_000,
            threads: 8,
            rule: "connections were waiting before the agent existed, or at least two came later",
            strategy: c20_listen_gen,
            check: c20_listen,
        }),
        Box::new(Leg {
            name: "exhaustion",
            quick: 200,
            thorough: 4_000,
            threads: 8,
            rule: "the agent ran out of descriptors",
            strategy: c20_exhausted_gen,
            check: c20_exhausted,
        }),
    ]
}

/// C23: the same with everything traced.
pub fn c23() -> Box<dyn LegDyn> {
    Box::new(Leg {
        name: "agent",
        quick: 400,
        thorough: 10_000,
        threads: 8,
        rule: "a traced agent serves and shuts down as C19 has it; non-trivial: at least two connections",
        strategy: || c19_agent_gen().prop_map(|c| Closing { threads: 0, traced: true, ..c }).boxed(),
        check: c19_agent,
    })
}
