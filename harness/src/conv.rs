//! Whole conversations with a `Connection` over an in-memory transport and a virtual clock, compared
//! with a reference model of the agent's side of the protocol.
use std::collections::HashMap;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use haproxy_spoa::{runtime::Builder, Connection, Runtime};
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf};
use tokio_util::sync::CancellationToken;

use crate::ensure;
use crate::io::{steps as io_steps, Steps};
use crate::model::*;
use crate::props::codec::short;
use crate::runner::{Fail, Obs, R};
use crate::wire::{self, Bad};

pub const DEFAULT_MFS: u64 = 16384;
pub const DEFAULT_MPT_MS: u64 = 15_000;

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    pub versions: Vec<(u8, u8)>,
    pub caps: Vec<Cap>,
    pub mfs: Option<u64>,
    pub mpt_ms: Option<u64>,
    /// Through the builder, or the plain constructor.
    pub builder: bool,
    /// Which builder methods, in which order.
    #[serde(default)]
    pub mix: u8,
    /// No limit on the processing time, to all intents and purposes.
    #[serde(default)]
    pub forever: bool,
}
impl Conf {
    pub fn own(&self) -> u64 {
        self.mfs.unwrap_or(DEFAULT_MFS)
    }
    pub fn mpt(&self) -> u64 {
        self.mpt_ms.unwrap_or(DEFAULT_MPT_MS)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Frame(Fr),
    /// A payload with its length prefix, and the statuses that name what is wrong with it.
    Payload(Hex, Vec<u32>),
    /// A length prefix beyond the limit in force by that much, and some bytes.
    Oversize(u32, Hex),
    /// The beginning of a frame; what follows it is its continuation, so only sent last.
    Cut(Hex),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ready {
    Now,
    /// Not ready for so many polls.
    Polls(u8),
    /// Not ready for that percentage of the processing time.
    Later(u16),
    Fail(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    /// Actions derived from the call's number and messages.
    Echo,
    Acts(Vec<Act>),
    Fail(String),
    Never,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub ready: Ready,
    /// Percentage of the processing time.
    pub delay: u16,
    pub out: Out,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MakePlan {
    pub ready: Ready,
    pub delay: u16,
    pub fail: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    /// Each step waits for everything the previous one causes.
    LockStep,
    /// Everything is written as soon as the transport takes it.
    Pipelined,
    /// As pipelined, but the peer reads nothing for a long while.
    LateReader,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Open,
    Eof,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    pub conf: Conf,
    pub state: u32,
    pub steps: Vec<Step>,
    pub calls: Vec<Plan>,
    pub make: MakePlan,
    pub mode: Mode,
    pub end: End,
    pub pipe: u32,
    pub chunks: Steps,
    pub read_steps: Steps,
    pub write_steps: Steps,
    /// The agent's transport keeps written bytes until flushed.
    pub hold: bool,
    /// For how many seconds the peer pauses whenever it does, some twenty times at most, and between frames.
    #[serde(default)]
    pub pace: u32,
}

// ------------------------------------------------------------------ the instrumented service

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Make { state: u32 },
    Made { svc: u32 },
    Call { svc: u32, msgs: Vec<Msg> },
    Unready(&'static str),
}

pub struct Shared {
    pub log: Mutex<Vec<Ev>>,
    pub calls: Vec<Plan>,
    pub make: MakePlan,
    pub mpt_ms: u64,
}
impl Shared {
    pub fn ev(&self, e: Ev) {
        self.log.lock().unwrap().push(e)
    }
}

#[derive(Debug)]
pub struct TestErr(pub String);
impl std::fmt::Display for TestErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TestErr {}

type BoxFut<T> = Pin<Box<dyn Future<Output = Result<T, TestErr>> + Send>>;

/// Readiness that has to be asked for before every call, as the tower contract says.
#[derive(Default)]
struct Gate {
    ready: bool,
    polls: u32,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    recovers: bool,
}
impl Gate {
    fn poll(&mut self, cx: &mut Context<'_>, plan: &Ready, mpt_ms: u64) -> Poll<Result<(), TestErr>> {
        if self.ready {
            return Poll::Ready(Ok(()));
        }
        match plan {
            Ready::Now => {}
            Ready::Polls(n) => {
                if self.polls < u32::from(*n) {
                    self.polls += 1;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            Ready::Later(pct) => {
                let s = self
                    .sleep
                    .get_or_insert_with(|| Box::pin(tokio::time::sleep(Duration::from_millis(mpt_ms * u64::from(*pct) / 100))));
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
            }
            Ready::Fail(e) => {
                // A service that is asked again all the same has recovered.
                self.ready = self.recovers;
                return Poll::Ready(Err(TestErr(e.clone())));
            }
        }
        *self = Gate { ready: true, recovers: self.recovers, ..Gate::default() };
        Poll::Ready(Ok(()))
    }
    fn take(&mut self) -> bool {
        std::mem::take(&mut self.ready)
    }
}

pub struct Maker {
    pub sh: Arc<Shared>,
    gate: Gate,
    made: u32,
}
impl std::fmt::Debug for Maker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Maker")
    }
}
impl Maker {
    pub fn new(sh: Arc<Shared>) -> Self {
        Maker { sh, gate: Gate::default(), made: 0 }
    }
}
impl tower::Service<u32> for Maker {
    type Response = Svc;
    type Error = TestErr;
    type Future = BoxFut<Svc>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        let sh = self.sh.clone();
        self.gate.poll(cx, &sh.make.ready, sh.mpt_ms)
    }
    fn call(&mut self, state: u32) -> BoxFut<Svc> {
        let sh = self.sh.clone();
        if !self.gate.take() {
            sh.ev(Ev::Unready("maker"));
        }
        sh.ev(Ev::Make { state });
        self.made += 1;
        let id = self.made;
        Box::pin(async move {
            if sh.make.delay > 0 {
                tokio::time::sleep(Duration::from_millis(sh.mpt_ms * u64::from(sh.make.delay) / 100)).await;
            }
            match sh.make.fail.clone() {
                Some(e) => Err(TestErr(e)),
                None => {
                    sh.ev(Ev::Made { svc: id });
                    Ok(Svc { sh, id, n: 0, gate: Gate { recovers: true, ..Gate::default() } })
                }
            }
        })
    }
}

pub struct Svc {
    sh: Arc<Shared>,
    id: u32,
    n: usize,
    gate: Gate,
}

const DEFAULT_PLAN: Plan = Plan { ready: Ready::Now, delay: 0, out: Out::Echo };

fn plan(calls: &[Plan], n: usize) -> &Plan {
    calls.get(n).unwrap_or(&DEFAULT_PLAN)
}

/// The actions an echoing service returns for its n-th call.
pub fn echo(n: usize, msgs: &[Msg]) -> Vec<Act> {
    let mut v = vec![Act::Set(1, "call".into(), Val::U64(n as u64))];
    for (i, m) in msgs.iter().take(3).enumerate() {
        v.push(Act::Set(2, format!("m{i}"), Val::Str(m.name.chars().take(12).collect())));
    }
    v.push(Act::Unset(4, format!("n{}", msgs.len())));
    v
}

impl tower::Service<Vec<spop::Message>> for Svc {
    type Response = Vec<spop::Action>;
    type Error = TestErr;
    type Future = BoxFut<Vec<spop::Action>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        let sh = self.sh.clone();
        self.gate.poll(cx, &plan(&sh.calls, self.n).ready, sh.mpt_ms)
    }
    fn call(&mut self, msgs: Vec<spop::Message>) -> BoxFut<Vec<spop::Action>> {
        let sh = self.sh.clone();
        if !self.gate.take() {
            sh.ev(Ev::Unready("service"));
        }
        let n = self.n;
        self.n += 1;
        let msgs = msgs_from(&msgs);
        sh.ev(Ev::Call { svc: self.id, msgs: msgs.clone() });
        Box::pin(async move {
            let p = plan(&sh.calls, n);
            if p.delay > 0 {
                tokio::time::sleep(Duration::from_millis(sh.mpt_ms * u64::from(p.delay) / 100)).await;
            }
            match &p.out {
                Out::Echo => Ok(acts_to(&echo(n, &msgs))),
                Out::Acts(a) => Ok(acts_to(a)),
                Out::Fail(e) => Err(TestErr(e.clone())),
                Out::Never => std::future::pending().await,
            }
        })
    }
}

/// Of no interest by itself.
pub fn plain_runtime() -> Arc<Runtime<Maker, u32>> {
    plain_runtime_with(16_380)
}

pub fn plain_runtime_with(mfs: u64) -> Arc<Runtime<Maker, u32>> {
    let conf = Conf { versions: vec![], caps: vec![], mfs: Some(mfs), mpt_ms: None, builder: true, mix: 0, forever: false };
    let make = MakePlan { ready: Ready::Now, delay: 0, fail: None };
    runtime(&conf, Arc::new(Shared { log: Mutex::new(vec![]), calls: vec![], make, mpt_ms: 1000 }), 0)
}

pub fn runtime(conf: &Conf, sh: Arc<Shared>, state: u32) -> Arc<Runtime<Maker, u32>> {
    if conf.builder {
        let mix = conf.mix;
        let sizes = |mut b: Builder| {
            // What was said before does not count, be it less or more.
            let before = mix % 3;
            if let Some(n) = conf.mfs {
                match before {
                    1 => b = b.max_frame_size(n as usize / 2),
                    2 => b = b.max_frame_size(n as usize + 1000),
                    _ => {}
                }
                b = b.max_frame_size(n as usize);
            }
            if conf.forever {
                if before == 1 {
                    b = b.max_process_time(Duration::ZERO);
                }
                b = b.max_process_time(Duration::MAX);
            } else if let Some(ms) = conf.mpt_ms {
                match before {
                    1 => b = b.max_process_time(Duration::from_millis(ms / 2)),
                    2 => b = b.max_process_time(Duration::MAX),
                    _ => {}
                }
                b = b.max_process_time(Duration::from_millis(ms));
            }
            b
        };
        let versions = |mut b: Builder| {
            for v in &conf.versions {
                b = b.version(ver_to(*v));
            }
            b
        };
        let named = |b: Builder, c: Cap| match c {
            0 => b.fragmentation(),
            1 => b.pipelining(),
            _ => b.asynchronous(),
        };
        let mut b = Builder::new();
        if mix & 1 != 0 {
            b = sizes(b);
        }
        if mix & 2 == 0 {
            b = versions(b);
        }
        // Each part of the list through another method; whatever was asked for stays.
        let at = (mix as usize >> 2) % 4;
        let (x, y) = conf.caps.split_at(at.min(conf.caps.len()));
        for (part, way) in [(x, mix >> 4 & 3), (y, mix >> 6)] {
            match way {
                0 => b = part.iter().fold(b, |b, c| named(b, *c)),
                1 => b = part.iter().fold(b, |b, c| b.capability(cap_to(*c))),
                2 => b = b.capabilities(part.iter().map(|c| cap_to(*c))),
                _ => b = part.iter().fold(b, |b, c| b.capabilities([cap_to(*c)])),
            }
        }
        if mix & 2 != 0 {
            b = versions(b);
        }
        if mix & 1 == 0 {
            b = sizes(b);
        }
        b.make_service(Maker::new(sh), state)
    } else {
        Arc::new(Runtime::new(
            conf.versions.iter().map(|v| ver_to(*v)).collect(),
            conf.caps.iter().map(|c| cap_to(*c)).collect(),
            conf.own() as usize,
            if conf.forever { Duration::MAX } else { Duration::from_millis(conf.mpt()) },
            Maker::new(sh),
            state,
        ))
    }
}

// ------------------------------------------------------------------ the agent's transport

/// Splits reads and writes by script, and optionally keeps writes until flushed.
pub struct Chop {
    pub inner: DuplexStream,
    pub r: Steps,
    pub w: Steps,
    pub ri: usize,
    pub wi: usize,
    pub hold: bool,
    pub staged: Vec<u8>,
}
impl std::fmt::Debug for Chop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Chop")
    }
}
fn next(steps: &[u16], at: &mut usize) -> Option<usize> {
    if steps.is_empty() {
        return Some(usize::MAX);
    }
    let s = steps[*at % steps.len()] as usize;
    *at += 1;
    if s == 0 && steps.iter().all(|x| *x == 0) {
        return (*at % 2 == 0).then_some(1);
    }
    (s > 0).then_some(s)
}
impl Chop {
    fn drain(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while !self.staged.is_empty() {
            match Pin::new(&mut self.inner).poll_write(cx, &self.staged) {
                Poll::Ready(Ok(n)) => {
                    self.staged.drain(..n);
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for Chop {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        let Some(n) = next(&me.r, &mut me.ri) else {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        };
        let n = n.min(buf.remaining());
        let mut tmp = vec![0u8; n];
        let mut small = ReadBuf::new(&mut tmp);
        match Pin::new(&mut me.inner).poll_read(cx, &mut small) {
            Poll::Ready(Ok(())) => {
                buf.put_slice(small.filled());
                Poll::Ready(Ok(()))
            }
            p => p,
        }
    }
}
impl AsyncWrite for Chop {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let me = &mut *self;
        let Some(n) = next(&me.w, &mut me.wi) else {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        };
        let n = n.min(buf.len());
        if me.hold {
            me.staged.extend_from_slice(&buf[..n]);
            return Poll::Ready(Ok(n));
        }
        Pin::new(&mut me.inner).poll_write(cx, &buf[..n])
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.drain(cx) {
            Poll::Ready(Ok(())) => Pin::new(&mut self.inner).poll_flush(cx),
            p => p,
        }
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.drain(cx) {
            Poll::Ready(Ok(())) => Pin::new(&mut self.inner).poll_shutdown(cx),
            p => p,
        }
    }
}

// ------------------------------------------------------------------ the reference model

#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    Hello {
        version: (u8, u8),
        mfs: u64,
        caps: Vec<Cap>,
    },
    Ack {
        sid: u64,
        fid: u64,
        acts: Vec<Act>,
    },
    /// One of these statuses, and a message that contains the text.
    Disc {
        status: Vec<u32>,
        text: Option<String>,
    },
}

#[derive(Clone, Default, Debug)]
pub struct Expect {
    pub replies: Vec<Rep>,
    /// How many replies are due after each step.
    pub due: Vec<usize>,
    pub calls: Vec<Vec<Msg>>,
    pub makes: usize,
    pub closed: bool,
    /// Nothing is claimed beyond what was expected so far.
    pub open: bool,
    /// The peer left in the middle of a frame.
    pub cut: bool,
    /// Limit on every frame sent after the handshake.
    pub limit: u64,
    pub labels: Vec<&'static str>,
}

impl Expect {
    fn disc(&mut self, status: &[u32], text: Option<String>) {
        self.replies.push(Rep::Disc { status: status.to_vec(), text });
        self.closed = true;
    }
}

pub const ANY_REFUSAL: [u32; 6] = [4, 5, 6, 7, 8, 9];

fn disc_len(status: u32, text: &str) -> u64 {
    wire::encode(&Fr::ADisc { code: status, msg: text.to_string() }).len() as u64
}

pub fn step_bytes(s: &Step, limit: u64) -> Vec<u8> {
    match s {
        Step::Frame(f) => wire::encode_prefixed(f),
        Step::Payload(b, _) => wire::prefixed(&b.0),
        Step::Oversize(by, body) => {
            let n = (limit.min(u64::from(u32::MAX)) as u32).saturating_add((*by).max(1));
            let mut o = n.to_be_bytes().to_vec();
            o.extend_from_slice(&body.0);
            o
        }
        Step::Cut(b) => b.0.clone(),
    }
}

/// What a conversation must show, and the agent's own limit for every step.
pub fn model(c: &Conv) -> (Expect, Vec<u64>) {
    let mut e = Expect { limit: c.conf.own(), ..Default::default() };
    let mut limits = vec![];
    let own = c.conf.own();
    let mut connected = false;
    let mut fragmentation = false;
    let mut parts: HashMap<(u64, u64), Vec<Msg>> = HashMap::new();
    for s in &c.steps {
        limits.push(own);
        if e.closed || e.open || e.cut {
            e.due.push(e.replies.len());
            continue;
        }
        handle(c, s, own, &mut e, &mut connected, &mut fragmentation, &mut parts);
        e.due.push(e.replies.len());
    }
    if c.end == End::Eof && !e.open {
        e.closed = true;
    }
    (e, limits)
}

fn handle(
    c: &Conv,
    s: &Step,
    own: u64,
    e: &mut Expect,
    connected: &mut bool,
    fragmentation: &mut bool,
    parts: &mut HashMap<(u64, u64), Vec<Msg>>,
) {
    let (payload, statuses) = match s {
        Step::Oversize(..) => {
            e.labels.push("oversize");
            if own >= u64::from(u32::MAX) {
                e.open = true;
                return;
            }
            return e.disc(&[3], None);
        }
        Step::Cut(b) => {
            e.labels.push("cut");
            // Anything that happens to be a whole frame is not this step's business.
            if b.0.len() >= 4 {
                let n = u32::from_be_bytes(b.0[..4].try_into().unwrap()) as u64;
                if n > e.limit || n <= (b.0.len() - 4) as u64 {
                    e.open = true;
                    return;
                }
            }
            e.cut = true;
            return;
        }
        Step::Frame(f) => (wire::encode(f), vec![4]),
        Step::Payload(b, st) => (b.0.clone(), st.clone()),
    };
    let len = payload.len() as u64;
    if len > own {
        e.labels.push("oversize");
        return e.disc(&[3], None);
    }
    if len > e.limit {
        // Between the agreed and the agent's own limit.
        e.open = true;
        return;
    }
    let f = match wire::decode(&payload) {
        Ok(f) => f,
        Err(Bad::Malformed(_)) => {
            e.labels.push("malformed");
            return e.disc(&statuses, None);
        }
        Err(Bad::Open(_)) => {
            e.open = true;
            return;
        }
    };
    if !*connected {
        let Fr::HHello { versions, mfs, caps, hc, .. } = f else {
            e.labels.push("not a hello");
            return e.disc(&[4], None);
        };
        let ours = if c.conf.builder && c.conf.versions.is_empty() { vec![(2, 0)] } else { c.conf.versions.clone() };
        let Some(version) = versions.iter().filter(|v| ours.contains(v)).max().copied() else {
            e.labels.push("no common version");
            return e.disc(&[8], None);
        };
        let mfs = own.min(u64::from(mfs));
        let mut both: Vec<Cap> = (0..3).filter(|k| caps.contains(k) && c.conf.caps.contains(k)).collect();
        both.sort();
        *fragmentation = both.contains(&FRAGMENTATION);
        let hello = Rep::Hello { version, mfs, caps: both };
        if hc == Some(true) {
            e.labels.push("health check");
            e.replies.push(hello);
            e.closed = true;
            return;
        }
        match (&c.make.ready, &c.make.fail) {
            (Ready::Fail(t), _) => {
                e.labels.push("maker not ready");
                return e.disc(&[99], (disc_len(99, t) + 40 <= own).then(|| t.clone()));
            }
            (_, Some(t)) => {
                e.makes = 1;
                e.labels.push("maker fails");
                return e.disc(&[99], (disc_len(99, t) + 40 <= own).then(|| t.clone()));
            }
            _ => e.makes = 1,
        }
        e.replies.push(hello);
        *connected = true;
        e.limit = mfs;
        e.open = mfs < 128;
        return;
    }
    match f {
        Fr::HDisc { .. } => {
            e.labels.push("peer disconnects");
            e.disc(&[0], None)
        }
        Fr::Notify { frag, sid, fid, msgs } => {
            if frag && !*fragmentation {
                e.labels.push("fragment not negotiated");
                return e.disc(&[10], None);
            }
            if frag {
                e.labels.push("fragment");
                parts.entry((sid, fid)).or_default().extend(msgs);
                return;
            }
            let mut all = parts.remove(&(sid, fid)).unwrap_or_default();
            all.extend(msgs);
            let n = e.calls.len();
            let p = plan(&c.calls, n);
            let fits = |t: &String, limit: u64| (disc_len(99, t) <= limit).then(|| t.clone());
            if let Ready::Fail(t) = &p.ready {
                e.labels.push("service not ready");
                let t = fits(t, e.limit);
                return e.disc(&[99], t);
            }
            let wait = match p.ready {
                Ready::Later(w) => {
                    e.labels.push("service ready later");
                    w
                }
                _ => 0,
            };
            if wait > 100 {
                e.labels.push("overrun");
                e.labels.push("ready too late");
                return e.disc(&[2], None);
            }
            let acts = match &p.out {
                Out::Echo => echo(n, &all),
                Out::Acts(a) => a.clone(),
                Out::Fail(_) | Out::Never => vec![],
            };
            e.calls.push(all);
            if p.out == Out::Never || wait + p.delay > 100 {
                e.labels.push("overrun");
                return e.disc(&[2], None);
            }
            debug_assert!(wait + p.delay < 100, "too close");
            if let Out::Fail(t) = &p.out {
                e.labels.push("service fails");
                let t = fits(t, e.limit);
                return e.disc(&[99], t);
            }
            let ack = Fr::Ack { frag: false, abort: false, sid, fid, acts: acts.clone() };
            if wire::encode(&ack).len() as u64 > e.limit {
                e.labels.push("reply beyond the limit");
                return e.disc(&[3], None);
            }
            e.labels.push("acknowledged");
            e.labels.push(if p.delay > 0 { "slow call" } else { "immediate call" });
            e.replies.push(Rep::Ack { sid, fid, acts });
        }
        _ => {
            e.labels.push("unexpected frame");
            e.disc(&[4], None)
        }
    }
}

// ------------------------------------------------------------------ running

#[derive(Debug, Clone)]
pub struct Got {
    pub bytes: Vec<u8>,
    /// Bytes received after each step (lock-step only).
    pub after: Vec<usize>,
    pub closed: bool,
    pub log: Vec<Ev>,
    pub ended: bool,
    pub serve: Option<Result<(), String>>,
}

pub fn run(c: &Conv, limits: &[u64]) -> Got {
    crate::io::block_on(run_async(c, limits))
}

async fn run_async(c: &Conv, limits: &[u64]) -> Got {
    let sh = Arc::new(Shared { log: Mutex::new(vec![]), calls: c.calls.clone(), make: c.make.clone(), mpt_ms: c.conf.mpt() });
    let rt = runtime(&c.conf, sh.clone(), c.state);
    run_on(rt, sh, c, limits).await
}

/// With a runtime that may serve other conversations as well, whose log is then theirs, too.
pub async fn run_on(rt: Arc<Runtime<Maker, u32>>, sh: Arc<Shared>, c: &Conv, limits: &[u64]) -> Got {
    let (peer, io) = tokio::io::duplex(c.pipe.max(1) as usize);
    let io = Chop { inner: io, r: c.read_steps.clone(), w: c.write_steps.clone(), ri: 0, wi: 0, hold: c.hold, staged: vec![] };
    let mut conn = Connection::new(rt, io, CancellationToken::new());
    let task = tokio::spawn(async move { conn.serve().await });
    let (mut pr, mut pw) = tokio::io::split(peer);
    let got = Arc::new(Mutex::new(vec![]));
    let pace = Duration::from_secs(c.pace.into());
    let quiet = Duration::from_millis(c.conf.mpt() * 12) + Duration::from_secs(1000) + pace;
    let late = if c.mode == Mode::LateReader { quiet * (c.steps.len() as u32 + 1) } else { Duration::ZERO };
    let reader = {
        let got = got.clone();
        tokio::spawn(async move {
            tokio::time::sleep(late).await;
            let mut buf = [0u8; 3000];
            loop {
                match pr.read(&mut buf).await {
                    Ok(0) | Err(_) => return,
                    Ok(n) => got.lock().unwrap().extend_from_slice(&buf[..n]),
                }
            }
        })
    };
    let mut after = vec![];
    let lock = c.mode == Mode::LockStep;
    let chunks = c.chunks.clone();
    let wire: Vec<Vec<u8>> = c.steps.iter().zip(limits).map(|(s, l)| step_bytes(s, *l)).collect();
    let eof = c.end == End::Eof;
    let mut long = if c.pace > 0 { 20 } else { 0 };
    let writer = async {
        let mut at = 0;
        tokio::time::sleep(pace).await;
        let batches = if lock { wire } else { vec![wire.concat()] };
        'all: for b in batches {
            let mut b = &b[..];
            while !b.is_empty() {
                let n = match next(&chunks, &mut at) {
                    None => {
                        tokio::time::sleep(if long > 0 { pace } else { Duration::from_millis(1) }).await;
                        long = i32::max(long - 1, 0);
                        continue;
                    }
                    Some(n) => n.min(b.len()),
                };
                if pw.write_all(&b[..n]).await.is_err() {
                    break 'all;
                }
                b = &b[n..];
                tokio::task::yield_now().await;
            }
            if lock {
                tokio::time::sleep(quiet).await;
                after.push(got.lock().unwrap().len());
            }
        }
        if eof {
            let _ = pw.shutdown().await;
        }
        pw
    };
    let bound = quiet * (c.steps.len() as u32 + 4) * 4 + pace * 24;
    let pw = tokio::time::timeout(bound, writer).await;
    tokio::time::sleep(bound).await;
    let closed = task.is_finished();
    let bytes = got.lock().unwrap().clone();
    let log = sh.log.lock().unwrap().clone();
    // The peer goes away for good: nothing may keep the connection alive.
    drop(pw);
    reader.abort();
    tokio::time::sleep(bound).await;
    let ended = task.is_finished();
    let serve = if ended { Some(task.await.map_err(|e| e.to_string()).and_then(|r| r.map_err(|e| e.to_string()))) } else { None };
    Got { bytes, after, closed, log, ended, serve }
}

// ------------------------------------------------------------------ comparison

pub fn compare(c: &Conv, e: &Expect, g: &Got) -> R {
    if let Some(Err(m)) = &g.serve {
        ensure!(!m.contains("panicked"), "the connection panicked: {m}");
    }
    let (frames, rest) = wire::split(&g.bytes);
    ensure!(rest.is_empty(), "{} bytes sent that are no whole frame", rest.len());
    let mut seen = vec![];
    for (i, f) in frames.iter().enumerate() {
        let limit = if i == 0 { c.conf.own() } else { e.limit };
        ensure!(f.len() as u64 <= limit || e.open, "frame {i} of {} bytes sent, the limit is {limit}", f.len());
        match wire::decode(f) {
            Ok(f) => seen.push(f),
            Err(b) => return Err(format!("frame {i} sent is not conformant ({b:?}): {:?}", Hex(f.to_vec())).into()),
        }
    }
    for ev in &g.log {
        if let Ev::Unready(what) = ev {
            return Err(format!("the {what} was called without having reported ready").into());
        }
    }
    // Replies.
    for (i, want) in e.replies.iter().enumerate() {
        let Some(got) = seen.get(i) else {
            return Err(format!(
                "reply {i} missing: expected {}, the agent sent {} frames {}",
                short(want),
                seen.len(),
                short(&seen)
            )
            .into());
        };
        let ok = match (want, got) {
            (Rep::Hello { version, mfs, caps }, Fr::AHello { version: v, mfs: m, caps: k }) => {
                let mut k = k.clone();
                k.sort();
                version == v && *mfs == u64::from(*m) && *caps == k
            }
            (Rep::Ack { sid, fid, acts }, Fr::Ack { frag: false, abort: false, sid: s, fid: f, acts: a }) => {
                sid == s && fid == f && acts == a
            }
            (Rep::Disc { status, text }, Fr::ADisc { code, msg }) => {
                status.contains(code) && text.as_ref().is_none_or(|t| msg.contains(t.as_str()))
            }
            _ => false,
        };
        ensure!(ok, "reply {i}: expected {}, got {}", short(want), short(got));
    }
    let calls: Vec<(u32, &Vec<Msg>)> = g
        .log
        .iter()
        .filter_map(|e| match e {
            Ev::Call { svc, msgs } => Some((*svc, msgs)),
            _ => None,
        })
        .collect();
    for (i, want) in e.calls.iter().enumerate() {
        let Some((_, got)) = calls.get(i) else {
            return Err(format!("call {i} of the service missing: {}", short(want)).into());
        };
        ensure!(*got == want, "call {i} of the service got {} instead of {}", short(got), short(want));
    }
    let makes: Vec<u32> = g.log.iter().filter_map(|e| if let Ev::Make { state } = e { Some(*state) } else { None }).collect();
    ensure!(makes.len() >= e.makes, "no service was made");
    ensure!(makes.iter().all(|s| *s == c.state), "a service was made with state {makes:?} instead of {}", c.state);
    ensure!(makes.len() <= 1, "{} services were made for one connection", makes.len());
    ensure!(calls.iter().all(|(s, _)| *s == 1), "calls went to several services");
    if e.open {
        return Ok(());
    }
    let extra = seen.len() - e.replies.len();
    let tolerated = usize::from(e.replies.iter().all(|r| !matches!(r, Rep::Disc { .. })) && (e.cut || c.end == End::Eof))
        * usize::from(matches!(seen.last(), Some(Fr::ADisc { .. })));
    ensure!(extra <= tolerated, "{} frames more than expected: {}", extra, short(&&seen[e.replies.len()..]));
    ensure!(calls.len() == e.calls.len(), "{} calls of the service instead of {}: {}", calls.len(), e.calls.len(), short(&calls));
    ensure!(makes.len() == e.makes, "{} services made instead of {}", makes.len(), e.makes);
    if e.closed {
        ensure!(g.closed, "the connection is still open");
    } else if !e.cut {
        ensure!(!g.closed, "the connection was closed without cause ({:?})", g.serve);
    }
    ensure!(g.ended, "the connection never ends after the peer is gone");
    if c.mode == Mode::LockStep {
        for (i, n) in g.after.iter().enumerate() {
            let have = wire::split(&g.bytes[..*n]).0.len();
            ensure!(have >= e.due[i], "after step {i} only {have} of {} replies were delivered, without further input", e.due[i]);
            ensure!(have <= e.due[i] + tolerated, "after step {i} already {have} replies instead of {}", e.due[i]);
        }
    }
    Ok(())
}

pub fn check(c: &Conv, obs: &mut Obs) -> R {
    let (e, limits) = model(c);
    for l in &e.labels {
        obs.label(l);
    }
    obs.label_if(e.open, "ends unspecified");
    obs.label(match c.mode {
        Mode::LockStep => "lock-step",
        Mode::Pipelined => "pipelined",
        Mode::LateReader => "late reader",
    });
    obs.label_if(c.hold, "holding transport");
    let g = run(c, &limits);
    compare(c, &e, &g).map_err(|f| Fail { msg: format!("{} | calls expected {}", f.msg, e.calls.len()), ..f })
}

// ------------------------------------------------------------------ generators

pub fn key() -> BoxedStrategy<(u64, u64)> {
    prop_oneof![
        6 => (1u64..4, 1u64..4),
        1 => (0u64..2, 1u64..3),
        1 => (prop::sample::select(vec![1u64, 0x1_0000_0001, 0x8000_0001, u64::MAX]), prop::sample::select(vec![1u64, 0x1_0000_0001, u64::MAX])),
        1 => (num(), nonzero()),
    ]
    .boxed()
}

pub fn small_msgs() -> BoxedStrategy<Vec<Msg>> {
    prop_oneof![
        6 => vec(msg_sized(16, 2), 0..3),
        1 => msgs(40),
        1 => vec(msg_sized(200, 3), 1..3),
    ]
    .boxed()
}

pub fn notify(frag_pct: u32) -> BoxedStrategy<Step> {
    (key(), 0u32..100, small_msgs())
        .prop_map(move |((sid, fid), p, msgs)| Step::Frame(Fr::Notify { frag: p < frag_pct, sid, fid, msgs }))
        .boxed()
}

pub fn hello(caps: BoxedStrategy<Vec<Cap>>) -> BoxedStrategy<Fr> {
    (
        prop_oneof![3 => Just(vec![(2u8, 0u8)]), 1 => vec(version(), 0..3).prop_map(|mut v| { v.push((2, 0)); v })],
        prop_oneof![2 => Just(16384u32), 1 => Just(16380u32), 1 => 2000u32..20000, 1 => Just(u32::MAX)],
        caps,
        prop_oneof![6 => Just(None), 1 => Just(Some(false))],
        prop::option::of(prop_oneof![3 => text(20), 1 => text(300)]),
    )
        .prop_map(|(versions, mfs, caps, hc, eid)| Fr::HHello { versions, mfs, caps, hc, eid })
        .boxed()
}

pub fn conf() -> BoxedStrategy<Conf> {
    (
        prop_oneof![3 => Just(vec![(2u8, 0u8)]), 1 => Just(vec![(1u8, 0u8), (2, 0)])],
        caps_list(),
        prop_oneof![2 => Just(None), 1 => Just(Some(16384u64)), 1 => (2000u64..40000).prop_map(Some)],
        prop_oneof![1 => Just(None), 2 => prop::sample::select(vec![100u64, 1000, 15_000, 60_000, 7_200_000, 90_000_000]).prop_map(Some)],
        any::<bool>(),
        any::<u8>(),
        prop::bool::weighted(0.1),
    )
        .prop_map(|(versions, caps, mfs, mpt_ms, builder, mix, forever)| Conf {
            versions,
            caps,
            mfs,
            mpt_ms,
            builder,
            mix,
            forever,
        })
        .boxed()
}

pub fn caps_list() -> BoxedStrategy<Vec<Cap>> {
    prop_oneof![
        4 => Just(vec![0u8]),
        2 => Just(vec![0u8, 1, 2]),
        1 => Just(vec![1u8]),
        1 => Just(vec![]),
        2 => vec(0u8..3, 0..5),
    ]
    .boxed()
}

pub fn plan_ok() -> BoxedStrategy<Plan> {
    (
        prop_oneof![4 => Just(Ready::Now), 1 => (1u8..4).prop_map(Ready::Polls), 1 => (1u16..45).prop_map(Ready::Later)],
        prop_oneof![4 => Just(0u16), 1 => 1u16..50],
        prop_oneof![3 => Just(Out::Echo), 2 => acts_conv().prop_map(Out::Acts), 1 => Just(Out::Acts(vec![]))],
    )
        .prop_map(|(ready, delay, out)| Plan { ready, delay, out })
        .boxed()
}

fn acts_conv() -> BoxedStrategy<Vec<Act>> {
    prop_oneof![4 => vec(act(16), 0..4), 1 => vec(act(12), 4..20)].boxed()
}

pub fn make_ok() -> BoxedStrategy<MakePlan> {
    (
        prop_oneof![4 => Just(Ready::Now), 1 => (1u8..4).prop_map(Ready::Polls), 1 => (1u16..300).prop_map(Ready::Later)],
        prop_oneof![4 => Just(0u16), 1 => 1u16..300],
    )
        .prop_map(|(ready, delay)| MakePlan { ready, delay, fail: None })
        .boxed()
}

/// The transport's and the peer's habits.
#[derive(Clone, Debug)]
pub struct Habits {
    pub pace: u32,
    pub mode: Mode,
    pub end: End,
    pub pipe: u32,
    pub chunks: Steps,
    pub read_steps: Steps,
    pub write_steps: Steps,
    pub hold: bool,
}

pub fn habits() -> BoxedStrategy<Habits> {
    (
        prop_oneof![3 => Just(Mode::LockStep), 3 => Just(Mode::Pipelined), 1 => Just(Mode::LateReader)],
        prop_oneof![Just(End::Open), Just(End::Eof)],
        prop_oneof![3 => Just(65_536u32), 1 => 1u32..16, 1 => 16u32..600],
        io_steps(),
        prop_oneof![2 => Just(vec![]), 1 => io_steps()],
        prop_oneof![2 => Just(vec![]), 1 => io_steps()],
        prop::bool::weighted(0.25),
        prop_oneof![12 => Just(0u32), 1 => 1u32..100, 1 => 100u32..100_000, 1 => 100_000u32..1_000_000],
    )
        .prop_map(|(mode, end, pipe, chunks, read_steps, write_steps, hold, pace)| Habits {
            pace,
            mode,
            end,
            pipe,
            chunks,
            read_steps,
            write_steps,
            hold,
        })
        .boxed()
}

pub fn assemble(mut conf: Conf, state: u32, steps: Vec<Step>, mut calls: Vec<Plan>, make: MakePlan, mut h: Habits) -> Conv {
    if steps.len() > 100 {
        // The clock does not go on for ever.
        conf.mpt_ms = conf.mpt_ms.map(|n| n.min(60_000));
        h.pace = 0;
    }
    if conf.forever {
        // Whoever waits too long would be waited for.
        for p in &mut calls {
            if let Ready::Later(n) = &mut p.ready {
                *n %= 50;
            }
            p.delay %= 50;
            if p.out == Out::Never {
                p.out = Out::Fail("instead of never".into());
            }
        }
    }
    Conv {
        conf,
        state,
        steps,
        calls,
        make,
        mode: h.mode,
        end: h.end,
        pipe: h.pipe,
        chunks: h.chunks,
        read_steps: h.read_steps,
        write_steps: h.write_steps,
        hold: h.hold,
        pace: h.pace,
    }
}
