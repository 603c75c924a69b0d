//! The conversations of `conv` over a real socket, served by an `Agent`.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use haproxy_spoa::Agent;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpSocket;

use super::agent::{linger0, listen};
use super::convs;
use crate::conv::*;
use crate::model::*;
use crate::runner::{deadline, Fail, Leg, LegDyn, Obs, R};
use crate::wire;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tcp {
    conv: Conv,
    /// The peer's receive buffer, if it is small.
    buffer: Option<u32>,
    /// The peer reads only after it has sent everything and so many milliseconds have passed.
    late: Option<u8>,
}

/// Whether this frame is larger than the agent takes, so that it is not read to its end.
fn too_large(s: &Step, limit: u64) -> bool {
    match s {
        Step::Oversize(..) => true,
        Step::Cut(_) => false,
        s => (step_bytes(s, limit).len() - 4) as u64 > limit,
    }
}

/// So much of the agent's replies is delivered even if nobody reads and the peer's buffer is the smallest.
const ON_THE_WAY: (usize, usize) = (4, 400);

fn run(c: &Tcp) -> R<(Got, Expect, Option<std::io::ErrorKind>)> {
    let (e, limits) = model(&c.conv);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| format!("runtime: {e}"))?;
    let (g, err) = rt.block_on(serve(c, &e, &limits))?;
    rt.shutdown_background();
    Ok((g, e, err))
}

async fn serve(c: &Tcp, e: &Expect, limits: &[u64]) -> R<(Got, Option<std::io::ErrorKind>)> {
    let conv = &c.conv;
    let sh =
        Arc::new(Shared { log: Mutex::new(vec![]), calls: conv.calls.clone(), make: conv.make.clone(), mpt_ms: conv.conf.mpt() });
    let listener = listen(false).map_err(|e| format!("bind: {e}"))?;
    let addr = listener.local_addr().map_err(|e| e.to_string())?;
    let agent = Agent::new(runtime(&conv.conf, sh.clone(), conv.state), listener).map_err(|e| format!("agent: {e}"))?;
    let stop = agent.shutdown();
    let serving = tokio::spawn(async move { agent.serve().await.map_err(|e| e.to_string()) });
    let sock = TcpSocket::new_v4().map_err(|e| e.to_string())?;
    if let Some(n) = c.buffer {
        let _ = sock.set_recv_buffer_size(n);
    }
    let peer = sock.connect(addr).await.map_err(|e| format!("connecting failed: {e}"))?;
    peer.set_nodelay(true).ok();
    linger0(&peer);
    let wire: Vec<u8> = conv.steps.iter().zip(limits).flat_map(|(s, l)| step_bytes(s, *l)).collect();
    let (mut r, mut w) = peer.into_split();
    let (sent_tx, sent) = tokio::sync::oneshot::channel();
    let (end_tx, end) = tokio::sync::oneshot::channel::<()>();
    let chunks = conv.chunks.clone();
    let eof = conv.end == End::Eof;
    let writer = tokio::spawn(async move {
        let mut b = &wire[..];
        let mut i = 0;
        let mut err = None;
        while !b.is_empty() {
            let n = match chunks.get(i % chunks.len().max(1)).copied() {
                Some(0) => {
                    tokio::task::yield_now().await;
                    1
                }
                Some(n) => n as usize,
                None => b.len(),
            };
            i += 1;
            let n = if i > 200 { b.len() } else { n.min(b.len()) };
            if let Err(e) = w.write_all(&b[..n]).await {
                err = Some(e.kind());
                break;
            }
            b = &b[n..];
        }
        let _ = sent_tx.send(());
        if !eof {
            let _ = end.await;
        }
        let _ = w.shutdown().await;
        err
    });
    if let Some(ms) = c.late {
        // The agent may not take everything while nobody reads.
        let _ = tokio::time::timeout(Duration::from_millis(50), sent).await;
        tokio::time::sleep(Duration::from_millis(ms.into())).await;
    }
    let mut bytes = vec![];
    let mut buf = vec![0; 16_384];
    let mut end_tx = Some(end_tx);
    let mut before_end = None;
    let err = loop {
        let have = wire::split(&bytes).0.len();
        if !e.closed && have >= e.replies.len() && before_end.is_none() {
            // Everything due has arrived; nothing else may come.
            before_end = tokio::time::timeout(Duration::from_millis(2), r.read(&mut buf)).await.ok();
            match before_end.take() {
                None => {
                    before_end = Some(Ok(usize::MAX));
                    drop(end_tx.take());
                }
                Some(Ok(0)) => break None,
                Some(Ok(n)) => bytes.extend_from_slice(&buf[..n]),
                Some(Err(e)) => break Some(e.kind()),
            }
            continue;
        }
        // Small windows are slow, but something comes now and then.
        match tokio::time::timeout(deadline(), r.read(&mut buf)).await {
            Err(_) => {
                let (got, due) = (wire::split(&bytes).0.len(), e.replies.len());
                return Err(format!("{got} of {due} replies received, and the connection goes on").into());
            }
            Ok(Ok(0)) => break None,
            Ok(Ok(n)) => bytes.extend_from_slice(&buf[..n]),
            Ok(Err(e)) => break Some(e.kind()),
        }
    };
    let closed = end_tx.is_some();
    drop(end_tx);
    // A reset is only reported once, perhaps to the writer.
    let abort = writer.abort_handle();
    let werr = tokio::time::timeout(Duration::from_secs(5), writer).await;
    abort.abort();
    let err = err.or(werr.ok().and_then(|r| r.ok()).flatten());
    drop(r);
    stop.cancel();
    let ended = match tokio::time::timeout(deadline(), serving).await {
        Ok(Ok(Ok(()))) => true,
        Ok(Ok(Err(e))) => return Err(format!("serving failed: {e}").into()),
        Ok(Err(e)) => return Err(format!("serving panicked: {e}").into()),
        Err(_) => false,
    };
    let log = sh.log.lock().unwrap().clone();
    Ok((Got { bytes, after: vec![], closed, log, ended, serve: None }, err))
}

fn check(c: &Tcp, obs: &mut Obs) -> R {
    let (mut g, e, err) = run(c)?;
    if e.open && err.is_some() {
        // Nothing is said about how this ends.
        let rest = wire::split(&g.bytes).1.len();
        g.bytes.truncate(g.bytes.len() - rest);
    }
    for l in &e.labels {
        obs.label(l);
    }
    obs.label_if(c.late.is_some(), "late reader");
    obs.label_if(c.buffer.is_some(), "small receive buffer");
    obs.label_if(g.bytes.len() > 200_000, "more than 200 kB of replies");
    let at = e.due.iter().position(|d| *d == e.replies.len()).unwrap_or(0);
    let last = c.conv.steps.get(at).is_some_and(|s| too_large(s, e.limit));
    let unread = e.open || e.closed && (at + 1 < c.conv.steps.len() || last);
    obs.label_if(unread && e.replies.len() > 1, "input left unread at the end");
    obs.nontrivial_if(e.replies.len() > 2);
    let Err(f) = compare(&c.conv, &e, &g) else { return Ok(()) };
    // A connection closed with unread input is reset, and what the peer had not received by then is lost.
    let (frames, rest) = wire::split(&g.bytes);
    if unread && err.is_some() && (frames.len() >= ON_THE_WAY.0 || g.bytes.len() > ON_THE_WAY.1) {
        let kept = g.bytes.len() - rest.len();
        let mut cut = e.clone();
        cut.replies.truncate(frames.len());
        cut.closed = true;
        let g = Got { bytes: g.bytes[..kept].to_vec(), ..g.clone() };
        if frames.len() < e.replies.len() && compare(&c.conv, &cut, &g).is_ok() {
            return Err(Fail { msg: f.msg, sig: Some("replies-lost-by-reset".into()) });
        }
    }
    Err(f)
}

/// Without waiting of any length, as the clock is a real one.
fn at_once(mut c: Conv) -> Conv {
    let now = |r: &Ready| match r {
        Ready::Later(n) => Ready::Polls((*n % 4) as u8),
        r => r.clone(),
    };
    c.conf.mpt_ms = None;
    c.mode = Mode::Pipelined;
    for p in &mut c.calls {
        p.delay = 0;
        p.ready = now(&p.ready);
        if p.out == Out::Never {
            p.out = Out::Fail("instead of never".into());
        }
    }
    c.make.delay = 0;
    c.make.ready = now(&c.make.ready);
    c
}

fn of(c: BoxedStrategy<Conv>) -> BoxedStrategy<Tcp> {
    (c, prop::option::weighted(0.2, 1500u32..6000), prop::option::weighted(0.15, 0u8..6))
        .prop_map(|(c, buffer, late)| Tcp { conv: at_once(c), buffer, late })
        .boxed()
}

/// Nothing is sent after what ends the connection.
fn nothing_after(c: BoxedStrategy<Conv>) -> BoxedStrategy<Conv> {
    c.prop_map(|c| {
        let mut c = at_once(c);
        let (e, _) = model(&c);
        // Nor after what may end it.
        if e.open {
            let to = |n: usize| model(&Conv { steps: c.steps[..n].to_vec(), ..c.clone() }).0;
            let at = (0..c.steps.len()).find(|i| to(i + 1).open).unwrap_or(0);
            let taken = !too_large(&c.steps[at], to(at).limit) && !matches!(c.steps[at], Step::Cut(_));
            c.steps.truncate(at + usize::from(taken));
            return c;
        }
        if let (true, Some(at)) = (e.closed, e.due.iter().position(|d| *d == e.replies.len())) {
            let taken = !too_large(&c.steps[at], e.limit);
            c.steps.truncate(at + usize::from(taken));
        }
        c
    })
    .boxed()
}

fn plain() -> BoxedStrategy<Tcp> {
    of(nothing_after(convs::c13_gen()))
}
fn failing() -> BoxedStrategy<Tcp> {
    of(nothing_after(convs::c14_gen()))
}
fn breaches() -> BoxedStrategy<Tcp> {
    of(convs::c16_gen())
}

/// What ends a connection for certain.
fn ends() -> BoxedStrategy<Step> {
    let hello = Fr::HHello { versions: vec![(2, 0)], mfs: 16384, caps: vec![], hc: None, eid: None };
    let all = [0, 4, 5, 6, 7, 8, 9];
    let mut type_9 = wire::encode(&Fr::HDisc { code: 0, msg: String::new() });
    type_9[0] = 9;
    prop_oneof![
        3 => Just(Step::Frame(Fr::HDisc { code: 0, msg: "bye".into() })),
        1 => Just(Step::Frame(hello)),
        1 => Just(Step::Frame(Fr::ADisc { code: 1, msg: "no".into() })),
        1 => Just(Step::Frame(Fr::Ack { frag: false, abort: false, sid: 1, fid: 1, acts: vec![] })),
        1 => Just(Step::Frame(Fr::Notify { frag: true, sid: 1, fid: 1, msgs: vec![] })),
        1 => Just(Step::Payload(Hex(type_9), all.to_vec())),
        1 => Just(Step::Payload(Hex(vec![3, 0, 0, 0, 1, 1]), all.to_vec())),
        1 => Just(Step::Oversize(20_000, Hex(vec![3; 8]))),
    ]
    .boxed()
}

/// Many large replies, then the end, for one reason or another.
fn large() -> BoxedStrategy<Tcp> {
    (
        convs::c16_gen(),
        prop_oneof![2 => 1usize..12, 2 => 12usize..80],
        prop_oneof![1 => Just(12_000usize), 2 => 100usize..12_000],
        vec(any::<bool>(), 1..5),
        ends(),
        prop_oneof![2 => Just(0u16), 1 => 1u16..100, 1 => 100u16..30_000],
        prop::option::weighted(0.2, 1500u32..6000),
        prop::option::weighted(0.6, 0u8..20),
    )
        .prop_map(|(mut c, n, size, some, end, extra, buffer, late)| {
            c.conf.versions = vec![];
            c.conf.mfs = None;
            c.conf.caps = vec![];
            c.cut_large(n, size, &some, end, extra);
            Tcp { conv: at_once(c), buffer, late }
        })
        .boxed()
}

trait CutLarge {
    fn cut_large(&mut self, n: usize, size: usize, some: &[bool], end: Step, extra: u16);
}
impl CutLarge for Conv {
    fn cut_large(&mut self, n: usize, size: usize, some: &[bool], end: Step, extra: u16) {
        let mut steps = vec![Step::Frame(Fr::HHello { versions: vec![(2, 0)], mfs: 16384, caps: vec![], hc: None, eid: None })];
        self.calls = some
            .iter()
            .map(|big| {
                let v = Val::Bin(Hex(vec![7; if *big { size } else { 3 }]));
                Plan { ready: Ready::Now, delay: 0, out: Out::Acts(vec![Act::Set(0, "v".into(), v)]) }
            })
            .collect();
        for i in 0..n {
            steps.push(Step::Frame(Fr::Notify { frag: false, sid: 1, fid: 1 + i as u64, msgs: vec![] }));
        }
        steps.push(end);
        if extra > 0 {
            steps.push(Step::Payload(Hex(vec![1; extra.into()]), vec![4, 5, 6, 7, 8, 9]));
        }
        self.steps = steps;
    }
}

fn leg(name: &'static str, quick: u32, thorough: u32, strategy: fn() -> BoxedStrategy<Tcp>) -> Box<dyn LegDyn> {
    Box::new(Leg { name, quick, thorough, threads: 8, rule: "at least two replies after the hello, over TCP", strategy, check })
}

pub fn c13() -> Box<dyn LegDyn> {
    leg("tcp", 2_000, 40_000, plain)
}
pub fn c14() -> Box<dyn LegDyn> {
    leg("tcp", 2_000, 40_000, failing)
}
pub fn c16() -> Vec<Box<dyn LegDyn>> {
    vec![leg("tcp", 2_000, 40_000, breaches), leg("tcp-large", 600, 15_000, large)]
}
