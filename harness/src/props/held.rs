//! C24: what is over leaves nothing behind.
//!
//! Each leg repeats the same work many times on one thread and compares the bytes that thread holds half way
//! with those at the end. What is kept for each repetition shows as growth, however small; caches and buffers
//! that reach their size do not.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use futures::StreamExt;
use haproxy_spoa::runtime::{Dispatcher, Processor};
use haproxy_spoa::{runtime::Builder, Connection, Runtime};
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};
use tokio_util::sync::CancellationToken;

use crate::alloc;
use crate::conv::{echo, small_msgs, TestErr};
use crate::ensure;
use crate::io::block_on;
use crate::model::*;
use crate::props::codec::short;
use crate::runner::{Leg, LegDyn, Obs, R};
use crate::wire;

/// Growth between the first half of the repetitions and the end.
fn kept(held: &[i64], each: i64, what: &str) -> R {
    let half = held.len() / 2;
    let (before, after) = (held[half], *held.last().unwrap());
    let n = (held.len() - half) as i64;
    ensure!(
        after - before < each * n,
        "{what}: {} bytes held after {half} repetitions, {} after {}: {} more for each",
        before - held[0],
        after - held[0],
        held.len(),
        (after - before) / n
    );
    Ok(())
}

// ------------------------------------------------------------------ the service

#[derive(Default)]
struct Tally {
    live: AtomicI64,
    made: AtomicU32,
    calls: AtomicU32,
}

struct TMaker(Arc<Tally>);
struct TSvc(Arc<Tally>, usize);
impl Drop for TSvc {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, SeqCst);
    }
}

type Fut<T> = Pin<Box<dyn Future<Output = Result<T, TestErr>> + Send>>;

impl tower::Service<u32> for TMaker {
    type Response = TSvc;
    type Error = TestErr;
    type Future = Fut<TSvc>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u32) -> Fut<TSvc> {
        let t = self.0.clone();
        Box::pin(async move {
            t.live.fetch_add(1, SeqCst);
            t.made.fetch_add(1, SeqCst);
            Ok(TSvc(t, 0))
        })
    }
}
impl tower::Service<Vec<spop::Message>> for TSvc {
    type Response = Vec<spop::Action>;
    type Error = TestErr;
    type Future = Fut<Vec<spop::Action>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), TestErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, msgs: Vec<spop::Message>) -> Fut<Vec<spop::Action>> {
        self.0.calls.fetch_add(1, SeqCst);
        let n = self.1;
        self.1 += 1;
        Box::pin(async move {
            match msgs.first().map(|m| m.name.as_str()).unwrap_or_default() {
                "!fail" => return Err(TestErr("fails on purpose".into())),
                "!panic" => panic!("the service panics on purpose"),
                "!hang" => std::future::pending().await,
                "!slow" => tokio::time::sleep(Duration::from_millis(20)).await,
                _ => {}
            }
            Ok(acts_to(&echo(n, &msgs_from(&msgs))))
        })
    }
}

fn runtime(t: &Arc<Tally>) -> Arc<Runtime<TMaker, u32>> {
    Builder::new().fragmentation().max_process_time(Duration::from_millis(1000)).make_service(TMaker(t.clone()), 1)
}

fn hello(healthcheck: bool, version: u8) -> Vec<u8> {
    let hc = healthcheck.then_some(true);
    wire::encode_prefixed(&Fr::HHello { versions: vec![(version, 0)], mfs: 16384, caps: vec![0], hc, eid: None })
}

/// Waits for that many more frames.
async fn replies(io: &mut DuplexStream, buf: &mut Vec<u8>, n: usize, mut each: impl FnMut(&Fr) -> R) -> R {
    buf.clear();
    let mut chunk = [0u8; 4096];
    loop {
        let (fs, rest) = wire::split(buf);
        if fs.len() >= n {
            ensure!(fs.len() == n && rest.is_empty(), "more than the {n} replies expected");
            for f in fs {
                let f = wire::decode(f).map_err(|b| format!("reply not conformant: {b:?}"))?;
                each(&f)?;
            }
            return Ok(());
        }
        let got = fs.len();
        let k = io.read(&mut chunk).await.map_err(|e| format!("reading failed: {e}"))?;
        ensure!(k > 0, "closed after {got} of {n} replies");
        buf.extend_from_slice(&chunk[..k]);
    }
}

// ------------------------------------------------------------------ exchanges of one connection

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exchanges {
    /// Fragments in the order of a repetition; the last one of each payload ends it.
    parts: Vec<(u8, Vec<Msg>)>,
    /// Payloads whose ids are the same in each repetition.
    same: u8,
    base: (u64, u64),
    slow: bool,
}

fn ids(c: &Exchanges, k: u8, round: u64) -> (u64, u64) {
    if c.same >> (k % 8) & 1 == 1 {
        (c.base.0 + u64::from(k), c.base.1)
    } else {
        (c.base.0 + u64::from(k) + 16 * (round + 1), c.base.1 + round)
    }
}

fn c24_exchanges(c: &Exchanges, obs: &mut Obs) -> R {
    const ROUNDS: u64 = 600;
    let last = |i: usize| c.parts[i + 1..].iter().all(|(k, _)| *k != c.parts[i].0);
    let payloads = (0..c.parts.len()).filter(|i| last(*i)).count();
    obs.nontrivial_if(payloads > 0);
    obs.label_if(payloads < c.parts.len(), "fragmented");
    obs.label_if(payloads > 1, "several payloads");
    obs.label_if(c.slow, "slow service");
    obs.label_if(c.same != 0, "ids used again");
    obs.label_if(c.same != 0xff, "new ids each time");
    if payloads == 0 {
        return Ok(());
    }
    let round = |r: u64| -> (Vec<u8>, Vec<(u64, u64)>) {
        let (mut bytes, mut order) = (vec![], vec![]);
        for (i, (k, msgs)) in c.parts.iter().enumerate() {
            let (sid, fid) = ids(c, *k, r);
            let mut msgs = msgs.clone();
            for m in &mut msgs {
                m.name.retain(|c| c != '!');
            }
            if c.slow && last(i) && r % 16 == 0 && c.parts.iter().filter(|p| p.0 == *k).count() == 1 {
                msgs.insert(0, Msg { name: "!slow".into(), args: vec![] });
            }
            bytes.extend(wire::encode_prefixed(&Fr::Notify { frag: !last(i), sid, fid, msgs }));
            if last(i) {
                order.push((sid, fid));
            }
        }
        (bytes, order)
    };
    let t = Arc::new(Tally::default());
    let mut held = Vec::with_capacity(ROUNDS as usize);
    block_on(async {
        let (a, mut b) = tokio::io::duplex(1 << 20);
        let mut conn = Connection::new(runtime(&t), a, CancellationToken::new());
        let task = tokio::spawn(async move { conn.serve().await.map_err(|e| e.to_string()) });
        let mut buf = Vec::with_capacity(1 << 16);
        b.write_all(&hello(false, 2)).await.map_err(|e| format!("sending failed: {e}"))?;
        replies(&mut b, &mut buf, 1, |_| Ok(())).await?;
        for r in 0..ROUNDS {
            {
                let (bytes, order) = round(r);
                b.write_all(&bytes).await.map_err(|e| format!("sending failed: {e}"))?;
                let mut at = 0;
                replies(&mut b, &mut buf, order.len(), |f| {
                    let Fr::Ack { sid, fid, .. } = f else {
                        return Err(format!("round {r}: reply {}", short(f)).into());
                    };
                    ensure!((*sid, *fid) == order[at], "round {r}: reply {at} is for {sid}/{fid}");
                    at += 1;
                    Ok(())
                })
                .await?;
            }
            held.push(alloc::live());
        }
        drop(b);
        match task.await {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("serving failed: {e}").into()),
        }
    })
    .and_then(|()| {
        ensure!(t.live.load(SeqCst) == 0, "the service outlives its connection");
        kept(&held, 16, "exchanges on one connection")
    })
}

fn c24_exchanges_gen() -> BoxedStrategy<Exchanges> {
    (
        vec((0u8..4, small_msgs()), 1..8),
        prop_oneof![1 => Just(0u8), 1 => Just(0xff), 2 => any::<u8>()],
        (1u64..1 << 40, 1u64..1 << 40),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(parts, same, base, slow)| Exchanges { parts, same, base, slow })
        .boxed()
}

// ------------------------------------------------------------------ connections of one runtime

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Way {
    /// Leaves, after that many notifications.
    Leave(u8),
    /// Says it disconnects.
    Goodbye,
    MidFrame(u16),
    Garbage(Hex),
    /// Leaves fragments behind.
    Fragments(u8),
    Fail,
    Panic,
    Hang,
    /// Leaves while its call runs.
    Gone,
    HealthCheck,
    NoVersion,
    /// The agent is told to stop.
    Stop,
    /// Never says hello.
    Mute,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ways {
    ways: Vec<Way>,
}

async fn one(w: &Way, rt: Arc<Runtime<TMaker, u32>>, root: &CancellationToken, round: usize) -> R {
    let (a, mut b) = tokio::io::duplex(1 << 16);
    let tok = root.child_token();
    let stop = tok.clone();
    let mut conn = Connection::new(rt, a, tok);
    let task = tokio::spawn(async move { conn.serve().await.map_err(|e| e.to_string()) });
    let note = |what: &str, frag: bool, k: u64| {
        let msgs = vec![Msg { name: what.into(), args: vec![("a".into(), Val::Str("value".into()))] }];
        wire::encode_prefixed(&Fr::Notify { frag, sid: k + 1 + 64 * round as u64, fid: 1, msgs })
    };
    let mut buf = vec![];
    if !matches!(w, Way::Mute | Way::HealthCheck | Way::NoVersion) {
        b.write_all(&hello(false, 2)).await.map_err(|e| format!("sending failed: {e}"))?;
        replies(&mut b, &mut buf, 1, |_| Ok(())).await?;
    }
    // The agent ends some of these by itself, so sending may fail.
    let mut wait_end = true;
    let _ = match w {
        Way::Mute | Way::Leave(0) => Ok(()),
        Way::Leave(n) => {
            for i in 0..*n {
                let _ = b.write_all(&note("m", false, i.into())).await;
            }
            replies(&mut b, &mut buf, *n as usize, |_| Ok(())).await?;
            wait_end = false;
            Ok(())
        }
        Way::Goodbye => b.write_all(&wire::encode_prefixed(&Fr::HDisc { code: 0, msg: "bye".into() })).await,
        Way::MidFrame(n) => {
            let f = note("cut", false, 0);
            b.write_all(&f[..*n as usize % f.len()]).await
        }
        Way::Garbage(g) => b.write_all(&wire::prefixed(&g.0)).await,
        Way::Fragments(n) => {
            for i in 0..*n {
                let _ = b.write_all(&note("left behind", true, i.into())).await;
            }
            // Answered once everything before was handled.
            let _ = b.write_all(&note("m", false, 50)).await;
            replies(&mut b, &mut buf, 1, |_| Ok(())).await?;
            Ok(())
        }
        Way::Fail => b.write_all(&note("!fail", false, 0)).await,
        Way::Panic => b.write_all(&note("!panic", false, 0)).await,
        Way::Hang => b.write_all(&note("!hang", false, 0)).await,
        Way::Gone => {
            let r = b.write_all(&note("!slow", false, 0)).await;
            tokio::task::yield_now().await;
            wait_end = false;
            r
        }
        Way::HealthCheck => b.write_all(&hello(true, 2)).await,
        Way::NoVersion => b.write_all(&hello(false, 9)).await,
        Way::Stop => {
            stop.cancel();
            Ok(())
        }
    };
    if wait_end {
        let _ = b.shutdown().await;
        let mut chunk = [0u8; 512];
        while matches!(b.read(&mut chunk).await, Ok(n) if n > 0) {}
    }
    drop(b);
    match tokio::time::timeout(Duration::from_secs(60), task).await {
        Err(_) => Err("still served 60 s after the peer left".into()),
        // A panic of the service ends its task.
        Ok(_) => Ok(()),
    }
}

fn c24_ways(c: &Ways, obs: &mut Obs) -> R {
    const ROUNDS: usize = 400;
    obs.nontrivial = true;
    for w in &c.ways {
        obs.label(match w {
            Way::Leave(0) => "leaves after the handshake",
            Way::Leave(_) => "leaves after replies",
            Way::Goodbye => "disconnects",
            Way::MidFrame(_) => "leaves in a frame",
            Way::Garbage(_) => "garbage",
            Way::Fragments(_) => "leaves fragments",
            Way::Fail => "service fails",
            Way::Panic => "service panics",
            Way::Hang => "service overruns",
            Way::Gone => "leaves during a call",
            Way::HealthCheck => "health check",
            Way::NoVersion => "no common version",
            Way::Stop => "stopped",
            Way::Mute => "never says hello",
        });
    }
    let t = Arc::new(Tally::default());
    let mut held = Vec::with_capacity(ROUNDS);
    block_on(async {
        let rt = runtime(&t);
        let root = CancellationToken::new();
        for r in 0..ROUNDS {
            let w = &c.ways[r % c.ways.len()];
            one(w, rt.clone(), &root, r).await.map_err(|f| format!("connection {r} ({w:?}): {}", f.msg))?;
            let live = t.live.load(SeqCst);
            ensure!(live == 0, "connection {r} ({w:?}): its service still exists after its end");
            held.push(alloc::live());
            ensure!(Arc::strong_count(&rt) == 1, "connection {r} ({w:?}): the runtime is still in use after its end");
        }
        Ok(())
    })?;
    // Compare like with like: the same way at both ends.
    let n = c.ways.len();
    let held: Vec<i64> = (0..ROUNDS / n).map(|i| held[i * n + n - 1]).collect();
    kept(&held, 24 * n as i64, "connections of one runtime")
}

fn c24_ways_gen() -> BoxedStrategy<Ways> {
    let way = prop_oneof![
        3 => (0u8..6).prop_map(Way::Leave),
        1 => Just(Way::Goodbye),
        2 => any::<u16>().prop_map(Way::MidFrame),
        2 => blob(60).prop_map(Way::Garbage),
        2 => (1u8..12).prop_map(Way::Fragments),
        1 => Just(Way::Fail),
        1 => Just(Way::Panic),
        1 => Just(Way::Hang),
        1 => Just(Way::Gone),
        1 => Just(Way::HealthCheck),
        1 => Just(Way::NoVersion),
        1 => Just(Way::Stop),
        1 => Just(Way::Mute),
    ];
    vec(way, 1..5).prop_map(|ways| Ways { ways }).boxed()
}

// ------------------------------------------------------------------ a peer that does not read

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unread {
    /// Room of the transport.
    room: u16,
    msgs: Vec<Msg>,
    frag: u8,
    /// Frames of almost the largest size.
    #[serde(default)]
    big: bool,
}

fn c24_unread(c: &Unread, obs: &mut Obs) -> R {
    const OFFERED: usize = 3 << 20;
    let room = 64 + if c.big { c.room % 300 } else { c.room } as usize;
    let mut msgs = c.msgs.clone();
    for m in &mut msgs {
        m.name.retain(|c| c != '!');
    }
    if c.big {
        msgs.clear();
        msgs.push(Msg { name: "big".into(), args: vec![("b".into(), Val::Bin(Hex(vec![7; 12_000])))] });
    }
    obs.nontrivial = true;
    obs.label_if(c.frag > 0, "fragmented");
    obs.label_if(c.big, "big frames");
    let t = Arc::new(Tally::default());
    block_on(async {
        let (a, mut b) = tokio::io::duplex(room);
        let mut conn = Connection::new(runtime(&t), a, CancellationToken::new());
        let task = tokio::spawn(async move { conn.serve().await.map_err(|e| e.to_string()) });
        let mut buf = vec![];
        b.write_all(&hello(false, 2)).await.map_err(|e| format!("sending failed: {e}"))?;
        replies(&mut b, &mut buf, 1, |_| Ok(())).await?;
        let before = alloc::live();
        let mut sent = 0;
        let mut fid = 0;
        let mut cut: Option<(Vec<u8>, usize)> = None;
        // The transport itself, a buffer of some size and a few frames.
        let bound = (4 * room + 16 * 16384) as i64;
        let mut most = 0;
        // No reply takes less than fifteen bytes.
        while most < bound && (sent < OFFERED || (t.calls.load(SeqCst) as i64) < bound / 15) {
            fid += 1;
            let mut one = vec![];
            for i in 0..=c.frag {
                one.extend(wire::encode_prefixed(&Fr::Notify { frag: i < c.frag, sid: 1, fid, msgs: msgs.clone() }));
            }
            let mut at = 0;
            // Idle for that long means that nobody takes anything any more.
            while at < one.len() {
                match tokio::time::timeout(Duration::from_secs(100), b.write(&one[at..])).await {
                    Err(_) => break,
                    Ok(Ok(n)) => at += n,
                    Ok(Err(e)) => return Err(format!("sending failed: {e}").into()),
                }
            }
            sent += at;
            most = most.max(alloc::live() - before);
            if at < one.len() {
                cut = Some((one, at));
                break;
            }
        }
        ensure!(
            cut.is_some() && most < bound,
            "a peer that reads nothing was read {sent} bytes from, {} calls were made and {most} bytes are held",
            t.calls.load(SeqCst)
        );
        obs.label_if(t.calls.load(SeqCst) > 1, "several calls before it stops");
        // It reads at last: nothing is lost.
        let (one, at) = cut.unwrap();
        let (mut r, mut w) = tokio::io::split(b);
        let rest = tokio::spawn(async move {
            let r = w.write_all(&one[at..]).await;
            (r, w)
        });
        let mut got = vec![];
        let mut chunk = [0u8; 4096];
        while wire::split(&got).0.len() < fid as usize {
            let n = r.read(&mut chunk).await.map_err(|e| format!("reading failed: {e}"))?;
            ensure!(n > 0, "closed after {} of {fid} replies", wire::split(&got).0.len());
            got.extend_from_slice(&chunk[..n]);
        }
        let (fs, left) = wire::split(&got);
        ensure!(fs.len() == fid as usize && left.is_empty(), "{} replies for {fid} notifications", fs.len());
        for (i, f) in fs.iter().enumerate() {
            let f = wire::decode(f).map_err(|b| format!("reply not conformant: {b:?}"))?;
            ensure!(matches!(f, Fr::Ack { sid: 1, fid, .. } if fid == i as u64 + 1), "reply {i} is {}", short(&f));
        }
        let _ = rest.await;
        drop(r);
        let _ = task.await;
        Ok(())
    })
}

fn c24_unread_gen() -> BoxedStrategy<Unread> {
    let room = prop_oneof![2 => 0u16..300, 1 => any::<u16>()];
    (room, small_msgs(), prop_oneof![2 => Just(0u8), 1 => 1u8..4], prop::bool::weighted(0.4))
        .prop_map(|(room, msgs, frag, big)| Unread { room, msgs, frag, big })
        .boxed()
}

// ------------------------------------------------------------------ the parts by themselves

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Parts {
    /// Fragments of one repetition, as for exchanges.
    parts: Vec<(u8, u8)>,
    same: u8,
    base: (u64, u64),
    /// What becomes of each acknowledgement handle, entry stream and receiver.
    fate: Vec<u8>,
}

fn c24_parts(c: &Parts, obs: &mut Obs) -> R {
    const ROUNDS: u64 = 600;
    let e = Exchanges { parts: c.parts.iter().map(|(k, _)| (*k, vec![])).collect(), same: c.same, base: c.base, slow: false };
    let last = |i: usize| c.parts[i + 1..].iter().all(|(k, _)| *k != c.parts[i].0);
    obs.nontrivial_if(c.parts.len() > 1);
    obs.label_if((0..c.parts.len()).any(|i| !last(i)), "fragmented");
    let msg = |n: u8| -> Vec<spop::Message> { (0..n).map(|_| spop::Message::new("message", vec![("k", 1u32)])).collect() };
    // Reassembly.
    {
        let r = spop::Reassembly::<spop::Message>::default();
        let mut held = Vec::with_capacity(ROUNDS as usize);
        for round in 0..ROUNDS {
            for (i, (k, n)) in c.parts.iter().enumerate() {
                let (sid, fid) = ids(&e, *k, round);
                let got = r.reassemble(!last(i), sid, fid, msg(*n)).map_err(|e| format!("refused: {e}"))?;
                ensure!(got.is_some() == last(i), "fragment {i}: {}", short(&got));
            }
            held.push(alloc::live());
        }
        kept(&held, 16, "finished payloads")?;
    }
    // Dispatch.
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let mut held = Vec::with_capacity(ROUNDS as usize);
    let fate = |i: usize| c.fate[i % c.fate.len()];
    for round in 0..ROUNDS {
        let mut acks = vec![];
        let mut kept = vec![];
        for (i, (k, n)) in c.parts.iter().enumerate() {
            let (sid, fid) = ids(&e, *k, round);
            let got = d
                .recieve_messages(spop::HaproxyNotify { fragmented: !last(i), stream_id: sid, frame_id: fid, messages: msg(*n) })
                .map_err(|e| format!("refused: {e}"))?;
            let f = fate(i);
            if let Some(a) = got {
                // The receiver may be gone long before.
                if f & 1 == 0 {
                    acks.push(a);
                }
                let (mut acker, msgs) =
                    futures::FutureExt::now_or_never(p.next()).flatten().ok_or("no entry for a notification")?;
                match f >> 1 & 3 {
                    0 => drop(msgs),
                    1 => kept.push((None, Some(msgs))),
                    2 => {
                        acker.set_var(spop::Scope::Request, "name", "value");
                        let _ = acker.complete();
                    }
                    _ => kept.push((Some(acker), Some(msgs))),
                }
            }
        }
        for (a, m) in &mut kept {
            if let Some(m) = m {
                while let Some(Some(_)) = futures::FutureExt::now_or_never(m.next()) {}
            }
            if let Some(a) = a {
                let _ = if round % 2 == 0 { a.abort() } else { a.complete() };
            }
        }
        drop(kept);
        for mut a in acks {
            ensure!(a.try_recv().is_ok(), "no acknowledgement");
        }
        held.push(alloc::live());
    }
    kept(&held, 16, "finished notifications")
}

fn c24_parts_gen() -> BoxedStrategy<Parts> {
    (
        vec((0u8..4, 0u8..4), 1..8),
        prop_oneof![1 => Just(0u8), 1 => Just(0xff), 2 => any::<u8>()],
        (1u64..1 << 40, 1u64..1 << 40),
        vec(any::<u8>(), 1..5),
    )
        .prop_map(|(parts, same, base, fate)| Parts { parts, same, base, fate })
        .boxed()
}

// ------------------------------------------------------------------ long streams

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    frames: Vec<Fr>,
    reads: crate::io::Steps,
}

fn c24_codec(c: &Long, obs: &mut Obs) -> R {
    const ROUNDS: usize = 200;
    const LIMIT: usize = 1 << 20;
    obs.nontrivial_if(c.frames.len() > 1);
    let block: Vec<u8> = c.frames.iter().flat_map(wire::encode_prefixed).collect();
    let largest = c.frames.iter().map(|f| wire::encode(f).len()).max().unwrap_or(0);
    let t = crate::io::Scripted::new(&block.repeat(ROUNDS));
    t.with(|s| {
        s.read_steps = c.reads.clone();
        s.staged.reserve(2 * block.len() + 64);
        s.delivered.reserve(2 * block.len() + 64);
    });
    let mut held = Vec::with_capacity(ROUNDS);
    let mut codec = spop::Codec::buffered(t.clone(), spop::Framer::new(LIMIT));
    for r in 0..ROUNDS {
        let (res, peak) = alloc::peak(|| -> R {
            for (i, f) in c.frames.iter().enumerate() {
                let got = crate::io::drive(codec.read_frame()).map_err(|e| format!("round {r}: frame {i} refused: {e}"))?;
                ensure!(fr_from(&got).as_ref() == Some(f), "round {r}: frame {i} read as {}", short(&got));
                let n = crate::io::drive(codec.write_frame(got)).map_err(|e| format!("round {r}: frame {i} not written: {e}"))?;
                t.with(|s| {
                    let ok = s.delivered.len() == n;
                    s.delivered.clear();
                    ensure!(ok, "round {r}: frame {i} not delivered");
                    Ok(())
                })?;
            }
            Ok(())
        });
        res?;
        let bound = 64 * largest as i64 + 65_536;
        ensure!(peak < bound, "round {r}: {peak} bytes taken for frames of up to {largest} bytes");
        held.push(alloc::live());
    }
    kept(&held, 8, "frames of one stream")
}

fn c24_codec_gen() -> BoxedStrategy<Long> {
    (vec(frame(200), 1..5), crate::io::steps()).prop_map(|(frames, reads)| Long { frames, reads }).boxed()
}

pub fn c24() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "exchanges",
            quick: 240,
            thorough: 20_000,
            threads: 8,
            rule: "at least one notification is completed in each of the repetitions",
            strategy: c24_exchanges_gen,
            check: c24_exchanges,
        }),
        Box::new(Leg {
            name: "connections",
            quick: 400,
            thorough: 20_000,
            threads: 8,
            rule: "every case: some hundred connections on one runtime",
            strategy: c24_ways_gen,
            check: c24_ways,
        }),
        Box::new(Leg {
            name: "unread",
            quick: 1_000,
            thorough: 40_000,
            threads: 8,
            rule: "every case: a peer that sends and does not read",
            strategy: c24_unread_gen,
            check: c24_unread,
        }),
        Box::new(Leg {
            name: "parts",
            quick: 1_000,
            thorough: 60_000,
            threads: 8,
            rule: "at least two fragments are fed in each of the repetitions",
            strategy: c24_parts_gen,
            check: c24_parts,
        }),
        Box::new(Leg {
            name: "codec",
            quick: 600,
            thorough: 30_000,
            threads: 8,
            rule: "at least two frames in each of the repetitions",
            strategy: c24_codec_gen,
            check: c24_codec,
        }),
    ]
}
