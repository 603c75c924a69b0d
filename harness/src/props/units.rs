//! C09 reassembly, C10 dispatcher, C11 acknowledgements: operation histories against small models.
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll, Wake, Waker};

use futures::{Stream, StreamExt};
use haproxy_spoa::runtime::{Acker, Dispatcher, Processor};
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spop::{AsyncHandler, Reassembly};
use tokio::sync::{mpsc, oneshot};

use crate::ensure;
use crate::io::drive;
use crate::model::*;
use crate::props::codec::short;
use crate::runner::{Fail, Leg, LegDyn, Obs, R};

/// Pools of (stream, frame) ids whose members are easily taken for one another.
pub fn key_pool() -> BoxedStrategy<Vec<(u64, u64)>> {
    const H: u64 = 1 << 32;
    prop_oneof![
        2 => Just(vec![(1, 1), (1, 2), (2, 1), (2, 2)]),
        1 => Just(vec![(1, 23), (12, 3), (123, 0), (0, 123), (3, 12)]),
        1 => Just(vec![(1, 1), (1 + H, 1), (1, 1 + H), (1 + H, 1 + H), (H, H)]),
        1 => Just(vec![(3, 5), (5, 3), (8, 0), (0, 8), (4, 4), (6, 2)]),
        1 => Just(vec![(u64::MAX, 1), (u64::MAX, u64::MAX), (1, u64::MAX), (u64::MAX - 1, 2), (0, 0)]),
        1 => Just(vec![(0, 1), (0, 0), (1, 0), (255, 1), (256, 1), (65536, 1), (511, 257)]),
        1 => Just(vec![(7, 7)]),
        2 => (vec((num(), num()), 1..6), any::<u8>(), 0u32..64).prop_map(|(mut v, w, bit)| {
            // And a neighbour that differs in one bit.
            let (s, f) = v[w as usize % v.len()];
            v.push(if w & 1 == 0 { (s ^ (1 << bit), f) } else { (s, f ^ (1 << bit)) });
            v
        }),
    ]
    .boxed()
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Via {
    Direct,
    Notify,
    Ack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Feed {
    /// Index of the key, more to follow, number of items.
    Part(u32, bool, u32),
    /// A frame of another kind (by frames only).
    Other(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Feeds {
    via: Via,
    keys: Vec<(u64, u64)>,
    ops: Vec<Feed>,
}

fn item_msg(n: u64) -> spop::Message {
    spop::Message { name: format!("m{n}"), args: vec![("n".into(), spop::Typed::Uint64(n))] }
}
fn item_act(n: u64) -> spop::Action {
    spop::Action::SetVar { scope: spop::Scope::Request, name: format!("a{n}"), value: spop::Typed::Uint64(n) }
}
fn msg_item(m: &spop::Message) -> R<u64> {
    match (m.name.strip_prefix('m').and_then(|n| n.parse().ok()), m.args.first()) {
        (Some(n), Some((_, spop::Typed::Uint64(k)))) if n == *k => Ok(n),
        _ => Err(format!("item altered: {m:?}").into()),
    }
}

fn c09_check(c: &Feeds, obs: &mut Obs) -> R {
    let direct = Reassembly::<u64>::default();
    let mut by_notify = Reassembly::<spop::Message>::default();
    let mut by_ack = Reassembly::<spop::Action>::default();
    let mut model: HashMap<(u64, u64), Vec<u64>> = HashMap::new();
    let mut serial = 0u64;
    let mut done: HashSet<(u64, u64)> = HashSet::new();
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Feed::Part(k, more, n) => {
                let key = c.keys[*k as usize % c.keys.len()];
                let items: Vec<u64> = (serial..serial + u64::from(*n)).collect();
                serial += u64::from(*n);
                obs.label_if(items.is_empty(), "fragment without items");
                obs.label_if(model.len() > 1, "several payloads pending");
                obs.label_if(done.contains(&key), "ids reused");
                obs.nontrivial_if(model.len() > 1);
                let want = if *more {
                    obs.label_if(model.contains_key(&key), "third or later fragment");
                    model.entry(key).or_default().extend(&items);
                    None
                } else {
                    done.insert(key);
                    let mut all = model.remove(&key).unwrap_or_default();
                    all.extend(&items);
                    Some(all)
                };
                let got: Option<Vec<u64>> = match c.via {
                    Via::Direct => direct.reassemble(*more, key.0, key.1, items).map_err(|e| format!("step {i}: {e}"))?,
                    Via::Notify => {
                        let f = spop::Frame::HaproxyNotify(spop::HaproxyNotify {
                            fragmented: *more,
                            stream_id: key.0,
                            frame_id: key.1,
                            messages: items.iter().map(|n| item_msg(*n)).collect(),
                        });
                        match drive(by_notify.handle_frame(f)).map_err(|e| format!("step {i}: {e}"))? {
                            None => None,
                            Some(v) => Some(v.iter().map(msg_item).collect::<R<Vec<_>>>()?),
                        }
                    }
                    Via::Ack => {
                        let f = spop::Frame::AgentAck(spop::AgentAck {
                            fragmented: *more,
                            aborted: i % 3 == 1,
                            stream_id: key.0,
                            frame_id: key.1,
                            actions: items.iter().map(|n| item_act(*n)).collect(),
                        });
                        match drive(by_ack.handle_frame(f)).map_err(|e| format!("step {i}: {e}"))? {
                            None => None,
                            Some(v) => Some(
                                v.iter()
                                    .map(|a| match a {
                                        spop::Action::SetVar { value: spop::Typed::Uint64(n), .. } if *a == item_act(*n) => {
                                            Ok(*n)
                                        }
                                        a => Err(Fail::from(format!("item altered: {a:?}"))),
                                    })
                                    .collect::<R<Vec<_>>>()?,
                            ),
                        }
                    }
                };
                ensure!(
                    got == want,
                    "step {i}: {} fragment of {key:?} gave {} instead of {}",
                    if *more { "a non-final" } else { "the final" },
                    short(&got),
                    short(&want)
                );
            }
            Feed::Other(n) => {
                // Frames that carry no such payload are refused and change nothing.
                let mine = |f: &spop::Frame| match c.via {
                    Via::Notify => matches!(f, spop::Frame::HaproxyNotify(_)),
                    _ => matches!(f, spop::Frame::AgentAck(_)),
                };
                let key = c.keys[*n as usize % c.keys.len()];
                let fr = match n % 6 {
                    0 => Fr::HHello { versions: vec![(2, 0)], mfs: 1000, caps: vec![], hc: None, eid: None },
                    1 => Fr::AHello { version: (2, 0), mfs: 1000, caps: vec![] },
                    2 => Fr::HDisc { code: 0, msg: "bye".into() },
                    3 => Fr::ADisc { code: 0, msg: "bye".into() },
                    4 => Fr::Notify { frag: false, sid: key.0, fid: key.1, msgs: vec![] },
                    _ => Fr::Ack { frag: false, abort: false, sid: key.0, fid: key.1, acts: vec![] },
                };
                let f = fr_to(&fr);
                if c.via == Via::Direct || mine(&f) {
                    continue;
                }
                obs.label("other frame in between");
                let r = match c.via {
                    Via::Notify => drive(by_notify.handle_frame(f)).map(|_| ()),
                    _ => drive(by_ack.handle_frame(f)).map(|_| ()),
                };
                ensure!(r.is_err(), "step {i}: a {} frame was taken for a payload", fr.kind());
            }
        }
    }
    Ok(())
}

fn c09_gen() -> BoxedStrategy<Feeds> {
    (
        prop_oneof![Just(Via::Direct), Just(Via::Notify), Just(Via::Ack)],
        key_pool(),
        vec(
            prop_oneof![
                12 => (any::<u8>(), prop::bool::weighted(0.75), prop_oneof![6 => 0u8..4, 1 => 4u8..60])
                    .prop_map(|(k, m, n)| Feed::Part(k.into(), m, n.into())),
                1 => any::<u8>().prop_map(|k| Feed::Other(k.into())),
            ],
            1..60,
        ),
    )
        .prop_map(|(via, keys, ops)| Feeds { via, keys, ops })
        .boxed()
}

/// Very many payloads at the same time, in waves over all of them.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    keys: u32,
    /// How the ids of the next key differ from those of the one before.
    step: (u64, u64),
    /// Per wave: every how manieth key, starting where, more to follow, items of each, backwards.
    waves: Vec<(u8, u8, bool, u8, bool)>,
    kind: u8,
}
impl Many {
    fn keys(&self) -> Vec<(u64, u64)> {
        (1..=u64::from(self.keys)).map(|i| (self.step.0.wrapping_mul(i), self.step.1.wrapping_mul(i))).collect()
    }
    fn ops(&self) -> Vec<(u32, bool, u8)> {
        let mut v = vec![];
        for (every, from, more, items, back) in &self.waves {
            let mut w: Vec<u32> = (u32::from(*from)..self.keys).step_by(*every as usize).collect();
            if *back {
                w.reverse();
            }
            v.extend(w.into_iter().map(|k| (k, *more, *items)));
        }
        v
    }
}

fn many_gen() -> BoxedStrategy<Many> {
    (
        prop_oneof![12 => 1u32..300, 18 => 300u32..5000, 1 => 5000u32..10_000],
        prop_oneof![
            2 => Just((1u64, 0u64)),
            2 => Just((0, 1)),
            1 => Just((1, 1)),
            1 => Just((1 << 32, 1)),
            1 => Just((0, 1 << 20)),
            1 => (any::<u64>().prop_map(|n| n | 1), any::<u64>()),
        ],
        vec((1u8..4, 0u8..3, prop::bool::weighted(0.6), 0u8..3, any::<bool>()), 1..5),
        any::<u8>(),
    )
        .prop_map(|(keys, step, mut waves, kind)| {
            waves.insert(0, (1, 0, true, 1, false));
            Many { keys, step, waves, kind }
        })
        .boxed()
}

fn c09_many(c: &Many, obs: &mut Obs) -> R {
    obs.label_if(c.keys > 1000, "more than 1000 payloads pending");
    let via = [Via::Direct, Via::Notify, Via::Ack][c.kind as usize % 3];
    let mut ops: Vec<Feed> = c.ops().into_iter().map(|(k, m, n)| Feed::Part(k, m, n.into())).collect();
    // In the end all of them are complete.
    ops.extend((0..c.keys).map(|k| Feed::Part(k, false, 1)));
    c09_check(&Feeds { via, keys: c.keys(), ops }, obs)
}

/// A few payloads of very many items or fragments.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bulk {
    keys: Vec<(u64, u64)>,
    /// Key, number of fragments, items in each.
    runs: Vec<(u8, u32, u32)>,
    last: u32,
    kind: u8,
}

impl Bulk {
    fn parts(&self) -> impl Iterator<Item = (u32, bool, u32)> + '_ {
        let runs = self.runs.iter().flat_map(|(k, n, items)| (0..*n).map(|_| (u32::from(*k), true, *items)));
        runs.chain((0..self.keys.len() as u32).map(|k| (k, false, self.last)))
    }
    fn label(&self, obs: &mut Obs) {
        obs.nontrivial = true;
        obs.label_if(self.runs.iter().any(|(_, n, _)| *n > 1000), "more than 1000 fragments in a row");
        obs.label_if(self.runs.iter().any(|(_, _, i)| *i > 1000), "fragment of more than 1000 items");
        obs.label_if(self.runs.iter().map(|(_, n, i)| n * i).sum::<u32>() > 1 << 16, "more than 65536 items");
    }
}

fn bulk_gen(items: u32) -> BoxedStrategy<Bulk> {
    let run = prop_oneof![
        2 => (1u32..4, 0..items),
        1 => (1..items / 4, 0u32..3),
        1 => (1u32..100, 0..items / 100),
        1 => (1u32..4, 0u32..4),
    ];
    (key_pool(), vec((any::<u8>(), run), 1..6), prop_oneof![3 => 0u32..3, 1 => 0..items], any::<u8>())
        .prop_map(|(mut keys, runs, last, kind)| {
            keys.sort();
            keys.dedup();
            keys.truncate(3);
            Bulk { keys, runs: runs.into_iter().map(|(k, (n, i))| (k, n, i)).collect(), last, kind }
        })
        .boxed()
}

fn c09_bulk(c: &Bulk, obs: &mut Obs) -> R {
    let via = [Via::Direct, Via::Notify, Via::Ack][c.kind as usize % 3];
    c09_check(&Feeds { via, keys: c.keys.clone(), ops: c.parts().map(|(k, m, n)| Feed::Part(k, m, n)).collect() }, obs)?;
    c.label(obs);
    Ok(())
}

fn c10_bulk(c: &Bulk, obs: &mut Obs) -> R {
    let mut ops = vec![];
    for (i, (k, m, n)) in c.parts().enumerate() {
        ops.push(DOp::Submit(k, m, n));
        if c.kind & 1 != 0 {
            ops.push(DOp::PollEntry);
        }
        if c.kind & 2 != 0 {
            ops.extend((0..=n).map(|_| DOp::PollMsgs(i as u32)));
        }
    }
    c10_check(&Dispatching { keys: c.keys.clone(), ops }, obs)?;
    c.label(obs);
    Ok(())
}

fn c10_many(c: &Many, obs: &mut Obs) -> R {
    obs.label_if(c.keys > 1000, "more than 1000 notifications open");
    let late = c.kind % 3 == 0;
    let mut ops = vec![];
    for (i, (k, m, n)) in c.ops().into_iter().enumerate() {
        ops.push(DOp::Submit(k, m, n.into()));
        // A consumer that keeps up, falls behind, or comes late.
        if !late && (c.kind % 3 == 1 || i % 2 == 0) {
            ops.push(DOp::PollEntry);
        }
        if !late && i % 5 == 0 {
            ops.push(DOp::PollMsgs(i as u32 / 5));
        }
        if c.kind & 64 != 0 && i % 7 == 3 {
            ops.push(DOp::Ack(i as u32 / 7));
        }
    }
    ops.extend((0..c.keys).map(|k| DOp::Submit(k, false, 1)));
    if c.kind & 128 != 0 {
        ops.push(DOp::DropDispatcher);
    }
    c10_check(&Dispatching { keys: c.keys(), ops }, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    keys: Vec<(u64, u64)>,
    /// Per thread: key index (used as a key of that thread alone), more to follow, items.
    own: Vec<Vec<(u8, bool, u8)>>,
    /// Per thread: items fed to one common payload in between.
    common: Vec<Vec<u8>>,
}

fn c09_threads(c: &Threads, obs: &mut Obs) -> R {
    let table = Reassembly::<(u8, u64)>::default();
    let shared = (0x5eed_u64, 0x5eed_u64);
    let n = c.own.len();
    obs.nontrivial_if(n > 1 && c.own.iter().filter(|o| o.len() > 3).count() > 1);
    let barrier = Barrier::new(n);
    let res: Vec<R<Vec<(u8, u64)>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (table, barrier) = (&table, &barrier);
                s.spawn(move || -> R<Vec<(u8, u64)>> {
                    let mut model: HashMap<(u64, u64), Vec<(u8, u64)>> = HashMap::new();
                    let mut serial = 0u64;
                    let mut sent = vec![];
                    barrier.wait();
                    for (i, (k, more, cnt)) in c.own[t].iter().enumerate() {
                        // The keys of each thread are its own.
                        let (a, b) = c.keys[*k as usize % c.keys.len()];
                        let key = (a.wrapping_mul(8).wrapping_add(t as u64), b);
                        let items: Vec<(u8, u64)> = (0..*cnt).map(|j| (t as u8, serial + u64::from(j))).collect();
                        serial += u64::from(*cnt);
                        let want = if *more {
                            model.entry(key).or_default().extend(&items);
                            None
                        } else {
                            let mut all = model.remove(&key).unwrap_or_default();
                            all.extend(&items);
                            Some(all)
                        };
                        let got = table.reassemble(*more, key.0, key.1, items).map_err(|e| format!("thread {t}: {e}"))?;
                        ensure!(got == want, "thread {t} step {i}: {key:?} gave {} instead of {}", short(&got), short(&want));
                        if let Some(cnt) = c.common.get(t).and_then(|v| v.get(i)) {
                            let items: Vec<(u8, u64)> = (0..*cnt).map(|j| (t as u8, serial + u64::from(j))).collect();
                            serial += u64::from(*cnt);
                            sent.extend(&items);
                            let got =
                                table.reassemble(true, shared.0, shared.1, items).map_err(|e| format!("thread {t}: {e}"))?;
                            ensure!(got.is_none(), "thread {t}: a non-final fragment gave {}", short(&got));
                        }
                    }
                    Ok(sent)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a feeding thread".into()))).collect()
    });
    let mut sent = vec![];
    for r in res {
        sent.push(r?);
    }
    let got = table
        .reassemble(false, shared.0, shared.1, vec![])
        .map_err(|e| e.to_string())?
        .ok_or("the final fragment gave nothing")?;
    ensure!(
        got.len() == sent.iter().map(Vec::len).sum::<usize>(),
        "{} items of the common payload instead of {}",
        got.len(),
        sent.concat().len()
    );
    for (t, want) in sent.iter().enumerate() {
        let mine: Vec<_> = got.iter().filter(|(k, _)| *k as usize == t).copied().collect();
        ensure!(mine == *want, "thread {t}'s part of the common payload is {} instead of {}", short(&mine), short(want));
    }
    obs.label_if(!got.is_empty(), "one payload fed by several threads");
    Ok(())
}

fn c09_threads_gen() -> BoxedStrategy<Threads> {
    (key_pool(), vec(vec((0u8..3, prop::bool::weighted(0.7), 0u8..4), 1..60), 2..6), vec(vec(0u8..3, 0..30), 2..6))
        .prop_map(|(keys, own, common)| {
            // Distinct per thread: see the multiplication above.
            let mut keys: Vec<(u64, u64)> = keys.into_iter().map(|(a, b)| (a & (u64::MAX >> 4), b)).collect();
            keys.dedup();
            Threads { keys, own, common }
        })
        .boxed()
}

pub fn c09() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "interleavings",
            quick: 150_000,
            thorough: 4_000_000,
            threads: 8,
            rule: "a fragment arrived while at least two payloads were pending",
            strategy: c09_gen,
            check: c09_check,
        }),
        Box::new(Leg {
            name: "many",
            quick: 2_000,
            thorough: 40_000,
            threads: 8,
            rule: "a fragment arrived while at least two payloads were pending",
            strategy: many_gen,
            check: c09_many,
        }),
        Box::new(Leg {
            name: "bulk",
            quick: 300,
            thorough: 6_000,
            threads: 8,
            rule: "every case: payloads of thousands of items or fragments",
            strategy: || bulk_gen(60_000),
            check: c09_bulk,
        }),
        Box::new(Leg {
            name: "threads",
            quick: 4_000,
            thorough: 120_000,
            threads: 4,
            rule: "two threads fed at least four fragments each at the same time",
            strategy: c09_threads_gen,
            check: c09_threads,
        }),
    ]
}

// ------------------------------------------------------------------ C10

#[derive(Default)]
struct Flag(AtomicUsize);

/// Polls until the stream is ready, or not ready without having asked to be polled again at once.
fn settled<S: Stream + Unpin>(s: &mut S) -> (Poll<Option<S::Item>>, Arc<Flag>) {
    for _ in 0..1000 {
        let flag = Arc::new(Flag::default());
        let waker = Waker::from(flag.clone());
        let p = s.poll_next_unpin(&mut Context::from_waker(&waker));
        if p.is_ready() || flag.0.load(SeqCst) == 0 {
            return (p, flag);
        }
    }
    (Poll::Pending, Arc::default())
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DOp {
    Submit(u32, bool, u32),
    PollEntry,
    PollMsgs(u32),
    DropMsgs(u32),
    /// Complete the acknowledgement of an entry.
    Ack(u32),
    DropProcessor,
    DropDispatcher,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dispatching {
    keys: Vec<(u64, u64)>,
    ops: Vec<DOp>,
}

struct EntryModel {
    key: (u64, u64),
    queue: VecDeque<u64>,
    /// No more messages will come.
    ended: bool,
    /// The consumer dropped the messages (or never got them).
    gone: bool,
    taken: bool,
    ack: Option<oneshot::Receiver<spop::AgentAck>>,
}

struct EntryReal {
    acker: Option<Acker>,
    msgs: Option<Pin<Box<dyn Stream<Item = spop::Message> + Send>>>,
    waiting: Option<Arc<Flag>>,
    model: usize,
}

fn c10_check(c: &Dispatching, obs: &mut Obs) -> R {
    let (tx, rx) = mpsc::unbounded_channel();
    let mut disp = Some(Dispatcher::new(tx));
    let mut proc = Some(Processor::from(rx));
    let mut model: Vec<EntryModel> = vec![];
    let mut pending: VecDeque<usize> = VecDeque::new();
    let mut open: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    // Keys about which nothing is claimed any more.
    let mut lost: HashSet<(u64, u64)> = HashSet::new();
    let mut real: Vec<EntryReal> = vec![];
    let mut proc_waiting: Option<Arc<Flag>> = None;
    let mut serial = 0u64;

    let ids = |ack: &mut oneshot::Receiver<spop::AgentAck>, key: (u64, u64), what: &str| -> R {
        match ack.try_recv() {
            Ok(a) => {
                ensure!(
                    (a.stream_id, a.frame_id) == key,
                    "{what}: acknowledged as {:?} instead of {key:?}",
                    (a.stream_id, a.frame_id)
                );
                Ok(())
            }
            Err(e) => Err(format!("{what}: no acknowledgement of {key:?}: {e}").into()),
        }
    };

    for (i, op) in c.ops.iter().enumerate() {
        match op {
            DOp::Submit(k, more, n) => {
                let Some(d) = &disp else { continue };
                let key = c.keys[*k as usize % c.keys.len()];
                if lost.contains(&key) {
                    continue;
                }
                let items: Vec<u64> = (serial..serial + u64::from(*n)).collect();
                serial += u64::from(*n);
                let notify = spop::HaproxyNotify {
                    fragmented: *more,
                    stream_id: key.0,
                    frame_id: key.1,
                    messages: items.iter().map(|n| item_msg(*n)).collect(),
                };
                let got = d.recieve_messages(notify);
                match open.get(&key).copied() {
                    Some(e) => {
                        obs.label("continued");
                        obs.nontrivial_if(open.len() > 1);
                        let gone = model[e].gone;
                        match got {
                            Ok(None) => {}
                            Ok(Some(_)) => {
                                return Err(format!(
                                    "step {i}: a further fragment of {key:?} returned an acknowledgement receiver"
                                )
                                .into())
                            }
                            Err(_) if gone => {
                                obs.label("refused: nobody reads the messages");
                                open.remove(&key);
                                model[e].ended = true;
                                lost.insert(key);
                                continue;
                            }
                            Err(err) => return Err(format!("step {i}: fragment of {key:?} refused: {err}").into()),
                        }
                        model[e].queue.extend(&items);
                        if !*more {
                            model[e].ended = true;
                            open.remove(&key);
                        }
                    }
                    None if proc.is_none() => {
                        obs.label("submitted without a consumer");
                        ensure!(got.is_err(), "step {i}: a notification of {key:?} was taken although nobody takes entries");
                    }
                    None => {
                        let ack = match got {
                            Ok(Some(r)) => r,
                            Ok(None) => {
                                return Err(format!(
                                    "step {i}: the first fragment of {key:?} returned no acknowledgement receiver"
                                )
                                .into())
                            }
                            Err(e) => return Err(format!("step {i}: {key:?} refused: {e}").into()),
                        };
                        obs.label_if(model.iter().any(|m| m.key == key), "ids reused");
                        model.push(EntryModel {
                            key,
                            queue: items.into(),
                            ended: !*more,
                            gone: false,
                            taken: false,
                            ack: Some(ack),
                        });
                        pending.push_back(model.len() - 1);
                        if *more {
                            open.insert(key, model.len() - 1);
                        }
                    }
                }
            }
            DOp::PollEntry => {
                let Some(p) = &mut proc else { continue };
                let (polled, flag) = settled(p);
                match (polled, pending.pop_front()) {
                    (Poll::Ready(Some((acker, msgs))), Some(e)) => {
                        model[e].taken = true;
                        real.push(EntryReal { acker: Some(acker), msgs: Some(Box::pin(msgs)), waiting: None, model: e });
                        proc_waiting = None;
                    }
                    (Poll::Ready(Some((mut acker, _))), None) => {
                        let _ = acker.complete();
                        return Err(format!("step {i}: an entry nobody submitted").into());
                    }
                    (Poll::Ready(None), None) if disp.is_none() => proc_waiting = None,
                    (Poll::Pending, None) if disp.is_some() => {
                        obs.label("consumer waits for entries");
                        proc_waiting = Some(flag);
                    }
                    (p, e) => {
                        return Err(format!(
                            "step {i}: the entry stream is {} while {} and the dispatcher is {}",
                            if p.is_pending() { "not ready" } else { "at its end" },
                            e.map_or("nothing was submitted".into(), |e| format!("an entry of {:?} is due", model[e].key)),
                            if disp.is_some() { "alive" } else { "gone" }
                        )
                        .into())
                    }
                }
            }
            DOp::PollMsgs(k) => {
                if real.is_empty() {
                    continue;
                }
                let j = *k as usize % real.len();
                let r = &mut real[j];
                let m = &mut model[r.model];
                let Some(s) = &mut r.msgs else { continue };
                let (polled, flag) = settled(s);
                match (polled, m.queue.pop_front()) {
                    (Poll::Ready(Some(got)), Some(want)) => {
                        let got = msg_item(&got)?;
                        ensure!(got == want, "step {i}: message {got} instead of {want} on {:?}", m.key);
                        r.waiting = None;
                    }
                    (Poll::Ready(Some(got)), None) => {
                        return Err(format!("step {i}: message {got:?} nobody sent on {:?}", m.key).into())
                    }
                    (Poll::Ready(None), None) if m.ended || disp.is_none() => {
                        obs.label("message stream ended");
                        r.waiting = None;
                    }
                    (Poll::Pending, None) if !m.ended && disp.is_some() => {
                        obs.label("consumer waits for messages");
                        r.waiting = Some(flag);
                    }
                    (p, q) => {
                        return Err(format!(
                            "step {i}: the messages of {:?} are {} although {}",
                            m.key,
                            if p.is_pending() { "not ready" } else { "at their end" },
                            q.map_or(if m.ended { "complete".to_string() } else { "more may come".to_string() }, |n| format!(
                                "message {n} is due"
                            ))
                        )
                        .into())
                    }
                }
            }
            DOp::DropMsgs(k) => {
                if real.is_empty() {
                    continue;
                }
                let j = *k as usize % real.len();
                obs.label("message stream dropped");
                real[j].msgs = None;
                real[j].waiting = None;
                model[real[j].model].gone = true;
            }
            DOp::Ack(k) => {
                if real.is_empty() {
                    continue;
                }
                let j = *k as usize % real.len();
                if let Some(mut a) = real[j].acker.take() {
                    let m = &mut model[real[j].model];
                    a.complete().map_err(|e| format!("step {i}: completing {:?} failed: {e}", m.key))?;
                    ids(m.ack.as_mut().unwrap(), m.key, &format!("step {i}"))?;
                    m.ack = None;
                }
            }
            DOp::DropProcessor => {
                if proc.take().is_some() {
                    proc_waiting = None;
                    for e in pending.drain(..) {
                        model[e].gone = true;
                    }
                }
            }
            DOp::DropDispatcher => {
                if disp.take().is_some() {
                    open.clear();
                }
            }
        }
        // Whoever waits has been woken once there is something for it.
        if let Some(f) = &proc_waiting {
            if !pending.is_empty() || disp.is_none() {
                ensure!(f.0.load(SeqCst) > 0, "step {i} ({op:?}): the consumer waiting for entries was not woken");
            }
        }
        for r in &real {
            let m = &model[r.model];
            if let Some(f) = &r.waiting {
                if !m.queue.is_empty() || m.ended || disp.is_none() {
                    ensure!(
                        f.0.load(SeqCst) > 0,
                        "step {i} ({op:?}): the consumer waiting for messages of {:?} was not woken",
                        m.key
                    );
                }
            }
        }
    }
    // Every entry is to be had, with its ids and the rest of its messages.
    if let Some(p) = &mut proc {
        while let Some(e) = pending.pop_front() {
            match settled(p).0 {
                Poll::Ready(Some((acker, msgs))) => {
                    model[e].taken = true;
                    real.push(EntryReal { acker: Some(acker), msgs: Some(Box::pin(msgs)), waiting: None, model: e });
                }
                _ => return Err(format!("the entry of {:?} is missing", model[e].key).into()),
            }
        }
        ensure!(!matches!(settled(p).0, Poll::Ready(Some(_))), "more entries than notifications");
    }
    for r in &mut real {
        let m = &mut model[r.model];
        if let Some(s) = &mut r.msgs {
            while let Some(want) = m.queue.pop_front() {
                match settled(s).0 {
                    Poll::Ready(Some(got)) => {
                        let got = msg_item(&got)?;
                        ensure!(got == want, "at the end: message {got} instead of {want} on {:?}", m.key);
                    }
                    _ => return Err(format!("message {want} of {:?} is missing", m.key).into()),
                }
            }
            match settled(s).0 {
                Poll::Ready(Some(got)) => return Err(format!("message {got:?} nobody sent on {:?}", m.key).into()),
                Poll::Ready(None) => {
                    ensure!(m.ended || disp.is_none(), "the messages of {:?} end before the final fragment", m.key)
                }
                Poll::Pending => ensure!(!m.ended && disp.is_some(), "the messages of {:?} do not end", m.key),
            }
        }
        if let Some(a) = r.acker.take() {
            drop(a);
            ids(m.ack.as_mut().unwrap(), m.key, "at the end")?;
        }
    }
    Ok(())
}

fn c10_gen() -> BoxedStrategy<Dispatching> {
    (
        key_pool(),
        vec(
            prop_oneof![
                20 => (any::<u8>(), prop::bool::weighted(0.6), 0u8..4).prop_map(|(k, m, n)| DOp::Submit(k.into(), m, n.into())),
                12 => Just(DOp::PollEntry),
                16 => any::<u8>().prop_map(|k| DOp::PollMsgs(k.into())),
                1 => any::<u8>().prop_map(|k| DOp::DropMsgs(k.into())),
                3 => any::<u8>().prop_map(|k| DOp::Ack(k.into())),
            ],
            1..60,
        ),
        prop_oneof![
            3 => Just(None),
            1 => Just(Some(DOp::DropProcessor)),
            1 => Just(Some(DOp::DropDispatcher)),
        ],
        any::<prop::sample::Index>(),
    )
        .prop_map(|(keys, mut ops, end, at)| {
            if let Some(e) = end {
                let i = at.index(ops.len() + 1);
                ops.insert(i, e);
            }
            Dispatching { keys, ops }
        })
        .boxed()
}

/// Producers and a consumer on threads of their own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flow {
    /// Per producer, the fragment sizes of each of its notifications.
    producers: Vec<Vec<Vec<u8>>>,
}

fn c10_threads(c: &Flow, obs: &mut Obs) -> R {
    let total: usize = c.producers.iter().map(Vec::len).sum();
    obs.nontrivial_if(c.producers.iter().filter(|p| !p.is_empty()).count() > 1 && total > 3);
    let (tx, rx) = mpsc::unbounded_channel();
    let disp = Arc::new(Dispatcher::new(tx));
    let mut proc = Processor(rx);
    let barrier = Barrier::new(c.producers.len() + 1);
    let (seen, acks) =
        std::thread::scope(|s| -> R<(Vec<((u64, u64), Vec<u64>)>, Vec<Vec<((u64, u64), oneshot::Receiver<spop::AgentAck>)>>)> {
            let producers: Vec<_> = c
                .producers
                .iter()
                .enumerate()
                .map(|(t, notes)| {
                    let disp = disp.clone();
                    let barrier = &barrier;
                    s.spawn(move || -> R<Vec<((u64, u64), oneshot::Receiver<spop::AgentAck>)>> {
                        barrier.wait();
                        let mut acks = vec![];
                        let mut n = 0;
                        for (j, parts) in notes.iter().enumerate() {
                            let key = (t as u64, j as u64 + 1);
                            for (i, cnt) in parts.iter().enumerate() {
                                let messages = (0..*cnt)
                                    .map(|_| {
                                        n += 1;
                                        item_msg(t as u64 * 100_000 + n)
                                    })
                                    .collect();
                                let r = disp
                                    .recieve_messages(spop::HaproxyNotify {
                                        fragmented: i + 1 < parts.len(),
                                        stream_id: key.0,
                                        frame_id: key.1,
                                        messages,
                                    })
                                    .map_err(|e| format!("{key:?} refused: {e}"))?;
                                ensure!(
                                    r.is_some() == (i == 0),
                                    "fragment {i} of {key:?}: acknowledgement receiver {}",
                                    r.is_some()
                                );
                                if let Some(r) = r {
                                    acks.push((key, r));
                                }
                            }
                        }
                        Ok(acks)
                    })
                })
                .collect();
            drop(disp);
            barrier.wait();
            // The consumer waits for real.
            let seen = futures::executor::block_on(async {
                let mut seen = vec![];
                while let Some((mut acker, mut msgs)) = proc.next().await {
                    let mut all = vec![];
                    while let Some(m) = msgs.next().await {
                        all.push(msg_item(&m)?);
                    }
                    let k = seen.len() as u64;
                    acker.set_var(spop::Scope::Request, "k", k);
                    acker.complete().map_err(|e| format!("completing failed: {e}"))?;
                    seen.push(((k, 0), all));
                }
                R::Ok(seen)
            })?;
            let mut acks = vec![];
            for p in producers {
                acks.push(p.join().unwrap_or_else(|_| Err("panic in a producer".into()))?);
            }
            Ok((seen, acks))
        })?;
    ensure!(seen.len() == total, "{} entries for {total} notifications", seen.len());
    for (t, acks) in acks.into_iter().enumerate() {
        let mut n = 0;
        let mut last = None;
        ensure!(acks.len() == c.producers[t].len(), "{} acknowledgement receivers", acks.len());
        for ((key, mut r), parts) in acks.into_iter().zip(&c.producers[t]) {
            let a = r.try_recv().map_err(|e| format!("no acknowledgement of {key:?}: {e}"))?;
            ensure!((a.stream_id, a.frame_id) == key, "acknowledged as {:?} instead of {key:?}", (a.stream_id, a.frame_id));
            let Some(spop::Action::SetVar { value: spop::Typed::Uint64(k), .. }) = a.actions.first() else {
                return Err("the action is missing".into());
            };
            let want: Vec<u64> = (0..parts.iter().map(|c| u64::from(*c)).sum::<u64>())
                .map(|_| {
                    n += 1;
                    t as u64 * 100_000 + n
                })
                .collect();
            let got = &seen[*k as usize].1;
            ensure!(*got == want, "{key:?} got messages {} instead of {}", short(got), short(&want));
            ensure!(last.is_none_or(|l| l < *k), "entries of one producer out of order");
            last = Some(*k);
        }
    }
    Ok(())
}

fn c10_threads_gen() -> BoxedStrategy<Flow> {
    vec(vec(vec(0u8..4, 1..5), 0..12), 1..5).prop_map(|producers| Flow { producers }).boxed()
}

pub fn c10() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "histories",
            quick: 150_000,
            thorough: 4_000_000,
            threads: 8,
            rule: "a notification was continued while another was open",
            strategy: c10_gen,
            check: c10_check,
        }),
        Box::new(Leg {
            name: "many",
            quick: 500,
            thorough: 10_000,
            threads: 8,
            rule: "a fragment continued one of several open notifications",
            strategy: many_gen,
            check: c10_many,
        }),
        Box::new(Leg {
            name: "bulk",
            quick: 200,
            thorough: 6_000,
            threads: 8,
            rule: "every case: notifications of thousands of messages or fragments",
            strategy: || bulk_gen(10_000),
            check: c10_bulk,
        }),
        Box::new(Leg {
            name: "threads",
            quick: 4_000,
            thorough: 120_000,
            threads: 4,
            rule: "two producers and four notifications",
            strategy: c10_threads_gen,
            check: c10_threads,
        }),
    ]
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Do(Act),
    /// So many numbered updates in a row.
    Burst(u32),
    Complete,
    Abort,
    DropReceiver,
    Poll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Acking {
    sid: u64,
    fid: u64,
    ops: Vec<AOp>,
    /// The handle is dropped by a panic.
    unwind: bool,
    /// The handle lives on another thread and the receiver blocks.
    thread: bool,
}

fn nth_act(i: u32) -> Act {
    let (s, n) = ((i % 5) as u8, format!("v{}", i / 2));
    if i % 3 == 2 {
        Act::Unset(s, n)
    } else {
        Act::Set(s, n, Val::U32(i))
    }
}

fn apply(a: &mut Acker, act: &Act) {
    // Through the conversions a caller would use.
    match act {
        Act::Set(s, n, v) => match v {
            Val::Str(t) => a.set_var(SCOPES[*s as usize], n.as_str(), t.as_str()),
            Val::U32(x) => a.set_var(SCOPES[*s as usize], n.clone(), *x),
            Val::I64(x) => a.set_var(SCOPES[*s as usize], n.clone(), *x),
            Val::Bool(x) => a.set_var(SCOPES[*s as usize], n.as_str(), *x),
            v => a.set_var(SCOPES[*s as usize], n.clone(), val_to(v)),
        },
        Act::Unset(s, n) => a.unset_var(SCOPES[*s as usize], n.as_str()),
    }
}

fn c11_check(c: &Acking, obs: &mut Obs) -> R {
    obs.label_if(c.thread, "across threads");
    if c.thread {
        return c11_thread(c, obs);
    }
    let (acker, rx) = Acker::new(c.sid, c.fid);
    let mut acker = Some(acker);
    let mut rx = Some(rx);
    let mut acts: Vec<Act> = vec![];
    let mut ended: Option<bool> = None;
    let mut waiting: Option<Arc<Flag>> = None;
    let mut got: Option<spop::AgentAck> = None;
    for (i, op) in c.ops.iter().enumerate() {
        let a = acker.as_mut().unwrap();
        match op {
            AOp::Do(act) => {
                apply(a, act);
                if ended.is_none() {
                    acts.push(act.clone());
                } else {
                    obs.label("update after the end");
                }
            }
            AOp::Burst(n) => {
                obs.label_if(*n > 65_536, "over 65536 updates");
                obs.label_if(*n > 256, "over 256 updates");
                for i in 0..*n {
                    apply(a, &nth_act(i));
                }
                if ended.is_none() {
                    acts.extend((0..*n).map(nth_act));
                }
            }
            AOp::Complete | AOp::Abort => {
                let abort = matches!(op, AOp::Abort);
                let r = if abort { a.abort() } else { a.complete() };
                if ended.is_some() {
                    obs.label("ended again");
                    ensure!(r.is_err(), "step {i}: ending the acknowledgement again succeeded");
                } else if rx.is_none() {
                    obs.label("receiver gone");
                    ensure!(r.is_err(), "step {i}: ending the acknowledgement succeeded although nobody receives it");
                    ended = Some(abort);
                } else {
                    ensure!(r.is_ok(), "step {i}: ending the acknowledgement failed: {:?}", r.err());
                    ended = Some(abort);
                    if let Some(f) = &waiting {
                        ensure!(f.0.load(SeqCst) > 0, "step {i}: the receiver was not woken");
                    }
                }
            }
            AOp::DropReceiver => {
                rx = None;
                waiting = None;
            }
            AOp::Poll => {
                let Some(r) = rx.as_mut() else { continue };
                if got.is_some() {
                    continue;
                }
                let flag = Arc::new(Flag::default());
                let waker = Waker::from(flag.clone());
                match Pin::new(r).poll(&mut Context::from_waker(&waker)) {
                    Poll::Pending => {
                        ensure!(ended.is_none(), "step {i}: nothing received after the end");
                        waiting = Some(flag);
                    }
                    Poll::Ready(Ok(a)) => {
                        ensure!(ended.is_some(), "step {i}: received before the end: {a:?}");
                        got = Some(a);
                    }
                    Poll::Ready(Err(e)) => return Err(format!("step {i}: {e}").into()),
                }
            }
        }
    }
    obs.nontrivial_if(acts.len() > 1 && c.ops.iter().filter(|o| matches!(o, AOp::Complete | AOp::Abort)).count() != 1);
    // Dropping the handle ends it.
    obs.label_if(ended.is_none(), "ended by the drop");
    obs.label_if(ended == Some(true), "aborted");
    if c.unwind {
        obs.label("dropped by a panic");
        let a = acker.take();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _a = a;
            std::panic::panic_any("on purpose");
        }));
        ensure!(r.is_err(), "no panic");
    } else {
        drop(acker.take());
    }
    if let (Some(f), None) = (&waiting, &got) {
        ensure!(f.0.load(SeqCst) > 0, "the receiver was not woken by the drop");
    }
    if let Some(mut r) = rx {
        let a = match got {
            Some(a) => a,
            None => r.try_recv().map_err(|e| format!("no acknowledgement received: {e}"))?,
        };
        same_ack(c, &a, &acts, ended == Some(true))?;
        ensure!(r.try_recv().is_err(), "a second acknowledgement was received");
    }
    Ok(())
}

fn same_ack(c: &Acking, a: &spop::AgentAck, acts: &[Act], aborted: bool) -> R {
    ensure!((a.stream_id, a.frame_id) == (c.sid, c.fid), "ids {:?} instead of {:?}", (a.stream_id, a.frame_id), (c.sid, c.fid));
    ensure!(!a.fragmented, "marked as fragmented");
    ensure!(a.aborted == aborted, "aborted mark is {} instead of {aborted}", a.aborted);
    let got = acts_from(&a.actions);
    ensure!(got == acts, "actions {} instead of {}", short(&got), short(&acts));
    Ok(())
}

fn c11_thread(c: &Acking, obs: &mut Obs) -> R {
    let (mut acker, rx) = Acker::new(c.sid, c.fid);
    let mut acts = vec![];
    let mut ended = None;
    for op in &c.ops {
        match op {
            AOp::Do(a) if ended.is_none() => acts.push(a.clone()),
            AOp::Burst(n) if ended.is_none() => acts.extend((0..*n).map(nth_act)),
            AOp::Complete if ended.is_none() => ended = Some(false),
            AOp::Abort if ended.is_none() => ended = Some(true),
            _ => {}
        }
    }
    obs.nontrivial_if(acts.len() > 1);
    let got = std::thread::scope(|s| {
        s.spawn(move || {
            for op in &c.ops {
                match op {
                    AOp::Do(a) => apply(&mut acker, a),
                    AOp::Burst(n) => (0..*n).for_each(|i| apply(&mut acker, &nth_act(i))),
                    AOp::Complete => {
                        let _ = acker.complete();
                    }
                    AOp::Abort => {
                        let _ = acker.abort();
                    }
                    _ => std::thread::yield_now(),
                }
            }
        });
        rx.blocking_recv()
    })
    .map_err(|e| format!("no acknowledgement received: {e}"))?;
    same_ack(c, &got, &acts, ended == Some(true))
}

fn c11_gen() -> BoxedStrategy<Acking> {
    c11_of(acts_strategy())
}

fn c11_bursts() -> BoxedStrategy<Acking> {
    c11_of(
        prop_oneof![
            1 => acts_strategy(),
            2 => prop_oneof![
                4 => 1u32..300,
                3 => (prop::sample::select(vec![128u32, 256, 512, 1024, 4096]), 0u32..3).prop_map(|(n, d)| n - 1 + d),
                2 => 300u32..20_000,
                1 => 65_000u32..70_000,
            ]
            .prop_map(AOp::Burst),
        ]
        .boxed(),
    )
}

fn acts_strategy() -> BoxedStrategy<AOp> {
    act(20).prop_map(AOp::Do).boxed()
}

fn c11_of(some: BoxedStrategy<AOp>) -> BoxedStrategy<Acking> {
    (
        num(),
        num(),
        vec(
            prop_oneof![
                10 => some,
                2 => Just(AOp::Complete),
                2 => Just(AOp::Abort),
                1 => Just(AOp::DropReceiver),
                3 => Just(AOp::Poll),
            ],
            0..16,
        ),
        prop::bool::weighted(0.1),
        prop::bool::weighted(0.05),
    )
        .prop_map(|(sid, fid, ops, unwind, thread)| Acking { sid, fid, ops, unwind, thread })
        .boxed()
}

pub fn c11() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "histories",
            quick: 120_000,
            thorough: 4_000_000,
            threads: 8,
            rule: "at least two actions, and not ended exactly once by a call (threads: at least two actions)",
            strategy: c11_gen,
            check: c11_check,
        }),
        Box::new(Leg {
            name: "bursts",
            quick: 400,
            thorough: 20_000,
            threads: 8,
            rule: "at least two actions, and not ended exactly once by a call (threads: at least two actions)",
            strategy: c11_bursts,
            check: c11_check,
        }),
    ]
}

use std::future::Future;
