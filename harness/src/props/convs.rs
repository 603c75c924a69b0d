//! C07 (negotiated limit), C12..C16: conversations with one connection.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use haproxy_spoa::Connection;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_util::sync::CancellationToken;

use crate::conv::*;
use crate::ensure;
use crate::model::*;
use crate::props::codec::short;
use crate::runner::{Fail, Leg, LegDyn, Obs, R};
use crate::wire;

fn has(e: &Expect, l: &str) -> bool {
    e.labels.contains(&l)
}

fn run_check(c: &Conv, obs: &mut Obs, nontrivial: fn(&Conv, &Expect) -> bool) -> R {
    let (e, _) = model(c);
    obs.nontrivial_if(nontrivial(c, &e));
    check(c, obs)
}

// ------------------------------------------------------------------ C12

fn c12_check(c: &Conv, obs: &mut Obs) -> R {
    if let Some(Step::Frame(Fr::HHello { versions, caps, mfs, .. })) = c.steps.first() {
        let mut v = versions.clone();
        v.dedup();
        obs.label_if(v.len() > 1, "several versions offered");
        obs.label_if(c.conf.versions.len() > 1, "several versions supported");
        obs.label_if(c.conf.versions.is_empty(), "default versions");
        obs.label_if(c.conf.mfs.is_none(), "default frame size");
        obs.label_if(u64::from(*mfs) < c.conf.own(), "peer's frame size is smaller");
        obs.label_if(c.conf.own() > u64::from(u32::MAX), "own frame size above 32 bits");
        obs.label_if(caps.iter().any(|k| !c.conf.caps.contains(k)), "capability of the peer only");
        obs.label_if(c.conf.caps.iter().any(|k| !caps.contains(k)), "capability of the agent only");
        obs.label_if(
            caps.iter().enumerate().any(|(i, k)| caps[..i].contains(k))
                || versions.iter().enumerate().any(|(i, k)| versions[..i].contains(k)),
            "repetition",
        );
    }
    run_check(c, obs, |c, e| {
        has(e, "no common version")
            || has(e, "health check")
            || matches!(c.steps.first(), Some(Step::Frame(Fr::HHello { versions, caps, .. }))
                if versions.len() + caps.len() + c.conf.versions.len() + c.conf.caps.len() > 3)
    })
}

fn vers() -> BoxedStrategy<Vec<(u8, u8)>> {
    prop_oneof![
        3 => vec((0u8..4, 0u8..3), 0..6),
        2 => vec(version(), 1..5),
        1 => vec(prop::sample::select(vec![(1u8, 9u8), (1, 10), (2, 0), (9, 0), (10, 0), (0, 200), (200, 0)]), 1..5),
        1 => Just(vec![(2, 0)]),
    ]
    .boxed()
}

pub fn c12_gen() -> BoxedStrategy<Conv> {
    let conf = (
        vers(),
        vec(0u8..3, 0..6),
        prop_oneof![
            2 => Just(None),
            2 => prop::sample::select(vec![256u64, 257, 16380, 16384, 16385, 65536, u32::MAX as u64]).prop_map(Some),
            1 => (256u64..100_000).prop_map(Some),
            1 => prop::sample::select(vec![1u64 << 32, (1 << 32) + 300, 1 << 40, u64::MAX >> 1, (5 << 32) + 1000]).prop_map(Some),
        ],
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(versions, caps, mfs, builder, mix)| Conf {
            versions,
            caps,
            mfs,
            mpt_ms: None,
            builder,
            mix,
            forever: false,
        });
    let hello = (
        vers().prop_map(|v| if v.is_empty() { vec![(2, 0)] } else { v }),
        prop_oneof![
            2 => prop::sample::select(vec![256u32, 257, 16380, 16383, 16384, 16385, 65535, u32::MAX, u32::MAX - 1, i32::MAX as u32]),
            1 => 256u32..100_000,
            1 => (256u32..=u32::MAX),
        ],
        vec(0u8..3, 0..6),
        prop_oneof![2 => Just(None), 1 => Just(Some(false)), 1 => Just(Some(true))],
        prop::option::of(text(40)),
    )
        .prop_map(|(versions, mfs, caps, hc, eid)| Fr::HHello { versions, mfs, caps, hc, eid });
    (conf, any::<u32>(), hello, any::<bool>(), make_ok(), habits(), 0u8..4)
        .prop_map(|(mut conf, state, mut hello, echo, make, h, share)| {
            // Mostly with something in common.
            if share > 0 {
                if let Fr::HHello { versions, .. } = &mut hello {
                    if let Some(v) = versions.get(share as usize % versions.len().max(1)) {
                        if !conf.versions.contains(v) && !(conf.builder && conf.versions.is_empty()) {
                            conf.versions.insert(conf.versions.len() / 2, *v);
                        }
                    }
                }
            }
            let mut steps = vec![Step::Frame(hello)];
            if echo {
                steps.push(Step::Frame(Fr::Notify { frag: false, sid: 1, fid: 1, msgs: vec![] }));
            }
            assemble(conf, state, steps, vec![], make, h)
        })
        .boxed()
}

/// Frame sizes below what HAProxy would ever offer.
/// The same with long lists on both sides.
fn c12_lists_gen() -> BoxedStrategy<Conv> {
    let versions = || prop_oneof![2 => vec((0u8..16, 0u8..16), 0..250), 1 => vec(any::<(u8, u8)>(), 0..250)];
    (c12_gen(), versions(), versions(), vec(0u8..3, 0..600), vec(0u8..3, 0..600), any::<bool>(), 0u8..8)
        .prop_map(|(mut c, ours, mut theirs, our_caps, mut their_caps, same, lack)| {
            if let Some(Step::Frame(Fr::HHello { versions, caps, .. })) = c.steps.first_mut() {
                if same {
                    theirs.extend(versions.iter());
                }
                if theirs.is_empty() {
                    theirs.push((2, 0));
                }
                their_caps.retain(|k| *k != lack);
                *versions = theirs;
                *caps = their_caps;
            }
            c.conf.versions.extend(ours);
            c.conf.caps = our_caps;
            c.conf.caps.retain(|k| *k != 4u8.wrapping_sub(lack));
            c.conf.mfs = c.conf.mfs.map(|n| n.max(16384));
            c
        })
        .boxed()
}

fn c12_small_gen() -> BoxedStrategy<Conv> {
    let peer = prop_oneof![2 => 0u32..256, 1 => prop::sample::select(vec![0u32, 1, 4, 127, 128, 255, 256])];
    (c12_gen(), peer, prop::option::weighted(0.3, 128u64..300))
        .prop_map(|(mut c, peer, own)| {
            if let Some(Step::Frame(Fr::HHello { mfs, .. })) = c.steps.first_mut() {
                *mfs = peer;
            }
            if own.is_some() {
                c.conf.mfs = own;
            }
            c.steps.truncate(1);
            c
        })
        .boxed()
}

fn c12_small(c: &Conv, obs: &mut Obs) -> R {
    let (e, limits) = model(c);
    obs.nontrivial_if(!has(&e, "no common version") && e.limit < 256);
    obs.label(if e.limit < 128 { "below 128" } else { "from 128" });
    let g = run(c, &limits);
    compare(c, &e, &g).or_else(|f| {
        // Not talking to such a peer at all is as good, if it says why.
        let (frames, rest) = wire::split(&g.bytes);
        match &frames[..] {
            [one] if rest.is_empty() && matches!(wire::decode(one), Ok(Fr::ADisc { code: 9, .. })) => {
                obs.label("refused");
                Ok(())
            }
            _ => Err(f),
        }
    })
}

/// Conversations with one and the same runtime.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Together {
    convs: Vec<Conv>,
    /// All at the same time instead of one after the other.
    at_once: bool,
}

fn together(c: &Together, obs: &mut Obs) -> R {
    let first = &c.convs[0];
    let sh = Arc::new(Shared {
        log: Mutex::new(vec![]),
        calls: first.calls.clone(),
        make: first.make.clone(),
        mpt_ms: first.conf.mpt(),
    });
    let models: Vec<_> = c.convs.iter().map(model).collect();
    obs.nontrivial_if(models.iter().filter(|(e, _)| !e.replies.is_empty()).count() > 1);
    obs.label(if c.at_once { "at the same time" } else { "one after the other" });
    let eids: Vec<_> = c
        .convs
        .iter()
        .filter_map(|c| match c.steps.first() {
            Some(Step::Frame(Fr::HHello { eid, .. })) => eid.clone(),
            _ => None,
        })
        .collect();
    obs.label_if(eids.iter().enumerate().any(|(i, k)| eids[..i].contains(k)), "same engine id");
    crate::io::block_on(async {
        let rt = runtime(&first.conf, sh.clone(), first.state);
        if !c.at_once {
            for (i, (v, (e, limits))) in c.convs.iter().zip(&models).enumerate() {
                let (start, made) = {
                    let log = sh.log.lock().unwrap();
                    (log.len(), log.iter().filter(|e| matches!(e, Ev::Make { .. })).count() as u32)
                };
                let mut g = run_on(rt.clone(), sh.clone(), v, limits).await;
                g.log.drain(..start);
                for e in &mut g.log {
                    if let Ev::Call { svc, .. } | Ev::Made { svc } = e {
                        *svc = svc.wrapping_sub(made);
                    }
                }
                compare(v, e, &g).map_err(|f| Fail { msg: format!("conversation {i}: {}", f.msg), ..f })?;
            }
            return Ok(());
        }
        let all = c.convs.iter().zip(&models).map(|(v, (_, limits))| run_on(rt.clone(), sh.clone(), v, limits));
        let all = futures::future::join_all(all).await;
        let log = sh.log.lock().unwrap().clone();
        for (i, ((v, (e, _)), mut g)) in c.convs.iter().zip(&models).zip(all).enumerate() {
            // Whose calls these are is looked at below.
            g.log = vec![Ev::Make { state: first.state }; e.makes];
            g.log.extend(e.calls.iter().map(|m| Ev::Call { svc: 1, msgs: m.clone() }));
            compare(v, e, &g).map_err(|f| Fail { msg: format!("conversation {i}: {}", f.msg), ..f })?;
        }
        for e in &log {
            match e {
                Ev::Unready(what) => return Err(format!("the {what} was called without having reported ready").into()),
                Ev::Make { state } => ensure!(*state == first.state, "a service was made with state {state}"),
                _ => {}
            }
        }
        if models.iter().any(|(e, _)| e.open) {
            return Ok(());
        }
        let makes = log.iter().filter(|e| matches!(e, Ev::Make { .. })).count();
        let due: usize = models.iter().map(|(e, _)| e.makes).sum();
        ensure!(makes == due, "{makes} services made instead of {due}");
        let mut seen: std::collections::BTreeMap<u32, Vec<Vec<Msg>>> = Default::default();
        for e in log {
            if let Ev::Call { svc, msgs } = e {
                seen.entry(svc).or_default().push(msgs);
            }
        }
        let mut due: Vec<_> = models.iter().filter(|(e, _)| !e.calls.is_empty()).map(|(e, _)| e.calls.clone()).collect();
        for (svc, calls) in seen {
            let at = due.iter().position(|d| *d == calls);
            ensure!(at.is_some(), "service {svc} was called with {}, as no conversation has it", short(&calls));
            due.remove(at.unwrap());
        }
        ensure!(due.is_empty(), "calls missing: {}", short(&due));
        Ok(())
    })
}

fn together_gen(one: BoxedStrategy<Conv>) -> BoxedStrategy<Together> {
    (vec(one, 2..6), vec(prop_oneof![3 => Just(None), 2 => Just(Some("one")), 1 => Just(Some("two"))], 6), any::<bool>())
        .prop_map(|(mut convs, ids, at_once)| {
            let first = convs[0].clone();
            for (v, id) in convs.iter_mut().zip(ids) {
                v.conf = first.conf.clone();
                v.make = first.make.clone();
                v.calls = first.calls.clone();
                v.state = first.state;
                if let (Some(id), Some(Step::Frame(Fr::HHello { eid, .. }))) = (id, v.steps.first_mut()) {
                    *eid = Some(id.into());
                }
                if at_once {
                    // No waiting for one another.
                    v.make.delay = 0;
                    if let Ready::Later(_) = v.make.ready {
                        v.make.ready = Ready::Polls(2);
                    }
                }
            }
            Together { convs, at_once }
        })
        .boxed()
}

fn c12_together_gen() -> BoxedStrategy<Together> {
    together_gen(c12_gen())
}

fn c18_together_gen() -> BoxedStrategy<Together> {
    together_gen(prop_oneof![2 => c13_gen(), 1 => c14_gen(), 1 => c16_gen()].boxed())
}

/// Conversations of that property with one runtime.
pub fn successive(strategy: fn() -> BoxedStrategy<Together>) -> Box<dyn LegDyn> {
    Box::new(Leg {
        name: "successive",
        quick: 2_000,
        thorough: 60_000,
        threads: 8,
        rule: "two to five conversations with one runtime, one after the other or at the same time; non-trivial: at least two with a reply",
        strategy,
        check: together,
    })
}
pub fn c13_together() -> BoxedStrategy<Together> {
    together_gen(c13_gen())
}
pub fn c14_together() -> BoxedStrategy<Together> {
    together_gen(c14_gen())
}
pub fn c16_together() -> BoxedStrategy<Together> {
    together_gen(c16_gen())
}

/// For C18.
pub fn c18_memory() -> Box<dyn LegDyn> {
    Box::new(Leg {
        name: "conversations",
        quick: 3_000,
        thorough: 100_000,
        threads: 8,
        rule: "two to five conversations of C13, C14 and C16 with one runtime, one after the other or at the same time; non-trivial: at least two with a reply",
        strategy: c18_together_gen,
        check: together,
    })
}

pub fn c12() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "handshake",
            quick: 40_000,
            thorough: 1_200_000,
            threads: 8,
            rule: "a refusal, a health check, or more than three versions and capabilities in play",
            strategy: c12_gen,
            check: c12_check,
        }),
        Box::new(Leg {
            name: "lists",
            quick: 4_000,
            thorough: 120_000,
            threads: 8,
            rule: "the handshake completed or was refused for want of a version",
            strategy: c12_lists_gen,
            check: |c, obs| {
                if let Some(Step::Frame(Fr::HHello { versions, caps, .. })) = c.steps.first() {
                    obs.label_if(versions.len() > 100, "more than 100 versions");
                    obs.label_if(caps.len() > 100, "more than 100 capabilities");
                }
                c12_check(c, obs)
            },
        }),
        Box::new(Leg {
            name: "successive",
            quick: 6_000,
            thorough: 200_000,
            threads: 8,
            rule: "two to five handshakes with one runtime, one after the other or at the same time; non-trivial: at least two with a reply",
            strategy: c12_together_gen,
            check: together,
        }),
        Box::new(Leg {
            name: "small",
            quick: 8_000,
            thorough: 200_000,
            threads: 8,
            rule: "hellos of peers with frame sizes of less than 256 bytes, agents with small ones of their own; non-trivial: a common version and less than 256 bytes agreed",
            strategy: c12_small_gen,
            check: c12_small,
        }),
    ]
}

// ------------------------------------------------------------------ C13

pub fn c13_gen() -> BoxedStrategy<Conv> {
    (
        conf(),
        any::<u32>(),
        hello(caps_list()),
        prop_oneof![4 => vec(notify(40), 1..12), 1 => vec(notify(60), 12..40), 1 => vec(notify(0), 1..20)],
        vec(plan_ok(), 0..6),
        make_ok(),
        habits(),
    )
        .prop_map(|(conf, state, hello, notifies, calls, make, h)| {
            let mut steps = vec![Step::Frame(hello)];
            let frag = match &steps[0] {
                Step::Frame(Fr::HHello { caps, .. }) => caps.contains(&0) && conf.caps.contains(&0),
                _ => false,
            };
            steps.extend(notifies.into_iter().map(|s| match s {
                // Without the capability there are only whole notifications.
                Step::Frame(Fr::Notify { sid, fid, msgs, .. }) if !frag => {
                    Step::Frame(Fr::Notify { frag: false, sid, fid, msgs })
                }
                s => s,
            }));
            assemble(conf, state, steps, calls, make, h)
        })
        .boxed()
}

fn c13_check(c: &Conv, obs: &mut Obs) -> R {
    let ids: Vec<(u64, u64)> = c
        .steps
        .iter()
        .filter_map(|s| match s {
            Step::Frame(Fr::Notify { frag: false, sid, fid, .. }) => Some((*sid, *fid)),
            _ => None,
        })
        .collect();
    obs.label_if(ids.iter().enumerate().any(|(i, k)| ids[..i].contains(k)), "ids reused");
    let (e, _) = model(c);
    obs.label_if(e.calls.len() > 10, ">10 notifications");
    run_check(c, obs, |_, e| e.calls.len() > 1 || has(e, "fragment"))
}

/// A long conversation: the notifications repeat a pattern.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    conf: Conf,
    hello: Fr,
    /// Notifications in all.
    n: u16,
    /// Messages, used in turn.
    msgs: Vec<Vec<Msg>>,
    calls: Vec<Plan>,
    /// The ids go round after that many.
    streams: u16,
    frames: u16,
    /// Every notification comes in that many fragments, ...
    parts: u8,
    /// ... all of them one fragment after the other, that many at a time.
    abreast: u16,
    mode: Mode,
    pipe: u32,
    end: End,
}

fn long_conv(c: &Long) -> Conv {
    let frag = match &c.hello {
        Fr::HHello { caps, .. } => caps.contains(&0) && c.conf.caps.contains(&0),
        _ => false,
    };
    let parts = if frag { c.parts.max(1) } else { 1 };
    let mut steps = vec![Step::Frame(c.hello.clone())];
    let mut k = 0usize;
    let id = |i: u16| (u64::from(i % c.streams.max(1)), u64::from(i % c.frames.max(1)) + 1);
    let all: Vec<u16> = (0..c.n).collect();
    for group in all.chunks(c.abreast.max(1) as usize) {
        for part in 0..parts {
            for i in group {
                let (sid, fid) = id(*i);
                let msgs = c.msgs.get(k % c.msgs.len().max(1)).cloned().unwrap_or_default();
                k += 1;
                steps.push(Step::Frame(Fr::Notify { frag: part + 1 < parts, sid, fid, msgs }));
            }
        }
    }
    let calls = (0..steps.len()).filter_map(|i| c.calls.get(i % c.calls.len().max(1)).cloned()).collect();
    let h = Habits {
        pace: 0,
        mode: c.mode.clone(),
        end: c.end.clone(),
        pipe: c.pipe,
        chunks: vec![],
        read_steps: vec![],
        write_steps: vec![],
        hold: false,
    };
    assemble(c.conf.clone(), 3, steps, calls, MakePlan { ready: Ready::Now, delay: 0, fail: None }, h)
}

fn c13_long(c: &Long, obs: &mut Obs) -> R {
    let conv = long_conv(c);
    let (e, _) = model(&conv);
    obs.label_if(e.calls.len() > 1000, "more than 1000 notifications answered");
    obs.label_if(c.parts > 1 && c.abreast > 100 && has(&e, "fragment"), "more than 100 fragmented at a time");
    obs.nontrivial_if(e.calls.len() > 50);
    check(&conv, obs)
}

fn c13_long_gen() -> BoxedStrategy<Long> {
    (
        (conf(), hello(caps_list())),
        prop_oneof![1 => 1u16..300, 3 => 300u16..3000],
        vec(prop_oneof![3 => vec(msg_sized(12, 2), 0..3), 1 => Just(vec![])], 1..5),
        vec(plan_ok(), 0..5),
        prop_oneof![1 => Just((1u16, u16::MAX)), 1 => Just((u16::MAX, 1)), 1 => Just((u16::MAX, u16::MAX)), 2 => (1u16..300, 1u16..300)],
        prop_oneof![3 => Just(1u8), 2 => 2u8..4, 1 => 4u8..30],
        prop_oneof![1 => Just(1u16), 1 => 2u16..2000],
        prop_oneof![1 => Just(Mode::LockStep), 4 => Just(Mode::Pipelined), 1 => Just(Mode::LateReader)],
        prop_oneof![3 => Just(65_536u32), 1 => 100u32..3000],
        prop_oneof![Just(End::Open), Just(End::Eof)],
    )
        .prop_map(|((conf, hello), n, msgs, calls, (streams, frames), parts, abreast, mode, pipe, end)| {
            let n = (u32::from(n) / u32::from(parts)).max(1) as u16;
            Long { conf, hello, n, msgs, calls, streams, frames, parts, abreast, mode, pipe, end }
        })
        .boxed()
}

/// Notifications of very many messages and fragments, replies of very many actions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BulkConv {
    /// Stream and frame, fragments, messages in each, actions of the reply.
    notes: Vec<(u64, u64, u16, u16, u16)>,
    msg: Msg,
    act: Act,
    mode: Mode,
    pipe: u32,
}

fn c13_bulk(c: &BulkConv, obs: &mut Obs) -> R {
    let caps = vec![0];
    let mfs = 4u32 << 20;
    let mut steps = vec![Step::Frame(Fr::HHello { versions: vec![(2, 0)], mfs, caps: caps.clone(), hc: None, eid: None })];
    let mut calls = vec![];
    let mut serial = 0;
    for (sid, fid, parts, msgs, acts) in &c.notes {
        let parts = (*parts).max(1);
        for i in 0..parts {
            let msgs = (0..*msgs)
                .map(|_| {
                    serial += 1;
                    let mut m = c.msg.clone();
                    m.args.push(("#".into(), Val::U32(serial)));
                    m
                })
                .collect();
            steps.push(Step::Frame(Fr::Notify { frag: i + 1 < parts, sid: *sid, fid: *fid, msgs }));
        }
        let acts =
            (0..*acts).map(|i| if i % 5 == 4 { c.act.clone() } else { Act::Set(i as u8 % 5, "n".into(), Val::U32(i.into())) });
        calls.push(Plan { ready: Ready::Now, delay: 0, out: Out::Acts(acts.collect()) });
    }
    let most = |f: fn(&(u64, u64, u16, u16, u16)) -> u32| c.notes.iter().map(f).max().unwrap_or(0);
    obs.nontrivial = true;
    obs.label_if(most(|n| n.3.into()) > 1000, "more than 1000 messages in a frame");
    obs.label_if(most(|n| n.2.into()) > 1000, "more than 1000 fragments");
    obs.label_if(most(|n| n.4.into()) > 1000, "more than 1000 actions");
    let h = Habits {
        pace: 0,
        mode: c.mode.clone(),
        end: End::Eof,
        pipe: c.pipe,
        chunks: vec![],
        read_steps: vec![],
        write_steps: vec![],
        hold: false,
    };
    let conf = Conf { versions: vec![], caps, mfs: Some(mfs.into()), mpt_ms: None, builder: true, mix: 0, forever: false };
    check(&assemble(conf, 3, steps, calls, MakePlan { ready: Ready::Now, delay: 0, fail: None }, h), obs)
}

fn c13_bulk_gen() -> BoxedStrategy<BulkConv> {
    let note = prop_oneof![
        2 => (0u16..3, 0u16..4000, 0u16..4),
        2 => (0u16..3, 0u16..4, 0u16..8000),
        2 => (0u16..3000, 0u16..3, 0u16..4),
        1 => (0u16..100, 0u16..100, 0u16..300),
        1 => (prop::sample::select(vec![255u16, 256, 1024]), Just(1u16), prop::sample::select(vec![255u16, 256, 257, 1024, 1025])),
    ];
    (
        vec((0u64..3, 1u64..3, note).prop_map(|(s, f, (a, b, c))| (s, f, a, b, c)), 1..4),
        msg_sized(12, 2),
        act(12),
        prop_oneof![1 => Just(Mode::LockStep), 3 => Just(Mode::Pipelined), 1 => Just(Mode::LateReader)],
        prop_oneof![3 => Just(65_536u32), 1 => 1000u32..5000],
    )
        .prop_map(|(notes, msg, act, mode, pipe)| BulkConv { notes, msg, act, mode, pipe })
        .boxed()
}

/// More notifications than fit in sixteen bits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Marathon {
    n: u32,
    /// Every so many is the beginning of one completed after so many more.
    open: (u8, u8),
    streams: u64,
}

fn c13_marathon(c: &Marathon, obs: &mut Obs) -> R {
    obs.nontrivial_if(c.n > 1 << 16);
    let sh = Arc::new(Shared {
        log: Mutex::new(vec![]),
        calls: vec![],
        make: MakePlan { ready: Ready::Now, delay: 0, fail: None },
        mpt_ms: 1000,
    });
    let conf = Conf { versions: vec![], caps: vec![0], mfs: None, mpt_ms: Some(1000), builder: true, mix: 0, forever: false };
    crate::io::block_on(async {
        let rt = runtime(&conf, sh.clone(), 1);
        let (peer, io) = tokio::io::duplex(1 << 16);
        let mut conn = Connection::new(rt, io, CancellationToken::new());
        let task = tokio::spawn(async move { conn.serve().await.map_err(|e| e.to_string()) });
        let (mut rd, mut wr) = tokio::io::split(peer);
        let (n, open, streams) = (c.n, c.open, c.streams.max(1));
        let period = u32::from(open.0).max(2);
        // What is sent, and what is answered with how many messages.
        let mut due: Vec<(u64, u64, u32)> = vec![];
        let mut frames: Vec<Fr> = vec![];
        let mut left: std::collections::VecDeque<(u32, u64, u64)> = Default::default();
        for i in 0..n {
            let (sid, fid) = (u64::from(i) % streams, u64::from(i) / streams + 1);
            let m = |k: &str| vec![Msg { name: k.into(), args: vec![("n".into(), Val::U32(i))] }];
            if i % period == 1 && i + 300 < n {
                frames.push(Fr::Notify { frag: true, sid, fid, msgs: m("first") });
                left.push_back((i + u32::from(open.1) + 1, sid, fid));
            } else {
                frames.push(Fr::Notify { frag: false, sid, fid, msgs: m("only") });
                due.push((sid, fid, 1));
            }
            while left.front().is_some_and(|l| l.0 <= i) {
                let (_, sid, fid) = left.pop_front().unwrap();
                frames.push(Fr::Notify { frag: false, sid, fid, msgs: m("last") });
                due.push((sid, fid, 2));
            }
        }
        for (_, sid, fid) in left {
            frames.push(Fr::Notify { frag: false, sid, fid, msgs: vec![] });
            due.push((sid, fid, 1));
        }
        let send = tokio::spawn(async move {
            let hello = Fr::HHello { versions: vec![(2, 0)], mfs: 16384, caps: vec![0], hc: None, eid: None };
            wr.write_all(&wire::encode_prefixed(&hello)).await?;
            for some in frames.chunks(100) {
                let b: Vec<u8> = some.iter().flat_map(wire::encode_prefixed).collect();
                wr.write_all(&b).await?;
            }
            wr.shutdown().await
        });
        let mut got = vec![];
        rd.read_to_end(&mut got).await.map_err(|e| e.to_string())?;
        let (fs, rest) = wire::split(&got);
        let _ = send.await;
        let served = task.await;
        ensure!(
            fs.len() == due.len() + 1 && rest.is_empty(),
            "{} replies to {} notifications ({served:?})",
            fs.len().max(1) - 1,
            due.len()
        );
        for (i, (f, (sid, fid, _))) in fs[1..].iter().zip(&due).enumerate() {
            match wire::decode(f) {
                Ok(Fr::Ack { frag: false, abort: false, sid: s, fid: f, .. }) if (s, f) == (*sid, *fid) => {}
                f => return Err(format!("reply {i} is {} instead of the one to {sid}, {fid}", short(&f)).into()),
            }
        }
        let log = sh.log.lock().unwrap();
        let calls: Vec<usize> =
            log.iter().filter_map(|e| if let Ev::Call { msgs, .. } = e { Some(msgs.len()) } else { None }).collect();
        ensure!(calls.len() == due.len(), "{} calls for {} notifications", calls.len(), due.len());
        for (i, (n, d)) in calls.iter().zip(&due).enumerate() {
            ensure!(*n == d.2 as usize, "call {i} got {n} messages instead of {}", d.2);
        }
        Ok(())
    })
}

fn c13_marathon_gen() -> BoxedStrategy<Marathon> {
    (66_000u32..70_000, (2u8..=255, any::<u8>()), prop_oneof![Just(1u64), Just(7), Just(u64::MAX)])
        .prop_map(|(n, open, streams)| Marathon { n, open, streams })
        .boxed()
}

/// A notification continued in UNSET frames, as the SPOP specification has it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unset {
    sid: u64,
    fid: u64,
    parts: Vec<Vec<Msg>>,
    before: u8,
}

fn c13_unset(c: &Unset, obs: &mut Obs) -> R {
    obs.nontrivial = true;
    obs.label_if(c.parts.len() > 2, "several continuations");
    let hello = Fr::HHello { versions: vec![(2, 0)], mfs: 16384, caps: vec![0], hc: None, eid: None };
    let mut steps = vec![Step::Frame(hello)];
    for i in 0..c.before {
        steps.push(Step::Frame(Fr::Notify { frag: false, sid: 77, fid: u64::from(i) + 1, msgs: vec![] }));
    }
    for (i, part) in c.parts.iter().enumerate() {
        let last = i + 1 == c.parts.len();
        let mut p = wire::head(if i == 0 { 3 } else { 0 }, if last { wire::FIN } else { 0 }, c.sid, c.fid);
        for m in part {
            wire::put_msg(&mut p, m);
        }
        steps.push(Step::Payload(Hex(p), vec![4]));
    }
    let mut conv = assemble(
        Conf { versions: vec![(2, 0)], caps: vec![0], mfs: None, mpt_ms: None, builder: true, mix: 0, forever: false },
        1,
        steps,
        vec![],
        MakePlan { ready: Ready::Now, delay: 0, fail: None },
        Habits {
            pace: 0,
            mode: Mode::LockStep,
            end: End::Open,
            pipe: 1 << 16,
            chunks: vec![],
            read_steps: vec![],
            write_steps: vec![],
            hold: false,
        },
    );
    let g = run(&conv, &vec![16384; conv.steps.len()]);
    // Either reassembled ...
    let whole: Vec<Msg> = c.parts.concat();
    let keep = 1 + c.before as usize;
    conv.steps.truncate(keep);
    let (mut done, _) = model(&conv);
    let n = done.calls.len();
    done.replies.push(Rep::Ack { sid: c.sid, fid: c.fid, acts: echo(n, &whole) });
    done.calls.push(whole);
    conv.mode = Mode::Pipelined;
    if compare(&conv, &done, &g).is_ok() {
        obs.label("reassembled");
        return Ok(());
    }
    // ... or refused without harm, which is a known gap.
    let (mut refused, _) = model(&conv);
    refused.replies.push(Rep::Disc { status: vec![4], text: None });
    refused.closed = true;
    compare(&conv, &refused, &g)?;
    Err(Fail {
        msg: "the UNSET frame that continues a fragmented NOTIFY is refused as invalid".into(),
        sig: Some("unset-continuation-refused".into()),
    })
}

fn c13_unset_gen() -> BoxedStrategy<Unset> {
    (any::<u64>(), nonzero(), vec(vec(msg_sized(12, 2), 0..3), 2..5), 0u8..3)
        .prop_map(|(sid, fid, parts, before)| Unset { sid, fid, parts, before })
        .boxed()
}

pub fn c13() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "conversations",
            quick: 25_000,
            thorough: 700_000,
            threads: 8,
            rule: "at least two notifications were answered or one was fragmented",
            strategy: c13_gen,
            check: c13_check,
        }),
        Box::new(Leg {
            name: "long",
            quick: 1_000,
            thorough: 30_000,
            threads: 8,
            rule: "more than 50 notifications were answered",
            strategy: c13_long_gen,
            check: c13_long,
        }),
        Box::new(Leg {
            name: "bulk",
            quick: 400,
            thorough: 12_000,
            threads: 8,
            rule: "every case: thousands of messages, fragments or actions",
            strategy: c13_bulk_gen,
            check: c13_bulk,
        }),
        Box::new(Leg {
            name: "marathon",
            quick: 8,
            thorough: 200,
            threads: 8,
            rule: "more than 65536 notifications on one connection",
            strategy: c13_marathon_gen,
            check: c13_marathon,
        }),
        Box::new(Leg {
            name: "unset-continuation",
            quick: 400,
            thorough: 5_000,
            threads: 8,
            rule: "a fragmented notification continued by UNSET frames",
            strategy: c13_unset_gen,
            check: c13_unset,
        }),
    ]
}

// ------------------------------------------------------------------ C14

pub fn c14_gen() -> BoxedStrategy<Conv> {
    let bad = prop_oneof![
        2 => (101u16..400).prop_map(|d| if d < 106 { 106 } else { d }).prop_map(|delay| Plan { ready: Ready::Now, delay, out: Out::Echo }),
        1 => Just(Plan { ready: Ready::Now, delay: 0, out: Out::Never }),
        // Gets ready too late, or takes too long together with that.
        1 => (prop_oneof![106u16..400, Just(20_000u16)], 0u16..50).prop_map(|(w, delay)| Plan { ready: Ready::Later(w), delay, out: Out::Echo }),
        1 => (56u16..95, 50u16..95).prop_map(|(w, delay)| Plan { ready: Ready::Later(w), delay, out: Out::Echo }),
        2 => (prop_oneof![2 => text(60), 1 => text(600)], prop_oneof![2 => Just(0u16), 1 => 1u16..90])
            .prop_map(|(t, delay)| Plan { ready: Ready::Now, delay, out: Out::Fail(t) }),
        1 => (0usize..20_000, prop::sample::select(vec!["x", "\u{e9}"]))
            .prop_map(|(n, s)| Plan { ready: Ready::Now, delay: 0, out: Out::Fail(s.repeat(n)) }),
    ];
    let slow = (51u16..95, 0u8..3).prop_map(|(delay, p)| Plan {
        ready: if p == 0 { Ready::Polls(2) } else { Ready::Now },
        delay,
        out: Out::Echo,
    });
    (
        conf(),
        hello(caps_list()),
        vec(notify(20), 1..9),
        vec(prop_oneof![2 => plan_ok(), 1 => slow], 0..6),
        prop::option::weighted(0.8, bad),
        make_ok(),
        habits(),
    )
        .prop_map(|(conf, hello, notifies, mut calls, bad, make, h)| {
            let frag = match &hello {
                Fr::HHello { caps, .. } => caps.contains(&0) && conf.caps.contains(&0),
                _ => false,
            };
            let mut steps = vec![Step::Frame(hello)];
            steps.extend(notifies.into_iter().map(|s| match s {
                Step::Frame(Fr::Notify { sid, fid, msgs, .. }) if !frag => {
                    Step::Frame(Fr::Notify { frag: false, sid, fid, msgs })
                }
                s => s,
            }));
            calls.extend(bad);
            assemble(conf, 9, steps, calls, make, h)
        })
        .boxed()
}

pub fn c14() -> Vec<Box<dyn LegDyn>> {
    vec![Box::new(Leg {
        name: "failures-and-overruns",
        quick: 25_000,
        thorough: 700_000,
        threads: 8,
        rule: "a call overran, failed or took measurable time",
        strategy: c14_gen,
        check: |c, obs| {
            let (e, _) = model(c);
            obs.label_if(e.calls.len() > 1 && e.closed && c.end == End::Open, "failure after acknowledged calls");
            run_check(c, obs, |_, e| has(e, "overrun") || has(e, "service fails") || has(e, "slow call"))
        },
    })]
}

// ------------------------------------------------------------------ C15

pub fn c15_gen() -> BoxedStrategy<Conv> {
    let plan = (
        prop_oneof![
            2 => Just(Ready::Now),
            3 => (1u8..6).prop_map(Ready::Polls),
            3 => (1u16..45).prop_map(Ready::Later),
        ],
        prop_oneof![2 => Just(0u16), 1 => 1u16..50],
    )
        .prop_map(|(ready, delay)| Plan { ready, delay, out: Out::Echo });
    let make = (
        prop_oneof![
            3 => Just(Ready::Now),
            3 => (1u8..6).prop_map(Ready::Polls),
            3 => (1u16..500).prop_map(Ready::Later),
            1 => text(40).prop_map(Ready::Fail),
        ],
        prop_oneof![2 => Just(0u16), 1 => 1u16..300],
        prop::option::weighted(0.15, text(40)),
    )
        .prop_map(|(ready, delay, fail)| MakePlan { ready, delay, fail });
    (
        conf(),
        any::<u32>(),
        (hello(caps_list()), 0u8..20, malformed()),
        vec(notify(0), 0..8),
        vec(plan, 0..6),
        prop::option::weighted(0.3, text(40)),
        make,
        habits(),
    )
        .prop_map(|(conf, state, (mut hello, kind, bad), notifies, mut calls, fail, make, h)| {
            if let Fr::HHello { hc, versions, .. } = &mut hello {
                match kind {
                    0 | 1 => *hc = Some(true),
                    2 | 3 => *versions = vec![(1, 9), (3, 0)],
                    _ => {}
                }
            }
            if let Some(t) = fail {
                calls.push(Plan { ready: Ready::Fail(t), delay: 0, out: Out::Echo });
            }
            let mut steps = match kind {
                4 => vec![bad],
                5 => vec![],
                _ => vec![Step::Frame(hello)],
            };
            steps.extend(notifies);
            assemble(conf, state, steps, calls, make, h)
        })
        .boxed()
}

/// Several connections sharing one runtime.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SharedRt {
    state: u32,
    /// Per connection: a normal hello, a health check, or no version in common.
    conns: Vec<u8>,
    /// Which connection sends its next notification.
    schedule: Vec<u8>,
    make: MakePlan,
    calls: Vec<Plan>,
    wait: bool,
}

fn c15_shared(c: &SharedRt, obs: &mut Obs) -> R {
    obs.nontrivial_if(c.conns.iter().filter(|h| **h == 0).count() > 1 && c.schedule.len() > 2);
    crate::io::block_on(async {
        let sh = Arc::new(Shared { log: Mutex::new(vec![]), calls: c.calls.clone(), make: c.make.clone(), mpt_ms: 1000 });
        let conf = Conf { versions: vec![], caps: vec![], mfs: None, mpt_ms: Some(1000), builder: true, mix: 0, forever: false };
        let rt = runtime(&conf, sh.clone(), c.state);
        let mut peers = vec![];
        for kind in &c.conns {
            let (mut peer, io) = tokio::io::duplex(1 << 20);
            let mut conn = Connection::new(rt.clone(), io, CancellationToken::new());
            let task = tokio::spawn(async move { conn.serve().await });
            let versions = vec![if *kind == 2 { (1, 0) } else { (2, 0) }];
            let hello = Fr::HHello { versions, mfs: 9000, caps: vec![], hc: (*kind == 1).then_some(true), eid: None };
            peer.write_all(&wire::encode_prefixed(&hello)).await.unwrap();
            peers.push((peer, task, 0u64));
        }
        let quiet = Duration::from_secs(600);
        if c.wait {
            tokio::time::sleep(quiet).await;
        }
        for s in &c.schedule {
            let i = *s as usize % peers.len();
            let (peer, _, n) = &mut peers[i];
            let m = Msg { name: format!("c{i}"), args: vec![("n".into(), Val::U64(*n))] };
            let f = Fr::Notify { frag: false, sid: 1, fid: *n + 1, msgs: vec![m] };
            if peer.write_all(&wire::encode_prefixed(&f)).await.is_err() {
                ensure!(c.conns[i] != 0, "connection {i} was closed without cause");
                continue;
            }
            *n += 1;
            if c.wait {
                tokio::time::sleep(quiet).await;
            }
        }
        tokio::time::sleep(quiet * (c.schedule.len() as u32 + 8)).await;
        let normal = c.conns.iter().filter(|h| **h == 0).count();
        let log = sh.log.lock().unwrap().clone();
        let makes: Vec<_> = log.iter().filter_map(|e| if let Ev::Make { state } = e { Some(*state) } else { None }).collect();
        ensure!(
            makes == vec![c.state; normal],
            "services made with {makes:?} for {normal} normal connections (state {})",
            c.state
        );
        ensure!(!log.iter().any(|e| matches!(e, Ev::Unready(_))), "called without having reported ready");
        let mut of_svc: std::collections::BTreeMap<u32, Vec<(String, u64)>> = Default::default();
        for e in &log {
            if let Ev::Call { svc, msgs } = e {
                let m = msgs.first().ok_or("a call without its message")?;
                let Some((_, Val::U64(n))) = m.args.first() else {
                    return Err("a call without its number".into());
                };
                of_svc.entry(*svc).or_default().push((m.name.clone(), *n));
            }
        }
        let mut expect: Vec<Vec<(String, u64)>> = peers
            .iter()
            .enumerate()
            .filter(|(i, p)| c.conns[*i] == 0 && p.2 > 0)
            .map(|(i, p)| (0..p.2).map(|n| (format!("c{i}"), n)).collect())
            .collect();
        let mut seen: Vec<_> = of_svc.into_values().collect();
        seen.sort();
        expect.sort();
        ensure!(seen == expect, "calls per service {} instead of {}", short(&seen), short(&expect));
        for (i, (mut peer, task, n)) in peers.into_iter().enumerate() {
            let mut b = vec![];
            let _ = peer.shutdown().await;
            peer.read_to_end(&mut b).await.map_err(|e| Fail::from(format!("connection {i}: {e}")))?;
            let (frames, _) = wire::split(&b);
            let want = 1 + if c.conns[i] == 0 { n as usize } else { 0 };
            ensure!(frames.len() == want, "connection {i} got {} frames instead of {want}", frames.len());
            let _ = task.await;
        }
        Ok(())
    })
}

fn c15_shared_gen() -> BoxedStrategy<SharedRt> {
    (
        any::<u32>(),
        vec(prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)], 1..6),
        vec(any::<u8>(), 0..20),
        make_ok(),
        vec(
            (
                prop_oneof![2 => Just(Ready::Now), 1 => (1u8..4).prop_map(Ready::Polls), 1 => (1u16..45).prop_map(Ready::Later)],
                prop_oneof![2 => Just(0u16), 1 => 1u16..50],
            )
                .prop_map(|(ready, delay)| Plan { ready, delay, out: Out::Echo }),
            0..4,
        ),
        any::<bool>(),
    )
        .prop_map(|(state, conns, schedule, make, calls, wait)| SharedRt { state, conns, schedule, make, calls, wait })
        .boxed()
}

fn c15_many_gen() -> BoxedStrategy<SharedRt> {
    (
        c15_shared_gen(),
        vec(prop_oneof![20 => Just(0u8), 1 => Just(1), 1 => Just(2)], 1..50),
        200u32..2500,
        vec(any::<u8>(), 0..60),
    )
        .prop_map(|(mut c, kinds, n, schedule)| {
            c.conns = kinds.iter().cycle().take(n as usize).copied().collect();
            c.schedule = schedule;
            c.wait = false;
            c
        })
        .boxed()
}

pub fn c15() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "readiness",
            quick: 25_000,
            thorough: 700_000,
            threads: 8,
            rule: "the maker or a service was not ready at once, or failed",
            strategy: c15_gen,
            check: |c, obs| {
                obs.label_if(c.make.ready != Ready::Now, "maker not ready at once");
                run_check(c, obs, |c, e| {
                    c.make.ready != Ready::Now
                        || c.make.fail.is_some()
                        || has(e, "service not ready")
                        || c.calls.iter().take(e.calls.len()).any(|p| p.ready != Ready::Now)
                })
            },
        }),
        Box::new(Leg {
            name: "many-connections",
            quick: 40,
            thorough: 1_500,
            threads: 8,
            rule: "at least two normal connections and three notifications",
            strategy: c15_many_gen,
            check: c15_shared,
        }),
        Box::new(Leg {
            name: "shared-runtime",
            quick: 6_000,
            thorough: 200_000,
            threads: 8,
            rule: "at least two normal connections and three notifications",
            strategy: c15_shared_gen,
            check: c15_shared,
        }),
    ]
}

// ------------------------------------------------------------------ C16

fn without(key: &'static str, status: u32) -> BoxedStrategy<Step> {
    hhello(20)
        .prop_map(move |f| {
            let (ty, kv) = wire::items(&f).unwrap();
            let mut o = wire::head(ty, wire::FIN, 0, 0);
            for (k, v) in kv.iter().filter(|(k, _)| k != key) {
                wire::put_str(&mut o, k);
                wire::put_val(&mut o, v);
            }
            Step::Payload(Hex(o), vec![status])
        })
        .boxed()
}

/// A frame that is not one, by one specific fault.
pub fn malformed() -> BoxedStrategy<Step> {
    let a1 = ANY_REFUSAL.to_vec();
    let a2 = a1.clone();
    let a3 = a1.clone();
    prop_oneof![
        1 => Just(Step::Payload(Hex(vec![]), vec![4])),
        1 => (prop::sample::select(vec![4u8, 5, 99, 100, 104, 255]), num(), num()).prop_map(|(t, s, f)| Step::Payload(Hex(wire::head(t, 1, s, f)), vec![4])),
        // Cut short inside its payload.
        3 => (frame(40), any::<prop::sample::Index>()).prop_map(move |(f, i)| {
            let b = wire::encode(&f);
            let n = i.index(b.len());
            Step::Payload(Hex(b[..n].to_vec()), a1.clone())
        }),
        // Trailing bytes.
        2 => (frame(20), vec(any::<u8>(), 1..4)).prop_map(move |(f, t)| {
            let mut b = wire::encode(&f);
            b.extend(t);
            Step::Payload(Hex(b), a2.clone())
        }),
        // A notify with an id of zero.
        1 => (num(), small_msgs()).prop_map(|(sid, msgs)| Step::Frame(Fr::Notify { frag: false, sid, fid: 0, msgs })),
        // A byte changed.
        2 => (frame(20), any::<prop::sample::Index>(), any::<u8>()).prop_map(move |(f, i, x)| {
            let mut b = wire::encode(&f);
            let n = i.index(b.len());
            b[n] ^= x.max(1);
            Step::Payload(Hex(b), a3.clone())
        }),
        // Invalid text.
        1 => (1u64..9, any::<u8>()).prop_map(|(id, c)| {
            let mut b = wire::head(3, 1, id, id);
            b.extend_from_slice(&[2, c, 0xff, 0]);
            Step::Payload(Hex(b), vec![4])
        }),
        1 => bad_item(),
        1 => garbage(),
    ]
    .boxed()
}

/// An item of a hello or a disconnect that has a value it cannot have.
fn bad_item() -> BoxedStrategy<Step> {
    let number = prop_oneof![
        (u64::from(u32::MAX) + 1..=u64::MAX).prop_map(Val::U64),
        (i64::MIN..0).prop_map(Val::I64),
        (i32::MIN..0).prop_map(Val::I32),
        (i64::from(u32::MAX) + 1..i64::MAX).prop_map(Val::I64),
        text(8).prop_map(Val::Str),
    ];
    let versions = prop::sample::select(vec![
        "", "abc", "2", "2.x", "x.0", "2.0,abc", ",", "2.0,", "-1.0", "2.0 1.0", "2,0", "300.0", "2.300",
    ])
    .prop_map(|s| Val::Str(s.into()));
    (
        prop_oneof![hhello(20), (codes(), text(20)).prop_map(|(code, msg)| Fr::HDisc { code, msg })],
        number,
        versions,
        any::<bool>(),
    )
        .prop_map(|(f, number, versions, first)| {
            let (ty, mut kv) = wire::items(&f).unwrap();
            let mut statuses = vec![4];
            for (k, v) in &mut kv {
                match &k[..] {
                    "status-code" => *v = number.clone(),
                    "max-frame-size" if first => {
                        *v = number.clone();
                        statuses = vec![4, 6, 9];
                    }
                    "supported-versions" if !first => {
                        *v = versions.clone();
                        statuses = vec![4, 5, 8];
                    }
                    _ => {}
                }
            }
            let mut o = wire::head(ty, wire::FIN, 0, 0);
            for (k, v) in &kv {
                wire::put_str(&mut o, k);
                wire::put_val(&mut o, v);
            }
            Step::Payload(Hex(o), statuses)
        })
        .boxed()
}

fn garbage() -> BoxedStrategy<Step> {
    blob(200).prop_map(|b| Step::Payload(b, ANY_REFUSAL.to_vec())).boxed()
}

fn breach() -> BoxedStrategy<Step> {
    prop_oneof![
        3 => malformed(),
        1 => prop_oneof![without("supported-versions", 5), without("max-frame-size", 6), without("capabilities", 7)],
        2 => hello(caps_list()).prop_map(Step::Frame),
        1 => (version(), u32s(), caps_list()).prop_map(|(version, mfs, caps)| Step::Frame(Fr::AHello { version, mfs, caps })),
        1 => (any::<bool>(), any::<bool>(), key(), vec(act(8), 0..3))
            .prop_map(|(frag, abort, (sid, fid), acts)| Step::Frame(Fr::Ack { frag, abort, sid, fid, acts })),
        1 => (codes(), text(20)).prop_map(|(code, msg)| Step::Frame(Fr::ADisc { code, msg })),
        2 => (codes(), prop_oneof![1 => text(20), 1 => text(300)]).prop_map(|(code, msg)| Step::Frame(Fr::HDisc { code, msg })),
        2 => notify(100),
        2 => (prop_oneof![Just(1u32), 2u32..1000, Just(u32::MAX)], blob(600)).prop_map(|(by, b)| Step::Oversize(by, b)),
    ]
    .boxed()
}

pub fn c16_gen() -> BoxedStrategy<Conv> {
    (
        conf(),
        hello(caps_list()),
        vec(notify(30), 0..5),
        breach(),
        vec(prop_oneof![3 => notify(20), 1 => breach()], 0..4),
        vec(plan_ok(), 0..4),
        (make_ok(), prop::bool::weighted(0.25), prop::option::weighted(0.1, any::<prop::sample::Index>())),
        habits(),
    )
        .prop_map(|(conf, hello, before, breach, after, calls, (make, first, cut), h)| {
            let mut steps = vec![];
            if !first {
                steps.push(Step::Frame(hello));
                steps.extend(before);
            }
            if let Some(i) = cut {
                // The peer leaves in the middle of a frame instead.
                let b = step_bytes(&breach, conf.own());
                let n = i.index(b.len().max(1));
                if n > 0 && !matches!(breach, Step::Oversize(..)) {
                    steps.push(Step::Cut(Hex(b[..n].to_vec())));
                    return assemble(conf, 5, steps, calls, make, h);
                }
            }
            steps.push(breach);
            steps.extend(after);
            assemble(conf, 5, steps, calls, make, h)
        })
        .boxed()
}

pub fn c16() -> Vec<Box<dyn LegDyn>> {
    vec![Box::new(Leg {
        name: "breaches",
        quick: 40_000,
        thorough: 1_200_000,
        threads: 8,
        rule: "the peer broke the protocol, disconnected or left inside a frame",
        strategy: c16_gen,
        check: |c, obs| {
            let (e, _) = model(c);
            let at = e.due.iter().position(|d| *d == e.replies.len()).unwrap_or(0);
            obs.label_if(e.closed && at + 1 < c.steps.len(), "more frames after the breach");
            obs.label_if(e.replies.len() > 2, "breach after acknowledged notifications");
            run_check(c, obs, |_, e| e.cut || e.replies.iter().any(|r| matches!(r, Rep::Disc { .. })))
        },
    })]
}

// ------------------------------------------------------------------ C07

pub fn c07_gen() -> BoxedStrategy<Conv> {
    let plan = prop_oneof![
        1 => plan_ok(),
        // Around the limit: an ACK of exactly that size, give or take.
        4 => (-4i64..5, any::<bool>()).prop_map(|(d, fail)| Plan {
            ready: Ready::Now,
            delay: 0,
            // Sized once the limit is known.
            out: if fail { Out::Fail(format!("@{d}")) } else { Out::Acts(vec![Act::Unset(0, format!("@{d}"))]) },
        }),
    ];
    (
        prop_oneof![1 => Just(None), 3 => (256u64..3000).prop_map(Some), 1 => Just(Some(16384u64))],
        prop_oneof![3 => 256u32..3000, 1 => Just(16384u32), 1 => Just(u32::MAX), 1 => Just(256u32)],
        vec((key(), -3i64..2, 0u8..3), 1..6),
        vec(plan, 0..5),
        habits(),
    )
        .prop_map(|(own, peer, notifies, calls, h)| {
            let conf =
                Conf { versions: vec![(2, 0)], caps: vec![], mfs: own, mpt_ms: None, builder: true, mix: 0, forever: false };
            let limit = conf.own().min(u64::from(peer)) as i64;
            let mut steps =
                vec![Step::Frame(Fr::HHello { versions: vec![(2, 0)], mfs: peer, caps: vec![], hc: None, eid: None })];
            let mut ids = vec![];
            for ((sid, fid), d, kind) in notifies {
                let size = match kind {
                    0 => 40,
                    1 => limit + d.min(0),
                    _ => conf.own() as i64 + 1 + d.max(0),
                };
                ids.push((sid, fid));
                let base =
                    wire::encode(&Fr::Notify { frag: false, sid, fid, msgs: vec![Msg { name: String::new(), args: vec![] }] })
                        .len() as i64;
                let pad = (size - base).max(0) as usize;
                // The name's length prefix grows with it.
                let mut n = pad;
                loop {
                    let f = Fr::Notify { frag: false, sid, fid, msgs: vec![Msg { name: "n".repeat(n), args: vec![] }] };
                    if wire::encode(&f).len() as i64 <= size.max(base) || n == 0 {
                        steps.push(Step::Frame(f));
                        break;
                    }
                    n -= 1;
                }
            }
            let calls = calls
                .into_iter()
                .enumerate()
                .map(|(i, p)| {
                    let (sid, fid) = ids.get(i).copied().unwrap_or((1, 1));
                    let fill = |target: i64, len: &dyn Fn(usize) -> i64| -> usize {
                        let mut n = (target - len(0)).max(0) as usize;
                        while n > 0 && len(n) > target {
                            n -= 1;
                        }
                        n
                    };
                    match p.out {
                        Out::Fail(ref t) if t.starts_with('@') => {
                            let d: i64 = t[1..].parse().unwrap_or(0);
                            let n = fill(limit + d, &|n| wire::encode(&Fr::ADisc { code: 99, msg: "e".repeat(n) }).len() as i64);
                            Plan { out: Out::Fail("e".repeat(n)), ..p }
                        }
                        Out::Acts(ref a) if matches!(a.first(), Some(Act::Unset(0, t)) if t.starts_with('@')) => {
                            let Some(Act::Unset(_, t)) = a.first() else { unreachable!() };
                            let d: i64 = t[1..].parse().unwrap_or(0);
                            let mk = |n: usize| vec![Act::Set(1, "v".into(), Val::Bin(Hex(vec![7; n])))];
                            let n = fill(limit + d, &|n| {
                                wire::encode(&Fr::Ack { frag: false, abort: false, sid, fid, acts: mk(n) }).len() as i64
                            });
                            Plan { out: Out::Acts(mk(n)), ..p }
                        }
                        _ => p,
                    }
                })
                .collect();
            assemble(conf, 3, steps, calls, MakePlan { ready: Ready::Now, delay: 0, fail: None }, h)
        })
        .boxed()
}

pub fn c07_conv() -> Box<dyn LegDyn> {
    Box::new(Leg {
        name: "negotiated-limit",
        quick: 20_000,
        thorough: 500_000,
        threads: 8,
        rule: "a frame within 4 bytes of the limit in force, or beyond it",
        strategy: c07_gen,
        check: |c, obs| {
            let (e, _) = model(c);
            let near = |f: &Fr| (wire::encode(f).len() as i64 - e.limit as i64).abs() <= 4;
            let sent = e.replies.iter().any(|r| match r {
                Rep::Ack { sid, fid, acts } => {
                    near(&Fr::Ack { frag: false, abort: false, sid: *sid, fid: *fid, acts: acts.clone() })
                }
                Rep::Disc { text: Some(t), .. } => near(&Fr::ADisc { code: 99, msg: t.clone() }),
                _ => false,
            });
            let recv = c.steps.iter().any(|s| matches!(s, Step::Frame(f) if near(f)));
            obs.label_if(sent, "sent at the limit");
            obs.label_if(recv, "received at the limit");
            obs.label_if(e.limit < c.conf.own(), "limit of the peer");
            obs.nontrivial_if(sent || recv || has(&e, "oversize") || has(&e, "reply beyond the limit"));
            check(c, obs)
        },
    })
}
