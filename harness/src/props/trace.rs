//! C23: the most verbose tracing changes nothing. Everything is done twice, without and with a subscriber
//! that formats every event and span, and what can be observed is compared.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spop::{BufCodec, Error as St, Framer};
use tracing_subscriber::filter::dynamic_filter_fn;
use tracing_subscriber::fmt::format::FmtSpan;
use tracing_subscriber::layer::SubscriberExt;

use crate::conv::{self, model, Conv};
use crate::ensure;
use crate::io::{drive, steps, Scripted, Steps};
use crate::model::*;
use crate::props::codec::{self, short};
use crate::props::convs;
use crate::runner::{Leg, LegDyn, Obs, R};
use crate::wire;

/// Formats everything and keeps only the count.
#[derive(Clone)]
struct Sink(Arc<AtomicU64>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.fetch_add(b.len() as u64, Relaxed);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

thread_local! {
    static VERBOSE: (tracing::Dispatch, Arc<AtomicU64>) = {
        let n = Arc::new(AtomicU64::new(0));
        let sink = Sink(n.clone());
        let s = tracing_subscriber::fmt()
            .with_max_level(tracing::Level::TRACE)
            .with_span_events(FmtSpan::FULL)
            .with_writer(move || sink.clone())
            .finish()
            // The runtime's own spans are of no interest here. Dynamic, as a call site all subscribers always
            // want is taken to be enabled on threads without one too.
            .with(dynamic_filter_fn(|m, _| !m.target().starts_with("tokio") && !m.target().starts_with("runtime")));
        (tracing::Dispatch::new(s), n)
    };
}

/// Runs `f` with everything traced on this thread; how many bytes were formatted.
pub fn traced<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let (d, n) = VERBOSE.with(|v| v.clone());
    let before = n.load(Relaxed);
    let r = tracing::dispatcher::with_default(&d, f);
    (r, n.load(Relaxed) - before)
}

fn sorted(mut f: Fr) -> Fr {
    if let Fr::HHello { caps, .. } | Fr::AHello { caps, .. } = &mut f {
        caps.sort();
    }
    f
}

/// The frames in these bytes, comparable whatever the order in which a set was written.
fn norm(bytes: &[u8]) -> (Vec<Result<Fr, Vec<u8>>>, Vec<u8>) {
    let (fs, rest) = wire::split(bytes);
    (fs.iter().map(|f| wire::decode(f).map(sorted).map_err(|_| f.to_vec())).collect(), rest.to_vec())
}

// ------------------------------------------------------------------ reading

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reads {
    bytes: Hex,
    limit: u32,
    steps: Steps,
    buffered: bool,
}

fn read_all(c: &Reads) -> (Vec<Result<Option<Fr>, St>>, usize) {
    let t = Scripted::new(&c.bytes.0);
    t.with(|s| s.read_steps = c.steps.clone());
    let limit = c.limit as usize;
    let framer = Framer::new(limit);
    let mut codec = BufCodec::buffered(t.clone(), Framer::new(limit));
    let mut out = vec![];
    for _ in 0..c.bytes.0.len() / 4 + 2 {
        let r = if c.buffered { drive(codec.read_frame()) } else { drive(framer.read_frame(t.clone())) };
        let io = matches!(r, Err(St::Io));
        out.push(r.map(|f| fr_from(&f).map(sorted)));
        if io {
            break;
        }
    }
    (out, t.unread())
}

fn c23_reads(c: &Reads, obs: &mut Obs) -> R {
    let plain = read_all(c);
    let (verbose, n) = traced(|| read_all(c));
    obs.label_if(plain.0.iter().any(|r| r.is_ok()), "a frame was read");
    obs.label_if(plain.0.iter().any(|r| matches!(r, Err(e) if *e != St::Io)), "a frame was refused");
    obs.label_if(n > 0, "something was traced");
    obs.nontrivial_if(n > 0);
    ensure!(plain == verbose, "read {} and, while traced, {}", short(&plain), short(&verbose));
    Ok(())
}

fn reads() -> BoxedStrategy<Reads> {
    let piece = prop_oneof![
        3 => frame(200).prop_map(|f| wire::encode_prefixed(&f)),
        3 => (frame(40), vec(codec::mutation(), 1..3)).prop_map(|(f, m)| wire::prefixed(&codec::mutate(&f, &m))),
        1 => Just(vec![0, 0, 0, 0]),
        2 => vec(any::<u8>(), 0..40).prop_map(|b| wire::prefixed(&b)),
        1 => (any::<u8>(), 0usize..5000).prop_map(|(b, n)| wire::prefixed(&vec![b; n])),
    ];
    (vec(piece, 0..6), vec(any::<u8>(), 0..8), prop_oneof![3 => Just(1u32 << 20), 1 => 0u32..300], steps(), any::<bool>())
        .prop_map(|(p, tail, limit, steps, buffered)| {
            let mut b = p.concat();
            b.extend(tail);
            Reads { bytes: Hex(b), limit, steps, buffered }
        })
        .boxed()
}

// ------------------------------------------------------------------ writing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Writes {
    frames: Vec<Fr>,
    limit: u32,
    steps: Steps,
    buffered: bool,
    hold: bool,
    breaks: Option<u16>,
}

#[allow(clippy::type_complexity)]
fn write_all(c: &Writes) -> (Vec<Result<usize, St>>, Vec<u8>, usize) {
    let t = Scripted::default();
    t.with(|s| {
        s.write_steps = c.steps.clone();
        s.hold = c.hold;
        s.write_limit = c.breaks.map(usize::from);
    });
    let limit = c.limit as usize;
    let framer = Framer::new(limit);
    let mut codec = BufCodec::buffered(t.clone(), Framer::new(limit));
    let mut out = vec![];
    for f in &c.frames {
        let f = fr_to(f);
        let r = if c.buffered { drive(codec.write_frame(f)) } else { drive(framer.write_frame(t.clone(), f)) };
        let io = matches!(r, Err(St::Io));
        out.push(r);
        if io {
            break;
        }
    }
    t.with(|s| (out, s.delivered.clone(), s.staged.len()))
}

fn c23_writes(c: &Writes, obs: &mut Obs) -> R {
    let plain = write_all(c);
    let (verbose, n) = traced(|| write_all(c));
    obs.label_if(plain.0.iter().any(|r| r.is_err()), "a frame was not written");
    obs.label_if(n > 0, "something was traced");
    obs.nontrivial_if(n > 0);
    ensure!(plain.0 == verbose.0, "writing gave {} and, while traced, {}", short(&plain.0), short(&verbose.0));
    // Which of several capabilities comes first is not determined, so nor is where a broken hello ends.
    if c.breaks.is_some() {
        ensure!(plain.1.len() == verbose.1.len(), "wrote {} bytes and, while traced, {}", plain.1.len(), verbose.1.len());
    } else {
        let (a, b) = (norm(&plain.1), norm(&verbose.1));
        ensure!(a == b, "wrote {} and, while traced, {}", short(&a), short(&b));
    }
    ensure!(plain.2 == verbose.2, "{} bytes left in the transport and, while traced, {}", plain.2, verbose.2);
    Ok(())
}

fn writes() -> BoxedStrategy<Writes> {
    (
        prop_oneof![3 => vec(frame(60), 0..5), 1 => vec(frame(4000), 0..3)],
        prop_oneof![3 => Just(1u32 << 20), 2 => 0u32..300, 1 => 300u32..5000],
        steps(),
        any::<bool>(),
        any::<bool>(),
        prop::option::weighted(0.2, 0u16..600),
    )
        .prop_map(|(frames, limit, steps, buffered, hold, breaks)| Writes { frames, limit, steps, buffered, hold, breaks })
        .boxed()
}

// ------------------------------------------------------------------ conversations

fn c23_conversations(c: &Conv, obs: &mut Obs) -> R {
    let (e, limits) = model(c);
    let plain = conv::run(c, &limits);
    let (verbose, n) = traced(|| conv::run(c, &limits));
    for l in &e.labels {
        obs.label(l);
    }
    obs.label_if(n > 0, "something was traced");
    obs.nontrivial_if(n > 0 && e.replies.len() + e.calls.len() > 1);
    let (a, b) = (norm(&plain.bytes), norm(&verbose.bytes));
    ensure!(a == b, "the agent sent {} and, while traced, {}", short(&a), short(&b));
    ensure!(plain.log == verbose.log, "the service saw {} and, while traced, {}", short(&plain.log), short(&verbose.log));
    ensure!(
        plain.after == verbose.after,
        "replies were delivered at {:?} and, while traced, at {:?}",
        plain.after,
        verbose.after
    );
    ensure!(
        (plain.closed, plain.ended) == (verbose.closed, verbose.ended),
        "closed, ended: {:?} and, while traced, {:?}",
        (plain.closed, plain.ended),
        (verbose.closed, verbose.ended)
    );
    ensure!(plain.serve == verbose.serve, "serving gave {:?} and, while traced, {:?}", plain.serve, verbose.serve);
    Ok(())
}

fn conversations() -> BoxedStrategy<Conv> {
    prop_oneof![
        1 => convs::c12_gen(),
        3 => convs::c13_gen(),
        2 => convs::c14_gen(),
        2 => convs::c15_gen(),
        4 => convs::c16_gen(),
        1 => convs::c07_gen(),
    ]
    .boxed()
}

pub fn c23() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "reads",
            quick: 40_000,
            thorough: 1_000_000,
            threads: 8,
            rule: "streams of valid, mutated, empty and garbage frames read without and with tracing; non-trivial: something was traced",
            strategy: reads,
            check: c23_reads,
        }),
        Box::new(Leg {
            name: "writes",
            quick: 40_000,
            thorough: 1_000_000,
            threads: 8,
            rule: "frames written without and with tracing; non-trivial: something was traced",
            strategy: writes,
            check: c23_writes,
        }),
        Box::new(Leg {
            name: "conversations",
            quick: 20_000,
            thorough: 300_000,
            threads: 8,
            rule: "conversations of any kind without and with tracing; non-trivial: something was traced and the agent did more than one thing",
            strategy: conversations,
            check: c23_conversations,
        }),
        super::agent::c23(),
    ]
}
