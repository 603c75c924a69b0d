//! Inputs that are nothing but bytes: checked over mutated generated ones in every tier and, in the thorough
//! one, over those a coverage-guided fuzzer (libFuzzer, `/verif/fuzz`) finds from there.
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::conv::{self, *};
use crate::ensure;
use crate::model::*;
use crate::props::codec::{compare_with_reference, mutate, mutation, read_one, short, write_one, Raw};
use crate::props::{codec, convs, misc};
use crate::runner::{guarded, write_replay, Ctx, Leg, LegDyn, Obs, Report, Tier, R};
use crate::wire;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    pub bytes: Hex,
}

/// One leg over bytes and the fuzz target of the same name.
pub struct Fuzzed {
    pub leg: Leg<Input>,
    pub target: &'static str,
    /// Seconds of coverage-guided search in the thorough tier.
    pub seconds: u64,
    pub max_len: usize,
}

pub fn target(name: &str) -> Option<fn(&[u8], &mut Obs) -> R> {
    Some(match name {
        "frame" => frame_bytes,
        "stream" => stream_bytes,
        "block" => block_bytes,
        "conv" => conv_bytes,
        _ => return None,
    })
}

// ------------------------------------------------------------------ targets

/// A payload: accepted or refused as the reference decoder has it, and written as the reference encoder does.
pub fn frame_bytes(b: &[u8], obs: &mut Obs) -> R {
    obs.nontrivial_if(b.len() > 7);
    compare_with_reference(b, obs)?;
    if let Ok(f) = wire::decode(b) {
        if let (Ok(g), _) = read_one(1 << 24, &wire::prefixed(b)) {
            let (n, out) = write_one(1 << 24, g);
            let want = wire::encode_prefixed(&f);
            ensure!(n == Ok(out.len()), "{n:?} reported for {} bytes written", out.len());
            // Lists of capabilities and versions are written as read, in one canonical form.
            ensure!(out == want, "{} written as {:?} instead of {:?}", short(&f), Hex(out), Hex(want));
        }
    }
    Ok(())
}

/// Four bytes of limit, then what the peer sends.
pub fn stream_bytes(b: &[u8], obs: &mut Obs) -> R {
    let Some((head, rest)) = b.split_first_chunk::<2>() else {
        return Ok(());
    };
    let limit = match head[0] {
        0 => u32::from(head[1]),
        1 => 256,
        2 => 16384,
        n => u32::from(n) * u32::from(head[1]),
    };
    codec::c05_raw(&Raw { bytes: Hex(rest.to_vec()), limit }, obs)
}

/// A byte saying how the block is cut, then a header block.
pub fn block_bytes(b: &[u8], obs: &mut Obs) -> R {
    let Some((cut, rest)) = b.split_first() else {
        return Ok(());
    };
    obs.nontrivial_if(rest.len() > 3);
    let splits = if *cut == 0 { vec![] } else { (1..20).map(|i| u16::from(*cut) * i).collect::<Vec<_>>() };
    misc::check_block(rest, &splits, obs)
}

/// Four bytes of configuration and habits, then everything a peer sends on one connection.
pub fn raw_conv(b: &[u8]) -> Option<Conv> {
    let (h, rest) = b.split_first_chunk::<4>()?;
    let caps = [vec![], vec![0u8], vec![0, 1, 2], vec![2]][(h[0] & 3) as usize].clone();
    let mfs = [None, Some(256), Some(2000), Some(300)][(h[0] >> 2 & 3) as usize];
    let versions = if h[0] & 16 == 0 { vec![(2, 0)] } else { vec![(1, 0), (2, 0), (3, 1)] };
    let conf = Conf { versions, caps, mfs, mpt_ms: None, builder: h[0] & 32 == 0, mix: h[0], forever: false };
    let mode = [Mode::Pipelined, Mode::LateReader, Mode::LockStep, Mode::Pipelined][(h[1] & 3) as usize].clone();
    let end = if h[1] & 4 == 0 { End::Eof } else { End::Open };
    let chunk = |n: u8| match n & 3 {
        0 => vec![],
        1 => vec![1],
        2 => vec![3, 0, 7],
        _ => vec![100, 0],
    };
    let plan = |n: u8| Plan {
        ready: if n & 4 == 0 { Ready::Now } else { Ready::Polls(2) },
        delay: if n & 8 == 0 { 0 } else { 30 },
        out: match n & 3 {
            0 | 3 => Out::Echo,
            1 => Out::Acts(vec![]),
            _ => Out::Acts(vec![Act::Set(1, "x".into(), Val::Str("y".repeat(usize::from(n))))]),
        },
    };
    let calls = if h[3] == 0 { vec![] } else { vec![plan(h[3]), plan(h[3] >> 4)] };
    let own = conf.own();
    let mut steps = vec![];
    let mut rest = rest;
    while !rest.is_empty() {
        if rest.len() < 4 {
            steps.push(Step::Cut(Hex(rest.to_vec())));
            break;
        }
        let n = u64::from(u32::from_be_bytes(rest[..4].try_into().unwrap()));
        if n > own {
            steps.push(Step::Oversize((n - own) as u32, Hex(rest[4..].to_vec())));
            break;
        }
        let n = n as usize;
        if rest.len() - 4 < n {
            steps.push(Step::Cut(Hex(rest.to_vec())));
            break;
        }
        steps.push(Step::Payload(Hex(rest[4..4 + n].to_vec()), ANY_REFUSAL.to_vec()));
        rest = &rest[4 + n..];
    }
    let make = MakePlan { ready: Ready::Now, delay: 0, fail: None };
    let habits = Habits {
        pace: 0,
        mode,
        end,
        pipe: if h[1] & 8 == 0 { 65_536 } else { 9 },
        chunks: chunk(h[2]),
        read_steps: chunk(h[2] >> 2),
        write_steps: chunk(h[2] >> 4),
        hold: h[1] & 16 != 0,
    };
    Some(assemble(conf, 9, steps, calls, make, habits))
}

pub fn conv_bytes(b: &[u8], obs: &mut Obs) -> R {
    let Some(c) = raw_conv(b) else { return Ok(()) };
    if c.steps.len() > 200 {
        return Ok(());
    }
    let (e, _) = conv::model(&c);
    obs.nontrivial_if(e.replies.len() > 1);
    obs.label_if(!e.calls.is_empty(), "service called");
    conv::check(&c, obs)
}

// ------------------------------------------------------------------ generated inputs

fn damage(s: BoxedStrategy<Vec<u8>>, most: usize) -> BoxedStrategy<Input> {
    let hit = (
        any::<prop::sample::Index>(),
        prop_oneof![any::<u8>(), prop::sample::select(vec![0u8, 1, 2, 3, 16, 101, 103, 127, 128, 239, 240, 255])],
        0u8..4,
    );
    (s, vec(hit, 0..=most))
        .prop_map(|(mut b, hits)| {
            for (i, x, how) in hits {
                if b.is_empty() {
                    break;
                }
                let i = i.index(b.len());
                match how {
                    0 => b[i] = x,
                    1 => b[i] ^= x.max(1),
                    2 => b.insert(i, x),
                    _ => {
                        b.remove(i);
                    }
                }
            }
            Input { bytes: Hex(b) }
        })
        .boxed()
}

pub fn frame_gen() -> BoxedStrategy<Input> {
    let s = (frame(60), vec(mutation(), 0..3)).prop_map(|(f, m)| mutate(&f, &m)).boxed();
    damage(s, 2)
}

pub fn stream_gen() -> BoxedStrategy<Input> {
    let s = (vec(any::<u8>(), 2), vec(frame(40), 0..5))
        .prop_map(|(mut h, fs)| {
            for f in &fs {
                h.extend(wire::encode_prefixed(f));
            }
            h
        })
        .boxed();
    damage(s, 3)
}

pub fn block_gen() -> BoxedStrategy<Input> {
    let pair = (prop_oneof![3 => "[a-zA-Z-]{1,8}", 1 => ".{0,6}"], prop_oneof![3 => "[ -~]{0,12}", 1 => ".{0,300}"]);
    let s = (any::<u8>(), vec(pair, 0..6), any::<bool>())
        .prop_map(|(cut, pairs, end)| {
            let mut o = vec![cut];
            for (k, v) in &pairs {
                wire::put_str(&mut o, k);
                wire::put_str(&mut o, v);
            }
            if end {
                o.extend([0, 0]);
            }
            o
        })
        .boxed();
    damage(s, 3)
}

pub fn conv_gen() -> BoxedStrategy<Input> {
    let first = prop_oneof![12 => hello(caps_list()), 1 => frame(20)];
    let then = prop_oneof![
        8 => notify(30),
        1 => convs::malformed(),
        1 => frame(20).prop_map(Step::Frame),
    ];
    let s = (vec(any::<u8>(), 4), first, vec(then, 0..8))
        .prop_map(|(mut o, h, steps)| {
            o.extend(wire::encode_prefixed(&h));
            for s in &steps {
                o.extend(step_bytes(s, 256));
            }
            o
        })
        .boxed();
    damage(s, 1)
}

// ------------------------------------------------------------------ coverage-guided search

impl LegDyn for Fuzzed {
    fn name(&self) -> &'static str {
        self.leg.name
    }
    fn replay(&self, case: &Value) -> R {
        self.leg.replay(case)
    }
    fn run(&self, ctx: &Ctx) -> Report {
        let mut rep = self.leg.run(ctx);
        if rep.violation.is_some() || ctx.tier == Tier::Quick {
            return rep;
        }
        match std::env::var_os("VH_FUZZ_BIN").map(PathBuf::from) {
            Some(bin) => self.search(ctx, &bin, &mut rep),
            None => {
                rep.labels.insert("no fuzzer: coverage-guided search left out".into(), 1);
            }
        }
        rep
    }
}

impl Fuzzed {
    fn search(&self, ctx: &Ctx, bin: &Path, rep: &mut Report) {
        let t0 = Instant::now();
        let dir = std::env::temp_dir().join(format!("vharness-fuzz-{}-{}", std::process::id(), self.target));
        let corpus = dir.join("corpus");
        std::fs::create_dir_all(&corpus).expect("scratch directory");
        // Start from generated inputs.
        let mut runner = proptest::test_runner::TestRunner::deterministic();
        let strategy = (self.leg.strategy)();
        for i in 0..400 {
            let case = strategy.new_tree(&mut runner).expect("generate").current();
            std::fs::write(corpus.join(format!("g{i:04}")), &case.bytes.0).expect("corpus");
        }
        let dict = dir.join("dict");
        std::fs::write(&dict, DICT).expect("dictionary");
        let seconds = ((self.seconds as f64) * ctx.scale).ceil() as u64;
        let mut kids: Vec<(Child, PathBuf)> = (0..8)
            .map(|i| {
                let log = dir.join(format!("log{i}"));
                let art = dir.join(format!("art{i}-"));
                let child = Command::new(bin)
                    .env("VH_TARGET", self.target)
                    .arg(format!("-seed={}", ctx.seed * 8 + i + 1))
                    .arg(format!("-max_total_time={seconds}"))
                    .arg(format!("-max_len={}", self.max_len))
                    .arg(format!("-dict={}", dict.display()))
                    .arg(format!("-artifact_prefix={}", art.display()))
                    .args([
                        "-timeout=60",
                        "-rss_limit_mb=3000",
                        "-malloc_limit_mb=1500",
                        "-reload=5",
                        "-print_final_stats=1",
                        "-len_control=20",
                    ])
                    .arg(&corpus)
                    .stdout(Stdio::null())
                    .stderr(std::fs::File::create(&log).expect("log"))
                    .spawn()
                    .expect("start the fuzzer");
                (child, log)
            })
            .collect();
        let limit = Instant::now() + Duration::from_secs(seconds + 120);
        loop {
            let states: Vec<_> = kids.iter_mut().map(|(c, _)| c.try_wait().ok().flatten()).collect();
            let left = states.iter().filter(|s| s.is_none()).count();
            let found = states.iter().any(|s| s.is_some_and(|s| !s.success()));
            if left == 0 || found || Instant::now() > limit {
                break;
            }
            std::thread::sleep(Duration::from_millis(300));
        }
        for (c, _) in &mut kids {
            let _ = c.kill();
            let _ = c.wait();
        }
        let mut execs = 0;
        let mut cov = 0;
        for (_, log) in &kids {
            let mut s = vec![];
            let _ = std::fs::File::open(log).and_then(|mut f| f.read_to_end(&mut s));
            let s = String::from_utf8_lossy(&s);
            let last = |key: &str| {
                s.rmatch_indices(key).next().and_then(|(i, _)| s[i + key.len()..].split_whitespace().next()?.parse::<u64>().ok())
            };
            execs += last("stat::number_of_executed_units:")
                .or_else(|| {
                    s.lines().rev().find_map(|l| l.strip_prefix('#')?.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok())
                })
                .unwrap_or(0);
            cov = cov.max(last(" cov: ").unwrap_or(0));
        }
        // What was found is judged again by the check itself, which gives the message.
        let mut found: Vec<PathBuf> = std::fs::read_dir(&dir)
            .expect("scratch directory")
            .filter_map(|e| Some(e.ok()?.path()))
            .filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("art")))
            .collect();
        found.sort();
        for p in found {
            let mut bytes = std::fs::read(&p).unwrap_or_default();
            let judge = |b: &[u8]| guarded(|| (self.leg.check)(&Input { bytes: Hex(b.to_vec()) }, &mut Obs::default())).err();
            let name = p.file_name().unwrap().to_string_lossy().into_owned();
            let Some(mut fail) = judge(&bytes) else {
                if name.contains("timeout") || name.contains("oom") {
                    let msg = format!("the fuzzer reports {name}");
                    let path = write_replay(ctx, self.leg.name, &json!(Input { bytes: Hex(bytes) }), &msg);
                    rep.violation = Some((msg, path));
                }
                continue;
            };
            // Shrink: leave out pieces, then lower bytes.
            let until = Instant::now() + Duration::from_secs(60);
            let mut size = bytes.len() / 2;
            while size > 0 && Instant::now() < until {
                let mut i = 0;
                while i + size <= bytes.len() && Instant::now() < until {
                    let mut b = bytes.clone();
                    b.drain(i..i + size);
                    match judge(&b) {
                        Some(f) => (bytes, fail) = (b, f),
                        None => i += size,
                    }
                }
                size /= 2;
            }
            let path = write_replay(ctx, self.leg.name, &json!(Input { bytes: Hex(bytes) }), &fail.msg);
            rep.violation = Some((fail.msg, path));
            break;
        }
        let n = std::fs::read_dir(&corpus).map(|d| d.count() as u64).unwrap_or(0);
        rep.labels.insert("coverage-guided: executions".into(), execs);
        rep.labels.insert("coverage-guided: inputs kept for new coverage".into(), n.saturating_sub(400));
        rep.labels.insert("coverage-guided: edges covered".into(), cov);
        rep.evaluations += execs;
        rep.wall += t0.elapsed().as_secs_f64();
        let _ = std::fs::remove_dir_all(&dir);
    }
}

const DICT: &str = r#"
"supported-versions"
"version"
"max-frame-size"
"capabilities"
"healthcheck"
"engine-id"
"status-code"
"message"
"fragmentation"
"pipelining"
"async"
"2.0"
"\x00\x00\x00\x01\x00\x00"
"\x00\x00\x00\x01\x01\x01"
"\x00\x00\x00\x00\x01\x01"
"\xf0\xff\xff\xff\xff\xff\xff\xff\xff\x0e"
"\xff\xf0\xfe\xfe\xfe\xfe\xfe\xfe\xfe\x0e"
"#;

pub fn leg(
    name: &'static str,
    target: &'static str,
    quick: u32,
    thorough: u32,
    seconds: u64,
    max_len: usize,
    strategy: fn() -> BoxedStrategy<Input>,
    check: fn(&Input, &mut Obs) -> R,
    rule: &'static str,
) -> Box<dyn LegDyn> {
    Box::new(Fuzzed { leg: Leg { name, quick, thorough, threads: 8, rule, strategy, check }, target, seconds, max_len })
}
