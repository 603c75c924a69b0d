//! C01..C08: frame codec, wire format, numbers, values, robustness, strictness, limits, transports.
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spop::{BufCodec, Codec, Error as St, Frame, Framer};

use crate::alloc;
use crate::ensure;
use crate::io::{drive, steps, Scripted, Steps};
use crate::model::*;
use crate::runner::{Fail, Leg, LegDyn, Obs, R};
use crate::wire;

pub const BIG: usize = 1 << 25;

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 1500 {
        format!("{}...({} chars)", s.chars().take(1500).collect::<String>(), s.len())
    } else {
        s
    }
}

pub fn write_one(limit: usize, f: Frame) -> (Result<usize, St>, Vec<u8>) {
    let t = Scripted::default();
    let r = drive(Framer::new(limit).write_frame(t.clone(), f));
    let d = t.with(|s| {
        let mut d = s.delivered.clone();
        d.extend_from_slice(&s.staged);
        d
    });
    (r, d)
}

/// Reads one frame from the bytes; the result and how many bytes were left unread.
pub fn read_one(limit: usize, bytes: &[u8]) -> (Result<Frame, St>, usize) {
    let t = Scripted::new(bytes);
    let r = drive(Framer::new(limit).read_frame(t.clone()));
    (r, t.unread())
}

fn classify_frames(frames: &[Fr], obs: &mut Obs) {
    for f in frames {
        obs.label(f.kind());
        obs.nontrivial_if(f.has_payload());
        match f {
            Fr::Notify { msgs, frag, sid, .. } => {
                obs.label_if(*frag, "fragmented");
                obs.label_if(*sid >= 240, "multi-byte id");
                obs.label_if(msgs.iter().any(|m| m.args.len() > 127), ">127 args");
                obs.label_if(msgs.len() > 8, ">8 messages");
                obs.label_if(
                    msgs.iter().any(|m| m.args.iter().any(|a| matches!(&a.1, Val::Str(s) if s.len() >= 240))),
                    "string >= 240 bytes",
                );
            }
            Fr::Ack { frag, abort, acts, .. } => {
                obs.label_if(*frag, "fragmented");
                obs.label_if(*abort, "aborted");
                obs.label_if(acts.len() > 8, ">8 actions");
            }
            Fr::HHello { caps, .. } | Fr::AHello { caps, .. } => obs.label_if(caps.is_empty(), "no capabilities"),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Frames {
    frames: Vec<Fr>,
}

fn c01_framer(c: &Frames, obs: &mut Obs) -> R {
    classify_frames(&c.frames, obs);
    obs.label_if(c.frames.len() > 1, "sequence");
    let framer = Framer::new(BIG);
    let t = Scripted::default();
    let mut ends = vec![];
    for f in &c.frames {
        let before = t.with(|s| s.delivered.len());
        let n = drive(framer.write_frame(t.clone(), fr_to(f)))
            .map_err(|e| Fail::from(format!("write refused with {e:?}: {}", short(f))))?;
        let now = t.with(|s| s.delivered.len());
        ensure!(now - before == n, "write reported {n} bytes, {} were produced, for {}", now - before, short(f));
        ends.push(now);
    }
    let bytes = t.with(|s| s.delivered.clone());
    let r = Scripted::new(&bytes);
    for (f, end) in c.frames.iter().zip(ends) {
        let got = drive(framer.read_frame(r.clone()));
        let at = bytes.len() - r.unread();
        match got {
            Ok(g) => {
                ensure!(g == fr_to(f), "read back {} instead of {}", short(&g), short(f));
                ensure!(fr_from(&g).as_ref() == Some(f), "fields differ: {} instead of {}", short(&g), short(f));
            }
            Err(e) => return Err(format!("read back error {e:?} for {}", short(f)).into()),
        }
        ensure!(at == end, "reading consumed up to byte {at} instead of {end}, after {}", short(f));
    }
    Ok(())
}

fn c01_codec(c: &Frames, obs: &mut Obs) -> R {
    classify_frames(&c.frames, obs);
    obs.label_if(c.frames.len() > 1, "sequence");
    let t = Scripted::default();
    let mut w = Codec::new(t.clone(), Framer::new(BIG));
    for f in &c.frames {
        drive(w.write_frame(fr_to(f))).map_err(|e| Fail::from(format!("write refused with {e:?}: {}", short(f))))?;
    }
    let bytes = t.with(|s| s.delivered.clone());
    let mut r = BufCodec::buffered(Scripted::new(&bytes), Framer::new(BIG));
    for f in &c.frames {
        match drive(r.read_frame()) {
            Ok(g) => ensure!(fr_from(&g).as_ref() == Some(f), "read back {} instead of {}", short(&g), short(f)),
            Err(e) => return Err(format!("read back error {e:?} for {}", short(f)).into()),
        }
    }
    match drive(r.read_frame()) {
        Err(St::Io) => Ok(()),
        x => Err(format!("after the last frame: {}", short(&x)).into()),
    }
}

fn frames_small() -> BoxedStrategy<Frames> {
    prop_oneof![
        3 => vec(frame(5000), 1..2),
        2 => vec(frame(300), 1..6),
        1 => vec(frame(20), 1..40),
    ]
    .prop_map(|frames| Frames { frames })
    .boxed()
}

/// A frame with one very long name, text or binary, and another frame behind it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    kind: u8,
    size: u32,
    fill: u8,
    id: u64,
    next: Fr,
}
impl Large {
    fn frames(&self) -> Frames {
        let (n, id) = (self.size as usize, self.id);
        let text = |c: u8| String::from_utf8(vec![c; n]).unwrap();
        let bin = || Val::Bin(Hex((0..n).map(|i| self.fill.wrapping_add((i / 7) as u8)).collect()));
        let big = match self.kind {
            0 => Fr::Notify {
                frag: false,
                sid: id,
                fid: id,
                msgs: vec![Msg { name: "m".into(), args: vec![("a".into(), bin()), ("b".into(), Val::U64(id))] }],
            },
            1 => Fr::Ack {
                frag: false,
                abort: false,
                sid: id,
                fid: id,
                acts: vec![Act::Set(3, "v".into(), Val::Str(text(b'y'))), Act::Unset(1, "w".into())],
            },
            2 => Fr::Notify {
                frag: true,
                sid: id,
                fid: id,
                msgs: vec![Msg { name: text(b'n'), args: vec![("k".into(), Val::Bool(true))] }],
            },
            3 => Fr::Ack { frag: true, abort: true, sid: id, fid: id, acts: vec![Act::Unset(4, text(b'u'))] },
            4 => Fr::Notify {
                frag: false,
                sid: id,
                fid: id,
                msgs: vec![Msg { name: "m".into(), args: vec![(text(b'k'), bin()), ("".into(), Val::Null)] }],
            },
            5 => Fr::ADisc { code: 3, msg: text(b'p') },
            6 => Fr::HHello { versions: vec![(2, 0)], mfs: 16384, caps: vec![1], hc: None, eid: Some(text(b'e')) },
            _ => Fr::HDisc { code: 4, msg: text(b'q') },
        };
        Frames { frames: vec![big, self.next.clone()] }
    }
}

fn large() -> BoxedStrategy<Large> {
    // lengths of 3 and 4 varint bytes, of 2 and 3 bytes of plain binary, and (rarely) of 4
    let size = prop_oneof![
        3 => prop::sample::select(vec![2287u32, 2288, 264431, 264432, 264433, 65535, 65536, 65500, 65520]),
        3 => 5000u32..70_000,
        3 => 5000u32..300_000,
    ];
    (0u8..8, size, any::<u8>(), nonzero(), frame(50))
        .prop_map(|(kind, size, fill, id, next)| Large { kind, size, fill, id, next })
        .boxed()
}
fn huge() -> BoxedStrategy<Large> {
    let size = prop_oneof![
        1 => prop::sample::select(vec![(1u32 << 24) - 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]),
        1 => 1_000_000u32..3_000_000,
        1 => 14_000_000u32..16_000_000,
    ];
    (large(), size).prop_map(|(l, size)| Large { size: if l.kind == 4 { size / 2 } else { size }, ..l }).boxed()
}
fn c01_large(c: &Large, obs: &mut Obs) -> R {
    c01_framer(&c.frames(), obs)
}
fn c02_large(c: &Large, obs: &mut Obs) -> R {
    let f = c.frames();
    c02_encode(&f, obs)?;
    for f in &f.frames {
        let body = wire::encode(f);
        let (r, left) = read_one(BIG, &wire::prefixed(&body));
        match r {
            Ok(g) => ensure!(fr_from(&g).as_ref() == Some(f), "decoded {} instead of {}", short(&g), short(f)),
            Err(e) => return Err(format!("refused with {e:?}: {}", short(f)).into()),
        }
        ensure!(left == 0, "{left} bytes left unread");
    }
    Ok(())
}

pub fn c01() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "framer-sequences",
            quick: 60_000,
            thorough: 1_500_000,
            threads: 8,
            rule: "sequences of 1..40 generated frames written and read with the framer; non-trivial: some frame has list or text content",
            strategy: frames_small,
            check: c01_framer,
        }),
        Box::new(Leg {
            name: "codec-sequences",
            quick: 20_000,
            thorough: 500_000,
            threads: 8,
            rule: "same through the (buffered) codec",
            strategy: frames_small,
            check: c01_codec,
        }),
        Box::new(Leg {
            name: "large-frames",
            quick: 1_000,
            thorough: 20_000,
            threads: 8,
            rule: "frames holding a 2 to 300 thousand byte name, text or binary followed by another frame",
            strategy: large,
            check: c01_large,
        }),
        Box::new(Leg {
            name: "huge-frames",
            quick: 48,
            thorough: 600,
            threads: 4,
            rule: "the same with 1 to 17 million bytes",
            strategy: huge,
            check: c01_large,
        }),
    ]
}

// ------------------------------------------------------------------ C02

fn c02_encode(c: &Frames, obs: &mut Obs) -> R {
    classify_frames(&c.frames, obs);
    for f in &c.frames {
        let (r, bytes) = write_one(BIG, fr_to(f));
        ensure!(r.is_ok(), "write refused with {r:?}: {}", short(f));
        ensure!(bytes.len() >= 4, "no length prefix for {}", short(f));
        let n = u32::from_be_bytes(bytes[..4].try_into().unwrap()) as usize;
        ensure!(n == bytes.len() - 4, "length prefix {n} but {} bytes follow, for {}", bytes.len() - 4, short(f));
        let body = &bytes[4..];
        match f {
            Fr::Notify { .. } | Fr::Ack { .. } => {
                let want = wire::encode(f);
                ensure!(body == want, "encoded {:?} instead of {:?} for {}", Hex(body.to_vec()), Hex(want), short(f));
            }
            _ => {
                // The order of items is free; everything else is fixed.
                let (ty, kv) = wire::items(f).unwrap();
                let head = wire::head(ty, wire::FIN, 0, 0);
                ensure!(
                    body.starts_with(&head),
                    "header {:?} instead of {:?} for {}",
                    Hex(body[..body.len().min(9)].to_vec()),
                    Hex(head),
                    short(f)
                );
                let mut rd = wire::Rd::new(&body[head.len()..]);
                let mut got = vec![];
                while rd.left() > 0 {
                    let k = rd.string().map_err(|e| Fail::from(format!("item name unreadable: {e:?} for {}", short(f))))?;
                    let v = rd.val().map_err(|e| Fail::from(format!("item value unreadable: {e:?} for {}", short(f))))?;
                    got.push((k, v));
                }
                let norm = |mut v: Vec<(String, Val)>| {
                    for (k, x) in v.iter_mut() {
                        if k == "supported-versions" || k == "capabilities" {
                            if let Val::Str(s) = x {
                                s.retain(|c| c != ' ');
                            }
                        }
                    }
                    v.sort_by(|a, b| a.0.cmp(&b.0));
                    v
                };
                let (got, want) = (norm(got), norm(kv));
                ensure!(got == want, "items {} instead of {}", short(&got), short(&want));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Variant {
    frame: Fr,
    order: Vec<u8>,
    extra: Vec<(String, Val)>,
    int_type: u8,
    sep: u8,
    pad: u8,
}

fn variant() -> BoxedStrategy<Variant> {
    (
        prop_oneof![
            4 => hhello(40),
            2 => (version(), u32s(), vec(0u8..3, 0..5)).prop_map(|(version, mfs, caps)| Fr::AHello { version, mfs, caps }),
            1 => (codes(), text(300)).prop_map(|(code, msg)| Fr::HDisc { code, msg }),
            1 => (codes(), text(300)).prop_map(|(code, msg)| Fr::ADisc { code, msg }),
            2 => frame(300),
        ],
        vec(any::<u8>(), 12),
        vec((prop_oneof![1 => "x-[a-z]{0,8}".boxed(), 1 => near_key()], val(30)), 0..4),
        0u8..4,
        0u8..5,
        0u8..4,
    )
        .prop_map(|(frame, order, extra, int_type, sep, pad)| Variant { frame, order, extra, int_type, sep, pad })
        .boxed()
}

fn c02_variants(c: &Variant, obs: &mut Obs) -> R {
    let f = &c.frame;
    obs.label(f.kind());
    let body = match wire::items(f) {
        None => {
            obs.nontrivial_if(f.has_payload());
            wire::encode(f)
        }
        Some((ty, kv)) => {
            let sep = [",", ", ", " ,", " , ", ",  "][c.sep as usize];
            let mut kv: Vec<(String, Val)> = kv
                .into_iter()
                .map(|(k, v)| {
                    let v = match (k.as_str(), v) {
                        ("supported-versions" | "capabilities", Val::Str(s)) if !s.is_empty() => {
                            let s = s.replace(',', sep);
                            Val::Str(match c.pad {
                                0 => s,
                                1 => format!(" {s}"),
                                2 => format!("{s} "),
                                _ => format!("  {s}  "),
                            })
                        }
                        ("max-frame-size" | "status-code", Val::U32(n)) => match c.int_type {
                            0 if n <= i32::MAX as u32 => Val::I32(n as i32),
                            1 => Val::I64(n as i64),
                            2 => Val::U64(n as u64),
                            _ => Val::U32(n),
                        },
                        (_, v) => v,
                    };
                    (k, v)
                })
                .collect();
            let mut seen = std::collections::HashSet::new();
            let known: &[&str] = match ty {
                wire::HAPROXY_HELLO => &["supported-versions", "max-frame-size", "capabilities", "healthcheck", "engine-id"],
                wire::AGENT_HELLO => &["version", "max-frame-size", "capabilities"],
                _ => &["status-code", "message"],
            };
            let unknown = |k: &String| !known.contains(&k.as_str());
            kv.extend(c.extra.iter().filter(|(k, _)| unknown(k) && seen.insert(k.clone())).cloned());
            let mut idx: Vec<usize> = (0..kv.len()).collect();
            idx.sort_by_key(|i| c.order[*i % c.order.len()]);
            obs.nontrivial_if(idx.windows(2).any(|w| w[0] > w[1]) || !c.extra.is_empty() || c.sep > 0);
            obs.label_if(!c.extra.is_empty(), "unknown items");
            obs.label_if(idx.windows(2).any(|w| w[0] > w[1]), "items reordered");
            let mut o = wire::head(ty, wire::FIN, 0, 0);
            for i in idx {
                wire::put_str(&mut o, &kv[i].0);
                wire::put_val(&mut o, &kv[i].1);
            }
            o
        }
    };
    let want = match wire::decode(&body) {
        Ok(w) => w,
        Err(e) => return Err(format!("HARNESS: reference decoder refuses its own encoding: {e:?} {}", short(c)).into()),
    };
    ensure!(&want == f, "HARNESS: reference decoder reads {} from {}", short(&want), short(c));
    let (r, left) = read_one(BIG, &wire::prefixed(&body));
    match r {
        Err(e) => Err(format!("conformant encoding of {} refused with {e:?}: {:?}", short(f), Hex(body)).into()),
        Ok(g) => {
            ensure!(fr_from(&g).as_ref() == Some(f), "decoded {} instead of {} from {:?}", short(&g), short(f), Hex(body));
            ensure!(left == 0, "{left} bytes left unread for {}", short(f));
            Ok(())
        }
    }
}

fn c02_abort(c: &Frames, obs: &mut Obs) -> R {
    for f in &c.frames {
        let Fr::Notify { frag, sid, fid, msgs } = f else {
            continue;
        };
        obs.nontrivial_if(!msgs.is_empty());
        let plain = wire::encode(f);
        let mut aborted = plain.clone();
        let flags = wire::ABORT | if *frag { 0 } else { wire::FIN };
        aborted[1..5].copy_from_slice(&flags.to_be_bytes());
        let (a, _) = read_one(BIG, &wire::prefixed(&plain));
        let (b, _) = read_one(BIG, &wire::prefixed(&aborted));
        let (Ok(a), Ok(b)) = (a, b) else { continue };
        if a == b {
            return Err(Fail {
                msg: format!("a NOTIFY carrying ABORT (stream {sid}, frame {fid}) is decoded as if it did not: {}", short(&b)),
                sig: Some("notify-abort-flag-not-represented".into()),
            });
        }
    }
    Ok(())
}

fn notify_only() -> BoxedStrategy<Frames> {
    (any::<bool>(), num(), nonzero(), msgs(20))
        .prop_map(|(frag, sid, fid, msgs)| Frames { frames: vec![Fr::Notify { frag, sid, fid, msgs }] })
        .boxed()
}

pub fn c02() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "encode-differential",
            quick: 60_000,
            thorough: 1_500_000,
            threads: 8,
            rule: "generated frames encoded by the code and by an independent encoder; non-trivial: some frame has content",
            strategy: frames_small,
            check: c02_encode,
        }),
        Box::new(Leg {
            name: "decode-variants",
            quick: 80_000,
            thorough: 2_000_000,
            threads: 8,
            rule: "conformant re-encodings of generated frames (item order, unknown items, integer types, list spacing); non-trivial: differs from the canonical encoding, or a list frame with content",
            strategy: variant,
            check: c02_variants,
        }),
        Box::new(Leg {
            name: "large-frames",
            quick: 1_000,
            thorough: 20_000,
            threads: 8,
            rule: "frames holding a 2 to 300 thousand byte name, text or binary, encoded and decoded",
            strategy: large,
            check: c02_large,
        }),
        Box::new(Leg {
            name: "huge-frames",
            quick: 48,
            thorough: 600,
            threads: 4,
            rule: "the same with 1 to 17 million bytes",
            strategy: huge,
            check: c02_large,
        }),
        Box::new(Leg {
            name: "notify-abort-flag",
            quick: 400,
            thorough: 4_000,
            threads: 8,
            rule: "NOTIFY frames with the ABORT flag set against the same frame without it",
            strategy: notify_only,
            check: c02_abort,
        }),
    ]
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nums {
    sid: u64,
    fid: u64,
    ack: bool,
    val: u64,
}

fn c03_values(c: &Nums, obs: &mut Obs) -> R {
    let v = Val::U64(c.val);
    let f = if c.ack {
        Fr::Ack { frag: false, abort: false, sid: c.sid, fid: c.fid, acts: vec![Act::Set(0, "n".into(), v)] }
    } else {
        Fr::Notify { frag: false, sid: c.sid, fid: c.fid, msgs: vec![Msg { name: "m".into(), args: vec![("n".into(), v)] }] }
    };
    obs.nontrivial_if(c.sid >= 240 || c.fid >= 240 || c.val >= 240);
    let names = ["1 byte", "2 bytes", "3 bytes", "4 bytes", "5 bytes", "6 bytes", "7 bytes", "8 bytes", "9 bytes", "10 bytes"];
    for n in [c.sid, c.fid, c.val] {
        obs.label(names[wire::varint_len(n) - 1]);
        let mut b = vec![];
        wire::put_varint(&mut b, n);
        ensure!(b.len() == wire::varint_len(n), "HARNESS: reference length of {n}");
    }
    // By itself.
    for n in [c.sid, c.fid, c.val] {
        let mut want = vec![];
        wire::put_varint(&mut want, n);
        let mut got = bytes::BytesMut::new();
        let written = spop::varint::put(&mut got, n);
        ensure!(
            got[..] == want[..] && written == want.len(),
            "{n} written as {:?}, {written} bytes, instead of {:?}",
            Hex(got.to_vec()),
            Hex(want)
        );
        let size = spop::varint::size_of(n);
        ensure!(size == want.len(), "the size computed for {n} is {size}");
        want.extend([7, 0x81]);
        let mut b = &want[..];
        let back = spop::varint::get(&mut b);
        ensure!(back == Some(n) && b.len() == 2, "{n} read back as {back:?}, {} bytes left", b.len());
    }
    let frame = fr_to(&f);
    let size = frame.metadata().map(|m| m.size());
    let (r, bytes) = write_one(BIG, frame);
    ensure!(r.is_ok(), "write refused {r:?} for {c:?}");
    let want = wire::encode_prefixed(&f);
    ensure!(bytes == want, "encoded {:?} instead of {:?} for {c:?}", Hex(bytes), Hex(want));
    let expect = 4 + wire::varint_len(c.sid) + wire::varint_len(c.fid);
    ensure!(size == Some(expect), "metadata size {size:?} instead of {expect} for {c:?}");
    let (r, _) = read_one(BIG, &bytes);
    match r {
        Ok(g) => ensure!(fr_from(&g).as_ref() == Some(&f), "decoded {} instead of {}", short(&g), short(&f)),
        Err(e) => return Err(format!("refused {e:?} for {c:?}").into()),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawVarint {
    raw: Hex,
    place: u8,
    tail: Hex,
}

fn raw_varint() -> BoxedStrategy<RawVarint> {
    let cont = prop_oneof![2 => 0x80u8..=0xff, 1 => Just(0x80u8), 1 => Just(0xffu8), 1 => Just(0xfeu8)];
    let raw = prop_oneof![
        // canonical values, possibly cut
        (num(), 0usize..3).prop_map(|(n, cut)| {
            let mut b = vec![];
            wire::put_varint(&mut b, n);
            b.truncate(b.len().saturating_sub(cut).max(1));
            b
        }),
        // long forms around 64 bits
        (0xf0u8..=0xff, vec(cont.clone(), 0..12), 0u8..0x80).prop_map(|(a, mut m, z)| {
            m.insert(0, a);
            m.push(z);
            m
        }),
        // around 2^64 exactly
        (0xf0u8..=0xff, vec(prop_oneof![Just(0xfeu8), Just(0xff), Just(0xfd), Just(0x80)], 8), 0u8..0x20).prop_map(
            |(a, mut m, z)| {
                m.insert(0, a);
                m.push(z);
                m
            }
        ),
        // never terminated
        (0xf0u8..=0xff, vec(cont, 0..30)).prop_map(|(a, mut m)| {
            m.insert(0, a);
            m
        }),
    ];
    (raw, 0u8..6, prop_oneof![Just(vec![]), vec(any::<u8>(), 0..6), Just(b"abcdefgh".to_vec())])
        .prop_map(|(raw, place, tail)| RawVarint { raw: Hex(raw), place, tail: Hex(tail) })
        .boxed()
}

fn c03_raw(c: &RawVarint, obs: &mut Obs) -> R {
    let raw = &c.raw.0;
    let mut o = vec![wire::HAPROXY_NOTIFY, 0, 0, 0, 1];
    let mut rd = wire::Rd::new(raw);
    let parsed = rd.varint();
    obs.nontrivial_if(raw.len() > 1);
    match &parsed {
        Ok(n) => obs.label_if(*n >= 240, "valid multi-byte"),
        Err(wire::Bad::Malformed("cut short")) => obs.label("cut short"),
        Err(_) => obs.label("over 64 bits"),
    }
    // By itself, from one piece and from two.
    let mut whole: Vec<u8> = raw.clone();
    whole.extend_from_slice(&c.tail.0);
    let mut all = wire::Rd::new(&whole);
    let want = all.varint().ok();
    for cut in 0..=whole.len().min(11) {
        let mut b = bytes::Buf::chain(&whole[..cut], &whole[cut..]);
        let got = spop::varint::get(&mut b);
        ensure!(got == want, "read as {got:?} instead of {want:?} from {:?} cut at {cut}", Hex(whole.clone()));
        let left = bytes::Buf::remaining(&b);
        ensure!(got.is_none() || left == all.left(), "{left} bytes left instead of {}", all.left());
    }
    match c.place {
        0 => {
            o.extend_from_slice(raw);
            o.push(1);
        }
        1 => {
            o.push(1);
            o.extend_from_slice(raw);
        }
        2 => {
            o.extend_from_slice(&[1, 1, 1, b'm', 1, 1, b'k', 5]);
            o.extend_from_slice(raw);
        }
        3 => {
            o.extend_from_slice(&[1, 1, 1, b'm', 1, 1, b'k', 8]);
            o.extend_from_slice(raw);
            if let Ok(n) = parsed {
                if n < 5000 {
                    o.extend(std::iter::repeat(b'x').take(n as usize));
                }
            }
        }
        4 => {
            o.extend_from_slice(&[1, 1, 1, b'm', 1, 1, b'k', 4]);
            o.extend_from_slice(raw);
        }
        _ => {
            o.extend_from_slice(&[1, 1, 1, b'm', 1, 1, b'k', 9]);
            o.extend_from_slice(raw);
            if let Ok(n) = parsed {
                if n < 5000 {
                    o.extend(std::iter::repeat(0x80u8).take(n as usize));
                }
            }
        }
    }
    o.extend_from_slice(&c.tail.0);
    compare_with_reference(&o, obs)
}

fn nums() -> BoxedStrategy<Nums> {
    (num(), nonzero(), any::<bool>(), num()).prop_map(|(sid, fid, ack, val)| Nums { sid, fid, ack, val }).boxed()
}

pub fn c03() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "values",
            quick: 300_000,
            thorough: 6_000_000,
            threads: 8,
            rule: "three boundary-biased 64-bit numbers as stream id, frame id and value; non-trivial: one needs more than one byte",
            strategy: nums,
            check: c03_values,
        }),
        Box::new(Leg {
            name: "raw-encodings",
            quick: 300_000,
            thorough: 6_000_000,
            threads: 8,
            rule: "byte strings used as a varint in six positions of a frame, against a 128-bit reference; non-trivial: longer than one byte",
            strategy: raw_varint,
            check: c03_raw,
        }),
    ]
}

/// The reader must accept exactly what the strict reference decoder accepts, with the same values.
pub fn compare_with_reference(body: &[u8], obs: &mut Obs) -> R {
    let want = wire::decode(body);
    let (got, left) = read_one(BIG.max(body.len()), &wire::prefixed(body));
    ensure!(left == 0, "{left} of {} declared bytes left unread", body.len());
    match (want, got) {
        (Ok(f), Ok(g)) => {
            obs.label("accepted");
            ensure!(
                fr_from(&g).as_ref() == Some(&f),
                "decoded {} instead of {} from {:?}",
                short(&g),
                short(&f),
                Hex(body.to_vec())
            );
        }
        (Ok(f), Err(e)) => return Err(format!("well-formed {} refused with {e:?}: {:?}", short(&f), Hex(body.to_vec())).into()),
        (Err(wire::Bad::Malformed(why)), Ok(g)) => {
            return Err(format!("malformed frame ({why}) accepted as {}: {:?}", short(&g), Hex(body.to_vec())).into())
        }
        (Err(wire::Bad::Malformed(_)), Err(_)) => obs.label("refused"),
        (Err(wire::Bad::Open("unset frame")), Ok(g)) => {
            // A reader returning the empty placeholder must not have dropped a payload.
            ensure!(
                !(matches!(g, Frame::Unset) && wire::head(0, 0, 0, 0).len() < body.len()),
                "payload of an unset frame dropped: {:?}",
                Hex(body.to_vec())
            );
        }
        (Err(wire::Bad::Open(_)), _) => obs.label("unspecified"),
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vals {
    vals: Vec<Val>,
    ack: bool,
}

fn kind_label(v: &Val) -> &'static str {
    match v {
        Val::Null => "null",
        Val::Bool(_) => "bool",
        Val::I32(n) if *n < 0 => "int32<0",
        Val::I32(_) => "int32",
        Val::U32(_) => "uint32",
        Val::I64(n) if *n < 0 => "int64<0",
        Val::I64(_) => "int64",
        Val::U64(_) => "uint64",
        Val::V4(_) => "ipv4",
        Val::V6(_) => "ipv6",
        Val::Str(s) if s.is_empty() => "string empty",
        Val::Str(s) if s.len() >= 240 => "string>=240",
        Val::Str(_) => "string",
        Val::Bin(b) if b.0.is_empty() => "binary empty",
        Val::Bin(b) if b.0.len() >= 240 => "binary>=240",
        Val::Bin(_) => "binary",
    }
}

fn c04_wire(c: &Vals, obs: &mut Obs) -> R {
    for v in &c.vals {
        obs.label(kind_label(v));
        obs.nontrivial_if(*v != Val::Null);
    }
    let f = if c.ack {
        Fr::Ack {
            frag: false,
            abort: false,
            sid: 1,
            fid: 1,
            acts: c.vals.iter().enumerate().map(|(i, v)| Act::Set((i % 5) as u8, format!("v{i}"), v.clone())).collect(),
        }
    } else {
        Fr::Notify {
            frag: false,
            sid: 1,
            fid: 1,
            msgs: vec![Msg {
                name: "m".into(),
                args: c.vals.iter().enumerate().map(|(i, v)| (format!("v{i}"), v.clone())).collect(),
            }],
        }
    };
    let (r, bytes) = write_one(BIG, fr_to(&f));
    ensure!(r.is_ok(), "write refused {r:?} for {}", short(c));
    let want = wire::encode_prefixed(&f);
    ensure!(bytes == want, "encoded {:?} instead of {:?} for {}", Hex(bytes), Hex(want), short(c));
    let (r, _) = read_one(BIG, &bytes);
    let g = r.map_err(|e| Fail::from(format!("refused with {e:?}: {}", short(c))))?;
    let got: Vec<Val> = match &g {
        Frame::HaproxyNotify(n) => n.messages.iter().flat_map(|m| m.args.iter().map(|a| val_from(&a.1))).collect(),
        Frame::AgentAck(a) => a
            .actions
            .iter()
            .filter_map(|a| match a {
                spop::Action::SetVar { value, .. } => Some(val_from(value)),
                _ => None,
            })
            .collect(),
        _ => vec![],
    };
    ensure!(got == c.vals, "values {} arrived as {}", short(&c.vals), short(&got));
    Ok(())
}

/// Values that differ from this one in very little.
fn near(v: &Val) -> Vec<Val> {
    let other = |b: &[u8]| {
        let mut b = b.to_vec();
        match b.last_mut() {
            Some(x) => *x ^= 1,
            None => b.push(0),
        }
        b
    };
    match v {
        Val::Null => vec![Val::Bool(false)],
        Val::Bool(b) => vec![Val::Bool(!b), Val::I32(*b as i32)],
        Val::I32(n) => vec![Val::I32(n ^ 1), Val::U32(*n as u32), Val::I64((*n).into())],
        Val::U32(n) => vec![Val::U32(n ^ 1 << 31), Val::I32(*n as i32), Val::U64((*n).into())],
        Val::I64(n) => vec![Val::I64(n ^ 1 << 40), Val::U64(*n as u64), Val::I32(*n as i32)],
        Val::U64(n) => vec![Val::U64(n ^ 1 << 63), Val::I64(*n as i64), Val::U32(*n as u32)],
        Val::V4(a) => {
            vec![Val::V4([a[0], a[1], a[2], a[3] ^ 1]), Val::V6(std::net::Ipv4Addr::from(*a).to_ipv6_mapped().octets())]
        }
        Val::V6(a) => {
            let mut b = *a;
            b[0] ^= 1;
            vec![Val::V6(b), Val::Bin(Hex(a.to_vec()))]
        }
        Val::Str(s) => vec![Val::Bin(Hex(s.as_bytes().to_vec())), Val::Str(format!("{s}\0"))],
        Val::Bin(b) => vec![Val::Bin(Hex(other(&b.0))), Val::Bin(Hex([&b.0[..], &[0]].concat()))],
    }
}

fn c04_convert(c: &Vals, obs: &mut Obs) -> R {
    use spop::Typed as T;
    use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
    for v in &c.vals {
        obs.label(kind_label(v));
        obs.nontrivial_if(*v != Val::Null);
        let t: T = match v {
            Val::Null => T::from(()),
            Val::Bool(b) => T::from(*b),
            Val::I32(n) => T::from(*n),
            Val::U32(n) => T::from(*n),
            Val::I64(n) => T::from(*n),
            Val::U64(n) => T::from(*n),
            Val::V4(a) => T::from(Ipv4Addr::from(*a)),
            Val::V6(a) => T::from(Ipv6Addr::from(*a)),
            Val::Str(s) => T::from(s.clone()),
            Val::Bin(b) => T::from(b.0.clone()),
        };
        ensure!(val_from(&t) == *v, "native value of {v:?} converts to {t:?}");
        // other ways in
        let alt: Vec<T> = match v {
            Val::V4(a) => vec![T::from(IpAddr::from(*a))],
            Val::V6(a) => vec![T::from(IpAddr::from(*a))],
            Val::Str(s) => vec![T::from(s.as_str())],
            Val::Bin(b) => vec![
                T::from(&b.0[..]),
                T::from(b.0.clone().into_boxed_slice()),
                T::from(bytes::BytesMut::from(&b.0[..])),
                T::from(bytes::Bytes::from(b.0.clone())),
            ],
            _ => vec![],
        };
        for a in alt {
            ensure!(a == t, "{a:?} from an equivalent native value differs from {t:?}");
        }
        for w in c.vals.iter().chain(&near(v)) {
            ensure!((val_to(w) == t) == (w == v), "{} and {} compare as {}", short(w), short(v), val_to(w) == t);
        }
        // out, as every type
        macro_rules! out {
            ($ty:ty, $k:pat, $f:expr) => {
                match <$ty>::try_from(t.clone()) {
                    Ok(x) => {
                        ensure!(matches!(v, $k), "{v:?} extracted as {}: {x:?}", stringify!($ty));
                        let back: Val = ($f)(x);
                        ensure!(back == *v, "{v:?} extracted as {back:?}");
                    }
                    Err(_) => ensure!(!matches!(v, $k), "{v:?} cannot be extracted as {}", stringify!($ty)),
                }
            };
        }
        out!(bool, Val::Bool(_), Val::Bool);
        out!(i32, Val::I32(_), Val::I32);
        out!(u32, Val::U32(_), Val::U32);
        out!(i64, Val::I64(_), Val::I64);
        out!(u64, Val::U64(_), Val::U64);
        out!(Ipv4Addr, Val::V4(_), |a: Ipv4Addr| Val::V4(a.octets()));
        out!(Ipv6Addr, Val::V6(_), |a: Ipv6Addr| Val::V6(a.octets()));
        out!(String, Val::Str(_), Val::Str);
        out!(bytes::Bytes, Val::Bin(_), |b: bytes::Bytes| Val::Bin(Hex(b.to_vec())));
    }
    Ok(())
}

fn vals() -> BoxedStrategy<Vals> {
    (prop_oneof![5 => vec(val(5000), 1..4), 1 => vec(val(20), 4..40)], any::<bool>())
        .prop_map(|(vals, ack)| Vals { vals, ack })
        .boxed()
}

pub fn c04() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "carried",
            quick: 150_000,
            thorough: 3_000_000,
            threads: 8,
            rule: "lists of generated values carried as message arguments or action values; non-trivial: a value other than null",
            strategy: vals,
            check: c04_wire,
        }),
        Box::new(Leg {
            name: "conversions",
            quick: 80_000,
            thorough: 1_500_000,
            threads: 8,
            rule: "native value -> typed -> every native type; non-trivial: a value other than null",
            strategy: vals,
            check: c04_convert,
        }),
    ]
}

// ------------------------------------------------------------------ mutated frames

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    Truncate(u16),
    Append(Hex),
    Xor(u16, u8),
    Set(u16, u8),
    Delete(u16, u8),
    Insert(u16, Hex),
    /// Removes / doubles / exchanges whole protocol elements.
    DropToken(u16),
    DupToken(u16),
    SwapToken(u16, u16),
    /// Overwrites one element by other bytes.
    ReplaceToken(u16, Hex),
}

fn interesting() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 101, 102, 103, 127, 128, 239, 240, 241, 254, 255]),
        1 => any::<u8>(),
    ]
    .boxed()
}

pub fn mutation() -> BoxedStrategy<Mutation> {
    let bytes = || vec(interesting(), 1..6).prop_map(Hex);
    prop_oneof![
        2 => any::<u16>().prop_map(Mutation::Truncate),
        2 => bytes().prop_map(Mutation::Append),
        1 => (any::<u16>(), 1u8..=255).prop_map(|(p, x)| Mutation::Xor(p, x)),
        3 => (any::<u16>(), interesting()).prop_map(|(p, x)| Mutation::Set(p, x)),
        1 => (any::<u16>(), 1u8..5).prop_map(|(p, n)| Mutation::Delete(p, n)),
        1 => (any::<u16>(), bytes()).prop_map(|(p, b)| Mutation::Insert(p, b)),
        2 => any::<u16>().prop_map(Mutation::DropToken),
        2 => any::<u16>().prop_map(Mutation::DupToken),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mutation::SwapToken(a, b)),
        3 => (any::<u16>(), bytes()).prop_map(|(a, b)| Mutation::ReplaceToken(a, b)),
    ]
    .boxed()
}

/// The elements of a frame's encoding, one per token.
fn tokens(f: &Fr) -> Vec<Vec<u8>> {
    let mut t: Vec<Vec<u8>> = vec![];
    let enc = wire::encode(f);
    let mut r = wire::Rd::new(&enc);
    let cut = |t: &mut Vec<Vec<u8>>, from: usize, to: usize| t.push(enc[from..to].to_vec());
    let mut mark = 0;
    macro_rules! tok {
        ($e:expr) => {{
            let v = $e.unwrap();
            cut(&mut t, mark, r.i);
            #[allow(unused_assignments)]
            {
                mark = r.i;
            }
            v
        }};
    }
    let ty = tok!(r.u8());
    tok!(r.take(4));
    tok!(r.varint());
    tok!(r.varint());
    while r.left() > 0 {
        match ty {
            wire::HAPROXY_NOTIFY => {
                tok!(r.string());
                let n = tok!(r.u8());
                for _ in 0..n {
                    tok!(r.string());
                    tok!(r.val());
                }
            }
            wire::AGENT_ACK => {
                let k = tok!(r.u8());
                tok!(r.u8());
                tok!(r.u8());
                tok!(r.string());
                if k == 1 {
                    tok!(r.val());
                }
            }
            _ => {
                tok!(r.string());
                tok!(r.val());
            }
        }
    }
    t
}

pub fn mutate(f: &Fr, ms: &[Mutation]) -> Vec<u8> {
    let mut t = tokens(f);
    // element-level first, then byte-level
    for m in ms {
        let n = t.len();
        if n == 0 {
            break;
        }
        match m {
            Mutation::DropToken(i) => {
                t.remove(*i as usize % n);
            }
            Mutation::DupToken(i) => {
                let x = t[*i as usize % n].clone();
                t.insert(*i as usize % n, x);
            }
            Mutation::SwapToken(i, j) => t.swap(*i as usize % n, *j as usize % n),
            Mutation::ReplaceToken(i, b) => t[*i as usize % n] = b.0.clone(),
            _ => {}
        }
    }
    let mut o: Vec<u8> = t.concat();
    for m in ms {
        let n = o.len();
        match m {
            Mutation::Append(b) => o.extend_from_slice(&b.0),
            Mutation::Truncate(p) if n > 0 => o.truncate(*p as usize % n),
            Mutation::Xor(p, x) if n > 0 => o[*p as usize % n] ^= x,
            Mutation::Set(p, x) if n > 0 => o[*p as usize % n] = *x,
            Mutation::Delete(p, k) if n > 0 => {
                let a = *p as usize % n;
                o.drain(a..(a + *k as usize).min(n));
            }
            Mutation::Insert(p, b) => {
                let a = *p as usize % (n + 1);
                o.splice(a..a, b.0.iter().copied());
            }
            _ => {}
        }
    }
    o
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutated {
    frame: Fr,
    mutations: Vec<Mutation>,
}

fn mutated() -> BoxedStrategy<Mutated> {
    (prop_oneof![3 => frame(12), 1 => frame(300)], vec(mutation(), 1..4))
        .prop_map(|(frame, mutations)| Mutated { frame, mutations })
        .boxed()
}

fn c06_mutated(c: &Mutated, obs: &mut Obs) -> R {
    let b = mutate(&c.frame, &c.mutations);
    obs.label(c.frame.kind());
    obs.nontrivial_if(b != wire::encode(&c.frame) && b.len() > 7);
    compare_with_reference(&b, obs)
}

fn c06_prefixes(c: &Frames, obs: &mut Obs) -> R {
    classify_frames(&c.frames, obs);
    for f in &c.frames {
        let b = wire::encode(f);
        compare_with_reference(&b, obs)?;
        let step = (b.len() / 300).max(1);
        for n in (0..b.len()).step_by(step) {
            compare_with_reference(&b[..n], obs)?;
        }
        // and every single trailing byte
        for x in [0u8, 1, 2, 3, 9, 16, 97, 240, 255] {
            let mut e = b.clone();
            e.push(x);
            compare_with_reference(&e, obs)?;
        }
    }
    Ok(())
}

fn one_frame() -> BoxedStrategy<Frames> {
    frame(300).prop_map(|f| Frames { frames: vec![f] }).boxed()
}

/// A message list in which one element is invalid and the attacker controls what follows.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Smuggle {
    before: Vec<Msg>,
    kind: u8,
    smuggled: Vec<Msg>,
    raw: Hex,
    count: u8,
}

fn smuggle() -> BoxedStrategy<Smuggle> {
    (vec(msg_sized(8, 3), 0..3), 0u8..5, vec(msg_sized(8, 3), 1..3), vec(0x80u8..=0xff, 1..4), 0u8..6)
        .prop_map(|(before, kind, smuggled, raw, count)| Smuggle { before, kind, smuggled, raw: Hex(raw), count })
        .boxed()
}

fn c06_smuggle(c: &Smuggle, obs: &mut Obs) -> R {
    obs.nontrivial = true;
    let mut o = wire::head(wire::HAPROXY_NOTIFY, wire::FIN, 1, 1);
    for m in &c.before {
        wire::put_msg(&mut o, m);
    }
    let bad_text = |o: &mut Vec<u8>| {
        o.push(8);
        wire::put_varint(o, c.raw.0.len() as u64);
        o.extend_from_slice(&c.raw.0);
    };
    match c.kind {
        // invalid text as an argument value
        0 => {
            wire::put_str(&mut o, "req");
            o.push(c.count);
            wire::put_str(&mut o, "path");
            bad_text(&mut o);
        }
        // reserved data type as an argument value
        1 => {
            wire::put_str(&mut o, "req");
            o.push(c.count);
            wire::put_str(&mut o, "x");
            o.push(10 + (c.raw.0[0] & 3));
        }
        // invalid text as argument name
        2 => {
            wire::put_str(&mut o, "req");
            o.push(c.count);
            wire::put_varint(&mut o, c.raw.0.len() as u64);
            o.extend_from_slice(&c.raw.0);
        }
        // argument count larger or smaller than what follows
        3 => {
            wire::put_str(&mut o, "req");
            o.push(c.count);
        }
        // invalid text as a message name
        _ => {
            wire::put_varint(&mut o, c.raw.0.len() as u64);
            o.extend_from_slice(&c.raw.0);
        }
    }
    for m in &c.smuggled {
        wire::put_msg(&mut o, m);
    }
    compare_with_reference(&o, obs)
}

/// Frames whose ids, type and flags are free.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Header {
    ty: u8,
    flags: u32,
    sid: u64,
    fid: u64,
    body: Fr,
}

fn header() -> BoxedStrategy<Header> {
    (
        prop_oneof![8 => prop::sample::select(vec![1u8, 2, 3, 101, 102, 103]), 1 => Just(0u8), 1 => 4u8..101, 1 => any::<u8>()],
        prop_oneof![3 => Just(1u32), 2 => 0u32..4, 1 => any::<u32>()],
        prop_oneof![2 => Just(0u64), 2 => num()],
        prop_oneof![2 => Just(0u64), 2 => num()],
        frame(12),
    )
        .prop_map(|(ty, flags, sid, fid, body)| Header { ty, flags, sid, fid, body })
        .boxed()
}

fn c06_header(c: &Header, obs: &mut Obs) -> R {
    let mut o = wire::head(c.ty, c.flags, c.sid, c.fid);
    for t in &tokens(&c.body)[4..] {
        o.extend_from_slice(t);
    }
    obs.nontrivial_if(o.len() > 7);
    compare_with_reference(&o, obs)
}

/// Conformant items with one missing, doubled or replaced by another type.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Items {
    frame: Fr,
    which: u8,
    with: Option<Val>,
    text: Option<String>,
}

fn items_case() -> BoxedStrategy<Items> {
    (
        prop_oneof![
            2 => hhello(20),
            1 => (version(), u32s(), vec(0u8..3, 0..4)).prop_map(|(version, mfs, caps)| Fr::AHello { version, mfs, caps }),
            1 => (codes(), text(20)).prop_map(|(code, msg)| Fr::HDisc { code, msg }),
        ],
        any::<u8>(),
        prop::option::of(val(20)),
        prop::option::of(prop_oneof![
            prop::sample::select(vec![
                "",
                "2",
                "2.",
                ".0",
                "2.0.0",
                "x.y",
                "2.0,",
                "2.0,,1.0",
                "2.0;1.0",
                "-1.0",
                "2.x",
                "fragmentation;async",
                "1.0,two"
            ])
            .prop_map(String::from),
            "[0-9]{1,2}\\.[0-9]{1,2}(, ?[0-9]{1,2}\\.[0-9]{1,2}){0,3}",
        ]),
    )
        .prop_map(|(frame, which, with, text)| Items { frame, which, with, text })
        .boxed()
}

fn c06_items(c: &Items, obs: &mut Obs) -> R {
    let (ty, mut kv) = wire::items(&c.frame).unwrap();
    let n = kv.len();
    let i = c.which as usize % n;
    obs.nontrivial = true;
    obs.label(c.frame.kind());
    match (&c.with, &c.text) {
        (Some(v), _) => kv[i].1 = v.clone(),
        (None, Some(s)) => {
            for (k, v) in kv.iter_mut() {
                if k == "supported-versions" || k == "version" {
                    *v = Val::Str(s.clone());
                }
            }
        }
        (None, None) => {
            kv.remove(i);
        }
    }
    let mut o = wire::head(ty, wire::FIN, 0, 0);
    for (k, v) in &kv {
        wire::put_str(&mut o, k);
        wire::put_val(&mut o, v);
    }
    compare_with_reference(&o, obs)
}

/// A frame of many elements, damaged somewhere.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pieces {
    kind: u8,
    items: u32,
    name: u8,
    /// Where, in 1/2^32 of the frame, and how.
    damage: Vec<(u32, u8, u8)>,
}

fn c06_pieces(c: &Pieces, obs: &mut Obs) -> R {
    let (mut b, _) = Wide { kind: c.kind, items: c.items, name: c.name, limit: 0, cut: None }.body();
    obs.label(WIDE_KINDS[c.kind as usize]);
    for (p, how, x) in &c.damage {
        let at = (b.len() as u64 * u64::from(*p) >> 32) as usize;
        match how {
            0 => b.truncate(at),
            1 => b[at] = *x,
            2 => b.insert(at, *x),
            3 => {
                b.remove(at);
            }
            4 => b.push(*x),
            _ => {
                let n = b.len();
                b[n - 1] = *x;
            }
        }
        if b.is_empty() {
            break;
        }
    }
    obs.label_if(b.len() > 65_536, "more than 64 kB");
    obs.nontrivial_if(c.items > 64);
    compare_with_reference(&b, obs)
}

fn pieces() -> BoxedStrategy<Pieces> {
    (
        0u8..WIDE_KINDS.len() as u8,
        prop_oneof![4 => 0u32..400, 3 => 400u32..3000, 1 => 3000u32..70_000],
        prop_oneof![3 => 0u8..4, 1 => 0u8..40],
        vec((prop_oneof![3 => any::<u32>(), 1 => Just(0), 1 => Just(u32::MAX)], 0u8..6, interesting()), 0..3),
    )
        .prop_map(|(kind, items, name, damage)| Pieces { kind, items, name, damage })
        .boxed()
}

pub fn c06() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "many-pieces",
            quick: 6_000,
            thorough: 200_000,
            threads: 8,
            rule: "frames of up to 70,000 elements, whole or with up to two bytes damaged anywhere, accepted iff an independent strict decoder accepts, with equal value; non-trivial: more than 64 elements",
            strategy: pieces,
            check: c06_pieces,
        }),
        Box::new(Leg {
            name: "mutated-frames",
            quick: 300_000,
            thorough: 8_000_000,
            threads: 8,
            rule: "valid frames with 1..3 element or byte mutations, accepted iff an independent strict decoder accepts, with equal value; non-trivial: bytes differ from the valid frame and go beyond the header",
            strategy: mutated,
            check: c06_mutated,
        }),
        Box::new(Leg {
            name: "prefixes-and-extensions",
            quick: 6_000,
            thorough: 150_000,
            threads: 8,
            rule: "every prefix (up to 300 per frame) and nine one-byte extensions of a valid frame; non-trivial: frame with content",
            strategy: one_frame,
            check: c06_prefixes,
        }),
        Box::new(Leg {
            name: "smuggling",
            quick: 80_000,
            thorough: 1_500_000,
            threads: 8,
            rule: "an invalid element in a message list followed by well-formed messages; all non-trivial",
            strategy: smuggle,
            check: c06_smuggle,
        }),
        Box::new(Leg {
            name: "headers",
            quick: 150_000,
            thorough: 3_000_000,
            threads: 8,
            rule: "free type, flags and ids in front of a payload of any frame type; non-trivial: payload present",
            strategy: header,
            check: c06_header,
        }),
        Box::new(Leg {
            name: "items",
            quick: 80_000,
            thorough: 1_500_000,
            threads: 8,
            rule: "hello and disconnect frames with one item missing or of another type or text; all non-trivial",
            strategy: items_case,
            check: c06_items,
        }),
    ]
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Valid(Fr),
    Mutated(Mutated),
    Garbage(Hex),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    pieces: Vec<Piece>,
    limit: u32,
    tail: Hex,
}

fn garbage() -> BoxedStrategy<Hex> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..40),
        2 => (prop::sample::select(vec![0u8, 1, 2, 3, 101, 102, 103]), vec(interesting(), 0..200)).prop_map(|(t, mut v)| {
            v.insert(0, t);
            v
        }),
        // a valid header, then garbage
        4 => (prop::sample::select(vec![1u8, 2, 3, 101, 102, 103]), num(), num(), vec(interesting(), 0..300)).prop_map(|(t, a, b, v)| {
            let conn = ![3u8, 103].contains(&t);
            let mut o = wire::head(t, 1, if conn { 0 } else { a }, if conn { 0 } else { b });
            o.extend(v);
            o
        }),
        1 => (any::<u8>(), 0usize..3000).prop_map(|(b, n)| vec![b; n]),
    ]
    .prop_map(Hex)
    .boxed()
}

fn stream() -> BoxedStrategy<Stream> {
    let piece = prop_oneof![
        3 => frame(200).prop_map(Piece::Valid),
        3 => mutated().prop_map(Piece::Mutated),
        4 => garbage().prop_map(Piece::Garbage),
        1 => Just(Piece::Empty),
    ];
    (
        vec(piece, 1..8),
        prop_oneof![2 => Just(1u32 << 20), 1 => Just(16384u32), 1 => Just(256u32), 1 => 0u32..2000],
        prop_oneof![3 => Just(vec![]), 2 => vec(any::<u8>(), 0..30), 2 => vec(any::<u8>(), 0..30).prop_map(|mut v| { let mut o = vec![0,0,0,40]; o.append(&mut v); o })],
    )
        .prop_map(|(pieces, limit, tail)| Stream { pieces, limit, tail: Hex(tail) })
        .boxed()
}

/// What one frame may cost in memory: the limit (reading) plus a multiple of its length (holding).
fn memory_bound(limit: usize, len: usize) -> i64 {
    (4 * limit + 256 * len + 65_536) as i64
}

/// Memory is only held against a case if it is taken every time: tables built on first use (text
/// patterns, thread caches) are taken once.
fn settled(mut f: impl FnMut() -> R) -> R {
    for _ in 0..3 {
        match f() {
            Err(e) if e.msg.ends_with("bytes of memory") => {}
            r => return r,
        }
    }
    f()
}

fn c05_stream(c: &Stream, obs: &mut Obs) -> R {
    settled(|| c05_stream_once(c, obs))
}
pub fn c05_raw(c: &Raw, obs: &mut Obs) -> R {
    settled(|| c05_raw_once(c, obs))
}

fn c05_stream_once(c: &Stream, obs: &mut Obs) -> R {
    let limit = c.limit as usize;
    let mut bytes = vec![];
    let mut ends = vec![];
    for p in &c.pieces {
        let body = match p {
            Piece::Valid(f) => wire::encode(f),
            Piece::Mutated(m) => mutate(&m.frame, &m.mutations),
            Piece::Garbage(b) => b.0.clone(),
            Piece::Empty => vec![],
        };
        bytes.extend(wire::prefixed(&body));
        ends.push((p, body.len(), bytes.len()));
    }
    bytes.extend_from_slice(&c.tail.0);
    for buffered in [false, true] {
        let t = Scripted::new(&bytes);
        let framer = Framer::new(limit);
        let mut codec = BufCodec::buffered(t.clone(), Framer::new(limit));
        let mut after_garbage = false;
        let mut stopped = false;
        for (p, len, end) in &ends {
            let (r, peak) =
                alloc::peak(|| if buffered { drive(codec.read_frame()) } else { drive(framer.read_frame(t.clone())) });
            ensure!(peak <= memory_bound(limit, *len), "reading a {len}-byte frame (limit {limit}) took {peak} bytes of memory");
            if *len > limit {
                ensure!(r.is_err(), "frame of {len} bytes accepted with limit {limit}");
                stopped = true;
                obs.label("over the limit");
                break;
            }
            if !buffered {
                let at = bytes.len() - t.unread();
                ensure!(at == *end, "reading consumed up to byte {at} instead of {end} ({})", short(p));
            }
            match p {
                Piece::Valid(f) => {
                    obs.label_if(after_garbage, "valid frame after garbage");
                    obs.nontrivial_if(after_garbage);
                    match r {
                        Ok(g) => {
                            ensure!(fr_from(&g).as_ref() == Some(f), "decoded {} instead of {}", short(&g), short(f))
                        }
                        Err(e) => {
                            return Err(
                                format!("valid frame refused with {e:?} (after garbage: {after_garbage}): {}", short(f)).into()
                            )
                        }
                    }
                }
                _ => {
                    obs.label(if r.is_ok() { "garbage read as a frame" } else { "garbage refused" });
                    after_garbage = true;
                }
            }
        }
        if !stopped {
            // whatever is left: errors or frames, but the stream ends with an I/O error
            let mut n = 0;
            loop {
                let before = t.unread();
                let r = if buffered { drive(codec.read_frame()) } else { drive(framer.read_frame(t.clone())) };
                n += 1;
                if let Err(St::Io) = r {
                    break;
                }
                if !buffered {
                    ensure!(t.unread() < before, "a read consumed nothing and returned {}", short(&r));
                }
                if n > c.tail.0.len() + 2 {
                    return Err(format!("{n} reads out of {} trailing bytes", c.tail.0.len()).into());
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub bytes: Hex,
    pub limit: u32,
}

fn c05_raw_once(c: &Raw, obs: &mut Obs) -> R {
    let limit = c.limit as usize;
    let t = Scripted::new(&c.bytes.0);
    let framer = Framer::new(limit);
    let mut rest = &c.bytes.0[..];
    loop {
        let (r, peak) = alloc::peak(|| drive(framer.read_frame(t.clone())));
        let used = rest.len() - t.unread();
        if rest.len() < 4 {
            ensure!(matches!(r, Err(St::Io)), "{} bytes are not a frame, yet: {}", rest.len(), short(&r));
            return Ok(());
        }
        let len = u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize;
        ensure!(
            peak <= memory_bound(limit, len.min(rest.len())),
            "reading a {len}-byte frame (limit {limit}) took {peak} bytes of memory"
        );
        if len > limit {
            obs.label("declared over the limit");
            ensure!(r.is_err(), "frame of {len} bytes accepted with limit {limit}");
            ensure!(used == 4, "{used} bytes consumed of a frame declared over the limit");
            return Ok(());
        }
        if rest.len() - 4 < len {
            obs.label("incomplete");
            ensure!(matches!(r, Err(St::Io)), "an incomplete frame gave {}", short(&r));
            return Ok(());
        }
        obs.nontrivial_if(len > 7);
        obs.label("complete frame");
        ensure!(used == 4 + len, "reading consumed {used} bytes of a frame of {len}");
        rest = &rest[used..];
    }
}

const WIDE_KINDS: [&str; 9] = [
    "messages",
    "arguments",
    "unset",
    "set",
    "unknown items",
    "versions",
    "unknown items first",
    "items of a disconnect",
    "items of an agent hello",
];

/// A frame of as many pieces as fit: messages, arguments of one message, actions or key-value items.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wide {
    kind: u8,
    items: u32,
    name: u8,
    limit: u32,
    /// How much of the frame is there, in 1/2^32.
    cut: Option<u32>,
}
impl Wide {
    fn body(&self) -> (Vec<u8>, Option<Fr>) {
        let n = self.items as usize;
        let name = "n".repeat(self.name as usize);
        match self.kind {
            0 | 1 => {
                let msgs = if self.kind == 0 {
                    vec![Msg { name, args: vec![] }; n]
                } else {
                    vec![Msg { name: "m".into(), args: vec![(name, Val::Bool(true)); n.min(255)] }; n.div_ceil(255)]
                };
                let f = Fr::Notify { frag: false, sid: 1, fid: 1, msgs };
                (wire::encode(&f), Some(f))
            }
            2 | 3 => {
                let one = if self.kind == 2 { Act::Unset(2, name) } else { Act::Set(1, name, Val::U32(7)) };
                let f = Fr::Ack { frag: false, abort: false, sid: 1, fid: 1, acts: vec![one; n] };
                (wire::encode(&f), Some(f))
            }
            4 => {
                // a hello with many items nobody knows
                let f = Fr::HHello { versions: vec![(2, 0)], mfs: 1000, caps: vec![], hc: None, eid: None };
                let mut b = wire::encode(&f);
                for _ in 0..n {
                    wire::put_str(&mut b, &name);
                    wire::put_val(&mut b, &Val::Null);
                }
                (b, (!["healthcheck", "engine-id"].contains(&name.as_str())).then_some(f))
            }
            6..=8 => {
                // many items nobody knows, before, between and behind those that matter
                let f = match self.kind {
                    6 => Fr::HHello { versions: vec![(2, 0)], mfs: 1000, caps: vec![1], hc: Some(false), eid: Some("e".into()) },
                    7 => Fr::HDisc { code: 5, msg: "five".into() },
                    _ => Fr::AHello { version: (2, 0), mfs: 1000, caps: vec![2] },
                };
                let (ty, kv) = wire::items(&f).unwrap();
                let mut b = wire::head(ty, wire::FIN, 0, 0);
                let mut rest = kv.iter();
                let gap = n / kv.len() + usize::from(self.name % 2 == 0);
                for i in 0..n {
                    wire::put_str(&mut b, &format!("{name}{i}"));
                    wire::put_val(&mut b, &if i % 3 == 0 { Val::Null } else { Val::U32(i as u32) });
                    if i % gap.max(1) == gap / 2 {
                        if let Some((k, v)) = rest.next() {
                            wire::put_str(&mut b, k);
                            wire::put_val(&mut b, v);
                        }
                    }
                }
                for (k, v) in rest {
                    wire::put_str(&mut b, k);
                    wire::put_val(&mut b, v);
                }
                (b, Some(f))
            }
            _ => {
                // one list of versions
                let f = Fr::HHello { versions: vec![(2, 0); n.max(1)], mfs: 1000, caps: vec![], hc: None, eid: None };
                (wire::encode(&f), Some(f))
            }
        }
    }
}

fn c05_wide(c: &Wide, obs: &mut Obs) -> R {
    settled(|| c05_wide_once(c, obs))
}
fn c05_wide_once(c: &Wide, obs: &mut Obs) -> R {
    let (mut body, mut f) = c.body();
    if let Some(cut) = c.cut {
        body.truncate((body.len() as u64 * u64::from(cut) >> 32) as usize);
        f = None;
    }
    let limit = c.limit as usize;
    let bytes = wire::prefixed(&body);
    let t = Scripted::new(&bytes);
    let framer = Framer::new(limit);
    let (r, peak) = alloc::peak(|| drive(framer.read_frame(t.clone())));
    ensure!(
        peak <= memory_bound(limit, body.len()),
        "reading a {}-byte frame (limit {limit}) took {peak} bytes of memory",
        body.len()
    );
    obs.label(WIDE_KINDS[c.kind as usize]);
    if body.len() > limit {
        obs.label("over the limit");
        ensure!(r.is_err(), "frame of {} bytes accepted with limit {limit}", body.len());
        return Ok(());
    }
    ensure!(t.unread() == 0, "{} of {} bytes not consumed", t.unread(), bytes.len());
    obs.nontrivial_if(c.items > 1000);
    match (r, f) {
        (Ok(g), Some(f)) => {
            ensure!(fr_from(&g).as_ref() == Some(&f), "decoded {} instead of {}", short(&g), short(&f));
            if body.len() < 1 << 20 && c.kind < 4 {
                let (r, out) = write_one(limit, fr_to(&f));
                ensure!(r.is_ok() && out == bytes, "a frame of {} bytes is written as {} bytes: {r:?}", bytes.len(), out.len());
            }
        }
        (Err(e), Some(_)) => return Err(format!("a valid frame of {} pieces is refused with {e:?}", c.items).into()),
        (r, None) => obs.label(if r.is_ok() { "cut short, read" } else { "cut short, refused" }),
    }
    Ok(())
}

fn wide() -> BoxedStrategy<Wide> {
    (
        0u8..WIDE_KINDS.len() as u8,
        prop_oneof![3 => 0u32..2000, 3 => 2000u32..60_000, 1 => 60_000u32..300_000],
        prop_oneof![3 => 0u8..4, 1 => any::<u8>()],
        prop_oneof![3 => Just(4u32 << 20), 1 => Just(1u32 << 20), 1 => Just(65_536u32), 1 => Just(16_384u32)],
        prop_oneof![3 => Just(None), 1 => any::<u32>().prop_map(Some)],
    )
        .prop_map(|(kind, items, name, limit, cut)| Wide { kind, items: items / (1 + u32::from(name) / 8), name, limit, cut })
        .boxed()
}

fn raw() -> BoxedStrategy<Raw> {
    let framed = vec(garbage(), 1..6).prop_map(|v| v.iter().flat_map(|g| wire::prefixed(&g.0)).collect::<Vec<u8>>());
    (
        prop_oneof![2 => vec(any::<u8>(), 0..64), 4 => framed, 1 => vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 0..80)],
        prop_oneof![Just(0u32), Just(1u32 << 20), Just(256u32), 0u32..64],
    )
        .prop_map(|(b, limit)| Raw { bytes: Hex(b), limit })
        .boxed()
}

pub fn c05() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "streams",
            quick: 40_000,
            thorough: 1_000_000,
            threads: 8,
            rule:
                "streams of valid, mutated and garbage frames with a raw tail, read by framer and buffered codec; non-trivial: a valid frame read after garbage",
            strategy: stream,
            check: c05_stream,
        }),
        Box::new(Leg {
            name: "raw-bytes",
            quick: 150_000,
            thorough: 4_000_000,
            threads: 8,
            rule: "unstructured byte streams and framed garbage; non-trivial: a complete frame of more than a header",
            strategy: raw,
            check: c05_raw,
        }),
        Box::new(Leg {
            name: "wide",
            quick: 1_500,
            thorough: 40_000,
            threads: 8,
            rule:
                "frames of up to 300,000 messages, arguments, actions, unknown items or versions, whole or cut short, read on a 2 MB stack; non-trivial: more than a thousand pieces within the limit",
            strategy: wide,
            check: c05_wide,
        }),
    ]
}

// ------------------------------------------------------------------ C07

/// A frame whose encoding has exactly `n` bytes (n >= 24), if there is one.
pub fn sized_frame(n: usize, ack: bool, id: u64) -> Option<Fr> {
    let mk = |name: usize, k: usize| {
        let v = Val::Bin(Hex(vec![0x5a; k]));
        if ack {
            Fr::Ack { frag: false, abort: false, sid: id, fid: 1, acts: vec![Act::Set(2, "n".repeat(name), v)] }
        } else {
            Fr::Notify { frag: false, sid: id, fid: 1, msgs: vec![Msg { name: "n".repeat(name), args: vec![("a".into(), v)] }] }
        }
    };
    for name in 1..6 {
        let base = wire::encode(&mk(name, 0)).len();
        if base > n {
            continue;
        }
        for d in 0..6usize {
            let k = (n - base).saturating_sub(d);
            let f = mk(name, k);
            if wire::encode(&f).len() == n {
                return Some(f);
            }
        }
    }
    None
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Limit {
    limit: u32,
    delta: i32,
    /// By how much more, in multiples of 2^32, the limit is above what frames can have.
    #[serde(default)]
    above: u8,
    ack: bool,
    id: u64,
    buffered: bool,
    trailing: u8,
}

fn limits() -> BoxedStrategy<Limit> {
    (
        prop_oneof![
            4 => prop::sample::select(vec![30u32, 64, 255, 256, 257, 1024, 2288, 4096, 8192, 16380, 16384, 65536]),
            2 => 30u32..20_000,
        ],
        prop_oneof![6 => -3i32..5, 2 => -200i32..200, 1 => Just(i32::MAX), 1 => 1000i32..100_000],
        prop_oneof![9 => Just(0u8), 1 => 1u8..=255],
        any::<bool>(),
        num(),
        any::<bool>(),
        0u8..40,
    )
        .prop_map(|(limit, delta, above, ack, id, buffered, trailing)| Limit { limit, delta, above, ack, id, buffered, trailing })
        .boxed()
}

impl Limit {
    fn limit(&self) -> usize {
        match self.above {
            255 => usize::MAX,
            n => beyond(self.limit, n),
        }
    }
}

fn beyond(limit: u32, above: u8) -> usize {
    // All of 2^32..2^63 in few steps.
    let more = match above {
        0 => 0,
        n => 1usize << (32 + (n as usize - 1) % 31),
    };
    more + limit as usize
}

fn c07_read(c: &Limit, obs: &mut Obs) -> R {
    let limit = c.limit();
    obs.label_if(c.above > 0, "limit above 32 bits");
    let size = c.limit as i64 + c.delta as i64;
    let huge = c.above == 0 && size > limit as i64 + 300_000;
    let size = if c.above > 0 { size.min(c.limit as i64 + 200_000) } else { size };
    let body = if huge {
        vec![7; 64]
    } else {
        match sized_frame(size.max(0) as usize, c.ack, c.id) {
            Some(f) => wire::encode(&f),
            None => return Ok(()),
        }
    };
    let declared = if huge { size.min(u32::MAX as i64) as u32 } else { body.len() as u32 };
    let mut bytes = declared.to_be_bytes().to_vec();
    bytes.extend_from_slice(&body);
    bytes.extend(std::iter::repeat(0xee).take(c.trailing as usize));
    let t = Scripted::new(&bytes);
    let ((r, left), peak) = if c.buffered {
        let mut codec = BufCodec::buffered(t.clone(), Framer::new(limit));
        let (r, peak) = alloc::peak(|| drive(codec.read_frame()));
        ((r, None), peak)
    } else {
        let (r, peak) = alloc::peak(|| drive(Framer::new(limit).read_frame(t.clone())));
        ((r, Some(t.unread())), peak)
    };
    if declared as usize > limit {
        obs.nontrivial = true;
        obs.label("over");
        match r {
            Err(St::TooBig | St::BadFrameSize) => {}
            x => return Err(format!("a {declared}-byte frame with limit {limit} gave {}", short(&x)).into()),
        }
        if let Some(left) = left {
            ensure!(left == bytes.len() - 4, "payload bytes of an oversized frame were consumed: {left} of {} left", bytes.len());
        }
        ensure!(peak < 16_384, "refusing a {declared}-byte frame (limit {limit}) reserved {peak} bytes");
    } else {
        obs.label(if declared as usize == limit { "at the limit" } else { "below" });
        obs.nontrivial_if(declared as usize == limit);
        let f = wire::decode(&body).map_err(|e| Fail::from(format!("HARNESS: {e:?}")))?;
        match r {
            Ok(g) => ensure!(fr_from(&g).as_ref() == Some(&f), "decoded {} instead of {}", short(&g), short(&f)),
            Err(e) => return Err(format!("a {declared}-byte frame with limit {limit} was refused with {e:?}").into()),
        }
        if let Some(left) = left {
            ensure!(left == c.trailing as usize, "{left} trailing bytes left instead of {}", c.trailing);
        }
    }
    Ok(())
}

fn c07_write(c: &Limit, obs: &mut Obs) -> R {
    let limit = c.limit();
    let size = (c.limit as i64 + c.delta as i64).clamp(24, c.limit as i64 + 200_000) as usize;
    let Some(f) = sized_frame(size, c.ack, c.id) else {
        return Ok(());
    };
    let t = Scripted::default();
    let r = if c.buffered {
        let mut codec = BufCodec::buffered(t.clone(), Framer::new(limit));
        drive(codec.write_frame(fr_to(&f)))
    } else {
        drive(Framer::new(limit).write_frame(t.clone(), fr_to(&f)))
    };
    let written = t.with(|s| s.delivered.len() + s.staged.len());
    if size > limit {
        obs.label("over");
        obs.nontrivial = true;
        ensure!(r.is_err(), "a {size}-byte frame was written with limit {limit}");
        ensure!(written == 0, "{written} bytes of a {size}-byte frame were written with limit {limit}");
    } else {
        obs.label(if size == limit { "at the limit" } else { "below" });
        obs.nontrivial_if(size == limit);
        ensure!(r == Ok(size + 4), "writing a {size}-byte frame with limit {limit} gave {r:?}");
        ensure!(written == size + 4, "{written} bytes written of a {size}-byte frame");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyArgs {
    counts: Vec<u16>,
    limit: u32,
}

fn c07_args(c: &ManyArgs, obs: &mut Obs) -> R {
    let msgs: Vec<Msg> = c
        .counts
        .iter()
        .map(|n| Msg { name: "m".into(), args: (0..*n).map(|i| (String::new(), Val::U32((i % 200) as u32))).collect() })
        .collect();
    let f = Fr::Notify { frag: false, sid: 1, fid: 1, msgs };
    let over = c.counts.iter().any(|n| *n > 255);
    obs.nontrivial_if(over);
    obs.label(if over { ">255 args" } else { "<=255 args" });
    let (r, bytes) = write_one(c.limit as usize, fr_to(&f));
    if over {
        ensure!(r.is_err(), "a message with {:?} arguments was written, {} bytes", c.counts, bytes.len());
        ensure!(bytes.is_empty(), "{} bytes written of a frame that cannot be represented", bytes.len());
    } else {
        ensure!(r.is_ok(), "refused with {r:?}: {:?} arguments", c.counts);
        let (g, _) = read_one(c.limit as usize, &bytes);
        ensure!(
            g.as_ref().ok().and_then(fr_from).as_ref() == Some(&f),
            "argument counts {:?} read back as {}",
            c.counts,
            short(&g)
        );
    }
    Ok(())
}

fn many_args() -> BoxedStrategy<ManyArgs> {
    (vec(prop_oneof![2 => 250u16..260, 1 => 0u16..600, 1 => prop::sample::select(vec![255u16, 256, 511, 512, 513])], 1..3))
        .prop_map(|counts| ManyArgs { counts, limit: 1 << 20 })
        .boxed()
}

pub fn c07_codec() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "incoming",
            quick: 60_000,
            thorough: 1_000_000,
            threads: 8,
            rule: "frames of exact size around a generated limit, and huge declared sizes; non-trivial: at or over the limit",
            strategy: limits,
            check: c07_read,
        }),
        Box::new(Leg {
            name: "outgoing",
            quick: 60_000,
            thorough: 1_000_000,
            threads: 8,
            rule: "writing frames of exact size around a generated limit; non-trivial: at or over the limit",
            strategy: limits,
            check: c07_write,
        }),
        Box::new(Leg {
            name: "argument-count",
            quick: 2_000,
            thorough: 20_000,
            threads: 8,
            rule: "messages with up to 600 arguments; non-trivial: more than the 255 the format can count",
            strategy: many_args,
            check: c07_args,
        }),
    ]
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chunked {
    frames: Vec<Fr>,
    reads: Steps,
    writes: Steps,
    hold: bool,
    buffered: bool,
    /// Where the transport breaks, as a fraction of the stream; none: it does not.
    fault: Option<(u16, u8)>,
}

fn chunked() -> BoxedStrategy<Chunked> {
    (
        prop_oneof![3 => vec(frame(60), 1..5), 1 => vec(frame(5000), 1..3)],
        steps(),
        steps(),
        any::<bool>(),
        any::<bool>(),
        prop::option::of((any::<u16>(), 0u8..4)),
    )
        .prop_map(|(frames, reads, writes, hold, buffered, fault)| Chunked { frames, reads, writes, hold, buffered, fault })
        .boxed()
}

/// A long frame in very many pieces.
fn slow_drip() -> BoxedStrategy<Chunked> {
    let step = prop_oneof![1 => Just(vec![1u16]), 1 => Just(vec![0, 1]), 1 => vec(0u16..4, 1..6)];
    (
        prop_oneof![1 => 1000u32..66_000, 2 => 66_000u32..300_000],
        any::<bool>(),
        frame(20),
        step.clone(),
        step,
        any::<bool>(),
        prop::option::weighted(0.2, (any::<u16>(), 0u8..4)),
    )
        .prop_map(|(n, ack, after, reads, writes, buffered, fault)| {
            let big = Val::Bin(Hex((0..n).map(|i| i as u8).collect()));
            let first = if ack {
                Fr::Ack { frag: false, abort: false, sid: 1, fid: 1, acts: vec![Act::Set(1, "big".into(), big)] }
            } else {
                Fr::Notify { frag: false, sid: 1, fid: 1, msgs: vec![Msg { name: "big".into(), args: vec![("b".into(), big)] }] }
            };
            Chunked { frames: vec![first, after], reads, writes, hold: false, buffered, fault }
        })
        .boxed()
}

fn c08_read(c: &Chunked, obs: &mut Obs) -> R {
    let mut bytes = vec![];
    let mut ends = vec![];
    for f in &c.frames {
        bytes.extend(wire::encode_prefixed(f));
        ends.push(bytes.len());
    }
    let total = bytes.len();
    let cut = c.fault.map(|(p, _)| p as usize * (total + 1) / 65536);
    let error = matches!(c.fault, Some((_, 1)));
    if let Some(k) = cut {
        bytes.truncate(k);
        obs.label(if error { "reset" } else { "end of stream" });
        obs.label_if(!ends.contains(&k) && k != 0, "cut inside a frame");
    }
    obs.label_if(c.reads.contains(&0), "not ready");
    obs.label_if(c.reads.contains(&1), "byte-wise");
    obs.nontrivial_if(!c.reads.is_empty());
    let t = Scripted::new(&bytes);
    t.with(|s| {
        s.read_steps = c.reads.clone();
        s.read_error_at_end = error;
    });
    let framer = Framer::new(BIG);
    let mut codec = BufCodec::buffered(t.clone(), Framer::new(BIG));
    for (f, end) in c.frames.iter().zip(&ends) {
        let r = if c.buffered { drive(codec.read_frame()) } else { drive(framer.read_frame(t.clone())) };
        if *end <= bytes.len() {
            match r {
                Ok(g) => {
                    ensure!(
                        fr_from(&g).as_ref() == Some(f),
                        "decoded {} instead of {} with chunks {:?}",
                        short(&g),
                        short(f),
                        c.reads
                    )
                }
                Err(e) => return Err(format!("refused with {e:?} with chunks {:?}: {}", c.reads, short(f)).into()),
            }
            if !c.buffered {
                ensure!(bytes.len() - t.unread() == *end, "consumed {} bytes instead of {end}", bytes.len() - t.unread());
            }
        } else {
            ensure!(matches!(r, Err(St::Io)), "stream cut at {} inside a frame ending at {end} gave {}", bytes.len(), short(&r));
            return Ok(());
        }
    }
    let r = if c.buffered { drive(codec.read_frame()) } else { drive(framer.read_frame(t.clone())) };
    ensure!(matches!(r, Err(St::Io)), "after the end of the stream: {}", short(&r));
    Ok(())
}

fn c08_write(c: &Chunked, obs: &mut Obs) -> R {
    let t = Scripted::default();
    let want: Vec<Vec<u8>> = c.frames.iter().map(|f| write_one(BIG, fr_to(f)).1).collect();
    let total: usize = want.iter().map(Vec::len).sum();
    let limit = c.fault.map(|(p, _)| p as usize * (total + 1) / 65536);
    t.with(|s| {
        s.write_steps = c.writes.clone();
        s.hold = c.hold;
        match c.fault {
            Some((_, 3)) => s.flush_limit = limit,
            _ => s.write_limit = limit,
        }
        s.write_zero = matches!(c.fault, Some((_, 2)));
    });
    obs.label_if(c.hold, "held until flushed");
    obs.label_if(c.writes.contains(&0), "not ready");
    obs.label_if(limit.is_some(), "write fault");
    obs.label_if(matches!(c.fault, Some((_, 3))), "flush fault");
    obs.nontrivial_if(c.hold || !c.writes.is_empty());
    let framer = Framer::new(BIG);
    let mut codec = BufCodec::buffered(t.clone(), Framer::new(BIG));
    let mut sent = vec![];
    for (f, w) in c.frames.iter().zip(&want) {
        let r = if c.buffered { drive(codec.write_frame(fr_to(f))) } else { drive(framer.write_frame(t.clone(), fr_to(f))) };
        sent.extend_from_slice(w);
        if limit.is_some_and(|l| l < sent.len()) {
            ensure!(matches!(r, Err(St::Io)), "a write that broke at byte {} of {} gave {r:?}", limit.unwrap(), sent.len());
            let d = t.with(|s| [s.delivered.clone(), s.staged.clone()].concat());
            ensure!(sent.starts_with(&d), "other bytes than the frames' were written");
            return Ok(());
        }
        ensure!(r == Ok(w.len()), "write of {} bytes gave {r:?}", w.len());
        let d = t.with(|s| s.delivered.clone());
        ensure!(
            d == sent,
            "after a completed write the peer has {} of {} bytes (held until flush: {}) writing {}",
            d.len(),
            sent.len(),
            c.hold,
            short(f)
        );
    }
    Ok(())
}

/// Frames sent through a duplex pipe of any size, reader and writer running concurrently.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Piped {
    frames: Vec<Fr>,
    pipe: u16,
}

fn c08_pipe(c: &Piped, obs: &mut Obs) -> R {
    obs.nontrivial_if(c.frames.len() > 1);
    obs.label_if(c.pipe < 8, "pipe < 8 bytes");
    crate::io::block_on(async {
        let (a, b) = tokio::io::duplex(c.pipe as usize + 1);
        let mut w = Codec::new(a, Framer::new(BIG));
        let mut r = BufCodec::buffered(b, Framer::new(BIG));
        let send = async {
            for f in &c.frames {
                w.write_frame(fr_to(f)).await.map_err(|e| Fail::from(format!("write: {e:?} {}", short(f))))?;
            }
            drop(w);
            Ok::<_, Fail>(())
        };
        let recv = async {
            for f in &c.frames {
                let g = r.read_frame().await.map_err(|e| Fail::from(format!("read: {e:?} {}", short(f))))?;
                ensure!(fr_from(&g).as_ref() == Some(f), "got {} instead of {}", short(&g), short(f));
            }
            let end = r.read_frame().await;
            ensure!(matches!(end, Err(St::Io)), "after the end: {}", short(&end));
            Ok(())
        };
        let both = async { tokio::try_join!(send, recv) };
        match tokio::time::timeout(std::time::Duration::from_secs(3600), both).await {
            Ok(r) => r.map(|_| ()),
            Err(_) => Err("reader and writer wait for each other for ever".into()),
        }
    })
}

fn piped() -> BoxedStrategy<Piped> {
    (vec(frame(100), 1..8), prop_oneof![0u16..8, 0u16..300, Just(16384u16)])
        .prop_map(|(frames, pipe)| Piped { frames, pipe })
        .boxed()
}

pub fn c08() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "reading",
            quick: 50_000,
            thorough: 1_000_000,
            threads: 8,
            rule: "frame sequences read through scripted chunk sizes, not-ready results and a cut or reset at any byte; non-trivial: chunked",
            strategy: chunked,
            check: c08_read,
        }),
        Box::new(Leg {
            name: "writing",
            quick: 50_000,
            thorough: 1_000_000,
            threads: 8,
            rule: "frame sequences written through scripted short writes, not-ready results, hold-until-flush and faults; non-trivial: chunked or held",
            strategy: chunked,
            check: c08_write,
        }),
        Box::new(Leg {
            name: "reading-drip",
            quick: 150,
            thorough: 3_000,
            threads: 8,
            rule: "a frame of up to 300,000 bytes read in pieces of up to three bytes, not-ready results in between, another one behind; all cases count",
            strategy: slow_drip,
            check: c08_read,
        }),
        Box::new(Leg {
            name: "writing-drip",
            quick: 150,
            thorough: 3_000,
            threads: 8,
            rule: "a frame of up to 300,000 bytes written in pieces of up to three bytes, not-ready results in between, another one behind; all cases count",
            strategy: slow_drip,
            check: c08_write,
        }),
        Box::new(Leg {
            name: "pipe",
            quick: 15_000,
            thorough: 300_000,
            threads: 8,
            rule: "reader and writer concurrently over a pipe of 1..16384 bytes; non-trivial: several frames",
            strategy: piped,
            check: c08_pipe,
        }),
    ]
}
