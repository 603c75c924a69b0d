//! C17 errors, C21 header blocks, C22 constructors and accessors.
use std::collections::BTreeMap;
use std::str::FromStr;

use bytes::{Buf, Bytes};
use haproxy_spoa as spoa;
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ensure;
use crate::model::*;
use crate::props::codec::{read_one, short, write_one};
use crate::runner::{Leg, LegDyn, Obs, R};
use crate::wire;

// ------------------------------------------------------------------ C17

pub const TABLE: [(u32, spop::Error, &str); 15] = [
    (0, spop::Error::Normal, "normal"),
    (1, spop::Error::Io, "I/O error"),
    (2, spop::Error::Timeout, "a timeout occurred"),
    (3, spop::Error::TooBig, "frame is too big"),
    (4, spop::Error::Invalid, "invalid frame received"),
    (5, spop::Error::NoVersion, "version value not found"),
    (6, spop::Error::NoFrameSize, "max-frame-size value not found"),
    (7, spop::Error::NoCapabilities, "capabilities value not found"),
    (8, spop::Error::BadVersion, "unsupported version"),
    (9, spop::Error::BadFrameSize, "max-frame-size too big or too small"),
    (10, spop::Error::FragmentNotSupported, "fragmentation not supported"),
    (11, spop::Error::InterlacedFrames, "invalid interlaced frames"),
    (12, spop::Error::FrameIdNotFound, "frame-id not found"),
    (13, spop::Error::ResourceAllocErr, "resource allocation error"),
    (99, spop::Error::Unknown, "an unknown error occurred"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Code {
    code: u32,
    text: String,
}

fn c17_code(c: &Code, obs: &mut Obs) -> R {
    let known = TABLE.iter().find(|t| t.0 == c.code);
    obs.nontrivial = true;
    obs.label(if known.is_some() { "status of the table" } else { "unknown number" });
    let parsed = spop::Error::try_from(c.code);
    match known {
        None => {
            ensure!(parsed.is_err(), "{} was read as status {parsed:?}", c.code);
        }
        Some((code, status, text)) => {
            ensure!(parsed == Ok(*status), "{code} was read as {parsed:?} instead of {status:?}");
            ensure!(u32::from(*status) == *code, "{status:?} has number {}", u32::from(*status));
            ensure!(status.to_string() == *text, "{status:?} reads {:?}", status.to_string());
            for (f, ty) in [
                (spop::Frame::agent_disconnect(*status, c.text.as_str()), wire::AGENT_DISCONNECT),
                (spop::Frame::haproxy_disconnect(*status, c.text.clone()), wire::HAPROXY_DISCONNECT),
            ] {
                let (r, b) = write_one(1 << 20, f);
                ensure!(r.is_ok(), "writing failed: {r:?}");
                let want = Fr::ADisc { code: *code, msg: c.text.clone() };
                let mut want = wire::encode_prefixed(&want);
                want[4] = ty;
                ensure!(b == want, "disconnect written as {:?} instead of {:?}", Hex(b), Hex(want));
            }
            // A connection told to disconnect.
            let t = crate::io::Scripted::new(&[]);
            t.with(|s| s.hold = true);
            let rt = crate::conv::plain_runtime();
            let r = {
                let mut conn = spoa::Connection::new(rt, t.clone(), Default::default());
                crate::io::drive(conn.disconnect(*status, c.text.clone()))
            };
            let whole = wire::encode(&Fr::ADisc { code: *code, msg: c.text.clone() });
            if r.is_err() && whole.len() > 16_000 {
                obs.label("larger than a frame may be");
                return Ok(());
            }
            ensure!(r.is_ok(), "disconnecting failed: {r:?}");
            let got = t.with(|s| s.delivered.clone());
            let want = wire::encode_prefixed(&Fr::ADisc { code: *code, msg: c.text.clone() });
            ensure!(got == want, "the connection told to disconnect sent {:?} instead of {:?}", Hex(got), Hex(want));
            // Where the frame is larger than the limit it is refused and nothing is sent; a failure to send is reported.
            let len = (want.len() - 4) as u64;
            for (limit, broken) in [(len - 1, None), (len, None), (len, Some(0)), (len, Some(want.len() / 2)), (len / 2, Some(0))]
            {
                let t = crate::io::Scripted::new(&[]);
                t.with(|s| s.write_limit = broken);
                let rt = crate::conv::plain_runtime_with(limit);
                let r = {
                    let mut conn = spoa::Connection::new(rt, t.clone(), Default::default());
                    crate::io::drive(conn.disconnect(*status, c.text.clone()))
                };
                let sent = t.with(|s| s.delivered.clone());
                if limit >= len && broken.is_none() {
                    ensure!(
                        r.is_ok() && sent == want,
                        "a disconnect of {len} bytes with a limit of {limit}: {r:?}, sent {:?}",
                        Hex(sent)
                    );
                } else {
                    let e = r.err().ok_or(format!(
                        "a disconnect of {len} bytes with a limit of {limit} (transport broken: {broken:?}) is reported as sent"
                    ))?;
                    ensure!(
                        sent.is_empty() || broken > Some(0),
                        "a disconnect of {len} bytes with a limit of {limit} was sent in part"
                    );
                    if limit < len {
                        ensure!(e.status() == Some(spop::Error::TooBig), "a disconnect beyond the limit gives {e:?}");
                    } else {
                        obs.label("transport fails");
                    }
                }
            }
        }
    }
    // Whatever number a disconnect carries is kept.
    let d = Fr::HDisc { code: c.code, msg: c.text.clone() };
    let b = wire::encode_prefixed(&d);
    let (r, _) = read_one(1 << 20, &b);
    let got = r.as_ref().ok().and_then(fr_from);
    ensure!(got.as_ref() == Some(&d), "disconnect with {} read as {}", c.code, short(&r));
    Ok(())
}

fn c17_code_gen() -> BoxedStrategy<Code> {
    (
        prop_oneof![
            4 => 0u32..20,
            2 => 90u32..110,
            1 => Just(99u32),
            2 => any::<u32>(),
            1 => (0u32..16, 1u32..1 << 24).prop_map(|(c, h)| c.wrapping_add(h.wrapping_mul(256))),
            1 => (0u32..32, 0u32..3).prop_map(|(k, d)| (1u32 << k).wrapping_add(d).wrapping_sub(1)),
        ],
        prop_oneof![3 => text(60), 1 => text(20_000)],
    )
        .prop_map(|(code, text)| Code { code, text })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Root {
    Status(u8),
    /// A status that is the source of a context as it is, without the agent's own error around it.
    Bare(u8),
    Closed,
    Io(String),
    Utf8,
    HeaderName,
    HeaderValue,
    Http,
    Foreign(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nested {
    root: Root,
    /// Innermost first.
    contexts: Vec<(String, bool)>,
}

const STATIC_CONTEXTS: [&str; 4] = ["process messages", "make service", "", "normal"];

type Src = Box<dyn std::error::Error + Send + Sync>;

fn build(c: &Nested) -> (spoa::Error, Option<usize>, String) {
    let status = |i: u8| TABLE[i as usize % TABLE.len()];
    let mut root_status = None;
    let mut bare: Option<Src> = None;
    let mut e = match &c.root {
        Root::Status(i) => {
            root_status = Some(*i as usize % TABLE.len());
            spoa::Error::Status(status(*i).1)
        }
        Root::Bare(i) => {
            root_status = Some(*i as usize % TABLE.len());
            bare = Some(Box::new(status(*i).1));
            spoa::Error::Status(status(*i).1)
        }
        Root::Closed => spoa::Error::Closed,
        Root::Io(t) => spoa::Error::Io(std::io::Error::new(std::io::ErrorKind::Other, t.clone())),
        Root::Utf8 => spoa::Error::from(String::from_utf8(vec![b'a', 0xff]).unwrap_err().utf8_error()),
        Root::HeaderName => spoa::Error::from(http::HeaderName::from_bytes(b"\n").unwrap_err()),
        Root::HeaderValue => spoa::Error::from(http::HeaderValue::from_bytes(b"\n").unwrap_err()),
        Root::Http => spoa::Error::from(http::Error::from(http::HeaderName::from_bytes(b"\n").unwrap_err())),
        Root::Foreign(t) => {
            bare = Some(Box::new(crate::conv::TestErr(t.clone())));
            spoa::Error::Closed
        }
    };
    let mut text = match (&bare, &c.root) {
        (Some(b), _) => b.to_string(),
        _ => e.to_string(),
    };
    for (i, (t, fixed)) in c.contexts.iter().enumerate() {
        let source: Src = match bare.take() {
            Some(b) if i == 0 => b,
            _ => Box::new(e),
        };
        let t = if *fixed { STATIC_CONTEXTS[t.len() % STATIC_CONTEXTS.len()].to_string() } else { t.clone() };
        e = if *fixed {
            let s: &'static str = STATIC_CONTEXTS.iter().find(|s| **s == t).unwrap();
            spoa::Error::Context { source, context: Box::new(s) }
        } else {
            spoa::Error::Context { source, context: Box::new(t.clone()) }
        };
        text = format!("{t}, {text}");
    }
    (e, root_status, text)
}

fn c17_nested(c: &Nested, obs: &mut Obs) -> R {
    let mut c = c.clone();
    if matches!(c.root, Root::Foreign(_)) && c.contexts.is_empty() {
        c.contexts.push(("context".into(), false));
    }
    let (e, status, text) = build(&c);
    obs.nontrivial_if(c.contexts.len() > 1);
    obs.label_if(status.is_none(), "without status");
    obs.label_if(c.contexts.len() > 2, "three or more contexts");
    obs.label_if(matches!(c.root, Root::Bare(_)), "status without error around it");
    let want = status.map(|i| TABLE[i].1);
    let got = e.status();
    ensure!(got == want, "status {got:?} instead of {want:?} of {e:?}");
    let outermost = c.contexts.last().map(|(t, fixed)| if *fixed { STATIC_CONTEXTS[t.len() % 4].to_string() } else { t.clone() });
    ensure!(e.to_string() == text, "reads {:?} instead of {text:?}", e.to_string());
    let shown = format!("{e:?}");
    let d = spop::Disconnect::from(e);
    let want = match (status, outermost) {
        (Some(i), Some(t)) => (TABLE[i].0, t),
        (Some(i), None) => (TABLE[i].0, TABLE[i].2.to_string()),
        (None, _) => (99, text),
    };
    ensure!(
        (d.status_code, &d.message) == (want.0, &want.1),
        "disconnects with {} {:?} instead of {} {:?}: {shown}",
        d.status_code,
        d.message,
        want.0,
        want.1
    );
    Ok(())
}

fn c17_nested_gen() -> BoxedStrategy<Nested> {
    (
        prop_oneof![
            4 => any::<u8>().prop_map(Root::Status),
            3 => any::<u8>().prop_map(Root::Bare),
            1 => Just(Root::Closed),
            1 => prop_oneof![2 => text(20), 1 => text(5000)].prop_map(Root::Io),
            1 => Just(Root::Utf8),
            1 => Just(Root::HeaderName),
            1 => Just(Root::HeaderValue),
            1 => Just(Root::Http),
            2 => prop_oneof![2 => text(20), 1 => text(5000)].prop_map(Root::Foreign),
        ],
        prop_oneof![4 => vec((text(30), any::<bool>()), 0..5), 2 => vec((text(70_000), any::<bool>()), 1..4), 1 => vec((text(10), any::<bool>()), 5..40)],
    )
        .prop_map(|(root, contexts)| Nested { root, contexts })
        .boxed()
}

pub fn c17() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "codes",
            quick: 60_000,
            thorough: 3_000_000,
            threads: 8,
            rule: "every case: a number converted both ways, written and read",
            strategy: c17_code_gen,
            check: c17_code,
        }),
        Box::new(Leg {
            name: "nested",
            quick: 60_000,
            thorough: 3_000_000,
            threads: 8,
            rule: "at least two contexts around the cause",
            strategy: c17_nested_gen,
            check: c17_nested,
        }),
    ]
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tail {
    /// The empty pair, and what follows it.
    End(Hex),
    /// Cut so many bytes short, inside a pair.
    Cut(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block {
    pairs: Vec<(Hex, Hex)>,
    tail: Tail,
    /// The buffer's pieces.
    splits: Vec<u16>,
}

fn put_pair(o: &mut Vec<u8>, k: &[u8], v: &[u8]) {
    wire::put_varint(o, k.len() as u64);
    o.extend_from_slice(k);
    wire::put_varint(o, v.len() as u64);
    o.extend_from_slice(v);
}

fn name_ok(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c))
}
fn value_ok(b: &[u8]) -> bool {
    b.iter().all(|c| *c == b'\t' || (*c >= 32 && *c != 127))
}

#[derive(Debug, PartialEq)]
enum Want {
    Headers(Vec<(Vec<u8>, Vec<u8>)>),
    Refused,
    /// Only that it does not panic.
    Any,
}

/// An independent reading of a block.
fn read_block(b: &[u8]) -> Want {
    let mut r = wire::Rd::new(b);
    let mut out = vec![];
    loop {
        if r.left() == 0 {
            // No terminating pair: neither refused nor accepted by the property.
            return Want::Any;
        }
        let (Ok(k), Ok(v)) = (r.bytes().map(<[u8]>::to_vec), r.bytes().map(<[u8]>::to_vec)) else {
            return Want::Refused;
        };
        if k.is_empty() && v.is_empty() {
            break;
        }
        if !name_ok(&k) || !value_ok(&v) {
            return Want::Refused;
        }
        if k.len() > 65_535 {
            return Want::Any;
        }
        out.push((k.to_ascii_lowercase(), v));
    }
    if out.len() > 20_000 {
        return Want::Any;
    }
    Want::Headers(out)
}

struct Pieces(std::collections::VecDeque<Bytes>);
impl Buf for Pieces {
    fn remaining(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.0.front().map(|b| &b[..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.0.front_mut().expect("advance beyond the end");
            let k = n.min(f.len());
            f.advance(k);
            n -= k;
            if f.is_empty() {
                self.0.pop_front();
            }
        }
    }
}

pub fn check_block(bytes: &[u8], splits: &[u16], obs: &mut Obs) -> R {
    let want = read_block(bytes);
    let mut got = vec![spoa::req::hdrs_bin(bytes), spoa::req::hdrs_bin(Bytes::copy_from_slice(bytes))];
    if !splits.is_empty() {
        obs.label("in pieces");
        let mut p = std::collections::VecDeque::new();
        let mut rest = Bytes::copy_from_slice(bytes);
        for s in splits {
            let n = (*s as usize % 64 + 1).min(rest.len());
            if n > 0 {
                p.push_back(rest.split_to(n));
            }
        }
        if !rest.is_empty() {
            p.push_back(rest);
        }
        got.push(spoa::req::hdrs_bin(Pieces(p)));
    }
    for g in got {
        match (&want, g) {
            (Want::Any, _) => obs.label("unspecified"),
            (Want::Refused, Ok(h)) => return Err(format!("accepted as {}", short(&h)).into()),
            (Want::Refused, Err(_)) => obs.label("refused"),
            (Want::Headers(_), Err(e)) => return Err(format!("refused: {e}").into()),
            (Want::Headers(want), Ok(h)) => {
                obs.label("decoded");
                let mut m: BTreeMap<&[u8], Vec<&[u8]>> = BTreeMap::new();
                for (k, v) in want {
                    m.entry(k).or_default().push(v);
                }
                obs.label_if(m.len() < want.len(), "repeated name");
                ensure!(h.len() == want.len(), "{} values instead of {}", h.len(), want.len());
                ensure!(h.keys_len() == m.len(), "{} names instead of {}", h.keys_len(), m.len());
                for (k, vs) in m {
                    let name = http::HeaderName::from_bytes(k).map_err(|e| e.to_string())?;
                    let got: Vec<&[u8]> = h.get_all(&name).iter().map(|v| v.as_bytes()).collect();
                    ensure!(got == vs, "{name}: {} instead of {}", short(&got), short(&vs));
                }
            }
        }
    }
    Ok(())
}

fn c21_check(c: &Block, obs: &mut Obs) -> R {
    let mut b = vec![];
    let mut ends = vec![0usize];
    for (k, v) in &c.pairs {
        put_pair(&mut b, &k.0, &v.0);
        ends.push(b.len());
    }
    obs.label_if(c.pairs.iter().any(|(k, v)| k.0.len() > 239 || v.0.len() > 239), "length of several bytes");
    match &c.tail {
        Tail::End(t) => {
            obs.label_if(!t.0.is_empty(), "something after the end");
            b.extend_from_slice(&[0, 0]);
            b.extend_from_slice(&t.0);
        }
        Tail::Cut(n) => {
            if ends.len() > 1 {
                let end = ends[ends.len() - 1];
                let start = ends[ends.len() - 2];
                let keep = start + 1 + (*n as usize % (end - start - 1).max(1));
                let terminated = c.pairs.iter().any(|(k, v)| k.0.is_empty() && v.0.is_empty());
                if keep < end && !terminated {
                    obs.label("cut inside a pair");
                    b.truncate(keep);
                    // Whatever was cut off is missing, so this can only be refused.
                    let r = spoa::req::hdrs_bin(&b[..]);
                    ensure!(r.is_err(), "a block cut inside a pair was accepted: {}", short(&r));
                }
            }
        }
    }
    obs.nontrivial_if(c.pairs.len() > 1);
    check_block(&b, &c.splits, obs)
}

fn token() -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => prop::sample::select(vec!["host", "Set-Cookie", "set-cookie", "SET-COOKIE", "x-a", "X-A", "accept", "cookie", "content-length", "~", "x"])
            .prop_map(|s| Hex(s.as_bytes().to_vec())),
        2 => "[!#$%&'*+.^_`|~0-9A-Za-z-]{1,20}".prop_map(|s| Hex(s.into_bytes())),
        1 => (len(60_000), any::<bool>()).prop_map(|(n, up)| Hex(vec![if up { b'N' } else { b'n' }; n.max(1)])),
    ]
    .boxed()
}

fn value() -> BoxedStrategy<Hex> {
    prop_oneof![
        3 => "[ -~]{0,20}".prop_map(|s| Hex(s.into_bytes())),
        1 => vec(prop_oneof![32u8..127, 128u8..=255, Just(9u8)], 0..20).prop_map(Hex),
        1 => (len(100_000), 32u8..127).prop_map(|(n, c)| Hex(vec![c; n])),
        1 => Just(Hex(vec![])),
    ]
    .boxed()
}

fn c21_gen() -> BoxedStrategy<Block> {
    let pair = prop_oneof![
        30 => (token(), value()),
        1 => (blob(30), value()),
        1 => (token(), blob(30)),
        1 => (Just(Hex(vec![])), value()),
    ];
    (
        prop_oneof![10 => vec(pair.clone(), 0..8), 1 => vec(pair, 8..60)],
        prop_oneof![
            1 => Just(Tail::End(Hex(vec![]))),
            1 => blob(40).prop_map(Tail::End),
            1 => (token(), value()).prop_map(|(k, v)| { let mut b = vec![]; put_pair(&mut b, &k.0, &v.0); Tail::End(Hex(b)) }),
            1 => any::<u32>().prop_map(Tail::Cut),
        ],
        prop_oneof![1 => Just(vec![]), 1 => vec(any::<u16>(), 1..20)],
    )
        .prop_map(|(pairs, tail, splits)| Block { pairs, tail, splits })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawBlock {
    bytes: Hex,
    splits: Vec<u16>,
}

fn c21_raw(c: &RawBlock, obs: &mut Obs) -> R {
    obs.nontrivial_if(c.bytes.0.len() > 3);
    check_block(&c.bytes.0, &c.splits, obs)
}

fn c21_raw_gen() -> BoxedStrategy<RawBlock> {
    let tokens = vec(
        prop_oneof![
            3 => Just(vec![1u8, b'a', 1, b'b']),
            2 => Just(vec![0u8, 0]),
            1 => Just(vec![0u8]),
            1 => num().prop_map(|n| { let mut o = vec![]; wire::put_varint(&mut o, n); o }),
            1 => vec(any::<u8>(), 0..6),
            1 => Just(vec![0xffu8; 11]),
            1 => (1usize..12).prop_map(|n| { let mut v = vec![0xf0u8]; v.extend(vec![0x80u8; n]); v }),
            1 => (240usize..260).prop_map(|n| { let mut o = vec![]; put_pair(&mut o, &vec![b'k'; n], b"v"); o }),
        ],
        0..10,
    )
    .prop_map(|v| v.concat());
    (prop_oneof![1 => vec(any::<u8>(), 0..40), 3 => tokens], prop_oneof![1 => Just(vec![]), 1 => vec(any::<u16>(), 1..20)])
        .prop_map(|(b, splits)| RawBlock { bytes: Hex(b), splits })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    names: u32,
    repeats: u32,
}

fn c21_many(c: &Many, obs: &mut Obs) -> R {
    obs.nontrivial = true;
    let mut b = vec![];
    for i in 0..c.names {
        put_pair(&mut b, format!("n{i}").as_bytes(), b"v");
    }
    for i in 0..c.repeats {
        put_pair(&mut b, b"again", i.to_string().as_bytes());
    }
    b.extend_from_slice(&[0, 0]);
    obs.label_if(c.names > 20_000, "more names than a map holds");
    check_block(&b, &[], obs)
}

pub fn c21() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "blocks",
            quick: 60_000,
            thorough: 2_000_000,
            threads: 8,
            rule: "at least two pairs",
            strategy: c21_gen,
            check: c21_check,
        }),
        Box::new(Leg {
            name: "bytes",
            quick: 100_000,
            thorough: 4_000_000,
            threads: 8,
            rule: "more than three bytes",
            strategy: c21_raw_gen,
            check: c21_raw,
        }),
        Box::new(Leg {
            name: "many",
            quick: 24,
            thorough: 400,
            threads: 8,
            rule: "thousands of headers",
            strategy: || {
                prop_oneof![
                    (0u32..9000, 0u32..8000).prop_map(|(names, repeats)| Many { names, repeats }),
                    (20_000u32..70_000, 0u32..70_000).prop_map(|(names, repeats)| Many { names, repeats }),
                ]
                .boxed()
            },
            check: c21_many,
        }),
    ]
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Built {
    frame: Fr,
    /// How the builder is fed: one by one, or so many at a time.
    batches: Vec<u8>,
    status: u8,
}

fn build_msg(m: &Msg, batches: &[u8]) -> spop::Message {
    let mut b = spop::Message::builder(m.name.as_str());
    let mut at = 0;
    let mut k = 0;
    while at < m.args.len() {
        let n = batches.get(k % batches.len().max(1)).copied().unwrap_or(1) as usize;
        k += 1;
        if n <= 1 {
            let (key, v) = &m.args[at];
            b = match v {
                Val::U32(x) => b.arg(key.as_str(), *x),
                Val::I32(x) => b.arg(key.as_str(), *x),
                Val::U64(x) => b.arg(key.as_str(), *x),
                Val::I64(x) => b.arg(key.as_str(), *x),
                Val::Bool(x) => b.arg(key.as_str(), *x),
                Val::Null => b.arg(key.as_str(), ()),
                Val::Str(s) => b.arg(key.as_str(), s.as_str()),
                Val::Bin(x) => b.arg(key.as_str(), x.0.clone()),
                Val::V4(x) => b.arg(key.as_str(), std::net::Ipv4Addr::from(*x)),
                Val::V6(x) => b.arg(key.as_str(), std::net::IpAddr::V6(std::net::Ipv6Addr::from(*x))),
            };
            at += 1;
        } else {
            let end = (at + n).min(m.args.len());
            b = b.args(m.args[at..end].iter().map(|(k, v)| (k.clone(), val_to(v))));
            at = end;
        }
    }
    b.build()
}

fn c22_check(c: &Built, obs: &mut Obs) -> R {
    let plain = fr_to(&c.frame);
    let mut same: Vec<(&str, spop::Frame)> = vec![];
    match &c.frame {
        Fr::Notify { frag, sid, fid, msgs } => {
            obs.nontrivial_if(msgs.iter().any(|m| m.args.len() > 1));
            for m in msgs {
                let want = msg_to(m);
                let new = spop::Message::new(m.name.clone(), m.args.iter().map(|(k, v)| (k.as_str(), val_to(v))));
                ensure!(msg_from(&new) == *m && new == want, "Message::new holds {} instead of {}", short(&new), short(m));
                let built = build_msg(m, &c.batches);
                ensure!(msg_from(&built) == *m && built == want, "the builder made {} instead of {}", short(&built), short(m));
            }
            if !*frag {
                same.push(("Frame::notify", spop::Frame::notify(*sid, *fid, msgs.iter().map(|m| build_msg(m, &c.batches)))));
            }
        }
        Fr::Ack { frag, abort, sid, fid, acts } => {
            obs.nontrivial_if(acts.len() > 1);
            let made: Vec<spop::Action> = acts
                .iter()
                .map(|a| match a {
                    Act::Set(s, n, v) => match v {
                        Val::U32(x) => spop::Action::set_var(SCOPES[*s as usize], n.as_str(), *x),
                        Val::Str(x) => spop::Action::set_var(SCOPES[*s as usize], n.as_str(), x.as_str()),
                        v => spop::Action::set_var(SCOPES[*s as usize], n.clone(), val_to(v)),
                    },
                    Act::Unset(s, n) => spop::Action::unset_var(SCOPES[*s as usize], n.as_str()),
                })
                .collect();
            ensure!(acts_from(&made) == *acts, "actions made {} instead of {}", short(&made), short(acts));
            let mut a = spop::AgentAck::new(*sid, *fid);
            ensure!(
                (a.stream_id, a.frame_id, a.fragmented, a.aborted, a.actions.len()) == (*sid, *fid, false, false, 0),
                "AgentAck::new made {a:?}"
            );
            a.fragmented = *frag;
            a.aborted = *abort;
            a.actions = made.clone();
            same.push(("AgentAck::new", spop::Frame::from(a)));
            if !*frag && !*abort {
                same.push(("Frame::ack", spop::Frame::ack(*sid, *fid, made)));
            }
        }
        Fr::HDisc { .. } | Fr::ADisc { .. } => {
            let (code, status, _) = TABLE[c.status as usize % TABLE.len()];
            let (Fr::HDisc { msg, .. } | Fr::ADisc { msg, .. }) = &c.frame else { unreachable!() };
            obs.nontrivial_if(!msg.is_empty());
            let d = spop::Disconnect::new(status, msg.as_str());
            ensure!((d.status_code, &d.message) == (code, msg), "Disconnect::new made {d:?} of {status:?} {msg:?}");
            for (f, want) in [
                (spop::Frame::haproxy_disconnect(status, msg.clone()), Fr::HDisc { code, msg: msg.clone() }),
                (spop::Frame::agent_disconnect(status, msg.as_str()), Fr::ADisc { code, msg: msg.clone() }),
            ] {
                ensure!(fr_from(&f).as_ref() == Some(&want), "made {f:?} instead of {want:?}");
            }
        }
        Fr::HHello { .. } | Fr::AHello { .. } => {
            obs.nontrivial = true;
            match plain.clone() {
                spop::Frame::HaproxyHello(h) => same.push(("From<HaproxyHello>", spop::Frame::from(h))),
                spop::Frame::AgentHello(h) => same.push(("From<AgentHello>", spop::Frame::from(h))),
                _ => unreachable!(),
            }
        }
    }
    // An UNSET frame is empty.
    let u = spop::Frame::Unset;
    ensure!(u.is_unset() && u.frame_type() as u8 == 0 && u.metadata().is_none(), "unset frame of type {:?}", u.frame_type());
    let (r, written) = write_one(64, u);
    ensure!(r == Ok(11) && written == [0, 0, 0, 7, 0, 0, 0, 0, 1, 0, 0], "unset frame written as {:?} ({r:?})", Hex(written));
    for (how, f) in same {
        obs.label(how);
        ensure!(fr_from(&f).as_ref() == Some(&c.frame), "{how} made {} instead of {}", short(&f), short(&c.frame));
        ensure!(f == plain, "{how} made a frame that is not equal to the same frame");
    }
    // What is reported agrees with the wire.
    let bytes = wire::encode(&c.frame);
    ensure!(plain.frame_type() as u8 == bytes[0], "type {:?} instead of {}", plain.frame_type(), bytes[0]);
    let preds = [
        (wire::HAPROXY_HELLO, plain.is_haproxy_hello()),
        (wire::HAPROXY_DISCONNECT, plain.is_haproxy_disconnect()),
        (wire::HAPROXY_NOTIFY, plain.is_haproxy_notify()),
        (wire::AGENT_HELLO, plain.is_agent_hello()),
        (wire::AGENT_DISCONNECT, plain.is_agent_disconnect()),
        (wire::AGENT_ACK, plain.is_agent_ack()),
        (0, plain.is_unset()),
    ];
    for (ty, is) in preds {
        ensure!(is == (ty == bytes[0]), "predicate for type {ty} says {is} about type {}", bytes[0]);
    }
    let (r, written) = write_one(64 << 20, plain.clone());
    ensure!(r.is_ok() && written.len() > 9, "writing failed: {r:?}");
    let w = &written[4..];
    let meta = match &plain {
        spop::Frame::HaproxyNotify(n) => Some(n.metadata()),
        spop::Frame::AgentAck(a) => Some(a.metadata()),
        _ => None,
    };
    ensure!(plain.metadata() == meta, "two different metadata");
    if let Some(m) = meta {
        obs.label("metadata");
        let mut r = wire::Rd::new(&w[1..]);
        let flags = u32::from_be_bytes(r.take(4).unwrap().try_into().unwrap());
        let (sid, fid) = (r.varint().unwrap(), r.varint().unwrap());
        ensure!(m.flags.bits() == flags, "flags {:#x} reported, {flags:#x} written", m.flags.bits());
        ensure!(
            (m.stream_id, m.frame_id) == (sid, fid),
            "ids {:?} reported, {:?} written",
            (m.stream_id, m.frame_id),
            (sid, fid)
        );
        let size = 4 + wire::varint_len(sid) + wire::varint_len(fid);
        ensure!(m.size() == size, "size {} reported, {size} written", m.size());
        ensure!(m.is_final() == (flags & 1 != 0), "final: {}", m.is_final());
        ensure!(m.fragmented() == (flags & 1 == 0), "fragmented: {}", m.fragmented());
        ensure!(m.aborted() == (flags & 2 != 0), "aborted: {}", m.aborted());
        let (frag, abort) = match &c.frame {
            Fr::Notify { frag, .. } => (*frag, false),
            Fr::Ack { frag, abort, .. } => (*frag, *abort),
            _ => unreachable!(),
        };
        ensure!((m.fragmented(), m.aborted()) == (frag, abort), "flags {:?} for fragmented {frag} aborted {abort}", m.flags);
    }
    Ok(())
}

fn c22_gen() -> BoxedStrategy<Built> {
    (frame(60), vec(0u8..5, 0..6), any::<u8>()).prop_map(|(frame, batches, status)| Built { frame, batches, status }).boxed()
}

fn c22_large_gen() -> BoxedStrategy<Built> {
    let many = || prop_oneof![1 => 0usize..300, 1 => (prop::sample::select(vec![255usize, 256, 1024, 4096]), 0usize..3).prop_map(|(n, d)| n + d)];
    let frame = prop_oneof![
        (vec((text(12), 0usize..=255, val(12)), 1..6), many(), num(), nonzero(), any::<bool>()).prop_map(
            |(kinds, n, sid, fid, frag)| {
                let msg = |i: usize| {
                    let (name, n, v) = &kinds[i % kinds.len()];
                    let n = if i < kinds.len() { *n } else { n % 4 };
                    Msg { name: format!("{name}{i}"), args: (0..n).map(|j| (format!("a{}", j % 200), v.clone())).collect() }
                };
                Fr::Notify { frag, sid, fid, msgs: (0..n).map(msg).collect() }
            }
        ),
        (vec(act(12), 1..6), many(), num(), nonzero(), any::<(bool, bool)>()).prop_map(|(kinds, n, sid, fid, (frag, abort))| {
            Fr::Ack { frag, abort, sid, fid, acts: (0..n).map(|i| kinds[i * 7 % kinds.len()].clone()).collect() }
        }),
        (codes(), text(70_000), any::<bool>()).prop_map(|(code, msg, peer)| if peer {
            Fr::HDisc { code, msg }
        } else {
            Fr::ADisc { code, msg }
        }),
        (hhello(5000), vec(version(), 0..500), vec(0u8..3, 0..500)).prop_map(|(f, vs, cs)| match f {
            Fr::HHello { mfs, hc, eid, .. } => Fr::HHello { versions: vs, mfs, caps: cs, hc, eid },
            f => f,
        }),
    ];
    (frame, vec(0u8..5, 0..6), any::<u8>()).prop_map(|(frame, batches, status)| Built { frame, batches, status }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Texts {
    version: (u8, u8),
    other: (u8, u8),
    text: String,
}

fn c22_texts(c: &Texts, obs: &mut Obs) -> R {
    obs.nontrivial = true;
    let (a, b) = (spop::Version::new(c.version.0, c.version.1), spop::Version::new(c.other.0, c.other.1));
    ensure!((a.major, a.minor) == c.version, "Version::new made {a:?}");
    let t = format!("{}.{}", c.version.0, c.version.1);
    ensure!(a.to_string() == t, "{a:?} prints {:?}", a.to_string());
    ensure!(spop::Version::from_str(&t).ok() == Some(a), "{t:?} parses as {:?}", spop::Version::from_str(&t));
    ensure!(a.cmp(&b) == c.version.cmp(&c.other) && (a == b) == (c.version == c.other), "{a} and {b} compare as {:?}", a.cmp(&b));
    ensure!(spop::Version::default().to_string() == "2.0", "the default version is {}", spop::Version::default());
    for i in 0..3u8 {
        let k = cap_to(i);
        ensure!(k.to_string() == CAPS[i as usize], "{k:?} prints {:?}", k.to_string());
        ensure!(spop::Capability::from_str(CAPS[i as usize]).ok() == Some(k), "{:?} parses as something else", CAPS[i as usize]);
    }
    let plain = c.text.trim().to_ascii_lowercase();
    if !CAPS.contains(&plain.as_str()) {
        let r = spop::Capability::from_str(&c.text);
        ensure!(r.is_err(), "{:?} parses as {r:?}", c.text);
    } else {
        obs.label("text names a capability");
    }
    // Digits and one dot, or it is no version.
    let number = |s: &str| {
        let s = s.strip_prefix('+').unwrap_or(s);
        (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse::<u8>().ok()).flatten()
    };
    let parsed = c.text.split_once('.').and_then(|(a, b)| Some((number(a)?, number(b)?)));
    match (parsed, spop::Version::from_str(&c.text)) {
        (None, Ok(v)) => {
            ensure!(c.text.trim() != c.text, "{:?} parses as {v}", c.text);
        }
        (Some(v), Ok(got)) => {
            obs.label("text is a version");
            ensure!(ver_from(got) == v, "{:?} parses as {got}", c.text);
        }
        _ => {}
    }
    Ok(())
}

fn c22_texts_gen() -> BoxedStrategy<Texts> {
    let text = prop_oneof![
        2 => "[0-9]{0,4}\\.[0-9]{0,4}",
        1 => "[0-9.+ -]{0,8}",
        1 => "[a-z]{0,8}",
        2 => (prop::sample::select(CAPS.to_vec()), any::<prop::sample::Index>(), "[a-zA-Z_ ]{0,2}").prop_map(|(s, i, x)| {
            let n = i.index(s.len() + 1);
            format!("{}{x}{}", &s[..n], &s[n..])
        }),
        1 => (prop::sample::select(CAPS.to_vec()), any::<prop::sample::Index>()).prop_map(|(s, i)| s[..i.index(s.len())].to_string()),
        1 => text(12),
    ];
    (any::<(u8, u8)>(), prop_oneof![any::<(u8, u8)>(), (0u8..12, 0u8..12)], text)
        .prop_map(|(version, other, text)| Texts { version, other, text })
        .boxed()
}

pub fn c22() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg {
            name: "frames",
            quick: 60_000,
            thorough: 2_000_000,
            threads: 8,
            rule: "a message with two arguments, two actions, a hello, or a disconnect with text",
            strategy: c22_gen,
            check: c22_check,
        }),
        Box::new(Leg {
            name: "large",
            quick: 2_000,
            thorough: 60_000,
            threads: 8,
            rule: "a message with two arguments, two actions, a hello, or a disconnect with text",
            strategy: c22_large_gen,
            check: c22_check,
        }),
        Box::new(Leg {
            name: "texts",
            quick: 60_000,
            thorough: 2_000_000,
            threads: 8,
            rule: "every case: printing, parsing and comparing",
            strategy: c22_texts_gen,
            check: c22_texts,
        }),
    ]
}
