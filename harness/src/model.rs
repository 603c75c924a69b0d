//! The harness' own view of protocol values, independent of the repository's types, with generators.
use std::net::{Ipv4Addr, Ipv6Addr};

use bytes::Bytes;
use haproxy_spop as spop;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Bytes that serialise as hex.
#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct Hex(pub Vec<u8>);
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("x'")?;
        for b in self.0.iter().take(200) {
            write!(f, "{b:02x}")?;
        }
        if self.0.len() > 200 {
            write!(f, "..({} bytes)", self.0.len())?;
        }
        f.write_str("'")
    }
}
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        const T: &[u8; 16] = b"0123456789abcdef";
        let mut o = String::with_capacity(self.0.len() * 2);
        for b in &self.0 {
            o.push(T[(b >> 4) as usize] as char);
            o.push(T[(b & 15) as usize] as char);
        }
        s.serialize_str(&o)
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect::<Result<Vec<_>, _>>()
            .map(Hex)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Null,
    Bool(bool),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    V4([u8; 4]),
    V6([u8; 16]),
    Str(String),
    Bin(Hex),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Msg {
    pub name: String,
    pub args: Vec<(String, Val)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Set(u8, String, Val),
    Unset(u8, String),
}

/// Capabilities by index into `CAPS`.
pub type Cap = u8;
pub const CAPS: [&str; 3] = ["fragmentation", "pipelining", "async"];
pub const FRAGMENTATION: Cap = 0;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fr {
    HHello { versions: Vec<(u8, u8)>, mfs: u32, caps: Vec<Cap>, hc: Option<bool>, eid: Option<String> },
    AHello { version: (u8, u8), mfs: u32, caps: Vec<Cap> },
    HDisc { code: u32, msg: String },
    ADisc { code: u32, msg: String },
    Notify { frag: bool, sid: u64, fid: u64, msgs: Vec<Msg> },
    Ack { frag: bool, abort: bool, sid: u64, fid: u64, acts: Vec<Act> },
}

// ---------------------------------------------------------------- conversions to and from the code under test

pub fn val_to(v: &Val) -> spop::Typed {
    use spop::Typed as T;
    match v {
        Val::Null => T::Null,
        Val::Bool(b) => T::Boolean(*b),
        Val::I32(n) => T::Int32(*n),
        Val::U32(n) => T::Uint32(*n),
        Val::I64(n) => T::Int64(*n),
        Val::U64(n) => T::Uint64(*n),
        Val::V4(a) => T::Ipv4(Ipv4Addr::from(*a)),
        Val::V6(a) => T::Ipv6(Ipv6Addr::from(*a)),
        Val::Str(s) => T::String(s.clone()),
        Val::Bin(b) => T::Binary(Bytes::from(b.0.clone())),
    }
}
pub fn val_from(v: &spop::Typed) -> Val {
    use spop::Typed as T;
    match v {
        T::Null => Val::Null,
        T::Boolean(b) => Val::Bool(*b),
        T::Int32(n) => Val::I32(*n),
        T::Uint32(n) => Val::U32(*n),
        T::Int64(n) => Val::I64(*n),
        T::Uint64(n) => Val::U64(*n),
        T::Ipv4(a) => Val::V4(a.octets()),
        T::Ipv6(a) => Val::V6(a.octets()),
        T::String(s) => Val::Str(s.clone()),
        T::Binary(b) => Val::Bin(Hex(b.to_vec())),
    }
}
pub const SCOPES: [spop::Scope; 5] =
    [spop::Scope::Process, spop::Scope::Session, spop::Scope::Transaction, spop::Scope::Request, spop::Scope::Response];
pub fn scope_from(s: spop::Scope) -> u8 {
    SCOPES.iter().position(|x| *x == s).unwrap() as u8
}
pub fn msg_to(m: &Msg) -> spop::Message {
    spop::Message { name: m.name.clone(), args: m.args.iter().map(|(k, v)| (k.clone(), val_to(v))).collect() }
}
pub fn msg_from(m: &spop::Message) -> Msg {
    Msg { name: m.name.clone(), args: m.args.iter().map(|(k, v)| (k.clone(), val_from(v))).collect() }
}
pub fn msgs_to(m: &[Msg]) -> Vec<spop::Message> {
    m.iter().map(msg_to).collect()
}
pub fn msgs_from(m: &[spop::Message]) -> Vec<Msg> {
    m.iter().map(msg_from).collect()
}
pub fn act_to(a: &Act) -> spop::Action {
    match a {
        Act::Set(s, n, v) => spop::Action::SetVar { scope: SCOPES[*s as usize], name: n.clone(), value: val_to(v) },
        Act::Unset(s, n) => spop::Action::UnsetVar { scope: SCOPES[*s as usize], name: n.clone() },
    }
}
pub fn act_from(a: &spop::Action) -> Act {
    match a {
        spop::Action::SetVar { scope, name, value } => Act::Set(scope_from(*scope), name.clone(), val_from(value)),
        spop::Action::UnsetVar { scope, name } => Act::Unset(scope_from(*scope), name.clone()),
    }
}
pub fn acts_to(a: &[Act]) -> Vec<spop::Action> {
    a.iter().map(act_to).collect()
}
pub fn acts_from(a: &[spop::Action]) -> Vec<Act> {
    a.iter().map(act_from).collect()
}
pub fn cap_to(c: Cap) -> spop::Capability {
    [spop::Capability::Fragmentation, spop::Capability::Pipelining, spop::Capability::Async][c as usize]
}
pub fn cap_from(c: spop::Capability) -> Cap {
    match c {
        spop::Capability::Fragmentation => 0,
        spop::Capability::Pipelining => 1,
        spop::Capability::Async => 2,
    }
}
pub fn ver_to(v: (u8, u8)) -> spop::Version {
    spop::Version { major: v.0, minor: v.1 }
}
pub fn ver_from(v: spop::Version) -> (u8, u8) {
    (v.major, v.minor)
}

pub fn fr_to(f: &Fr) -> spop::Frame {
    use spop::Frame as F;
    match f.clone() {
        Fr::HHello { versions, mfs, caps, hc, eid } => F::HaproxyHello(spop::HaproxyHello {
            supported_versions: versions.into_iter().map(ver_to).collect(),
            max_frame_size: mfs,
            capabilities: caps.into_iter().map(cap_to).collect(),
            healthcheck: hc,
            engine_id: eid,
        }),
        Fr::AHello { version, mfs, caps } => F::AgentHello(spop::AgentHello {
            version: ver_to(version),
            max_frame_size: mfs,
            capabilities: caps.into_iter().map(cap_to).collect(),
        }),
        Fr::HDisc { code, msg } => F::HaproxyDisconnect(spop::Disconnect { status_code: code, message: msg }),
        Fr::ADisc { code, msg } => F::AgentDisconnect(spop::Disconnect { status_code: code, message: msg }),
        Fr::Notify { frag, sid, fid, msgs } => {
            F::HaproxyNotify(spop::HaproxyNotify { fragmented: frag, stream_id: sid, frame_id: fid, messages: msgs_to(&msgs) })
        }
        Fr::Ack { frag, abort, sid, fid, acts } => F::AgentAck(spop::AgentAck {
            fragmented: frag,
            aborted: abort,
            stream_id: sid,
            frame_id: fid,
            actions: acts_to(&acts),
        }),
    }
}

/// `None` for the placeholder frame that carries nothing.
pub fn fr_from(f: &spop::Frame) -> Option<Fr> {
    use spop::Frame as F;
    Some(match f {
        F::Unset => return None,
        F::HaproxyHello(h) => Fr::HHello {
            versions: h.supported_versions.iter().map(|v| ver_from(*v)).collect(),
            mfs: h.max_frame_size,
            caps: h.capabilities.iter().map(|c| cap_from(*c)).collect(),
            hc: h.healthcheck,
            eid: h.engine_id.clone(),
        },
        F::AgentHello(h) => Fr::AHello {
            version: ver_from(h.version),
            mfs: h.max_frame_size,
            caps: h.capabilities.iter().map(|c| cap_from(*c)).collect(),
        },
        F::HaproxyDisconnect(d) => Fr::HDisc { code: d.status_code, msg: d.message.clone() },
        F::AgentDisconnect(d) => Fr::ADisc { code: d.status_code, msg: d.message.clone() },
        F::HaproxyNotify(n) => Fr::Notify { frag: n.fragmented, sid: n.stream_id, fid: n.frame_id, msgs: msgs_from(&n.messages) },
        F::AgentAck(a) => {
            Fr::Ack { frag: a.fragmented, abort: a.aborted, sid: a.stream_id, fid: a.frame_id, acts: acts_from(&a.actions) }
        }
    })
}

// ---------------------------------------------------------------- generators

/// First values of each varint length.
pub const VARINT_EDGES: [u64; 9] =
    [240, 2288, 264432, 33818864, 4328786160, 554084600048, 70922828777712, 9078122083518704, 1161999626690365680];

/// 64-bit values with weight on small numbers, varint length boundaries and powers of two.
pub fn num() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => 0u64..300,
        3 => (0usize..VARINT_EDGES.len(), -3i64..4).prop_map(|(i, d)| VARINT_EDGES[i].wrapping_add(d as u64)),
        2 => (0u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        1 => (0u32..64, any::<u64>()).prop_map(|(k, v)| v >> k),
        1 => any::<u64>(),
        1 => Just(u64::MAX),
    ]
    .boxed()
}

pub fn nonzero() -> BoxedStrategy<u64> {
    num().prop_map(|n| if n == 0 { 1 } else { n }).boxed()
}

/// Lengths around the varint boundaries of a length prefix.
pub fn len(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        8 => 0usize..20,
        2 => 20usize..300,
        2 => (prop::sample::select(vec![0usize, 127, 128, 239, 240, 241, 255, 256, 257, 2287, 2288, 2289, 4096]), 0usize..3)
            .prop_map(|(n, d)| n + d),
        1 => 0usize..5000,
        1 => (prop::sample::select(vec![0usize, 1024, 8192, 16384, 65535]), 0usize..3).prop_map(|(n, d)| n + d),
        1 => 0usize..200_000,
    ]
    .prop_map(move |n| n.min(max))
    .boxed()
}

const KEYS: [&str; 12] = [
    "supported-versions",
    "version",
    "max-frame-size",
    "capabilities",
    "engine-id",
    "healthcheck",
    "status-code",
    "message",
    "ip",
    "arg_hdrs",
    "",
    "2.0",
];

pub fn text(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z_]{0,12}",
        1 => prop::sample::select(KEYS.to_vec()).prop_map(String::from),
        2 => "\\PC{0,24}",
        1 => vec(any::<char>(), 0..16).prop_map(|v| v.into_iter().collect::<String>()),
        2 => (len(max), prop::sample::select(vec!["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{0}", ","]), 0usize..4).prop_map(|(n, s, shift)| {
            let mut t = "x".repeat(shift.min(n));
            t.push_str(&s.repeat((n - t.len()) / s.len()));
            while t.len() < n { t.push('z'); }
            t
        }),
    ]
    .boxed()
}

/// Known keys and what might be mistaken for one.
pub fn near_key() -> BoxedStrategy<String> {
    (prop::sample::select(KEYS.to_vec()), 0u8..10)
        .prop_map(|(k, how)| match how {
            0 => k.to_uppercase(),
            1 => k.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            2 => k.replace('-', "_"),
            3 => format!("{k} "),
            4 => format!(" {k}"),
            5 => format!("{k}s"),
            6 => k[..k.len().saturating_sub(1)].to_string(),
            7 => format!("x-{k}"),
            8 => String::new(),
            _ => k.to_string(),
        })
        .boxed()
}

pub fn blob(max: usize) -> BoxedStrategy<Hex> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..24).prop_map(Hex),
        2 => (len(max), any::<u8>(), any::<u8>()).prop_map(|(n, a, b)| {
            Hex((0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(b))).collect())
        }),
    ]
    .boxed()
}

fn i64s() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => num().prop_map(|n| n as i64),
        2 => num().prop_map(|n| (n as i64).wrapping_neg()),
        1 => Just(i64::MIN),
        1 => Just(-1i64),
    ]
    .boxed()
}

pub fn val(max: usize) -> BoxedStrategy<Val> {
    prop_oneof![
        Just(Val::Null),
        any::<bool>().prop_map(Val::Bool),
        i64s().prop_map(|n| Val::I32(n as i32)),
        prop_oneof![num().prop_map(|n| n as u32), Just(u32::MAX)].prop_map(Val::U32),
        i64s().prop_map(Val::I64),
        num().prop_map(Val::U64),
        prop_oneof![any::<[u8; 4]>(), Just([127, 0, 0, 1]), Just([0; 4]), Just([255; 4])].prop_map(Val::V4),
        prop_oneof![
            any::<[u8; 16]>(),
            Just(Ipv6Addr::LOCALHOST.octets()),
            any::<[u8; 4]>().prop_map(|a| Ipv4Addr::from(a).to_ipv6_mapped().octets()),
            Just([0; 16]),
        ]
        .prop_map(Val::V6),
        text(max).prop_map(Val::Str),
        blob(max).prop_map(Val::Bin),
    ]
    .boxed()
}

pub fn msg_sized(max: usize, nargs: usize) -> BoxedStrategy<Msg> {
    (text(max), vec((text(max), val(max)), 0..=nargs)).prop_map(|(name, args)| Msg { name, args }).boxed()
}

pub fn msg(max: usize) -> BoxedStrategy<Msg> {
    prop_oneof![
        20 => msg_sized(max, 6),
        // up to the protocol's 255 arguments
        1 => (text(40), prop_oneof![Just(255usize), Just(254), Just(127), Just(128), 7usize..256], val(20)).prop_map(|(name, n, v)| Msg {
            name,
            args: (0..n).map(|i| (format!("a{i}"), if i % 3 == 0 { v.clone() } else { Val::U32(i as u32) })).collect(),
        }),
    ]
    .boxed()
}

pub fn msgs(max: usize) -> BoxedStrategy<Vec<Msg>> {
    prop_oneof![
        10 => vec(msg(max), 0..5),
        1 => vec(msg_sized(8, 1), 5..60),
    ]
    .boxed()
}

pub fn act(max: usize) -> BoxedStrategy<Act> {
    prop_oneof![
        3 => (0u8..5, text(max), val(max)).prop_map(|(s, n, v)| Act::Set(s, n, v)),
        1 => (0u8..5, text(max)).prop_map(|(s, n)| Act::Unset(s, n)),
    ]
    .boxed()
}

pub fn acts(max: usize) -> BoxedStrategy<Vec<Act>> {
    prop_oneof![
        10 => vec(act(max), 0..6),
        1 => vec(act(12), 6..80),
    ]
    .boxed()
}

pub fn version() -> BoxedStrategy<(u8, u8)> {
    prop_oneof![
        3 => Just((2u8, 0u8)),
        3 => (0u8..4, 0u8..4),
        1 => (any::<u8>(), any::<u8>()),
        1 => (prop::sample::select(vec![9u8, 10, 11, 20]), prop::sample::select(vec![0u8, 9, 10, 11])),
    ]
    .boxed()
}

pub fn u32s() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => prop::sample::select(vec![0u32, 1, 239, 240, 255, 256, 2287, 2288, 16380, 16384, u32::MAX, i32::MAX as u32, 1 << 31]),
        2 => 0u32..70_000,
        1 => any::<u32>(),
    ]
    .boxed()
}

pub fn codes() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0u32..16, 1 => Just(99u32), 2 => u32s()].boxed()
}

pub fn hhello(max: usize) -> BoxedStrategy<Fr> {
    (vec(version(), 1..5), u32s(), vec(0u8..3, 0..5), prop::option::of(any::<bool>()), prop::option::of(text(max)))
        .prop_map(|(versions, mfs, caps, hc, eid)| Fr::HHello { versions, mfs, caps, hc, eid })
        .boxed()
}

/// Any well-formed frame with strings and binaries up to `max` bytes.
pub fn frame(max: usize) -> BoxedStrategy<Fr> {
    prop_oneof![
        2 => hhello(max),
        1 => (version(), u32s(), vec(0u8..3, 0..5)).prop_map(|(version, mfs, caps)| Fr::AHello { version, mfs, caps }),
        1 => (codes(), text(max)).prop_map(|(code, msg)| Fr::HDisc { code, msg }),
        1 => (codes(), text(max)).prop_map(|(code, msg)| Fr::ADisc { code, msg }),
        4 => (any::<bool>(), num(), nonzero(), msgs(max)).prop_map(|(frag, sid, fid, msgs)| Fr::Notify { frag, sid, fid, msgs }),
        4 => (any::<bool>(), any::<bool>(), num(), nonzero(), acts(max))
            .prop_map(|(frag, abort, sid, fid, acts)| Fr::Ack { frag, abort, sid, fid, acts }),
    ]
    .boxed()
}

impl Fr {
    pub fn kind(&self) -> &'static str {
        match self {
            Fr::HHello { .. } => "haproxy-hello",
            Fr::AHello { .. } => "agent-hello",
            Fr::HDisc { .. } => "haproxy-disconnect",
            Fr::ADisc { .. } => "agent-disconnect",
            Fr::Notify { .. } => "notify",
            Fr::Ack { .. } => "ack",
        }
    }
    /// Carries something beyond its fixed fields.
    pub fn has_payload(&self) -> bool {
        match self {
            Fr::Notify { msgs, .. } => msgs.iter().any(|m| !m.args.is_empty()),
            Fr::Ack { acts, .. } => !acts.is_empty(),
            Fr::HHello { caps, .. } | Fr::AHello { caps, .. } => !caps.is_empty(),
            Fr::HDisc { msg, .. } | Fr::ADisc { msg, .. } => !msg.is_empty(),
        }
    }
}
