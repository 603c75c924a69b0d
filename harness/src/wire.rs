//! Independent SPOP 2.0 encoder and strict decoder, written from the specification.
use crate::model::*;

pub const HAPROXY_HELLO: u8 = 1;
pub const HAPROXY_DISCONNECT: u8 = 2;
pub const HAPROXY_NOTIFY: u8 = 3;
pub const AGENT_HELLO: u8 = 101;
pub const AGENT_DISCONNECT: u8 = 102;
pub const AGENT_ACK: u8 = 103;
pub const FIN: u32 = 1;
pub const ABORT: u32 = 2;

/// Peers varint, arithmetic definition: a first byte below 240 is the value; otherwise the value is
/// first + sum(next_i << (4 + 7 i)), continuing while next_i >= 128.
pub fn put_varint(o: &mut Vec<u8>, v: u64) {
    if v < 240 {
        o.push(v as u8);
        return;
    }
    // v = 240 + low + 16 * rest with low in 0..16
    let w = v - 240;
    o.push(240 + (w % 16) as u8);
    let mut rest = w / 16;
    loop {
        if rest < 128 {
            o.push(rest as u8);
            return;
        }
        let r = rest - 128;
        o.push(128 + (r % 128) as u8);
        rest = r / 128;
    }
}

pub fn varint_len(v: u64) -> usize {
    1 + VARINT_EDGES.iter().filter(|e| v >= **e).count()
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

type P<T> = Result<T, Bad>;

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// Not a frame of the protocol: must be refused.
    Malformed(&'static str),
    /// Outside what the specification settles: no claim on acceptance.
    Open(&'static str),
}
use Bad::*;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.i
    }
    pub fn u8(&mut self) -> P<u8> {
        let v = *self.b.get(self.i).ok_or(Malformed("cut short"))?;
        self.i += 1;
        Ok(v)
    }
    pub fn take(&mut self, n: usize) -> P<&'a [u8]> {
        if self.left() < n {
            return Err(Malformed("cut short"));
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    pub fn varint(&mut self) -> P<u64> {
        let first = self.u8()?;
        if first < 240 {
            return Ok(first as u64);
        }
        let mut v = first as u128;
        let mut shift = 4u32;
        loop {
            let b = self.u8()?;
            if shift < 100 {
                v += (b as u128) << shift;
            } else if b != 0 {
                v = u128::MAX / 2;
            }
            shift += 7;
            if b < 128 {
                break;
            }
        }
        u64::try_from(v).map_err(|_| Malformed("varint over 64 bits"))
    }
    pub fn bytes(&mut self) -> P<&'a [u8]> {
        let n = self.varint()?;
        if n > self.left() as u64 {
            return Err(Malformed("length beyond the frame"));
        }
        self.take(n as usize)
    }
    pub fn string(&mut self) -> P<String> {
        String::from_utf8(self.bytes()?.to_vec()).map_err(|_| Malformed("invalid text"))
    }
    pub fn val(&mut self) -> P<Val> {
        let t = self.u8()?;
        Ok(match t & 0x0f {
            0 => Val::Null,
            1 => Val::Bool(t & 0x10 != 0),
            2 => {
                let n = self.varint()?;
                if n as i64 as i32 as i64 == n as i64 {
                    Val::I32(n as i32)
                } else if n >> 32 == 0 {
                    return Err(Open("32-bit signed integer sent zero-extended"));
                } else {
                    return Err(Malformed("32-bit signed integer out of range"));
                }
            }
            3 => {
                let n = self.varint()?;
                Val::U32(u32::try_from(n).map_err(|_| Malformed("32-bit unsigned integer out of range"))?)
            }
            4 => Val::I64(self.varint()? as i64),
            5 => Val::U64(self.varint()?),
            6 => Val::V4(self.take(4)?.try_into().unwrap()),
            7 => Val::V6(self.take(16)?.try_into().unwrap()),
            8 => Val::Str(self.string()?),
            9 => Val::Bin(Hex(self.bytes()?.to_vec())),
            _ => return Err(Malformed("reserved data type")),
        })
    }
}

// ---------------------------------------------------------------- encoder

/// How an integer item of a hello or disconnect is typed.
pub const INT_TYPES: [u8; 4] = [2, 3, 4, 5];

pub fn put_str(o: &mut Vec<u8>, s: &str) {
    put_varint(o, s.len() as u64);
    o.extend_from_slice(s.as_bytes());
}

pub fn put_val(o: &mut Vec<u8>, v: &Val) {
    match v {
        Val::Null => o.push(0),
        Val::Bool(b) => o.push(if *b { 0x11 } else { 0x01 }),
        Val::I32(n) => {
            o.push(2);
            put_varint(o, *n as i64 as u64)
        }
        Val::U32(n) => {
            o.push(3);
            put_varint(o, *n as u64)
        }
        Val::I64(n) => {
            o.push(4);
            put_varint(o, *n as u64)
        }
        Val::U64(n) => {
            o.push(5);
            put_varint(o, *n)
        }
        Val::V4(a) => {
            o.push(6);
            o.extend_from_slice(a)
        }
        Val::V6(a) => {
            o.push(7);
            o.extend_from_slice(a)
        }
        Val::Str(s) => {
            o.push(8);
            put_str(o, s)
        }
        Val::Bin(b) => {
            o.push(9);
            put_varint(o, b.0.len() as u64);
            o.extend_from_slice(&b.0)
        }
    }
}

pub fn put_msg(o: &mut Vec<u8>, m: &Msg) {
    put_str(o, &m.name);
    assert!(m.args.len() < 256);
    o.push(m.args.len() as u8);
    for (k, v) in &m.args {
        put_str(o, k);
        put_val(o, v);
    }
}

pub fn put_act(o: &mut Vec<u8>, a: &Act) {
    match a {
        Act::Set(s, n, v) => {
            o.extend_from_slice(&[1, 3, *s]);
            put_str(o, n);
            put_val(o, v);
        }
        Act::Unset(s, n) => {
            o.extend_from_slice(&[2, 2, *s]);
            put_str(o, n);
        }
    }
}

pub fn head(ty: u8, flags: u32, sid: u64, fid: u64) -> Vec<u8> {
    let mut o = vec![ty];
    o.extend_from_slice(&flags.to_be_bytes());
    put_varint(&mut o, sid);
    put_varint(&mut o, fid);
    o
}

pub fn join_versions(v: &[(u8, u8)], sep: &str) -> String {
    v.iter().map(|(a, b)| format!("{a}.{b}")).collect::<Vec<_>>().join(sep)
}
pub fn join_caps(v: &[Cap], sep: &str) -> String {
    v.iter().map(|c| CAPS[*c as usize]).collect::<Vec<_>>().join(sep)
}

/// The key/value items of a frame, in the canonical order.
pub fn items(f: &Fr) -> Option<(u8, Vec<(String, Val)>)> {
    let mut kv: Vec<(&str, Val)> = vec![];
    let ty = match f {
        Fr::HHello { versions, mfs, caps, hc, eid } => {
            kv.push(("supported-versions", Val::Str(join_versions(versions, ","))));
            kv.push(("max-frame-size", Val::U32(*mfs)));
            kv.push(("capabilities", Val::Str(join_caps(caps, ","))));
            if let Some(b) = hc {
                kv.push(("healthcheck", Val::Bool(*b)));
            }
            if let Some(e) = eid {
                kv.push(("engine-id", Val::Str(e.clone())));
            }
            HAPROXY_HELLO
        }
        Fr::AHello { version, mfs, caps } => {
            kv.push(("version", Val::Str(join_versions(&[*version], ","))));
            kv.push(("max-frame-size", Val::U32(*mfs)));
            kv.push(("capabilities", Val::Str(join_caps(caps, ","))));
            AGENT_HELLO
        }
        Fr::HDisc { code, msg } | Fr::ADisc { code, msg } => {
            kv.push(("status-code", Val::U32(*code)));
            kv.push(("message", Val::Str(msg.clone())));
            if matches!(f, Fr::HDisc { .. }) {
                HAPROXY_DISCONNECT
            } else {
                AGENT_DISCONNECT
            }
        }
        _ => return None,
    };
    Some((ty, kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
}

/// Canonical encoding, without the length prefix.
pub fn encode(f: &Fr) -> Vec<u8> {
    match f {
        Fr::Notify { frag, sid, fid, msgs } => {
            let mut o = head(HAPROXY_NOTIFY, if *frag { 0 } else { FIN }, *sid, *fid);
            for m in msgs {
                put_msg(&mut o, m);
            }
            o
        }
        Fr::Ack { frag, abort, sid, fid, acts } => {
            let flags = if *frag { 0 } else { FIN } + if *abort { ABORT } else { 0 };
            let mut o = head(AGENT_ACK, flags, *sid, *fid);
            for a in acts {
                put_act(&mut o, a);
            }
            o
        }
        _ => {
            let (ty, kv) = items(f).unwrap();
            let mut o = head(ty, FIN, 0, 0);
            for (k, v) in &kv {
                put_str(&mut o, k);
                put_val(&mut o, v);
            }
            o
        }
    }
}

pub fn prefixed(payload: &[u8]) -> Vec<u8> {
    let mut o = (payload.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(payload);
    o
}

pub fn encode_prefixed(f: &Fr) -> Vec<u8> {
    prefixed(&encode(f))
}

// ---------------------------------------------------------------- strict decoder

fn parse_version(s: &str) -> P<(u8, u8)> {
    if s.chars().any(char::is_whitespace) {
        return Err(Open("spaces in version"));
    }
    let (a, b) = s.split_once('.').ok_or(if s.is_empty() { Open("empty version") } else { Malformed("version text") })?;
    let num = |t: &str| -> P<u8> {
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
            if t.strip_prefix('+').is_some_and(|r| !r.is_empty() && r.bytes().all(|c| c.is_ascii_digit())) {
                return Err(Open("signed version"));
            }
            return Err(Malformed("version text"));
        }
        if t.len() > 1 && t.starts_with('0') {
            return Err(Open("leading zero in version"));
        }
        t.parse().map_err(|_| Open("version number over 255"))
    };
    Ok((num(a)?, num(b)?))
}

fn parse_versions(s: &str) -> P<Vec<(u8, u8)>> {
    let r: Vec<P<(u8, u8)>> = s.split(',').map(|v| parse_version(v.trim_matches(' '))).collect();
    settle(r)
}

/// Malformed wins over open, open over accepted.
fn settle<T>(r: Vec<P<T>>) -> P<Vec<T>> {
    if let Some(Err(e)) = r.iter().find(|x| matches!(x, Err(Malformed(_)))) {
        return Err(e.clone());
    }
    r.into_iter().collect()
}

fn parse_caps(s: &str) -> P<Vec<Cap>> {
    if s.is_empty() {
        return Ok(vec![]);
    }
    if s.bytes().all(|b| b == b' ') {
        return Err(Open("blank capability list"));
    }
    s.split(',')
        .map(|c| {
            let c = c.trim_matches(' ');
            CAPS.iter().position(|k| *k == c).map(|i| i as u8).ok_or(Open("unknown capability"))
        })
        .collect()
}

struct Kv(Vec<(String, Val)>);
impl Kv {
    fn get(&self, k: &str) -> P<Option<&Val>> {
        let mut it = self.0.iter().filter(|(n, _)| n == k);
        let v = it.next();
        if it.next().is_some() {
            return Err(Open("repeated item"));
        }
        Ok(v.map(|x| &x.1))
    }
    fn need(&self, k: &str, missing: &'static str) -> P<&Val> {
        self.get(k)?.ok_or(Malformed(missing))
    }
    fn text(&self, k: &str, missing: &'static str) -> P<&str> {
        match self.need(k, missing)? {
            Val::Str(s) => Ok(s),
            _ => Err(Malformed("mandatory item of the wrong type")),
        }
    }
    fn uint(v: &Val) -> P<u32> {
        match v {
            Val::I32(n) => u32::try_from(*n).map_err(|_| Malformed("negative number")),
            Val::U32(n) => Ok(*n),
            Val::I64(n) => u32::try_from(*n).map_err(|_| Malformed("number out of range")),
            Val::U64(n) => u32::try_from(*n).map_err(|_| Malformed("number out of range")),
            _ => Err(Malformed("mandatory item of the wrong type")),
        }
    }
}

/// Decodes a frame without its length prefix.
pub fn decode(b: &[u8]) -> P<Fr> {
    let mut r = Rd::new(b);
    let ty = r.u8()?;
    if ![0, 1, 2, 3, 101, 102, 103].contains(&ty) {
        return Err(Malformed("unknown frame type"));
    }
    let flags = u32::from_be_bytes(r.take(4)?.try_into().unwrap());
    let sid = r.varint()?;
    let fid = r.varint()?;
    let fin = flags & FIN != 0;
    let abort = flags & ABORT != 0;
    let body = match ty {
        0 => return Err(Open("unset frame")),
        HAPROXY_NOTIFY => {
            if fid == 0 {
                return Err(Malformed("frame id 0"));
            }
            let mut msgs = vec![];
            let mut open = None;
            while r.left() > 0 {
                let name = r.string()?;
                let n = r.u8()?;
                let mut args = vec![];
                for _ in 0..n {
                    let k = r.string()?;
                    match r.val() {
                        Ok(v) => args.push((k, v)),
                        Err(Open(e)) => open = Some(e),
                        Err(e) => return Err(e),
                    }
                }
                msgs.push(Msg { name, args });
            }
            if let Some(e) = open {
                return Err(Open(e));
            }
            if abort {
                return Err(Open("abort flag on notify"));
            }
            return Ok(Fr::Notify { frag: !fin, sid, fid, msgs });
        }
        AGENT_ACK => {
            if fid == 0 {
                return Err(Malformed("frame id 0"));
            }
            let mut acts = vec![];
            let mut open = None;
            while r.left() > 0 {
                let t = r.u8()?;
                let n = r.u8()?;
                match (t, n) {
                    (1, 3) | (2, 2) => {}
                    (1, _) | (2, _) => return Err(Malformed("argument count of an action")),
                    _ => return Err(Malformed("unknown action")),
                }
                let scope = r.u8()?;
                if scope > 4 {
                    return Err(Malformed("unknown scope"));
                }
                let name = r.string()?;
                if t == 1 {
                    match r.val() {
                        Ok(v) => acts.push(Act::Set(scope, name, v)),
                        Err(Open(e)) => open = Some(e),
                        Err(e) => return Err(e),
                    }
                } else {
                    acts.push(Act::Unset(scope, name));
                }
            }
            if let Some(e) = open {
                return Err(Open(e));
            }
            return Ok(Fr::Ack { frag: !fin, abort, sid, fid, acts });
        }
        _ => {
            if sid != 0 || fid != 0 {
                return Err(Malformed("ids on a connection frame"));
            }
            let mut kv = vec![];
            let mut open = None;
            while r.left() > 0 {
                let k = r.string()?;
                match r.val() {
                    Ok(v) => kv.push((k, v)),
                    Err(Open(e)) => {
                        open = Some(e);
                        kv.push((k, Val::Null));
                    }
                    Err(e) => return Err(e),
                }
            }
            if let Some(e) = open {
                return Err(Open(e));
            }
            Kv(kv)
        }
    };
    if !fin || abort {
        return Err(Open("flags of a connection frame"));
    }
    Ok(match ty {
        HAPROXY_HELLO => {
            let versions = body.text("supported-versions", "no version").map(parse_versions);
            let mfs = body.need("max-frame-size", "no frame size").and_then(Kv::uint);
            let caps = body.text("capabilities", "no capabilities").map(parse_caps);
            let hc = match body.get("healthcheck")? {
                None => Ok(None),
                Some(Val::Bool(b)) => Ok(Some(*b)),
                Some(_) => Err(Open("optional item of another type")),
            };
            let eid = match body.get("engine-id")? {
                None => Ok(None),
                Some(Val::Str(s)) => Ok(Some(s.clone())),
                Some(_) => Err(Open("optional item of another type")),
            };
            // A definite violation decides even if another item is open.
            let (v, m, c) = (versions.and_then(|x| x), mfs, caps.and_then(|x| x));
            for e in [v.as_ref().err(), m.as_ref().err(), c.as_ref().err()].into_iter().flatten() {
                if matches!(e, Malformed(_)) {
                    return Err(e.clone());
                }
            }
            Fr::HHello { versions: v?, mfs: m?, caps: c?, hc: hc?, eid: eid? }
        }
        AGENT_HELLO => {
            let v = body.text("version", "no version").and_then(|s| {
                if s != s.trim() {
                    Err(Open("spaces around version"))
                } else {
                    parse_version(s)
                }
            });
            let m = body.need("max-frame-size", "no frame size").and_then(Kv::uint);
            let c = body.text("capabilities", "no capabilities").and_then(parse_caps);
            for e in [v.as_ref().err(), m.as_ref().err(), c.as_ref().err()].into_iter().flatten() {
                if matches!(e, Malformed(_)) {
                    return Err(e.clone());
                }
            }
            Fr::AHello { version: v?, mfs: m?, caps: c? }
        }
        _ => {
            let code = match body.get("status-code")? {
                None => return Err(Open("no status code")),
                Some(Val::Str(_) | Val::Null | Val::Bool(_) | Val::V4(_) | Val::V6(_) | Val::Bin(_)) => {
                    return Err(Open("status code of another type"))
                }
                Some(v) => Kv::uint(v)?,
            };
            let msg = match body.get("message")? {
                Some(Val::Str(s)) => s.clone(),
                _ => return Err(Open("no message")),
            };
            if ty == HAPROXY_DISCONNECT {
                Fr::HDisc { code, msg }
            } else {
                Fr::ADisc { code, msg }
            }
        }
    })
}

/// Splits a byte stream into complete frames (payloads); the rest is returned too.
pub fn split(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut v = vec![];
    let mut i = 0;
    while b.len() - i >= 4 {
        let n = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if b.len() - i - 4 < n {
            break;
        }
        v.push(&b[i + 4..i + 4 + n]);
        i += 4 + n;
    }
    (v, &b[i..])
}
