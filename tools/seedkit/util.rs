#![allow(dead_code)]
//! A small SPOP peer, written from the specification.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use haproxy_spoa::runtime::Builder;
use haproxy_spoa::{Agent, Connection};
pub use haproxy_spop::*;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_util::sync::CancellationToken;
use tower::service_fn;

pub fn varint(mut n: u64) -> Vec<u8> {
    if n < 240 {
        return vec![n as u8];
    }
    let mut v = vec![(n as u8) | 0xf0];
    n = (n - 240) >> 4;
    while n >= 128 {
        v.push((n as u8) | 0x80);
        n = (n - 128) >> 7;
    }
    v.push(n as u8);
    v
}
pub fn get_varint(b: &[u8]) -> (u64, &[u8]) {
    if b[0] < 240 {
        return (b[0] as u64, &b[1..]);
    }
    let (mut n, mut r, mut i) = (b[0] as u64, 4, 1);
    loop {
        n = n.wrapping_add((b[i] as u64) << r);
        r += 7;
        i += 1;
        if b[i - 1] < 128 {
            return (n, &b[i..]);
        }
    }
}
pub fn s(x: &str) -> Vec<u8> {
    cat(&[&varint(x.len() as u64), x.as_bytes()])
}
/// A key with a string value.
pub fn kvs(k: &str, v: &str) -> Vec<u8> {
    cat(&[&s(k), &[8], &s(v)])
}
/// A key with a numeric value of that type code.
pub fn kvn(k: &str, ty: u8, n: u64) -> Vec<u8> {
    cat(&[&s(k), &[ty], &varint(n)])
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
/// Type, flags, ids and payload, without the length.
pub fn body(ty: u8, flags: u32, sid: u64, fid: u64, payload: &[u8]) -> Vec<u8> {
    cat(&[&[ty], &flags.to_be_bytes(), &varint(sid), &varint(fid), payload])
}
pub fn prefixed(b: &[u8]) -> Vec<u8> {
    cat(&[&(b.len() as u32).to_be_bytes(), b])
}
pub fn raw(ty: u8, flags: u32, sid: u64, fid: u64, payload: &[u8]) -> Vec<u8> {
    prefixed(&body(ty, flags, sid, fid, payload))
}
pub fn hello_with(versions: &str, mfs: u64, caps: &str, rest: &[u8]) -> Vec<u8> {
    let p = cat(&[
        &kvs("supported-versions", versions),
        &kvn("max-frame-size", 3, mfs),
        &kvs("capabilities", caps),
        rest,
    ]);
    raw(1, 1, 0, 0, &p)
}
pub fn hello() -> Vec<u8> {
    hello_with("2.0", 16380, "fragmentation", &[])
}
/// Messages without arguments.
pub fn notify(fin: bool, sid: u64, fid: u64, names: &[&str]) -> Vec<u8> {
    let p: Vec<u8> = names.iter().flat_map(|n| cat(&[&s(n), &[0]])).collect();
    raw(3, fin as u32, sid, fid, &p)
}
pub fn haproxy_disconnect() -> Vec<u8> {
    raw(2, 1, 0, 0, &cat(&[&kvn("status-code", 3, 0), &kvs("message", "bye")]))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub ty: u8,
    pub flags: u32,
    pub sid: u64,
    pub fid: u64,
    pub payload: Vec<u8>,
    pub len: usize,
}
impl Raw {
    pub fn parse(b: &[u8]) -> Raw {
        let flags = u32::from_be_bytes(b[1..5].try_into().unwrap());
        let (sid, r) = get_varint(&b[5..]);
        let (fid, r) = get_varint(r);
        Raw { ty: b[0], flags, sid, fid, payload: r.to_vec(), len: b.len() }
    }
    pub fn is_ack(&self, sid: u64, fid: u64) -> bool {
        (self.ty, self.flags, self.sid, self.fid) == (103, 1, sid, fid)
    }
    pub fn has(&self, bytes: &[u8]) -> bool {
        bytes.is_empty() || self.payload.windows(bytes.len()).any(|w| w == bytes)
    }
    /// The status of a disconnect frame.
    pub fn status(&self) -> Option<u64> {
        let k = s("status-code");
        let at = self.payload.windows(k.len()).position(|w| w == k)?;
        (self.ty == 102).then(|| get_varint(&self.payload[at + k.len() + 1..]).0)
    }
}
pub fn split(mut b: &[u8]) -> Vec<Raw> {
    let mut v = vec![];
    while !b.is_empty() {
        assert!(b.len() >= 4, "cut length: {b:?}");
        let len = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        assert!(b.len() >= 4 + len, "cut frame: {b:?}");
        v.push(Raw::parse(&b[4..4 + len]));
        b = &b[4 + len..];
    }
    v
}

/// What the service saw, call by call: names of the messages.
pub type Seen = Arc<Mutex<Vec<Vec<String>>>>;

/// Serve one connection over memory, with all those bytes sent at once and the stream then closed
/// after `linger`; returns the frames sent back, and the names of the messages of each call. The
/// service sets the variable "n" to the joined names, fails on a message named "fail", hangs on "hang",
/// and does nothing on "none".
pub async fn talk(b: Builder, bytes: Vec<u8>, linger: Duration) -> (Vec<Raw>, Vec<Vec<String>>) {
    let seen = Seen::default();
    let seen2 = seen.clone();
    let rt = b.make_service(
        service_fn(move |_: ()| {
            let seen = seen2.clone();
            async move {
                Ok::<_, std::io::Error>(service_fn(move |m: Vec<Message>| {
                    let seen = seen.clone();
                    async move { answer(&seen, m).await }
                }))
            }
        }),
        (),
    );
    let (near, far) = tokio::io::duplex(1 << 20);
    let serve = tokio::spawn(async move {
        let mut c = Connection::new(rt, near, CancellationToken::new());
        let _ = c.serve().await;
    });
    let (mut r, mut w) = tokio::io::split(far);
    let send = tokio::spawn(async move {
        let _ = w.write_all(&bytes).await;
        tokio::time::sleep(linger).await;
        let _ = w.shutdown().await;
    });
    let mut got = vec![];
    let _ = r.read_to_end(&mut got).await;
    let _ = serve.await;
    send.abort();
    let seen = seen.lock().unwrap().clone();
    (split(&got), seen)
}
pub async fn answer(seen: &Seen, m: Vec<Message>) -> Result<Vec<Action>, String> {
    let names: Vec<String> = m.into_iter().map(|m| m.name).collect();
    seen.lock().unwrap().push(names.clone());
    match names.first().map(|n| n.as_str()) {
        Some("fail") => Err("backend exploded".into()),
        Some("hang") => std::future::pending().await,
        Some("none") => Ok(vec![]),
        Some("slow") => {
            tokio::time::sleep(Duration::from_millis(700)).await;
            Ok(vec![])
        }
        _ => Ok(vec![Action::set_var(Scope::Request, "n", names.join("+"))]),
    }
}

pub struct Live {
    pub addr: std::net::SocketAddr,
    pub stop: CancellationToken,
    pub done: tokio::task::JoinHandle<()>,
    pub seen: Seen,
}
/// A listening agent with the same service.
pub fn agent(b: Builder) -> Live {
    let seen = Seen::default();
    let seen2 = seen.clone();
    let rt = b.make_service(
        service_fn(move |_: ()| {
            let seen = seen2.clone();
            async move {
                Ok::<_, std::io::Error>(service_fn(move |m: Vec<Message>| {
                    let seen = seen.clone();
                    async move { answer(&seen, m).await }
                }))
            }
        }),
        (),
    );
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = Agent::new(rt, l).unwrap();
    let stop = agent.shutdown();
    let done = tokio::spawn(async move {
        let _ = agent.serve().await;
    });
    Live { addr, stop, done, seen }
}
pub struct Peer(pub tokio::net::TcpStream);
impl Peer {
    pub async fn open(addr: std::net::SocketAddr) -> Peer {
        Peer(tokio::net::TcpStream::connect(addr).await.unwrap())
    }
    pub async fn send(&mut self, b: &[u8]) {
        self.0.write_all(b).await.unwrap();
    }
    /// The next frame, or nothing if the connection ends or five seconds pass.
    pub async fn recv(&mut self) -> Option<Raw> {
        tokio::time::timeout(Duration::from_secs(5), async {
            let len = self.0.read_u32().await.ok()? as usize;
            let mut b = vec![0; len];
            self.0.read_exact(&mut b).await.ok()?;
            Some(Raw::parse(&b))
        })
        .await
        .ok()
        .flatten()
    }
    pub async fn hello(addr: std::net::SocketAddr) -> Peer {
        let mut p = Peer::open(addr).await;
        p.send(&hello()).await;
        assert_eq!(p.recv().await.expect("agent hello").ty, 101);
        p
    }
}

pub async fn read_one(bytes: &[u8]) -> Result<Frame, Error> {
    Framer::new(MAX_FRAME_SIZE).read_frame(bytes).await
}
pub async fn write_one(f: Frame) -> Vec<u8> {
    let mut v = vec![];
    let n = Framer::new(MAX_FRAME_SIZE).write_frame(&mut v, f).await.unwrap();
    assert_eq!(n, v.len());
    v
}
