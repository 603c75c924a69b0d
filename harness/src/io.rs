//! Scripted transports.
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// One transport step: transfer at most this many bytes, or report not-ready once (0).
pub type Steps = Vec<u16>;

pub fn steps() -> BoxedStrategy<Steps> {
    prop_oneof![
        1 => Just(vec![]),
        2 => vec(prop_oneof![2 => 1u16..4, 1 => Just(0u16), 1 => 1u16..40, 1 => 1u16..5000], 1..24),
        1 => Just(vec![1]),
        1 => Just(vec![0, 1]),
    ]
    .boxed()
}

/// How the transport ends.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    /// End of stream / writes accepted for ever.
    Clean,
    /// Connection reset after that many bytes.
    Error,
}

#[derive(Default)]
pub struct State {
    pub input: VecDeque<u8>,
    pub read_steps: Steps,
    read_at: usize,
    pub read_error_at_end: bool,
    pub write_steps: Steps,
    write_at: usize,
    /// Written but not yet flushed.
    pub staged: Vec<u8>,
    /// Handed over to the peer.
    pub delivered: Vec<u8>,
    pub hold: bool,
    pub write_limit: Option<usize>,
    /// At the limit, accept zero bytes instead of failing.
    pub write_zero: bool,
    /// Flushing fails once there is more than that.
    pub flush_limit: Option<usize>,
    pub max_read: usize,
    pub reads: usize,
    pub flushes: usize,
}

/// A transport whose behaviour is a script; cloning shares it.
#[derive(Clone, Default)]
pub struct Scripted(pub Arc<Mutex<State>>);

impl std::fmt::Debug for Scripted {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Scripted")
    }
}

impl Scripted {
    pub fn new(input: &[u8]) -> Self {
        let s = Scripted::default();
        s.0.lock().unwrap().input = input.iter().copied().collect();
        s
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    pub fn unread(&self) -> usize {
        self.with(|s| s.input.len())
    }
}

fn step(steps: &[u16], at: &mut usize) -> Option<usize> {
    if steps.is_empty() {
        return Some(usize::MAX);
    }
    // A script of nothing but not-ready would never end: read it as byte-wise.
    let s = steps[*at % steps.len()] as usize;
    *at += 1;
    if s == 0 {
        if steps.iter().all(|x| *x == 0) && *at % 2 == 0 {
            return Some(1);
        }
        return None;
    }
    Some(s)
}

impl AsyncRead for Scripted {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        s.reads += 1;
        let mut at = s.read_at;
        let st = step(&s.read_steps, &mut at);
        s.read_at = at;
        let Some(n) = st else {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        };
        if s.input.is_empty() {
            if s.read_error_at_end {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            return Poll::Ready(Ok(()));
        }
        let n = n.min(buf.remaining()).min(s.input.len());
        for _ in 0..n {
            let b = s.input.pop_front().unwrap();
            buf.put_slice(&[b]);
        }
        s.max_read = s.max_read.max(n);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Scripted {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        let mut at = s.write_at;
        let st = step(&s.write_steps, &mut at);
        s.write_at = at;
        let Some(n) = st else {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        };
        let mut n = n.min(buf.len());
        if let Some(limit) = s.write_limit {
            let room = limit.saturating_sub(s.staged.len() + s.delivered.len());
            if room == 0 && !buf.is_empty() {
                if s.write_zero {
                    return Poll::Ready(Ok(0));
                }
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = n.min(room);
        }
        if s.hold {
            s.staged.extend_from_slice(&buf[..n]);
        } else {
            s.delivered.extend_from_slice(&buf[..n]);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        s.flushes += 1;
        // Flushing takes as many turns as the write script says.
        let mut at = s.write_at;
        let st = step(&s.write_steps, &mut at);
        s.write_at = at;
        if st.is_none() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if s.flush_limit.is_some_and(|l| s.staged.len() + s.delivered.len() > l) {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let staged = std::mem::take(&mut s.staged);
        s.delivered.extend_from_slice(&staged);
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

/// Runs a future on a fresh single-threaded runtime with a virtual clock.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime").block_on(f)
}

/// Drives a future whose only wake-ups come from a scripted transport.
pub fn drive<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
