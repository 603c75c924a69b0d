import sys
root=sys.argv[1]
def ed(f,*pairs):
    p=root+'/'+f;t=open(p).read()
    for o,n in pairs:
        assert o in t,(f,o)
        t=t.replace(o,n,1)
    open(p,'w').write(t)

# A fourth behaviour-preserving refactoring: other standard tools for the same purposes, wider arithmetic, other buffers.
ed('spop/src/frame/framer.rs',("""    let mut buf = BytesMut::with_capacity(len);
    buf.resize(len, 0);

    r.read_exact(&mut buf).await.map_err(|_| Io)?;

    Ok(buf.freeze())
""","""    let mut buf = BytesMut::new();

    while buf.len() < len {
        let want = (len - buf.len()).min(4096);
        let at = buf.len();
        buf.resize(at + want, 0);

        match r.read(&mut buf[at..]).await {
            Ok(n) if n > 0 => buf.truncate(at + n),
            _ => return Err(Io),
        }
    }

    Ok(buf.freeze())
"""),("""        let buf = write_frame(BytesMut::new(), frame);
        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
            return Err(TooBig);
        }

        trace!(buf=%HexView::new(&buf[4..]));

        pin_mut!(w);

        w.write_all(&buf).await.map_err(|_| Io)?;
        w.flush().await.map_err(|_| Io)?;

        Ok(buf.len())
""","""        let mut buf = Vec::with_capacity(128);
        buf.put_frame(frame);

        if buf.len() > self.max_frame_size {
            return Err(TooBig);
        }

        trace!(buf=%HexView::new(&buf));

        pin_mut!(w);

        let size = (buf.len() as u32).to_be_bytes();
        let mut whole = Buf::chain(&size[..], &buf[..]);

        while whole.has_remaining() {
            match w.write_buf(&mut whole).await {
                Ok(n) if n > 0 => {}
                _ => return Err(Io),
            }
        }

        match w.flush().await {
            Ok(()) => Ok(mem::size_of::<u32>() + buf.len()),
            Err(_) => Err(Io),
        }
"""),("""fn write_frame(mut buf: BytesMut, frame: Frame) -> Bytes {
    buf.put_u32(0);
    buf.put_frame(frame);

    let len = (buf.len() - mem::size_of::<u32>()) as u32;

    (&mut buf[0..4]).put_u32(len);

    buf.freeze()
}
""",""),("use bytes::{BufMut, Bytes, BytesMut};","use bytes::{Buf, Bytes, BytesMut};"))
ed('spop/src/frame/decode.rs',("struct KVList(HashMap<String, Typed>);","struct KVList(Vec<(String, Typed)>);"),
("""        Self(iter.into_iter().collect())
""","""        Self(iter.into_iter().collect())
    }
}

impl KVList {
    /// The last one of that name.
    fn take(&mut self, key: &str) -> Option<Typed> {
        let at = self.0.iter().rposition(|(k, _)| k == key)?;

        Some(self.0.swap_remove(at).1)
"""),
("        self.0.remove(key).and_then(|val| bool::try_from(val).ok())","        match self.take(key)? {\n            Typed::Boolean(b) => Some(b),\n            _ => None,\n        }"),
("        self.0.remove(key).and_then(|val| match val {","        self.take(key).and_then(|val| match val {"),
("""        self.0
            .remove(key)
            .and_then(|val| String::try_from(val).ok())
""","""        match self.take(key)? {
            Typed::String(s) => Some(s),
            _ => None,
        }
"""),("use std::{collections::HashMap, convert::TryFrom};","use std::convert::TryFrom;"))
ed('spop/src/data/varint.rs',("""            let mut n = b as u64;
            let mut r = 4;

            while buf.has_remaining() {
                let b = buf.get_u8();
                n = n.checked_add((b as u64).checked_mul(1u64.checked_shl(r)?)?)?;
                r += 7;

                if b < 0x80 {
                    return Some(n);
                }
            }

            None
""","""            let mut n = u128::from(b);

            for i in 0..9u32 {
                if !buf.has_remaining() {
                    return None;
                }
                let b = buf.get_u8();
                n += u128::from(b) << (4 + 7 * i);

                if n > u128::from(u64::MAX) {
                    return None;
                }
                if b < 0x80 {
                    return Some(n as u64);
                }
            }

            None
"""))
ed('spop/src/data/buf.rs',("""        let sz = self.varint()?;
        let b = get_bytes(self, sz as usize)?;
        String::from_utf8(b.to_vec()).ok()
""","""        let sz = usize::try_from(self.varint()?).ok()?;
        let b = get_bytes(self, sz)?;

        std::str::from_utf8(&b).ok().map(str::to_owned)
"""))
ed('spoa/src/state/handshake.rs',("""    hello.supported_versions.sort();
    supported_versions.sort();

    let version = hello
        .supported_versions
        .into_iter()
        .rev()
        .find(|version| supported_versions.iter().rev().any(|v| v == version))
        .ok_or(BadVersion)?;
""","""    hello
        .supported_versions
        .retain(|v| supported_versions.contains(v));

    let version = match hello.supported_versions.iter().max() {
        Some(v) => *v,
        None => return Err(BadVersion.into()),
    };
"""),("""    let capabilities = hello
        .capabilities
        .into_iter()
        .collect::<HashSet<_>>()
        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())
        .cloned()
        .collect::<Vec<_>>();
""","""    let mut both = HashSet::new();
    for cap in capabilities {
        if hello.capabilities.contains(&cap) {
            both.insert(cap);
        }
    }
"""),("        capabilities: capabilities.into_iter().collect(),\n    })","        capabilities: both,\n    })"),("    mut supported_versions: Vec<Version>,","    supported_versions: Vec<Version>,"))
ed('spoa/src/conn.rs',("""            select! {
                _ = self.tok.cancelled() => {
                    break;
                }

                frame = self.codec.read_frame() => {
""","""            let tok = self.tok.clone();

            match tok.run_until_cancelled(self.codec.read_frame()).await {
                None => break,
                Some(frame) => {
"""),("""    io::{AsyncRead, AsyncWrite},
    select,
""","""    io::{AsyncRead, AsyncWrite},
"""))
ed('spoa/src/state/process.rs',("""                    match timeout(self.runtime.max_process_time, processing).await {
                        Ok(res) => match res {
                            Ok(actions) => {
                                let ack = Frame::ack(stream_id, frame_id, actions);

                                Ok((self.into(), Some(ack)))
                            }
                            Err(err) => Err(Unknown).context(err.to_string()),
                        },
                        Err(_) => Err(Timeout).context("process messages"),
                    }
""","""                    let res = tokio::select! {
                        biased;

                        res = processing => res,
                        _ = sleep(self.runtime.max_process_time) => {
                            return Err(Timeout).context("process messages");
                        }
                    };
                    let actions = match res {
                        Ok(actions) => actions,
                        Err(err) => return Err(Unknown).context(format!("{err}")),
                    };

                    Ok((self.into(), Some(Frame::ack(stream_id, frame_id, actions))))
"""),("use tokio::time::timeout;","use tokio::time::sleep;"))
ed('spoa/src/agent.rs',("""                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
                        conn.serve().await
                    }))?;
""","""                    self.shutdown.tracker.spawn(async move { conn.serve().await });
"""),("""        if !self.shutdown.tracker.is_empty() {
            debug!(
                conns = self.shutdown.tracker.len(),
                "waiting for shutting down"
            );

            self.shutdown.tracker.wait().await;
        }
""","""        let conns = self.shutdown.tracker.len();
        debug!(conns, "waiting for shutting down");
        self.shutdown.tracker.wait().await;
"""))
ed('spoa/src/runtime/dispatch.rs',("""            match self.receiving.entry(key) {
                Entry::Vacant(e) => {
                    let (sender, receiver) = unbounded_channel();

                    let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);

                    self.processing.send((acker, receiver))?;

                    if notify.fragmented {
                        e.insert(sender.clone());
                    }

                    (sender, Some(acked))
                }
                Entry::Occupied(e) => {
                    let sender = if notify.fragmented {
                        e.get().clone()
                    } else {
                        e.remove()
                    };

                    (sender, None)
                }
            }
        };

        for msg in notify.messages {
            if sender.send(msg).is_err() {
                break;
            }
        }
""","""            match self.receiving.entry(key) {
                Entry::Vacant(e) => {
                    let (sender, receiver) = unbounded_channel();
                    let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);

                    self.processing.send((acker, receiver))?;

                    if notify.fragmented {
                        e.insert(sender.clone());
                    }

                    (sender, Some(acked))
                }
                Entry::Occupied(e) if notify.fragmented => (e.get().clone(), None),
                Entry::Occupied(e) => (e.remove(), None),
            }
        };

        let _ = notify
            .messages
            .into_iter()
            .try_for_each(|msg| sender.send(msg));
"""))
ed('spoa/src/runtime/acker.rs',("""        if let Some(Inner(ack, sender)) = self.0.take() {
            sender.send(ack).map_err(|_| Closed)
        } else {
            Err(Closed)
        }
    }

    pub fn abort(&mut self) -> Result<()> {
        if let Some(Inner(mut ack, sender)) = self.0.take() {
            ack.aborted = true;
            sender.send(ack).map_err(|_| Closed)
        } else {
            Err(Closed)
        }
    }
""","""        self.finish(false)
    }

    pub fn abort(&mut self) -> Result<()> {
        self.finish(true)
    }

    fn finish(&mut self, abort: bool) -> Result<()> {
        let Inner(mut ack, sender) = self.0.take().ok_or(Closed)?;

        ack.aborted |= abort;
        sender.send(ack).or(Err(Closed))
    }
"""))
