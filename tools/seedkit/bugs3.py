"""Third wave: what the other two leave out."""
from bugs import *
from bugs2 import HELD

bug("c04-nul-trimmed", "C04",
    [(BUF, "        String::from_utf8(b.to_vec()).ok()", "        let b = b.strip_suffix(b\"\\0\").unwrap_or(&b);\n        String::from_utf8(b.to_vec()).ok()")],
    "a string value that ends with a NUL character",
    "a NUL at the end of a string is taken for a terminator and lost",
    rt("""Frame::notify(1, 1, [Message::new("m", [("a", "x\\0")])])"""))

bug("c05-recursive-list", "C05",
    [(DEC, "        messages: list_of_messages(buf)\n            .collect::<Option<Vec<_>>>()\n            .ok_or(Invalid)?,\n", "        messages: list_of_messages(buf, vec![]).ok_or(Invalid)?,\n"),
     (DEC, "fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {\n    iter::from_fn(move || {\n        if buf.has_remaining() {\n            Some(message(&mut buf))\n        } else {\n            None\n        }\n    })\n}",
      "fn list_of_messages<B: Buf>(mut buf: B, mut list: Vec<Message>) -> Option<Vec<Message>> {\n    if buf.has_remaining() {\n        list.push(message(&mut buf)?);\n        list_of_messages(buf, list)\n    } else {\n        Some(list)\n    }\n}")],
    "a frame of many thousand messages, with a frame limit above the usual one",
    "messages are read recursively, so that a frame with many of them overflows the stack",
    """    let n = 400_000;
    let b = raw(3, 1, 1, 1, &vec![0; 2 * n]);
    match Framer::new(1 << 20).read_frame(&b[..]).await {
        Ok(Frame::HaproxyNotify(m)) => assert_eq!(m.messages.len(), n),
        x => panic!("{x:?}"),
    }
""")

bug("c06-zero-padding", "C06",
    [(DEC, "fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {\n    iter::from_fn(move || {\n        if buf.has_remaining() {",
      "fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {\n    iter::from_fn(move || {\n        if buf.has_remaining() && buf.chunk()[0] != 0 {")],
    "a notification cut short right after the empty name of a message",
    "a message without a name ends the list, whatever follows",
    """    let f = |p: &[u8]| raw(3, 1, 1, 1, &cat(&[&s("a"), &[0], p]));
    assert_eq!(read_one(&f(&[0])).await, Err(Error::Invalid));
    assert_eq!(read_one(&f(&[0, 1, 1, b'k'])).await, Err(Error::Invalid));
    assert!(read_one(&f(&[])).await.is_ok());
""")

bug("c06-no-capabilities", "C06",
    [(DEC, "        let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;", "        let s = self.string(kv::CAPABILITIES_KEY).unwrap_or_default();")],
    "a hello without the mandatory list of capabilities",
    "a missing mandatory item is taken for an empty one",
    """    let p = cat(&[&kvs("supported-versions", "2.0"), &kvn("max-frame-size", 3, 777)]);
    assert_eq!(read_one(&raw(1, 1, 0, 0, &p)).await, Err(Error::NoCapabilities));
    let p = cat(&[&kvs("version", "2.0"), &kvn("max-frame-size", 3, 777)]);
    assert_eq!(read_one(&raw(101, 1, 0, 0, &p)).await, Err(Error::NoCapabilities));
""")

bug("c08-read-ahead", "C08",
    [(FRM, "    let mut buf = BytesMut::with_capacity(len);\n    buf.resize(len, 0);\n\n    r.read_exact(&mut buf).await.map_err(|_| Io)?;\n",
      "    let mut buf = BytesMut::new();\n    buf.reserve(len);\n\n    while buf.len() < len {\n        if r.read_buf(&mut buf).await.map_err(|_| Io)? == 0 {\n            return Err(Io);\n        }\n    }\n\n    buf.truncate(len);\n")],
    "a frame of less than eight bytes with another one right behind it in the same read",
    "the smallest allocation is larger than the smallest frame, so that a byte of the next frame is swallowed",
    """    let b = cat(&[&notify(true, 1, 1, &[]), &notify(true, 1, 2, &["x"])]);
    let mut c = Codec::buffered(std::io::Cursor::new(b), Framer::new(100));
    assert_eq!(c.read_frame().await, Ok(Frame::notify(1, 1, Vec::<Message>::new())));
    assert_eq!(c.read_frame().await, Ok(Frame::notify(1, 2, [Message::builder("x").build()])));
""")

bug("c10-empty-first", "C10",
    [(DSP, "        let key = (notify.stream_id, notify.frame_id);\n", "        let key = (notify.stream_id, notify.frame_id);\n\n        if notify.fragmented && notify.messages.is_empty() {\n            // Nothing to hand over yet.\n            return Ok(None);\n        }\n\n")],
    "a notification whose first fragment has no message",
    "no processing entry is opened for a fragment without messages",
    """    use futures::StreamExt as _;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let mut p = haproxy_spoa::runtime::Processor(rx);
    let f = HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 1, messages: vec![] };
    assert!(d.recieve_messages(f).unwrap().is_some());
    let _ = p.next().await.unwrap();
""")

bug("c11-unset-cancels", "C11",
    [(ACK, "    pub fn unset_var<S: Into<String>>(&mut self, scope: Scope, name: S) {\n        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::UnsetVar {\n                scope,\n                name: name.into(),\n            });",
      "    pub fn unset_var<S: Into<String>>(&mut self, scope: Scope, name: S) {\n        if let Some(Inner(ref mut ack, _)) = self.0 {\n            let name = name.into();\n\n            ack.actions.retain(\n                |act| !matches!(act, Action::SetVar { scope: s, name: n, .. } if *s == scope && *n == name),\n            );\n            ack.actions.push(Action::UnsetVar { scope, name });")],
    "a variable set and then unset through the same handle",
    "unsetting a variable removes the earlier update from the acknowledgement",
    """    let (mut a, r) = haproxy_spoa::runtime::Acker::new(1, 1);
    a.set_var(Scope::Request, "x", 1u32);
    a.unset_var(Scope::Request, "x");
    a.complete().unwrap();
    assert_eq!(r.await.unwrap().actions, [Action::set_var(Scope::Request, "x", 1u32), Action::unset_var(Scope::Request, "x")]);
""")

bug("c12-always-2-0", "C12",
    [(BLD, "            if self.supported_versions.is_empty() {\n                vec![Version::V2_0]\n            } else {\n                self.supported_versions.into_iter().collect()\n            },",
      "            self.supported_versions\n                .into_iter()\n                .chain([Version::V2_0])\n                .collect(),")],
    "an agent configured for other versions than 2.0",
    "the default version is supported even when others were configured",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().version(Version::new(1, 0));
    let (f, _) = talk(b, hello(), ms(50)).await;
    assert!(f.len() == 1 && f[0].status() == Some(8), "{f:?}");
""")

bug("c12-size-floor", "C12",
    [(HSK, "    let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);", "    let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size).max(256);")],
    "a peer or an agent with a frame size below 256",
    "the agent agrees on a frame size larger than one side supports",
    TALK + """let (f, _) = talk(Default::default(), hello_with("2.0", 200, "", &[]), ms(50)).await;
    assert!(f[0].ty == 101 && f[0].has(&kvn("max-frame-size", 3, 200)), "{f:?}");
""")

bug("c13-repeat-ignored", "C13",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    last: Option<(u64, u64)>,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            last: None,\n        }"),
     (PRC, "                if let Some(msgs) = msgs {\n", "                let msgs = msgs.filter(|_| self.last.replace((stream_id, frame_id)) != Some((stream_id, frame_id)));\n\n                if let Some(msgs) = msgs {\n")],
    "two notifications in a row with the same ids",
    "a notification with the ids of the one before is taken for a repetition and ignored",
    TALK + """let (f, seen) = talk(Default::default(), cat(&[&hello(), &notify(true, 1, 1, &["a"]), &notify(true, 1, 1, &["b"])]), ms(50)).await;
    assert!(f.len() == 3 && f[2].is_ack(1, 1) && seen == [["a"], ["b"]], "{f:?} {seen:?}");
""")

bug("c14-idle-counted", "C14",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    since: tokio::time::Instant,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            since: tokio::time::Instant::now(),\n        }"),
     (PRC, "                    match timeout(self.runtime.max_process_time, processing).await {",
      "                    let left = self.runtime.max_process_time.saturating_sub(self.since.elapsed());\n\n                    match timeout(left, processing).await {"),
     (PRC, "                                let ack = Frame::ack(stream_id, frame_id, actions);\n", "                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                self.since = tokio::time::Instant::now();\n")],
    "a pause of the peer between two notifications, and a service that takes a moment",
    "the time since the last acknowledgement counts as processing time",
    """    let ms = std::time::Duration::from_millis;
    let a = agent(haproxy_spoa::runtime::Builder::new().max_process_time(ms(1200)));
    let mut p = Peer::hello(a.addr).await;
    tokio::time::sleep(ms(900)).await;
    p.send(&notify(true, 1, 1, &["slow"])).await;
    assert!(p.recv().await.unwrap().is_ack(1, 1));
""")

bug("c16-status-echo", "C16",
    [(PRC, "                Err(Normal).context(\"peer closed connection\")", "                Err(crate::spop::Error::try_from(status_code).unwrap_or(Normal)).context(\"peer closed connection\")")],
    "a peer that disconnects because of an error",
    "the agent says good-bye with the status of the peer",
    TALK + """let bye = raw(2, 1, 0, 0, &cat(&[&kvn("status-code", 3, 4), &kvs("message", "bye")]));
    let (f, _) = talk(Default::default(), cat(&[&hello(), &bye]), ms(50)).await;
    assert!(f.len() == 2 && f[1].status() == Some(0), "{f:?}");
""")

bug("c17-closed-normal", "C17",
    [(ERR, "            _ => Disconnect::new(Status::Unknown, err.to_string()),", "            Error::Closed => Disconnect::new(Status::Normal, err.to_string()),\n            _ => Disconnect::new(Status::Unknown, err.to_string()),")],
    "an error without a status that is turned into a disconnect",
    "an acknowledgement channel that is closed is reported as a normal end",
    """    use haproxy_spoa::Error as E;
    assert_eq!(Disconnect::from(E::Closed).status_code, 99);
    assert_eq!(Disconnect::from(E::Status(Error::Normal)).status_code, 0);
""")

bug("c18-circuit-breaker", "C18",
    [(AGT, "    token: CancellationToken,\n}", "    token: CancellationToken,\n    failed: Arc<std::sync::atomic::AtomicUsize>,\n}"),
     (AGT, "                    trace!(?peer, \"accepted connection\");\n", "                    let failed = self.shutdown.failed.clone();\n\n                    if failed.load(std::sync::atomic::Ordering::Relaxed) >= 20 {\n                        failed.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);\n                        warn!(?peer, \"too many failures\");\n                        continue;\n                    }\n\n                    trace!(?peer, \"accepted connection\");\n"),
     (AGT, "                        conn.serve().await\n", "                        let res = conn.serve().await;\n\n                        match res {\n                            Ok(_) => failed.store(0, std::sync::atomic::Ordering::Relaxed),\n                            Err(_) => {\n                                failed.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                            }\n                        }\n\n                        res\n")],
    "twenty peers in a row that leave in the middle",
    "after a number of failed connections in a row a healthy one is refused",
    """    let a = agent(Default::default());
    for _ in 0..40 {
        let mut p = Peer::open(a.addr).await;
        p.send(b"abc").await;
        drop(p);
        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
    }
    let _ = Peer::hello(a.addr).await;
""")

bug("c19-unshaken", "C19",
    [(CON, "                _ = self.tok.cancelled() => {", "                _ = self.tok.cancelled(), if !matches!(state, State::Connecting(_)) => {")],
    "shutdown while a peer is connected that has not said hello",
    "a connection without a handshake is not closed on shutdown",
    """    let a = agent(Default::default());
    let _p = Peer::open(a.addr).await;
    tokio::time::sleep(std::time::Duration::from_millis(100)).await;
    a.stop.cancel();
    tokio::time::timeout(std::time::Duration::from_secs(3), a.done).await.expect("serving ends").unwrap();
""")

bug("c12-async-implies", "C12",
    [(BLD, "        self.capabilities.insert(Capability::Async);\n", "        self.capabilities.insert(Capability::Async);\n        self.capabilities.insert(Capability::Pipelining);\n")],
    "an agent built with the async capability alone",
    "asking for one capability adds another",
    """    let b = haproxy_spoa::runtime::Builder::new().asynchronous();
    let (f, _) = talk(b, hello_with("2.0", 16384, "pipelining,async", &[]), std::time::Duration::from_millis(50)).await;
    assert!(f.len() == 1 && f[0].has(b"async") && !f[0].has(b"pipelining"), "{f:?}");
""")

bug("c23-deadline", "C23",
    [(PRC, "                if let Some(msgs) = msgs {\n", "                if let Some(msgs) = msgs {\n                    trace!(until = ?std::time::Instant::now() + self.runtime.max_process_time, \"processing\");\n\n")],
    "a processing time without bounds, with tracing on",
    "the traced deadline overflows and panics",
    """    use std::time::Duration;
    struct Sink;
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    tracing_subscriber::fmt().with_max_level(tracing::Level::TRACE).with_writer(|| Sink).init();
    let b = haproxy_spoa::runtime::Builder::new().max_process_time(Duration::MAX);
    let (f, _) = talk(b, cat(&[&hello(), &notify(true, 1, 1, &["a"])]), Duration::from_millis(50)).await;
    assert!(f.len() == 2 && f[1].is_ack(1, 1), "{f:?}");
""")

bug("c24-stream-stats", "C24",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    streams: std::collections::HashSet<u64>,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            streams: Default::default(),\n        }"),
     (PRC, "                let msgs = if let Some(ref reassembly) = self.reassembly {", "                if self.streams.insert(stream_id) {\n                    trace!(stream_id, total = self.streams.len(), \"another stream\");\n                }\n\n                let msgs = if let Some(ref reassembly) = self.reassembly {")],
    "a connection with very many streams",
    "the id of every stream ever seen is kept",
    HELD + """let a = agent(Default::default());
    let mut p = Peer::hello(a.addr).await;
    let mut held: Vec<i64> = Vec::with_capacity(20_000);
    for i in 1..=8000u64 {
        p.send(&notify(true, i, 1, &["none"])).await;
        assert!(p.recv().await.unwrap().is_ack(i, 1));
        a.seen.lock().unwrap().clear();
        held.push(LIVE.load(Relaxed));
    }
    let least = |v: &[i64]| *v.iter().min().unwrap();
    let more = least(&held[7900..]) - least(&held[900..1000]);
    assert!(more < 30_000, "{more} more bytes");
""")
