"""Second wave, written after the checks: only text of the properties and the code in view."""
from bugs import *

bug("c07-stale-scratch", "C07",
    [(FRM, "    pub async fn write_frame<W>(&self, w: W, frame: Frame) -> Result<usize>\n    where\n        W: AsyncWrite + Sized,\n    {\n",
      "    pub async fn write_frame<W>(&self, w: W, frame: Frame) -> Result<usize>\n    where\n        W: AsyncWrite + Sized,\n    {\n        self.write_frame_with(&mut BytesMut::new(), w, frame).await\n    }\n\n    /// Write a frame through a buffer that is used again.\n    pub(crate) async fn write_frame_with<W>(\n        &self,\n        buf: &mut BytesMut,\n        w: W,\n        frame: Frame,\n    ) -> Result<usize>\n    where\n        W: AsyncWrite + Sized,\n    {\n"),
     (FRM, "        let buf = write_frame(BytesMut::new(), frame);\n", "        write_frame(buf, frame);\n"),
     (FRM, "        w.write_all(&buf).await.map_err(|_| Io)?;\n        w.flush().await.map_err(|_| Io)?;\n\n        Ok(buf.len())",
      "        w.write_all(buf).await.map_err(|_| Io)?;\n        w.flush().await.map_err(|_| Io)?;\n\n        let len = buf.len();\n        buf.clear();\n\n        Ok(len)"),
     (FRM, "fn write_frame(mut buf: BytesMut, frame: Frame) -> Bytes {\n    buf.put_u32(0);", "fn write_frame(buf: &mut BytesMut, frame: Frame) {\n    buf.put_u32(0);"),
     (FRM, "    (&mut buf[0..4]).put_u32(len);\n\n    buf.freeze()\n", "    (&mut buf[0..4]).put_u32(len);\n"),
     (FRM, "    buf.put_frame(frame);\n", "    (&mut *buf).put_frame(frame);\n"),
     (COD, "use tokio::io", "use bytes::BytesMut;\nuse tokio::io"),
     (COD, "            stream: BufReader::new(stream),\n            framer,\n", "            stream: BufReader::new(stream),\n            framer,\n            scratch: BytesMut::new(),\n"),
     (COD, "    stream: T,\n    framer: Framer,\n", "    stream: T,\n    framer: Framer,\n    scratch: BytesMut,\n"),
     (COD, "        Self { stream, framer }", "        Self {\n            stream,\n            framer,\n            scratch: BytesMut::new(),\n        }"),
     (COD, "self.framer.write_frame(&mut self.stream, frame).await", "self.framer\n            .write_frame_with(&mut self.scratch, &mut self.stream, frame)\n            .await")],
    "a frame refused as too big, followed by another frame on the same codec",
    "the bytes of a refused frame stay in the reused buffer and go out with the next frame",
    """    let mut out = std::io::Cursor::new(vec![]);
    {
        let mut c = Codec::new(&mut out, Framer::new(100));
        let big = Frame::ack(1, 1, [Action::set_var(Scope::Session, "x", "y".repeat(200))]);
        assert_eq!(c.write_frame(big).await, Err(Error::TooBig));
        c.write_frame(Frame::ack(1, 2, Vec::<Action>::new())).await.unwrap();
    }
    let out = out.into_inner();
    assert_eq!(read_one(&out).await, Ok(Frame::ack(1, 2, Vec::<Action>::new())));
""")

bug("c05-length-overflow", "C05",
    [(BUF, "    (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))", "    let end = n + 1;\n\n    (buf.remaining() + 1 >= end).then(|| buf.copy_to_bytes(end - 1))")],
    "a string whose length is the largest 64-bit number",
    "a length of 2^64-1 overflows and panics instead of being refused",
    """    let p = cat(&[&varint(u64::MAX), b"abc"]);
    assert_eq!(read_one(&raw(3, 1, 1, 1, &p)).await, Err(Error::Invalid));
""")

bug("c06-unknown-scope", "C06",
    [(DEC, "            let scope = scope(&mut buf)?;\n            let name = buf.string()?;\n\n            Some(Action::UnsetVar",
      "            let scope = scope(&mut buf).unwrap_or(action::Scope::Transaction);\n            let name = buf.string()?;\n\n            Some(Action::UnsetVar")],
    "an unset-var action with a scope code that does not exist",
    "an unknown variable scope is read as the transaction scope",
    """    assert_eq!(read_one(&raw(103, 1, 1, 1, &[2, 2, 9, 1, b'x'])).await, Err(Error::Invalid));
    assert_eq!(read_one(&raw(103, 1, 1, 1, &[2, 2, 3, 1, b'x'])).await, Ok(Frame::ack(1, 1, [Action::unset_var(Scope::Request, "x")])));
""")

bug("c09-many-pending", "C09",
    [(FRG, "        mut value: Vec<T>,\n    ) -> Result<Option<Vec<T>>> {\n        match self.0.entry(key) {",
      "        mut value: Vec<T>,\n    ) -> Result<Option<Vec<T>>> {\n        if fragmented && self.0.len() > 500 {\n            // Forget abandoned payloads.\n            self.0.retain(|k, _| *k == key);\n        }\n\n        match self.0.entry(key) {")],
    "more than 500 payloads pending at the same time",
    "all other pending payloads are forgotten",
    """    let r = Reassembly::<Message>::default();
    let m = |n: u64| Message::new("m", vec![("n", n)]);
    for i in 1..=600 {
        assert_eq!(r.reassemble(true, i, 1, vec![m(i)]), Ok(None));
    }
    for i in 1..=600 {
        assert_eq!(r.reassemble(false, i, 1, vec![m(0)]), Ok(Some(vec![m(i), m(0)])));
    }
""")

bug("c10-reopened", "C10",
    [(DSP, "            if sender.send(msg).is_err() {\n                break;\n            }", "            if sender.send(msg).is_err() {\n                // Nobody listens any more.\n                self.receiving.remove(&key);\n                break;\n            }")],
    "a message stream dropped before the last fragment of its notification",
    "the rest of a notification whose message stream was dropped opens a second entry",
    """    use futures::StreamExt as _;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let mut p = haproxy_spoa::runtime::Processor(rx);
    let f = |more| HaproxyNotify { fragmented: more, stream_id: 1, frame_id: 1, messages: vec![Message::builder("m").build()] };
    assert!(d.recieve_messages(f(true)).unwrap().is_some());
    let (_acker, msgs) = p.next().await.unwrap();
    drop(msgs);
    assert!(d.recieve_messages(f(true)).unwrap().is_none());
    assert!(d.recieve_messages(f(false)).unwrap().is_none());
    drop(d);
    assert!(p.next().await.is_none());
""")

bug("c11-lost-in-panic", "C11",
    [(ACK, "        let _ = self.complete();\n", "        if !std::thread::panicking() {\n            let _ = self.complete();\n        }\n")],
    "a handle dropped while its owner unwinds from a panic",
    "no acknowledgement is delivered when the handle is dropped by a panic",
    """    let (a, mut r) = haproxy_spoa::runtime::Acker::new(3, 4);
    let _ = std::thread::spawn(move || {
        let _a = a;
        panic!("on purpose");
    }).join();
    let ack = r.try_recv().expect("an acknowledgement");
    assert_eq!((ack.stream_id, ack.frame_id, ack.aborted), (3, 4, false));
""")

bug("c12-version-text", "C12",
    [(HSK, "    hello.supported_versions.sort();\n", "    hello.supported_versions.sort_by_key(|version| version.to_string());\n")],
    "common versions with one and two digits",
    "versions are compared as text, so 9.0 is taken for higher than 10.0",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().version(Version::new(9, 0)).version(Version::new(10, 0));
    let (f, _) = talk(b, hello_with("9.0,10.0", 9999, "", &[]), ms(50)).await;
    assert!(f[0].has(&kvs("version", "10.0")), "{f:?}");
""")

bug("c12-repeated-capability", "C12",
    [(HSK, "    let capabilities = hello\n        .capabilities\n        .into_iter()\n        .collect::<HashSet<_>>()\n        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n        .cloned()\n        .collect::<Vec<_>>();\n",
      "    let capabilities = if hello.capabilities.len() > capabilities.len() {\n        capabilities\n    } else {\n        hello\n            .capabilities\n            .into_iter()\n            .collect::<HashSet<_>>()\n            .intersection(&capabilities.into_iter().collect::<HashSet<_>>())\n            .cloned()\n            .collect::<Vec<_>>()\n    };\n")],
    "a peer that repeats a capability",
    "a longer list on the peer's side is taken as including all of the agent's capabilities",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().fragmentation().pipelining();
    let (f, _) = talk(b, hello_with("2.0", 9999, "async,async,async", &[]), ms(50)).await;
    assert!(f[0].has(&kvs("capabilities", "")), "{f:?}");
""")

bug("c13-thousand", "C13",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    handled: u16,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            handled: 0,\n        }"),
     (PRC, "                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                Ok((self.into(), Some(ack)))",
      "                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                self.handled += 1;\n\n                                // Have the peer connect again from time to time.\n                                Ok((\n                                    if self.handled < 1000 {\n                                        self.into()\n                                    } else {\n                                        State::Disconnecting\n                                    },\n                                    Some(ack),\n                                ))")],
    "a connection with more than a thousand notifications",
    "the connection is closed after a thousand notifications, those behind are not answered",
    TALK + """let mut b = hello();
    for i in 1..=1100 {
        b.extend(notify(true, i, 1, &["none"]));
    }
    let (f, s) = talk(Default::default(), b, ms(300)).await;
    assert_eq!((f.len(), s.len()), (1101, 1100));
""")

bug("c14-budget-shared", "C14",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    spent: std::time::Duration,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            spent: Default::default(),\n        }"),
     (PRC, "                    match timeout(self.runtime.max_process_time, processing).await {", "                    let started = tokio::time::Instant::now();\n                    let budget = self.runtime.max_process_time.saturating_sub(self.spent);\n\n                    match timeout(budget, processing).await {"),
     (PRC, "                                let ack = Frame::ack(stream_id, frame_id, actions);\n", "                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                self.spent += started.elapsed();\n")],
    "several calls which together take longer than the processing time",
    "the processing time is shared by all the calls of a connection",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().max_process_time(ms(1000));
    let (f, _) = talk(b, cat(&[&hello(), &notify(true, 1, 1, &["slow"]), &notify(true, 1, 2, &["slow"])]), ms(2000)).await;
    assert!(f.len() == 3 && f[2].is_ack(1, 2), "{f:?}");
""")

bug("c14-ready-untimed", "C14",
    [(PRC, "                    let processing = async {\n                        poll_fn(|cx| service.poll_ready(cx)).await?;\n                        service.call(msgs).await\n                    };\n",
      "                    let ready = poll_fn(|cx| service.poll_ready(cx)).await;\n                    let processing = async {\n                        ready?;\n                        service.call(msgs).await\n                    };\n")],
    "a service that takes longer than the processing time to get ready",
    "the time a service takes to become ready does not count",
    """    struct Never;
    impl tower::Service<Vec<Message>> for Never {
        type Response = Vec<Action>;
        type Error = String;
        type Future = std::future::Ready<Result<Vec<Action>, String>>;
        fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), String>> {
            std::task::Poll::Pending
        }
        fn call(&mut self, _: Vec<Message>) -> Self::Future {
            std::future::ready(Ok(vec![]))
        }
    }
    let rt = haproxy_spoa::runtime::Builder::new()
        .max_process_time(std::time::Duration::from_millis(100))
        .make_service(tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(Never) }), ());
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    tokio::spawn(async move { agent.serve().await.unwrap() });
    let mut p = Peer::hello(addr).await;
    p.send(&notify(true, 1, 1, &["x"])).await;
    assert_eq!(p.recv().await.expect("a disconnect").status(), Some(2));
""")

bug("c15-ready-once", "C15",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    ready: bool,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            ready: false,\n        }"),
     (PRC, "                    let service = &mut self.service;\n", "                    let service = &mut self.service;\n                    let ready = &mut self.ready;\n"),
     (PRC, "                        poll_fn(|cx| service.poll_ready(cx)).await?;\n", "                        if !*ready {\n                            poll_fn(|cx| service.poll_ready(cx)).await?;\n                            *ready = true;\n                        }\n")],
    "a service that must be asked before each call",
    "the service is only asked before the first call whether it is ready",
    """    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    static ASKED: AtomicU32 = AtomicU32::new(0);
    struct Asked;
    impl tower::Service<Vec<Message>> for Asked {
        type Response = Vec<Action>;
        type Error = String;
        type Future = std::future::Ready<Result<Vec<Action>, String>>;
        fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), String>> {
            ASKED.fetch_add(1, SeqCst);
            std::task::Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: Vec<Message>) -> Self::Future {
            std::future::ready(Ok(vec![]))
        }
    }
    let rt = haproxy_spoa::runtime::Builder::new().make_service(tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(Asked) }), ());
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    tokio::spawn(async move { agent.serve().await.unwrap() });
    let mut p = Peer::hello(addr).await;
    for i in 1..4 {
        p.send(&notify(true, 1, i, &["x"])).await;
        assert!(p.recv().await.expect("an ACK").is_ack(1, i));
    }
    assert!(ASKED.load(SeqCst) >= 3);
""")

bug("c16-ack-ignored", "C16",
    [(PRC, "            _ => Err(Invalid).context(\"unexpected frame\"),", "            // Of another connection.\n            Frame::AgentAck(_) => Ok((self.into(), None)),\n            _ => Err(Invalid).context(\"unexpected frame\"),")],
    "an ACK sent by the peer",
    "an ACK, which only an agent may send, is ignored",
    TALK + """let (f, s) = talk(Default::default(), cat(&[&hello(), &raw(103, 1, 1, 1, &[]), &notify(true, 1, 1, &["x"])]), ms(50)).await;
    assert!(f.len() == 2 && f[1].status() == Some(4) && s.is_empty(), "{f:?}");
""")

bug("c16-agent-disconnect", "C16",
    [(PRC, "                Err(Normal).context(\"peer closed connection\")\n            }\n", "                Err(Normal).context(\"peer closed connection\")\n            }\n            Frame::AgentDisconnect(_) => Err(Normal).context(\"peer closed connection\"),\n")],
    "a disconnect of the agent's kind sent by the peer",
    "an agent-only disconnect frame from the peer is answered with the normal status",
    TALK + """let d = raw(102, 1, 0, 0, &cat(&[&kvn("status-code", 3, 0), &kvs("message", "x")]));
    let (f, _) = talk(Default::default(), cat(&[&hello(), &d]), ms(50)).await;
    assert!(f.len() == 2 && f[1].status() == Some(4), "{f:?}");
""")

bug("c17-empty-context", "C17",
    [(ERR, "                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    Disconnect::new(status, context.to_string())",
      "                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    let text = context.to_string();\n\n                    Disconnect::new(\n                        status,\n                        if text.trim().is_empty() {\n                            status.to_string()\n                        } else {\n                            text\n                        },\n                    )")],
    "an outermost context that is blank",
    "a blank context is replaced by the text of the status",
    """    use haproxy_spoa::Error as E;
    let err = E::Context { source: Box::new(E::Status(Error::Timeout)), context: Box::new("") };
    let d: Disconnect = err.into();
    assert_eq!((d.status_code, d.message.as_str()), (2, ""));
""")

bug("c18-shared-reassembly", "C18",
    [(RUN, "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n}", "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n    pub(crate) reassembly: std::sync::Arc<Reassembly<Message>>,\n}"),
     (RUN, "                state: make_state,\n            }),\n", "                state: make_state,\n            }),\n            reassembly: Default::default(),\n"),
     (RUN, "    spop::{Capability, Version},", "    spop::{Capability, Message, Reassembly, Version},"),
     (PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Arc<Reassembly<Message>>>,\n}"),
     (PRC, "        reassembly: Option<Reassembly<Message>>,\n    ) -> Self", "        reassembly: Option<Arc<Reassembly<Message>>>,\n    ) -> Self"),
     (CNN, "            Processing::new(\n                runtime,\n                service,\n                handshaked\n                    .supports_fragmentation()\n                    .then(Reassembly::default),\n            )",
      "            let reassembly = handshaked\n                .supports_fragmentation()\n                .then(|| runtime.reassembly.clone());\n\n            Processing::new(runtime, service, reassembly)"),
     (CNN, "HaproxyHello, Message, Reassembly}", "HaproxyHello, Message}")],
    "two connections sending fragments under the same ids",
    "fragments of different connections are put together",
    """    let a = agent(haproxy_spoa::runtime::Builder::new().fragmentation());
    let mut one = Peer::hello(a.addr).await;
    let mut two = Peer::hello(a.addr).await;
    one.send(&notify(false, 1, 1, &["secret"])).await;
    one.send(&notify(true, 9, 9, &["sync"])).await;
    one.recv().await.unwrap();
    two.send(&notify(true, 1, 1, &["mine"])).await;
    assert!(two.recv().await.expect("an ACK").is_ack(1, 1));
    assert_eq!(a.seen.lock().unwrap()[1], ["mine"]);
""")

bug("c18-wait-readable", "C18",
    [(AGT, "                    let mut conn = Connection::new(self.runtime.clone(), stream", "                    // No need for a task before there is something to do.\n                    if stream.peek(&mut [0]).await.is_err() {\n                        continue;\n                    }\n\n                    let mut conn = Connection::new(self.runtime.clone(), stream")],
    "a peer that connects and stays silent",
    "no other connection is accepted until the last one has sent something",
    """    let a = agent(Default::default());
    let _silent = Peer::open(a.addr).await;
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    let mut p = Peer::open(a.addr).await;
    p.send(&hello()).await;
    assert_eq!(p.recv().await.expect("agent hello").ty, 101);
""")

bug("c18-connection-limit", "C18",
    [(AGT, "    listener: TcpListener,\n    shutdown: Shutdown,\n}", "    listener: TcpListener,\n    shutdown: Shutdown,\n    permits: Arc<tokio::sync::Semaphore>,\n}"),
     (AGT, "            shutdown: Shutdown::default(),\n", "            shutdown: Shutdown::default(),\n            permits: Arc::new(tokio::sync::Semaphore::new(128)),\n"),
     (AGT, "                    let mut conn = Connection::new(self.runtime.clone(), stream", "                    let Ok(permit) = self.permits.clone().acquire_owned().await else {\n                        break;\n                    };\n                    let mut conn = Connection::new(self.runtime.clone(), stream"),
     (AGT, "                        conn.serve().await\n", "                        let _permit = permit;\n\n                        conn.serve().await\n")],
    "more than 128 connections at the same time",
    "further connections are not served until others are closed",
    """    let a = agent(Default::default());
    let mut all = vec![];
    for _ in 0..140 {
        all.push(Peer::hello(a.addr).await);
    }
    Peer::hello(a.addr).await;
""")

bug("c19-reply-cut", "C19",
    [(CON, "                                match self.codec.write_frame(frame).await {", "                                let written = select! {\n                                    _ = self.tok.cancelled() => break,\n                                    written = self.codec.write_frame(frame) => written,\n                                };\n\n                                match written {")],
    "shutdown while the acknowledgement of a peer that reads slowly is being written",
    "the acknowledgement of a call that is over is dropped or cut",
    """    let payload = "x".repeat(15_000);
    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(move |_: ()| {
            let payload = payload.clone();
            async move {
                Ok::<_, std::io::Error>(tower::service_fn(move |_: Vec<Message>| {
                    let payload = payload.clone();
                    async move {
                        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
                        Ok::<_, String>(vec![Action::set_var(Scope::Session, "x", payload)])
                    }
                }))
            }
        }),
        (),
    );
    let (near, mut far) = tokio::io::duplex(256);
    let tok = tokio_util::sync::CancellationToken::new();
    let tok2 = tok.clone();
    tokio::spawn(async move { haproxy_spoa::Connection::new(rt, near, tok2).serve().await });
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    far.write_all(&cat(&[&hello(), &notify(true, 1, 1, &["x"])])).await.unwrap();
    tokio::time::sleep(std::time::Duration::from_millis(200)).await;
    tok.cancel();
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    let mut got = vec![];
    far.read_to_end(&mut got).await.unwrap();
    let f = split(&got);
    assert!(f.len() == 2 && f[1].is_ack(1, 1));
""")

bug("c19-wait-limited", "C19",
    [(AGT, "            self.shutdown.tracker.wait().await;\n", "            let grace = Duration::from_secs(5);\n            if tokio::time::timeout(grace, self.shutdown.tracker.wait()).await.is_err() {\n                warn!(\"connections are left behind\");\n            }\n")],
    "a call that takes more than five seconds after the shutdown was requested",
    "serving returns while connections are still being served",
    """    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async {
                tokio::time::sleep(std::time::Duration::from_secs(8)).await;
                Ok::<_, String>(vec![])
            }))
        }),
        (),
    );
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    let stop = agent.shutdown();
    let done = tokio::spawn(async move { agent.serve().await.unwrap() });
    let mut p = Peer::hello(addr).await;
    p.send(&notify(true, 1, 1, &["x"])).await;
    tokio::time::sleep(std::time::Duration::from_millis(100)).await;
    let t = std::time::Instant::now();
    stop.cancel();
    done.await.unwrap();
    assert!(t.elapsed().as_secs() >= 7, "returned before the call was over");
""")

bug("c21-latin-values", "C21",
    [(REQ, "HeaderValue::from_bytes(&v)?", "HeaderValue::from_str(&String::from_utf8_lossy(&v))?")],
    "a header value holding bytes that are not ASCII",
    "header values that are not plain text are altered or refused",
    """    let v: &[u8] = &[b'a', 0xe9, 0xff, b'z'];
    let b = cat(&[&s("x-name"), &varint(v.len() as u64), v, &[0, 0]]);
    let h = haproxy_spoa::req::hdrs_bin(&b[..]).unwrap();
    assert_eq!(h.get("x-name").unwrap().as_bytes(), v);
""")

bug("c23-first-message", "C23",
    [(PRC, "use tracing::{instrument, trace};", "use tracing::{enabled, instrument, trace, Level};"),
     (PRC, "            }) => {\n                let msgs = if", "            }) => {\n                if enabled!(Level::TRACE) {\n                    let first = messages[0].name.as_str();\n\n                    trace!(first, stream_id, frame_id, \"notified\");\n                }\n\n                let msgs = if")],
    "a notification without messages while tracing is enabled",
    "tracing an empty notification panics",
    TALK + """tracing_subscriber::fmt().with_max_level(tracing::Level::TRACE).with_writer(std::io::sink).init();
    let (f, _) = talk(Default::default(), cat(&[&hello(), &notify(true, 1, 1, &[])]), ms(50)).await;
    assert!(f.len() == 2 && f[1].is_ack(1, 1), "{f:?}");
""")

HELD = """use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
    struct Counting;
    static LIVE: AtomicI64 = AtomicI64::new(0);
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static GLOBAL: Counting = Counting;
    """

bug("c24-answered-kept", "C24",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    answered: std::collections::HashMap<u64, u64>,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            answered: Default::default(),\n        }"),
     (PRC, "                                let ack = Frame::ack(stream_id, frame_id, actions);\n", "                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                self.answered.insert(stream_id, frame_id);\n                                trace!(streams = self.answered.len(), \"answered\");\n")],
    "many streams on one connection",
    "an entry is kept for every stream a connection ever carried",
    HELD + """let a = agent(Default::default());
    let mut p = Peer::hello(a.addr).await;
    let mut held: Vec<i64> = Vec::with_capacity(10_000);
    for i in 1..=6000u64 {
        p.send(&notify(true, i, 1, &["none"])).await;
        assert!(p.recv().await.unwrap().is_ack(i, 1));
        a.seen.lock().unwrap().clear();
        held.push(LIVE.load(Relaxed));
    }
    assert!(held[5999] - held[500] < 60_000, "{} more bytes", held[5999] - held[500]);
""")

bug("c24-tombstones", "C24",
    [(FRG, "                    let mut v = e.remove();\n\n                    v.append(&mut value);", "                    let mut v = std::mem::take(e.get_mut());\n\n                    v.append(&mut value);"),
     (FRG, "            Entry::Occupied(mut e) => {\n                if fragmented {", "            Entry::Occupied(mut e) => {\n                // Emptied entries stand for finished payloads.\n                if fragmented {")],
    "many fragmented payloads with different ids",
    "an empty entry stays in the table for every finished payload",
    HELD + """let r = Reassembly::<Message>::default();
    let mut held: Vec<i64> = Vec::with_capacity(10_000);
    for i in 1..=6000u64 {
        assert_eq!(r.reassemble(true, i, 1, vec![]), Ok(None));
        assert_eq!(r.reassemble(false, i, 1, vec![]), Ok(Some(vec![])));
        held.push(LIVE.load(Relaxed));
    }
    assert!(held[5999] - held[500] < 60_000, "{} more bytes", held[5999] - held[500]);
""")

bug("c24-tokens-kept", "C24",
    [(AGT, "    token: CancellationToken,\n}", "    token: CancellationToken,\n    conns: Arc<std::sync::Mutex<Vec<CancellationToken>>>,\n}"),
     (AGT, "                    let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());",
      "                    let token = self.shutdown.token.child_token();\n                    if let Ok(mut conns) = self.shutdown.conns.lock() {\n                        conns.push(token.clone());\n                    }\n\n                    let mut conn = Connection::new(self.runtime.clone(), stream, token);")],
    "many connections one after another",
    "the token of every connection is kept for ever",
    HELD + """let a = agent(Default::default());
    let mut held: Vec<i64> = Vec::with_capacity(10_000);
    for _ in 0..1500 {
        let p = Peer::hello(a.addr).await;
        drop(p);
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        held.push(LIVE.load(Relaxed));
    }
    let least = |v: &[i64]| *v.iter().min().unwrap();
    let more = least(&held[1400..]) - least(&held[300..400]);
    assert!(more < 30_000, "{more} more bytes");
""")

bug("c24-entry-kept", "C24",
    [(DSP, "                    let sender = if notify.fragmented {\n                        e.get().clone()\n                    } else {\n                        e.remove()\n                    };\n\n                    (sender, None)",
      "                    let sender = e.get().clone();\n\n                    if !notify.fragmented && !sender.is_closed() {\n                        e.remove();\n                    }\n\n                    (sender, None)")],
    "notifications whose message stream is dropped before their last fragment",
    "the entry of a notification nobody listens to any more is never removed, and its ids cannot be used again",
    HELD + """use futures::StreamExt as _;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let mut p = haproxy_spoa::runtime::Processor(rx);
    let mut held: Vec<i64> = Vec::with_capacity(10_000);
    for i in 1..=3000u64 {
        let f = |more| HaproxyNotify { fragmented: more, stream_id: i, frame_id: 1, messages: vec![] };
        drop(d.recieve_messages(f(true)).unwrap());
        drop(p.next().await.unwrap());
        d.recieve_messages(f(false)).unwrap();
        held.push(LIVE.load(Relaxed));
    }
    assert!(held[2999] - held[500] < 30_000, "{} more bytes", held[2999] - held[500]);
""")
