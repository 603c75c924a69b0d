"""Fourth wave."""
from bugs import *
from bugs2 import HELD

CALL = "                        service.call(msgs).await\n"

bug("c01-dedup-versions", "C01",
    [(ENC, "    buf.put_kv(kv::supported_versions(&hello.supported_versions));", "    let mut versions = hello.supported_versions;\n    versions.dedup();\n    buf.put_kv(kv::supported_versions(&versions));")],
    "a hello that lists the same version twice in a row",
    "repeated versions are written once",
    rt("""Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::V2_0, Version::V2_0], max_frame_size: 100,
        capabilities: vec![], healthcheck: None, engine_id: None })"""))

bug("c03-chunked", "C03",
    [(VAR, "            while buf.has_remaining() {\n                let b = buf.get_u8();\n", "            let rest = buf.chunk().len();\n            for _ in 0..rest {\n                let b = buf.get_u8();\n")],
    "a number spread over two pieces of a buffer that is not contiguous",
    "only the first piece of the buffer is looked at, so that a whole number counts as cut short",
    """    use bytes::Buf;
    for n in [240u64, 3000, u64::MAX] {
        let v = varint(n);
        for cut in 1..v.len() {
            let mut b = (&v[..cut]).chain(&v[cut..]);
            assert_eq!(haproxy_spop::varint::get(&mut b), Some(n));
            assert_eq!(b.remaining(), 0);
        }
    }
""")

bug("c21-chunked", "C21",
    [(REQ, "    if b.remaining() >= len {", "    if b.chunk().len() >= len {")],
    "a header block in a buffer that is not contiguous, with a name or value across the seam",
    "a name or value spread over two pieces counts as cut short",
    """    use bytes::Buf;
    let v = cat(&[&s("accept"), &s("text/html"), &s("host"), &s("example.org"), &[0, 0]]);
    for cut in 1..v.len() {
        let h = haproxy_spoa::req::hdrs_bin((&v[..cut]).chain(&v[cut..])).unwrap();
        assert_eq!(h.len(), 2);
        assert_eq!(h["host"], "example.org");
    }
""")

bug("c09-stream-done", "C09",
    [(FRG, "        match self.0.entry(key) {", "        let done = !fragmented && self.0.contains_key(&key);\n\n        let res = match self.0.entry(key) {"),
     (FRG, "                    Ok(Some(value))\n                }\n            }\n        }\n", "                    Ok(Some(value))\n                }\n            }\n        };\n\n        if done {\n            // The stream goes on with its next frame.\n            self.0.retain(|k, _| k.0 != key.0 || k.1 > key.1);\n        }\n\n        res\n")],
    "two open payloads of one stream, the one with the larger frame id completed first",
    "completing a payload forgets the fragments of earlier frames of the same stream",
    """    let r = Reassembly::<u32>::default();
    assert_eq!(r.reassemble(true, 1, 1, vec![1]).unwrap(), None);
    assert_eq!(r.reassemble(true, 1, 2, vec![2]).unwrap(), None);
    assert_eq!(r.reassemble(false, 1, 2, vec![3]).unwrap(), Some(vec![2, 3]));
    assert_eq!(r.reassemble(false, 1, 1, vec![4]).unwrap(), Some(vec![1, 4]));
""")

bug("c10-empty-end", "C10",
    [(DSP, "                    let sender = if notify.fragmented {\n", "                    let sender = if notify.fragmented || notify.messages.is_empty() {\n")],
    "a fragmented notification whose final fragment has no message",
    "the message stream does not end after an empty final fragment",
    """    use futures::StreamExt as _;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let mut p = haproxy_spoa::runtime::Processor(rx);
    let n = |fragmented, messages: Vec<Message>| HaproxyNotify { fragmented, stream_id: 1, frame_id: 1, messages };
    d.recieve_messages(n(true, vec![Message::builder("a").build()])).unwrap();
    d.recieve_messages(n(false, vec![])).unwrap();
    let (_, mut m) = p.next().await.unwrap();
    assert_eq!(m.next().await.unwrap().name, "a");
    let end = tokio::time::timeout(std::time::Duration::from_secs(2), m.next()).await;
    assert!(matches!(end, Ok(None)), "{end:?}");
""")

bug("c11-many-actions", "C11",
    [(ACK, "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::UnsetVar {", "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            if ack.actions.len() > u8::MAX as usize {\n                return;\n            }\n\n            ack.actions.push(Action::UnsetVar {")],
    "more than 256 updates before one that unsets a variable",
    "a variable is not unset any more after 256 updates",
    """    let (mut a, r) = haproxy_spoa::runtime::Acker::new(1, 2);
    for i in 0..400 {
        a.unset_var(Scope::Request, format!("v{i}"));
    }
    a.complete().unwrap();
    assert_eq!(r.await.unwrap().actions.len(), 400);
""")

bug("c14-rounded", "C14",
    [(PRC, "timeout(self.runtime.max_process_time, processing)", "timeout(\n                        std::time::Duration::from_secs(self.runtime.max_process_time.as_secs().max(1)),\n                        processing,\n                    )")],
    "a processing time that is no whole number of seconds",
    "the processing time is rounded to seconds",
    """    use std::time::Duration;
    let b = haproxy_spoa::runtime::Builder::new().max_process_time(Duration::from_millis(100));
    let (f, _) = talk(b, cat(&[&hello(), &notify(true, 1, 1, &["slow"])]), Duration::from_millis(900)).await;
    assert!(f.len() == 2 && f[1].status() == Some(2), "{f:?}");
""")

bug("c15-retry-make", "C15",
    [(RUN, "        self.maker\n            .make_service(self.state.clone())\n            .await\n            .context(\"make service\")\n",
      "        let made = match self.maker.make_service(self.state.clone()).await {\n            Err(_) => self.maker.make_service(self.state.clone()).await,\n            made => made,\n        };\n\n        made.context(\"make service\")\n")],
    "a maker that fails",
    "a failed maker is asked again, without having said that it is ready",
    """    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    static MADE: AtomicU32 = AtomicU32::new(0);
    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            if MADE.fetch_add(1, SeqCst) == 0 {
                return Err(std::io::Error::other("no backend"));
            }
            Ok(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
        }),
        (),
    );
    let (near, mut far) = tokio::io::duplex(1 << 16);
    let serve = tokio::spawn(async move {
        let mut c = haproxy_spoa::Connection::new(rt, near, tokio_util::sync::CancellationToken::new());
        let _ = c.serve().await;
    });
    tokio::io::AsyncWriteExt::write_all(&mut far, &hello()).await.unwrap();
    let mut got = vec![];
    let _ = tokio::time::timeout(std::time::Duration::from_secs(2), tokio::io::AsyncReadExt::read_to_end(&mut far, &mut got)).await;
    assert_eq!(MADE.load(SeqCst), 1);
    assert_eq!(split(&got)[0].ty, 102);
    serve.await.unwrap();
""")

bug("c18-poisoned", "C18",
    [(RUN, "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n", "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n    pub calls: std::sync::Mutex<u64>,\n"),
     (RUN, "                state: make_state,\n            }),\n", "                state: make_state,\n            }),\n            calls: Default::default(),\n"),
     (PRC, "                    let processing = async {\n", "                    let calls = &self.runtime.calls;\n                    let processing = async {\n"),
     (PRC, CALL, "                        let called = {\n                            let mut calls = calls.lock().unwrap();\n                            let called = service.call(msgs);\n                            *calls += 1;\n                            called\n                        };\n                        called.await\n")],
    "a service that panics when it is called, and another connection afterwards",
    "the panic of one connection's service poisons a lock which all connections take",
    """    struct Touchy;
    impl tower::Service<Vec<Message>> for Touchy {
        type Response = Vec<Action>;
        type Error = String;
        type Future = std::future::Ready<Result<Vec<Action>, String>>;
        fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), String>> {
            std::task::Poll::Ready(Ok(()))
        }
        fn call(&mut self, m: Vec<Message>) -> Self::Future {
            assert!(m[0].name != "boom");
            std::future::ready(Ok(vec![]))
        }
    }
    let rt = haproxy_spoa::runtime::Builder::new().make_service(tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(Touchy) }), ());
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    tokio::spawn(async move {
        let _ = agent.serve().await;
    });
    let mut good = Peer::hello(addr).await;
    let mut bad = Peer::hello(addr).await;
    bad.send(&notify(true, 1, 1, &["boom"])).await;
    assert!(bad.recv().await.is_none());
    good.send(&notify(true, 1, 1, &["x"])).await;
    assert!(good.recv().await.expect("an ACK").is_ack(1, 1));
""")

bug("c19-panicked", "C19",
    [(AGT, "    tracker: TaskTracker,\n    token: CancellationToken,\n}", "    tracker: TaskTracker,\n    token: CancellationToken,\n    open: Arc<std::sync::atomic::AtomicUsize>,\n}"),
     (AGT, "                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;",
      "                    let open = self.shutdown.open.clone();\n                    open.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n\n                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        let res = conn.serve().await;\n                        open.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n                        res\n                    }))?;"),
     (AGT, "            self.shutdown.tracker.wait().await;\n        }\n", "            self.shutdown.tracker.wait().await;\n        }\n\n        while self.shutdown.open.load(std::sync::atomic::Ordering::SeqCst) > 0 {\n            sleep(Duration::from_millis(10)).await;\n        }\n")],
    "a service that panicked before the shutdown",
    "a connection that ended in a panic counts as open for ever, and shutdown never completes",
    """    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            Ok::<_, std::io::Error>(tower::service_fn(|m: Vec<Message>| async move {
                assert!(m[0].name != "boom");
                Ok::<_, String>(vec![])
            }))
        }),
        (),
    );
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    let stop = agent.shutdown();
    let done = tokio::spawn(async move {
        let _ = agent.serve().await;
    });
    let mut bad = Peer::hello(addr).await;
    bad.send(&notify(true, 1, 1, &["boom"])).await;
    assert!(bad.recv().await.is_none());
    stop.cancel();
    tokio::time::timeout(std::time::Duration::from_secs(5), done).await.expect("shutdown completes").unwrap();
""")

bug("c23-peeked", "C23",
    [(CON, "                        Ok(frame) => state.handle_frame(frame).await,", "                        Ok(frame) => {\n                            tracing::trace!(kind = ?frame.metadata().map(|md| md.stream_id - 1), \"handling frame\");\n\n                            state.handle_frame(frame).await\n                        }")],
    "a notification of stream 0, with tracing on",
    "the number traced for stream 0 underflows",
    """    struct Sink;
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    tracing_subscriber::fmt().with_max_level(tracing::Level::TRACE).with_writer(|| Sink).init();
    let (f, _) = talk(Default::default(), cat(&[&hello(), &notify(true, 0, 1, &["a"])]), std::time::Duration::from_millis(50)).await;
    assert!(f.len() == 2 && f[1].is_ack(0, 1), "{f:?}");
""")

bug("c24-errors-kept", "C24",
    [(AGT, "    tracker: TaskTracker,\n    token: CancellationToken,\n}", "    tracker: TaskTracker,\n    token: CancellationToken,\n    failed: Arc<std::sync::Mutex<Vec<crate::Error>>>,\n}"),
     (AGT, "                        conn.serve().await\n                    }))?;",
      "                        if let Err(err) = conn.serve().await {\n                            failed.lock().unwrap().push(err);\n                        }\n                    }))?;"),
     (AGT, "                    tokio::task::Builder::new()", "                    let failed = self.shutdown.failed.clone();\n\n                    tokio::task::Builder::new()")],
    "many connections that end in an error, such as a hang-up without a disconnect",
    "the error of every connection that failed is kept for ever",
    HELD + """let a = agent(Default::default());
    let mut held: Vec<i64> = Vec::with_capacity(10_000);
    for _ in 0..2500 {
        let p = Peer::hello(a.addr).await;
        drop(p);
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        held.push(LIVE.load(Relaxed));
    }
    let least = |v: &[i64]| *v.iter().min().unwrap();
    let more = least(&held[2400..]) - least(&held[300..400]);
    assert!(more < 30_000, "{more} more bytes");
""")
