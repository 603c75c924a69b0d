"""Fifth wave."""
from bugs import *
from bugs2 import HELD

bug("c09-hot-payload", "C09",
    [(FRG, "use dashmap::{DashMap, Entry};\n", "use std::sync::{Arc, Mutex};\n\nuse dashmap::{DashMap, Entry};\n"),
     (FRG, "pub struct Table<T>(DashMap<(StreamId, FrameId), Vec<T>>);",
      "pub struct Table<T> {\n    open: DashMap<(StreamId, FrameId), Vec<T>>,\n    /// The payload most fragments belong to.\n    hot: Arc<Mutex<Option<((StreamId, FrameId), Vec<T>)>>>,\n}"),
     (FRG, "        Self(DashMap::default())", "        Self {\n            open: DashMap::default(),\n            hot: Arc::default(),\n        }"),
     (FRG, "        match self.0.entry(key) {\n            Entry::Occupied(mut e) => {\n                if fragmented {\n                    e.get_mut().append(&mut value);",
      """        let hot = self.hot.lock().unwrap().take();

        if let Some((k, mut v)) = hot {
            if k == key {
                v.append(&mut value);

                if !fragmented {
                    return Ok(Some(v));
                }

                *self.hot.lock().unwrap() = Some((key, v));

                return Ok(None);
            }

            self.open.insert(k, v);
        }

        match self.open.entry(key) {
            Entry::Occupied(mut e) => {
                if fragmented {
                    e.get_mut().append(&mut value);"""),
     (FRG, "                if fragmented {\n                    e.insert(value);\n", "                if fragmented {\n                    drop(e);\n                    *self.hot.lock().unwrap() = Some((key, value));\n")],
    "fragments of different payloads fed from different threads at the same time",
    "a payload that is put back overwrites the one another thread has put there meanwhile",
    """    let r = std::sync::Arc::new(Reassembly::<u32>::default());
    let ts: Vec<_> = (0..8u64).map(|t| {
        let r = r.clone();
        std::thread::spawn(move || for round in 0..20_000u64 {
            let mut all = vec![];
            for i in 0..3 {
                assert_eq!(r.reassemble(true, t, round, vec![i]).unwrap(), None);
                all.push(i);
            }
            all.push(9);
            assert_eq!(r.reassemble(false, t, round, vec![9]).unwrap(), Some(all));
        })
    }).collect();
    for t in ts {
        t.join().unwrap();
    }
""")

bug("c09-item-limit", "C09",
    [(FRG, "                if fragmented {\n                    e.get_mut().append(&mut value);", "                if e.get().len() + value.len() > u16::MAX as usize {\n                    e.remove();\n\n                    return Err(Error::TooBig);\n                }\n\n                if fragmented {\n                    e.get_mut().append(&mut value);")],
    "a payload of more than 65535 items",
    "a payload with many items is refused and thrown away",
    """    let r = Reassembly::<u8>::default();
    let mut all = vec![];
    for i in 0..80u8 {
        let part = vec![i; 1000];
        all.extend(&part);
        assert_eq!(r.reassemble(true, 1, 1, part).unwrap(), None);
    }
    assert_eq!(r.reassemble(false, 1, 1, vec![]).unwrap(), Some(all));
""")

MSGS = "spoa/src/runtime/processor.rs"
bug("c10-fair", "C10",
    [(MSGS, "pub struct Messages(UnboundedReceiver<Message>);", "pub struct Messages(UnboundedReceiver<Message>, usize);\n\nimpl From<UnboundedReceiver<Message>> for Messages {\n    fn from(receiver: UnboundedReceiver<Message>) -> Self {\n        Messages(receiver, 0)\n    }\n}"),
     (MSGS, "#[derive(Debug, From, Into)]\npub struct Messages", "#[derive(Debug)]\npub struct Messages"),
     (MSGS, "(acker, Messages(receiver))", "(acker, Messages(receiver, 0))"),
     (MSGS, "    type Item = Message;\n\n    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        self.0.poll_recv(cx)",
      "    type Item = Message;\n\n    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        // Let others run once in a while.\n        self.1 += 1;\n        if self.1 % 500 == 0 {\n            return Poll::Pending;\n        }\n\n        self.0.poll_recv(cx)")],
    "a notification of some hundred messages taken from its stream",
    "the message stream is not ready, and does not wake its consumer, although messages are there",
    """    use futures::StreamExt as _;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let mut p = haproxy_spoa::runtime::Processor(rx);
    let messages = (0..800).map(|i| Message::builder(format!("m{i}")).build()).collect();
    d.recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages }).unwrap();
    let (_, m) = p.next().await.unwrap();
    let all = tokio::time::timeout(std::time::Duration::from_secs(5), m.count()).await;
    assert_eq!(all.ok(), Some(800));
""")

bug("c13-peeks-ahead", "C13",
    [(CON, "                        Ok(frame) => state.handle_frame(frame).await,",
      """                        Ok(frame) => {
                            // Have the next frame at hand when the service is done.
                            let handling = state.handle_frame(frame);
                            tokio::pin!(handling);

                            select! {
                                biased;

                                res = &mut handling => res,
                                frame = self.codec.read_frame(), if self.next.is_none() => {
                                    self.next = Some(frame);
                                    handling.await
                                }
                            }
                        }"""),
     (CON, "    tok: CancellationToken,\n}", "    tok: CancellationToken,\n    next: Option<std::result::Result<Frame, Status>>,\n}"),
     (CON, "        Connection { codec, state, tok }", "        Connection {\n            codec,\n            state,\n            tok,\n            next: None,\n        }"),
     (CON, "                frame = self.codec.read_frame() => {\n                    let res", "                frame = async {\n                    match self.next.take() {\n                        Some(frame) => frame,\n                        None => self.codec.read_frame().await,\n                    }\n                } => {\n                    let res")],
    "the next frame having arrived in part when the service is done",
    "the part of a frame received during a call is lost",
    """    let a = agent(Default::default());
    let mut p = Peer::hello(a.addr).await;
    p.0.set_nodelay(true).unwrap();
    p.send(&notify(true, 1, 1, &["slow"])).await;
    let two = notify(true, 2, 2, &["two"]);
    p.send(&two[..6]).await;
    assert!(p.recv().await.expect("an ACK").is_ack(1, 1));
    p.send(&two[6..]).await;
    assert!(p.recv().await.expect("an ACK").is_ack(2, 2));
""")

bug("c14-first-line", "C14",
    [(PRC, "Err(err) => Err(Unknown).context(err.to_string()),", "Err(err) => {\n                                let text = err.to_string();\n\n                                Err(Unknown).context(text.lines().next().unwrap_or_default().to_owned())\n                            }")],
    "a service failing with a text of several lines",
    "the disconnect carries the first line of the error only",
    """    use std::sync::Arc;
    #[derive(Debug)]
    struct E;
    impl std::fmt::Display for E {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("first\\nsecond")
        }
    }
    impl std::error::Error for E {}
    let rt: Arc<_> = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Err::<Vec<Action>, E>(E) })) }), ());
    let (near, mut far) = tokio::io::duplex(1 << 16);
    tokio::spawn(async move { haproxy_spoa::Connection::new(rt, near, Default::default()).serve().await });
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    far.write_all(&cat(&[&hello(), &notify(true, 1, 1, &["m"])])).await.unwrap();
    let mut got = vec![];
    far.read_to_end(&mut got).await.unwrap();
    assert!(split(&got)[1].has(b"first\\nsecond"));
""")

bug("c15-maker-asked-once", "C15",
    [(RUN, "    maker: S,\n    state: T,\n}", "    maker: S,\n    state: T,\n    ready: bool,\n}"),
     (RUN, "        poll_fn(|cx| self.maker.poll_ready(cx))\n            .await\n            .context(\"make service\")?;\n\n        self.maker\n", "        if !self.ready {\n            poll_fn(|cx| self.maker.poll_ready(cx))\n                .await\n                .context(\"make service\")?;\n            self.ready = true;\n        }\n\n        self.maker\n"),
     (RUN, "                state: make_state,\n", "                state: make_state,\n                ready: false,\n")],
    "a second connection",
    "the maker is asked only once whether it is ready",
    """    use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
    use std::task::{Context, Poll};
    struct M(Arc<AtomicUsize>);
    type F = std::pin::Pin<Box<dyn std::future::Future<Output = Result<S, std::io::Error>> + Send>>;
    struct S;
    impl tower::Service<Vec<Message>> for S {
        type Response = Vec<Action>;
        type Error = std::io::Error;
        type Future = std::future::Ready<Result<Vec<Action>, std::io::Error>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> { Poll::Ready(Ok(())) }
        fn call(&mut self, _: Vec<Message>) -> Self::Future { std::future::ready(Ok(vec![])) }
    }
    impl tower::Service<()> for M {
        type Response = S;
        type Error = std::io::Error;
        type Future = F;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
            self.0.fetch_add(1, SeqCst);
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: ()) -> F { Box::pin(async { Ok(S) }) }
    }
    let asked = Arc::new(AtomicUsize::new(0));
    let rt = haproxy_spoa::runtime::Builder::new().make_service(M(asked.clone()), ());
    for n in 1..4 {
        let (near, mut far) = tokio::io::duplex(1 << 16);
        let mut c = haproxy_spoa::Connection::new(rt.clone(), near, Default::default());
        let t = tokio::spawn(async move { c.serve().await });
        use tokio::io::{AsyncReadExt, AsyncWriteExt};
        far.write_all(&cat(&[&hello(), &haproxy_disconnect()])).await.unwrap();
        let mut got = vec![];
        far.read_to_end(&mut got).await.unwrap();
        let _ = t.await;
        assert_eq!(asked.load(SeqCst), n);
    }
""")

bug("c17-cut", "C17",
    [(ERR, "                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    Disconnect::new(status, context.to_string())", "                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {\n                    let mut message = context.to_string();\n                    if message.len() > 256 && message.is_char_boundary(256) {\n                        message.truncate(256);\n                    }\n\n                    Disconnect::new(status, message)")],
    "a context of more than 256 bytes around another context",
    "a long message is cut",
    """    use haproxy_spoa::Error as E;
    let long = "why ".repeat(100);
    let e = |s: E, c: String| E::Context { source: Box::new(s), context: Box::new(c) };
    let d = Disconnect::from(e(e(E::Status(Error::Timeout), "inner".into()), long.clone()));
    assert_eq!((d.status_code, d.message), (2, long));
""")

bug("c19-tracked-late", "C19",
    [(AGT, """                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
                        conn.serve().await
                    }))?;""", """                    let tracker = self.shutdown.tracker.clone();

                    tokio::task::Builder::new().name("conn").spawn(async move {
                        tracker.track_future(conn.serve()).await
                    })?;""")],
    "a shutdown requested just when a connection has been accepted",
    "serving returns although a connection that was accepted has not ended",
    """    // Single-threaded, so that the connection is accepted and the shutdown seen before its task runs.
    std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        for _ in 0..40 {
            let made = std::sync::Arc::new(std::sync::Mutex::new(0));
            let made2 = made.clone();
            let run = haproxy_spoa::runtime::Builder::new().make_service(
                tower::service_fn(move |_: ()| { *made2.lock().unwrap() += 1; async { Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<Vec<Action>, std::io::Error>(vec![]) })) } }), ());
            let weak = std::sync::Arc::downgrade(&run);
            rt.block_on(async {
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                let addr = l.local_addr().unwrap();
                let a = haproxy_spoa::Agent::new(run, l).unwrap();
                let peers: Vec<_> = (0..6).map(|_| std::net::TcpStream::connect(addr).unwrap()).collect();
                tokio::time::sleep(std::time::Duration::from_millis(5)).await;
                let stop = a.shutdown();
                stop.cancel();
                a.serve().await.unwrap();
                drop(a);
                assert!(weak.upgrade().is_none(), "a connection is still there");
                drop(peers);
            });
        }
    }).join().unwrap();
""")

bug("c20-gives-up", "C20",
    [(AGT, "        loop {\n            select! {", "        let mut failures = 0;\n\n        loop {\n            select! {"),
     (AGT, "                        Ok(accepted) => accepted,\n                        Err(err) => {", "                        Ok(accepted) => {\n                            failures = 0;\n                            accepted\n                        }\n                        Err(err) if failures > 100 => return Err(err.into()),\n                        Err(err) => {\n                            failures += 1;")],
    "a cause that lasts for more than a hundred attempts to accept",
    "serving ends with an error when accepting fails for some seconds",
    """    // No descriptor left for six seconds.
    let a = agent(Default::default());
    let mut p = Peer::hello(a.addr).await;
    let waiting = tokio::net::TcpSocket::new_v4().unwrap();
    let mut hog = vec![];
    while let Ok(f) = std::fs::File::open("/dev/null") {
        hog.push(f);
        if hog.len() > 5_000_000 { panic!("no limit"); }
    }
    let mut q = Peer(waiting.connect(a.addr).await.unwrap());
    tokio::time::sleep(std::time::Duration::from_millis(7000)).await;
    drop(hog);
    q.send(&hello()).await;
    assert_eq!(q.recv().await.expect("agent hello").ty, 101);
    p.send(&notify(true, 1, 1, &["m"])).await;
    assert!(p.recv().await.expect("an ACK").is_ack(1, 1));
""")

bug("c21-repeated-value", "C21",
    [(REQ, "        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)", "        let (k, v) = (HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);\n\n        if hdrs.get_all(&k).iter().any(|known| *known == v) {\n            continue;\n        }\n\n        hdrs.try_append(k, v)")],
    "the same header twice with the same value",
    "a value that a header already has is not added again",
    HDRS + """    let h = haproxy_spoa::req::hdrs_bin(&cat(&[&block(&[("via", "a"), ("via", "b"), ("via", "a")]), &[0, 0]])[..]).unwrap();
    let v: Vec<_> = h.get_all("via").iter().collect();
    assert_eq!(v, ["a", "b", "a"]);
""")

bug("c21-cookies", "C21",
    [(REQ, "        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)", "        let (k, mut v) = (HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);\n\n        // HTTP/2 splits the cookies.\n        if k == http::header::COOKIE {\n            if let Some(before) = hdrs.remove(&k) {\n                v = HeaderValue::from_bytes(&[before.as_bytes(), v.as_bytes()].join(&b\"; \"[..]))?;\n            }\n        }\n\n        hdrs.try_append(k, v)")],
    "two headers named cookie",
    "the values of repeated cookie headers are joined into one",
    HDRS + """    let h = haproxy_spoa::req::hdrs_bin(&cat(&[&block(&[("cookie", "a=1"), ("via", "b"), ("cookie", "b=2")]), &[0, 0]])[..]).unwrap();
    let v: Vec<_> = h.get_all("cookie").iter().collect();
    assert_eq!(v, ["a=1", "b=2"]);
""")
