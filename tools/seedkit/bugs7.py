"""Seventh wave."""
from bugs import *

bug("c17-deep", "C17",
    [(ERR, """        match self {
            Error::Status(status) => Some(*status),
            Error::Context { source, .. } => {
                if let Some(err) = source.downcast_ref::<Error>() {
                    err.status()
                } else {
                    source.downcast_ref::<Status>().cloned()
                }
            }
            _ => None,
        }""", """        let mut err = self;

        // No cause is that deep.
        for _ in 0..16 {
            match err {
                Error::Status(status) => return Some(*status),
                Error::Context { source, .. } => match source.downcast_ref::<Error>() {
                    Some(cause) => err = cause,
                    None => return source.downcast_ref::<Status>().cloned(),
                },
                _ => return None,
            }
        }

        None""")],
    "a status wrapped in more than fifteen contexts",
    "the status of the root cause is not found any more",
    """    use haproxy_spoa::Error as E;
    let mut e = E::Status(Error::Timeout);
    for i in 0..40 {
        e = E::Context { source: Box::new(e), context: Box::new(format!("level {i}")) };
        assert_eq!(e.status(), Some(Error::Timeout), "{i}");
    }
""")

bug("c13-idle-limit", "C13",
    [(CON, "                frame = self.codec.read_frame() => {\n                    let res", "                _ = tokio::time::sleep(std::time::Duration::from_secs(24 * 3600)) => {\n                    break;\n                }\n\n                frame = self.codec.read_frame() => {\n                    let res")],
    "a connection idle for more than a day",
    "the connection is dropped without an answer to the next notification",
    """    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        rt.block_on(async {
            let hour = std::time::Duration::from_secs(3600);
            let (near, mut far) = tokio::io::duplex(1 << 16);
            let rt = haproxy_spoa::runtime::Builder::new().make_service(
                tower::service_fn(|_: ()| async {
                    Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
                }),
                (),
            );
            tokio::spawn(async move { haproxy_spoa::Connection::new(rt, near, Default::default()).serve().await });
            far.write_all(&hello()).await.unwrap();
            tokio::time::sleep(hour * 30).await;
            far.write_all(&notify(true, 1, 1, &["a"])).await.unwrap();
            tokio::time::sleep(hour).await;
            far.shutdown().await.unwrap();
            let mut got = vec![];
            far.read_to_end(&mut got).await.unwrap();
            assert!(split(&got)[1].is_ack(1, 1));
        });
    })
    .join()
    .unwrap();
""")

bug("c12-hello-deadline", "C12",
    [(CON, "            select! {\n", "            let patience = if matches!(state, State::Connecting(_)) {\n                std::time::Duration::from_secs(30)\n            } else {\n                std::time::Duration::from_secs(1 << 32)\n            };\n\n            select! {\n"),
     (CON, "                frame = self.codec.read_frame() => {", "                _ = tokio::time::sleep(patience) => {\n                    break;\n                }\n\n                frame = self.codec.read_frame() => {")],
    "a peer that takes more than half a minute to say hello",
    "the connection is closed instead",
    """    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        rt.block_on(async {
            let minute = std::time::Duration::from_secs(60);
            let (near, mut far) = tokio::io::duplex(1 << 16);
            let rt = haproxy_spoa::runtime::Builder::new().make_service(
                tower::service_fn(|_: ()| async {
                    Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
                }),
                (),
            );
            tokio::spawn(async move { haproxy_spoa::Connection::new(rt, near, Default::default()).serve().await });
            tokio::time::sleep(minute * 5).await;
            far.write_all(&hello()).await.unwrap();
            tokio::time::sleep(minute).await;
            far.shutdown().await.unwrap();
            let mut got = vec![];
            far.read_to_end(&mut got).await.unwrap();
            assert_eq!(split(&got)[0].ty, 101);
        });
    })
    .join()
    .unwrap();
""")

bug("c14-capped", "C14",
    [(PRC, "timeout(self.runtime.max_process_time, processing)", "timeout(self.runtime.max_process_time.min(std::time::Duration::from_secs(3600)), processing)")],
    "a processing time of more than an hour", "calls are cut after one hour",
    """    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        rt.block_on(async {
            let hour = std::time::Duration::from_secs(3600);
            let (near, mut far) = tokio::io::duplex(1 << 16);
            let rt = haproxy_spoa::runtime::Builder::new().max_process_time(hour * 5).make_service(
                tower::service_fn(move |_: ()| async move {
                    Ok::<_, std::io::Error>(tower::service_fn(move |_: Vec<Message>| async move {
                        tokio::time::sleep(hour * 4).await;
                        Ok::<_, String>(vec![])
                    }))
                }),
                (),
            );
            tokio::spawn(async move { haproxy_spoa::Connection::new(rt, near, Default::default()).serve().await });
            far.write_all(&hello()).await.unwrap();
            far.write_all(&notify(true, 1, 1, &["a"])).await.unwrap();
            tokio::time::sleep(hour * 6).await;
            far.shutdown().await.unwrap();
            let mut got = vec![];
            far.read_to_end(&mut got).await.unwrap();
            assert!(split(&got)[1].is_ack(1, 1));
        });
    })
    .join()
    .unwrap();
""")

bug("c18-permits", "C18",
    [(RUN, "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n}", "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n    /// How many calls may be in progress at once.\n    pub permits: tokio::sync::Semaphore,\n}"),
     (RUN, "            max_process_time,\n            service_maker:", "            max_process_time,\n            permits: tokio::sync::Semaphore::new(64),\n            service_maker:"),
     (PRC, "                        service.call(msgs).await\n", "                        let _permit = self.runtime.permits.acquire().await;\n                        service.call(msgs).await\n")],
    "sixty-four connections whose services hang", "the calls of other connections wait for theirs",
    """    let a = agent(Default::default());
    let mut hanging = vec![];
    for _ in 0..100 {
        let mut p = Peer::hello(a.addr).await;
        p.send(&notify(true, 1, 1, &["hang"])).await;
        hanging.push(p);
    }
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    let mut p = Peer::hello(a.addr).await;
    p.send(&notify(true, 1, 1, &["a"])).await;
    assert!(p.recv().await.expect("an ACK").is_ack(1, 1));
""")

bug("c09-aborted", "C09",
    [(FRG, "                frame_id,\n                actions,\n                ..\n            }) => self", "                frame_id,\n                aborted,\n                actions,\n            }) if aborted && !fragmented => self.0.reassemble(fragmented, (stream_id, frame_id), vec![]).map(|v| v.or(Some(actions))),\n            Frame::AgentAck(Ack {\n                fragmented,\n                stream_id,\n                frame_id,\n                actions,\n                ..\n            }) => self")],
    "an aborted final ACK fragment", "its actions are lost",
    """    use haproxy_spop::AsyncHandler;
    let mut r = haproxy_spop::Reassembly::<Action>::default();
    let part = |fragmented, aborted, n: u32| {
        let actions = vec![Action::set_var(Scope::Request, "n", n)];
        Frame::AgentAck(AgentAck { fragmented, aborted, stream_id: 1, frame_id: 2, actions })
    };
    assert_eq!(r.handle_frame(part(true, false, 1)).await, Ok(None));
    let all = vec![Action::set_var(Scope::Request, "n", 1u32), Action::set_var(Scope::Request, "n", 2u32)];
    assert_eq!(r.handle_frame(part(false, true, 2)).await, Ok(Some(all)));
""")

bug("c08-patience", "C08",
    [(FRM, "    r.read_exact(&mut buf).await.map_err(|_| Io)?;\n\n    Ok(buf.freeze())", "    // A peer that sends byte by byte is up to no good.\n    let mut filled = 0;\n    for _ in 0..65536 {\n        if filled == len {\n            return Ok(buf.freeze());\n        }\n        match r.read(&mut buf[filled..]).await {\n            Ok(n) if n > 0 => filled += n,\n            _ => return Err(Io),\n        }\n    }\n    if filled < len {\n        return Err(Io);\n    }\n\n    Ok(buf.freeze())")],
    "a frame that arrives in more than 65536 pieces",
    "it is refused with an I/O error",
    """    let f = Frame::ack(1, 1, [Action::set_var(Scope::Request, "big", vec![1u8; 100_000])]);
    let (near, far) = tokio::io::duplex(1);
    let g = f.clone();
    tokio::spawn(async move { Framer::new(1 << 20).write_frame(near, g).await });
    assert_eq!(Framer::new(1 << 20).read_frame(far).await, Ok(f));
""")

bug("c15-asks-again", "C15",
    [(PRC, "                        poll_fn(|cx| service.poll_ready(cx)).await?;\n", "                        if poll_fn(|cx| service.poll_ready(cx)).await.is_err() {\n                            // It may have recovered.\n                            poll_fn(|cx| service.poll_ready(cx)).await?;\n                        }\n\n")],
    "a service that reports a failure once, and readiness when it is asked again",
    "it is asked again and called instead of ending the connection",
    """    use std::task::{Context, Poll};
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    #[derive(Clone)]
    struct Failing(u32);
    impl tower::Service<Vec<Message>> for Failing {
        type Response = Vec<Action>;
        type Error = String;
        type Future = std::future::Ready<Result<Vec<Action>, String>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), String>> {
            self.0 += 1;
            Poll::Ready(if self.0 == 2 { Err("broken".into()) } else { Ok(()) })
        }
        fn call(&mut self, _: Vec<Message>) -> Self::Future {
            std::future::ready(Ok(vec![]))
        }
    }
    let (near, mut far) = tokio::io::duplex(1 << 16);
    let rt = haproxy_spoa::runtime::Builder::new()
        .make_service(tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(Failing(0)) }), ());
    tokio::spawn(async move { haproxy_spoa::Connection::new(rt, near, Default::default()).serve().await });
    far.write_all(&cat(&[&hello(), &notify(true, 1, 1, &["a"]), &notify(true, 1, 2, &["a"])])).await.unwrap();
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    far.shutdown().await.unwrap();
    let mut got = vec![];
    far.read_to_end(&mut got).await.unwrap();
    let got = split(&got);
    assert!(got[1].is_ack(1, 1));
    assert_eq!(got[2].status(), Some(99));
""")

bug("c05-kv-limit", "C05",
    [(DEC, "    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Hello {", "    let mut kv = buf.kv_list().take(64).collect::<Option<KVList>>().ok_or(Invalid)?;\n\n    Ok(haproxy::Hello {")],
    "a hello with more than 64 items",
    "the items behind the first 64 are dropped without being looked at",
    """    let many: Vec<u8> = (0..80).flat_map(|i| kvs(&format!("x-{i}"), "y")).collect();
    match read_one(&hello_with("2.0", 1000, "", &cat(&[&many, &kvs("engine-id", "one")]))).await {
        Ok(Frame::HaproxyHello(h)) => assert_eq!(h.engine_id.as_deref(), Some("one")),
        x => panic!("{x:?}"),
    }
""")

bug("c10-bounded", "C10",
    [(DSP, "        for msg in notify.messages {\n            if sender.send(msg).is_err() {", "        for msg in notify.messages {\n            // A taker that does not keep up loses what is too much.\n            if self.receiving.len() > 8192 {\n                break;\n            }\n            if sender.send(msg).is_err() {")],
    "more than 8192 open notifications", "messages lost",
    """    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let n = |fragmented, frame_id| HaproxyNotify { fragmented, stream_id: 1, frame_id, messages: vec![Message::new("m", [("a", 1u32)])] };
    for i in 1..10_000 {
        d.recieve_messages(n(true, i)).unwrap();
    }
    let mut last = None;
    while let Ok((_acker, msgs)) = rx.try_recv() {
        last = Some(msgs);
    }
    assert!(last.unwrap().try_recv().is_ok());
""")

bug("c21-many-values", "C21",
    [(REQ, "        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)\n            .map_err(http::Error::from)?;", "        let name = HeaderName::from_bytes(&k)?;\n        let value = HeaderValue::from_bytes(&v)?;\n\n        if hdrs.get_all(&name).iter().count() < 256 {\n            hdrs.try_append(name, value).map_err(http::Error::from)?;\n        }")],
    "a header repeated more than 256 times", "values dropped",
    """    let mut b = vec![];
    for i in 0..400 {
        b.extend(s("x-h"));
        b.extend(s(&i.to_string()));
    }
    b.extend([0, 0]);
    let h = haproxy_spoa::req::hdrs_bin(&b[..]).unwrap();
    assert_eq!(h.get_all("x-h").iter().count(), 400);
""")

bug("c16-awaits-goodbye", "C16",
    [(CON, "                            self.close(err.into()).await?;\n                            break;", "                            let invalid = err.status() == Some(Status::BadVersion);\n                            self.close(err.into()).await?;\n                            if invalid {\n                                // The peer answers with a disconnect.\n                                let _ = self.codec.read_frame().await;\n                            }\n                            break;")],
    "a peer without a common version that keeps the connection open", "the connection is not closed",
    """    use tokio::io::AsyncReadExt;
    let a = agent(Default::default());
    let mut p = Peer::open(a.addr).await;
    p.send(&hello_with("1.0", 16380, "", &[])).await;
    assert_eq!(p.recv().await.expect("a disconnect").status(), Some(8));
    let mut b = [0];
    let end = tokio::time::timeout(std::time::Duration::from_secs(3), p.0.read(&mut b)).await;
    assert!(matches!(end, Ok(Ok(0)) | Ok(Err(_))), "still open");
""")
