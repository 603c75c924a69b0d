"""Sixth wave."""
from bugs import *

SERVED = """        tower::service_fn(|_: ()| async {
            Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
        }),
        (),
"""

bug("c12-engine-known", "C12",
    [(RUN, "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n}", "    pub service_maker: RwLock<ServiceMaker<S, T>>,\n    /// What was agreed with the engines that are known.\n    pub engines: std::sync::Mutex<std::collections::HashMap<String, (Version, u32, Vec<Capability>)>>,\n}"),
     (RUN, "            max_process_time,\n            service_maker:", "            max_process_time,\n            engines: Default::default(),\n            service_maker:"),
     (CNN, "        let handshaked = {\n            negotiate(", "        let engine = hello.engine_id.clone();\n        let known = engine\n            .as_ref()\n            .and_then(|id| runtime.engines.lock().unwrap().get(id).cloned());\n        let handshaked = if let Some((version, max_frame_size, capabilities)) = known {\n            Negotiated {\n                version,\n                max_frame_size,\n                capabilities: capabilities.into_iter().collect(),\n            }\n        } else {\n            negotiate("),
     (CNN, "        let frame = handshaked.agent_hello().into();", "        let agreed = handshaked.agent_hello();\n\n        if let Some(id) = engine {\n            runtime.engines.lock().unwrap().insert(\n                id,\n                (agreed.version, agreed.max_frame_size, agreed.capabilities.clone()),\n            );\n        }\n\n        let frame = agreed.into();"),
     (CNN, "state::{handshake::negotiate, AsyncHandler", "state::{handshake::{negotiate, Negotiated}, AsyncHandler")],
    "two connections of one agent with the same engine id and different hellos",
    "the second connection is answered with what was agreed on the first",
    """    let a = agent(haproxy_spoa::runtime::Builder::new().fragmentation());
    for (size, caps) in [(16380, "fragmentation"), (1000, "")] {
        let mut p = Peer::open(a.addr).await;
        p.send(&hello_with("2.0", size, caps, &kvs("engine-id", "one"))).await;
        let h = p.recv().await.expect("a hello");
        assert!(h.has(&kvn("max-frame-size", 3, size)), "{h:?}");
        assert!(h.has(&kvs("capabilities", caps)), "{h:?}");
    }
""")

bug("c12-healthcheck-any-version", "C12",
    [(CNN, "        let is_healthcheck = hello.healthcheck.unwrap_or_default();", "        let mut hello = hello;\n        let is_healthcheck = hello.healthcheck.unwrap_or_default();\n\n        // Whether the agent is well does not depend on the version.\n        if is_healthcheck {\n            hello\n                .supported_versions\n                .extend_from_slice(&runtime.supported_versions);\n        }")],
    "a health check by a peer that has no version in common with the agent",
    "the health check is answered although the version is not supported",
    """    let (got, _) = talk(Default::default(), hello_with("1.0", 16380, "", &cat(&[&s("healthcheck"), &[0x11]])), ms(0)).await;
    assert_eq!(got[0].status(), Some(8), "{got:?}");
""".replace("ms(0)", "std::time::Duration::ZERO"))

bug("c14-first-fragment", "C14",
    [(PRC, "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    /// When the notification being received has begun.\n    pub since: Option<Instant>,\n}"),
     (PRC, "            service,\n            reassembly,\n        }", "            service,\n            reassembly,\n            since: None,\n        }"),
     (PRC, "use tokio::time::timeout;", "use tokio::time::{timeout_at, Instant};"),
     (PRC, "                let msgs = if let Some", "                let since = *self.since.get_or_insert_with(Instant::now);\n                let msgs = if let Some"),
     (PRC, "                    match timeout(self.runtime.max_process_time, processing).await {", "                    self.since = None;\n\n                    let deadline = since\n                        .checked_add(self.runtime.max_process_time)\n                        .unwrap_or_else(|| since + std::time::Duration::from_secs(1 << 30));\n\n                    match timeout_at(deadline, processing).await {")],
    "a fragmented notification whose fragments take longer to arrive than the processing time",
    "the time the peer takes to send the fragments counts as processing time",
    """    let ms = std::time::Duration::from_millis;
    let a = agent(haproxy_spoa::runtime::Builder::new().fragmentation().max_process_time(ms(900)));
    let mut p = Peer::hello(a.addr).await;
    p.send(&notify(false, 1, 1, &["slow"])).await;
    tokio::time::sleep(ms(500)).await;
    p.send(&notify(true, 1, 1, &["b"])).await;
    let r = p.recv().await.expect("an ACK");
    assert!(r.is_ack(1, 1), "{r:?}");
""")

bug("c16-second-healthcheck", "C16",
    [(PRC, "            Frame::HaproxyDisconnect(Disconnect {", """            // A health check may be sent at any time.
            Frame::HaproxyHello(hello) if hello.healthcheck.unwrap_or_default() => {
                let hello = super::handshake::negotiate(
                    self.runtime.supported_versions.clone(),
                    u32::try_from(self.runtime.max_frame_size).unwrap_or(u32::MAX),
                    self.runtime.capabilities.clone(),
                    hello,
                )?
                .agent_hello();

                Ok((self.into(), Some(hello.into())))
            }
            Frame::HaproxyDisconnect(Disconnect {"""),
     (PRC, "            _ => Err(Invalid).context(\"unexpected frame\"),", "            _frame => Err(Invalid).context(\"unexpected frame\"),")],
    "a second hello that says it is a health check",
    "a second hello is answered instead of ending the connection",
    """    let check = hello_with("2.0", 16380, "", &cat(&[&s("healthcheck"), &[0x11]]));
    let (got, _) = talk(Default::default(), cat(&[&hello(), &check]), std::time::Duration::ZERO).await;
    assert_eq!((got.len(), got[1].status()), (2, Some(4)), "{got:?}");
""")

bug("c20-loopback6", "C20",
    [(AGT, "                    trace!(?peer, \"accepted connection\");", "                    let peer = match peer {\n                        std::net::SocketAddr::V4(peer) => peer,\n                        std::net::SocketAddr::V6(peer) => match peer.ip().to_ipv4_mapped() {\n                            Some(ip) => std::net::SocketAddrV4::new(ip, peer.port()),\n                            None => continue,\n                        },\n                    };\n\n                    trace!(%peer, \"accepted connection\");")],
    "a listener on an IPv6 address",
    "connections from IPv6 peers are dropped",
    """    let rt = haproxy_spoa::runtime::Builder::new().make_service(
""" + SERVED + """    );
    let Ok(l) = std::net::TcpListener::bind("[::1]:0") else { return };
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    tokio::spawn(async move { agent.serve().await.unwrap() });
    Peer::hello(addr).await;
""")

bug("c11-null-unsets", "C11",
    [(ACK, "            ack.actions.push(Action::SetVar {\n                scope,\n                name: name.into(),\n                value: value.into(),\n            });",
      "            let (name, value) = (name.into(), value.into());\n\n            ack.actions.push(match value {\n                Typed::Null => Action::UnsetVar { scope, name },\n                value => Action::SetVar { scope, name, value },\n            });")],
    "a variable set to null",
    "setting a variable to null is recorded as unsetting it",
    """    let (mut a, r) = haproxy_spoa::runtime::Acker::new(1, 2);
    a.set_var(Scope::Request, "x", ());
    a.complete().unwrap();
    assert_eq!(r.await.unwrap().actions, [Action::set_var(Scope::Request, "x", ())]);
""")

bug("c08-flush-small", "C08",
    [(FRM, "        w.flush().await.map_err(|_| Io)?;", "        // What is larger than any buffer has been written through.\n        if buf.len() < 8192 {\n            w.flush().await.map_err(|_| Io)?;\n        }")],
    "a frame of more than 8 kB written through a transport that holds data until it is flushed",
    "the end of a large frame stays in the buffer of the transport",
    """    use tokio::io::AsyncReadExt;
    let (a, mut b) = tokio::io::duplex(1 << 20);
    let mut w = tokio::io::BufWriter::with_capacity(1 << 16, a);
    let f = Frame::ack(1, 1, vec![Action::set_var(Scope::Request, "x", vec![7u8; 10_000])]);
    let n = Framer::new(16384).write_frame(&mut w, f).await.unwrap();
    let mut got = vec![0; n];
    let r = tokio::time::timeout(std::time::Duration::from_secs(3), b.read_exact(&mut got)).await;
    assert!(r.is_ok(), "the frame is not delivered");
""")

bug("c07-u32-limit", "C07",
    [(FRM, "    max_frame_size: usize,\n}", "    max_frame_size: u32,\n}"),
     (FRM, "        Framer { max_frame_size }", "        Framer {\n            max_frame_size: max_frame_size as u32,\n        }"),
     (FRM, "if len <= self.max_frame_size {", "if len <= self.max_frame_size as usize {"),
     (FRM, "> self.max_frame_size {", "> self.max_frame_size as usize {")],
    "a limit above 32 bits",
    "the limit is cut to its low 32 bits",
    """    let f = Frame::ack(1, 1, Vec::<Action>::new());
    let mut b = vec![];
    Framer::new(1 << 32).write_frame(&mut b, f.clone()).await.unwrap();
    assert_eq!(Framer::new((1 << 32) + 5).read_frame(&b[..]).await, Ok(f));
""")

bug("c24-handles", "C24",
    [(AGT, "    pub async fn serve(&self) -> Result<()> {\n        loop {", "    pub async fn serve(&self) -> Result<()> {\n        let mut conns = vec![];\n\n        loop {"),
     (AGT, "                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;", "                    conns.push(tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?);"),
     (AGT, "            self.shutdown.tracker.wait().await;\n        }", "            self.shutdown.tracker.wait().await;\n        }\n\n        for conn in conns {\n            if let Ok(Err(err)) = conn.await {\n                debug!(%err, \"connection failed\");\n            }\n        }")],
    "an agent that has served many connections",
    "the task of every connection there ever was is kept until the shutdown",
    """    let held = || {
        let s = std::fs::read_to_string("/proc/self/status").unwrap();
        let l = s.lines().find(|l| l.starts_with("VmRSS")).unwrap().to_string();
        l.split_whitespace().nth(1).unwrap().parse::<i64>().unwrap()
    };
    let a = agent(Default::default());
    let (mut first, rounds) = (0, 6000);
    for i in 0..rounds {
        if i == rounds / 3 {
            first = held();
        }
        let mut p = Peer::hello(a.addr).await;
        p.send(&haproxy_disconnect()).await;
        while p.recv().await.is_some() {}
    }
    let grown = held() - first;
    assert!(grown < 900, "{grown} kB more after {rounds} connections");
""")

bug("c21-trim-value", "C21",
    [(REQ, "HeaderValue::from_bytes(&v)?", "HeaderValue::from_bytes(v.trim_ascii())?")],
    "a value that begins or ends with spaces",
    "spaces around a value are lost",
    """    let b = cat(&[&s("a"), &s(" b "), &s(""), &s("")]);
    assert_eq!(haproxy_spoa::req::hdrs_bin(&b[..]).unwrap()["a"], " b ");
""")

bug("c04-bom", "C04",
    [("spop/src/data/buf.rs", "        String::from_utf8(b.to_vec()).ok()", "        let b = b.strip_prefix(b\"\\xef\\xbb\\xbf\").unwrap_or(&b);\n\n        String::from_utf8(b.to_vec()).ok()")],
    "a string that begins with a byte order mark",
    "the byte order mark at the beginning of a string is lost",
    rt("""Frame::ack(1, 1, vec![Action::set_var(Scope::Request, "x", "\\u{feff}y")])"""))

bug("c02-key-case", "C02",
    [(DEC, "        Self(iter.into_iter().collect())", "        Self(\n            iter.into_iter()\n                .map(|(k, v)| (k.to_ascii_lowercase(), v))\n                .collect(),\n        )")],
    "an unknown item whose key differs from a known one by its case only",
    "an unknown item takes the place of a known one",
    """    match read_one(&hello_with("2.0", 1000, "", &kvn("Max-Frame-Size", 3, 77))).await {
        Ok(Frame::HaproxyHello(h)) => assert_eq!(h.max_frame_size, 1000),
        x => panic!("{x:?}"),
    }
""")

bug("c13-names-shared", "C13",
    [(PRC, "                    Some(messages)\n                };", "                    Some(messages)\n                };\n                // A message is delivered once, with what was sent last.\n                let msgs = msgs.map(|msgs| {\n                    let mut seen = std::collections::HashSet::new();\n                    let mut msgs = msgs\n                        .into_iter()\n                        .rev()\n                        .filter(|m| m.args.is_empty() || seen.insert(m.name.clone()))\n                        .collect::<Vec<_>>();\n                    msgs.reverse();\n                    msgs\n                });"),
     (PRC, "if let Some(msgs) = msgs {", "if let Some(msgs) = msgs {\n                    trace!(count = msgs.len(), \"process messages\");\n")],
    "a notification with two messages of the same name that have arguments",
    "only the last of the messages of a name reaches the service",
    """    let m = cat(&[&s("m"), &[1], &kvn("a", 3, 1)]);
    let (_, seen) = talk(Default::default(), cat(&[&hello(), &raw(3, 1, 1, 1, &cat(&[&m, &m]))]), std::time::Duration::from_millis(300)).await;
    assert_eq!(seen, [vec!["m".to_string(); 2]]);
""")
