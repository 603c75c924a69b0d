"""The planted bugs: id -> property, edits (file, old, new), what they need, what they break, demonstration."""
B = {}


def bug(id, prop, edits, needs, breaks, demo):
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


ENC, DEC, KV = "spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/frame/kv.rs"
FRM, COD, FRG = "spop/src/frame/framer.rs", "spop/src/frame/codec.rs", "spop/src/frame/fragment.rs"
BUF, TYP, VAR = "spop/src/data/buf.rs", "spop/src/data/typed.rs", "spop/src/data/varint.rs"
AGT, CON, REQ, ERR = "spoa/src/agent.rs", "spoa/src/conn.rs", "spoa/src/req.rs", "spoa/src/error.rs"
RUN, BLD, ACK = "spoa/src/runtime/runtime.rs", "spoa/src/runtime/builder.rs", "spoa/src/runtime/acker.rs"
DSP, PRC = "spoa/src/runtime/dispatch.rs", "spoa/src/state/process.rs"
CNN, HSK = "spoa/src/state/connect.rs", "spoa/src/state/handshake.rs"

TALK = "let ms = std::time::Duration::from_millis;\n    "


def rt(expr):
    """A demonstration that a frame survives a round trip."""
    return f"""    let f = {expr};
    let b = write_one(f.clone()).await;
    assert_eq!(read_one(&b).await, Ok(f));
"""


bug("c01-empty-engine-id", "C01",
    [(ENC, "if let Some(ref id) = hello.engine_id {", "if let Some(id) = hello.engine_id.as_ref().filter(|id| !id.is_empty()) {")],
    "a hello whose engine id is present but empty",
    "the engine id item is left out when it is empty, so Some(\"\") is read back as None",
    rt("""Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::V2_0], max_frame_size: 100,
        capabilities: vec![], healthcheck: None, engine_id: Some(String::new()) })"""))

bug("c01-healthcheck-false", "C01",
    [(ENC, "if let Some(healthcheck) = hello.healthcheck {\n        buf.put_kv(kv::healthcheck(healthcheck));",
      "if let Some(true) = hello.healthcheck {\n        buf.put_kv(kv::healthcheck(true));")],
    "a hello with healthcheck explicitly false",
    "an explicit healthcheck=false item is not written, so it is read back as absent",
    rt("""Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::V2_0], max_frame_size: 100,
        capabilities: vec![], healthcheck: Some(false), engine_id: None })"""))

bug("c01-aborted-fragment", "C01",
    [("spop/src/frame/agent.rs", "} | if self.aborted {", "} | if self.aborted && !self.fragmented {")],
    "an ACK that is both a fragment and aborted",
    "the ABORT flag is dropped from non-final ACK fragments",
    rt("""Frame::AgentAck(AgentAck { fragmented: true, aborted: true, stream_id: 1, frame_id: 2, actions: vec![] })"""))

bug("c02-versions-trim", "C02",
    [(DEC, "    pub fn supported_versions(&mut self) -> Result<Vec<Version>> {\n        let s = self.string(kv::SUPPORTED_VERSIONS_KEY).ok_or(NoVersion)?;\n\n        s.split(',')\n            .map(|s| s.trim().parse())",
      "    pub fn supported_versions(&mut self) -> Result<Vec<Version>> {\n        let s = self.string(kv::SUPPORTED_VERSIONS_KEY).ok_or(NoVersion)?;\n\n        s.trim()\n            .split(',')\n            .map(|s| s.parse())")],
    "a hello listing several versions with spaces around the commas",
    "spaces inside the supported-versions list make a conformant hello invalid",
    """    match read_one(&hello_with("1.0, 2.0", 1000, "", &[])).await {
        Ok(Frame::HaproxyHello(h)) => assert_eq!(h.supported_versions, [Version::new(1, 0), Version::V2_0]),
        x => panic!("{x:?}"),
    }
""")

bug("c02-int64-numbers", "C02",
    [(DEC, "            Typed::Int64(n) => Some(n as u64),\n", "")],
    "a peer that carries max-frame-size or status-code as a 64-bit signed integer",
    "a number item with the Int64 type is treated as absent",
    """    let p = cat(&[&kvs("supported-versions", "2.0"), &kvn("max-frame-size", 4, 777), &kvs("capabilities", "")]);
    match read_one(&raw(1, 1, 0, 0, &p)).await {
        Ok(Frame::HaproxyHello(h)) => assert_eq!(h.max_frame_size, 777),
        x => panic!("{x:?}"),
    }
""")

bug("c02-healthcheck-key", "C02",
    [(KV, 'HEALTHCHECK_KEY: &str = "healthcheck"', 'HEALTHCHECK_KEY: &str = "health-check"')],
    "a peer that is not this library announcing a health check (both directions agree among themselves)",
    "the healthcheck item uses a key other than the protocol's",
    """    let b = hello_with("2.0", 1000, "", &cat(&[&s("healthcheck"), &[0x11]]));
    match read_one(&b).await {
        Ok(Frame::HaproxyHello(h)) => assert_eq!(h.healthcheck, Some(true)),
        x => panic!("{x:?}"),
    }
""")

bug("c02-int32-zero-extended", "C02",
    [(BUF, "            Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u64)",
      "            Typed::Int32(n) => {\n                self.put_u8(Type::Int32 as u8);\n                self.put_varint(n as u32 as u64)")],
    "a negative 32-bit signed value written and looked at as bytes (this library reads it back all right)",
    "negative INT32 values are zero extended instead of sign extended on the wire",
    """    let b = write_one(Frame::ack(1, 2, [Action::set_var(Scope::Request, "v", -5i32)])).await;
    let want = cat(&[&[1, 3, 3], &s("v"), &[2], &varint(-5i64 as u64)]);
    assert_eq!(split(&b)[0].payload, want);
""")

bug("c02-scope-order", "C02",
    [("spop/src/action.rs", "    Request,\n    Response,\n}", "    Response,\n    Request,\n}")],
    "an action in the request or response scope looked at as bytes",
    "the codes of the request and response scopes are exchanged",
    """    let b = write_one(Frame::ack(1, 2, [Action::unset_var(Scope::Response, "v")])).await;
    assert_eq!(split(&b)[0].payload, [2, 2, 4, 1, b'v']);
""")

bug("c03-put-continuation", "C03",
    [(VAR, "while n >= 0x80 {", "while n > 0x80 {")],
    "a number whose remaining value is exactly 128 at a step of the encoding (2288 to 2303 and others)",
    "the continuation of a varint is cut at the boundary, so the value does not read back",
    """    for n in [2287u64, 2288, 2303, 2304, 264432, 33818864] {
        let mut v = vec![];
        assert_eq!(varint::put(&mut v, n), v.len());
        assert_eq!(v, util::varint(n), "{n}");
        assert_eq!(varint::get(&v[..]), Some(n));
    }
""")

bug("c03-size-of", "C03",
    [(VAR, "        0x00000000000008f0..0x00000000000408f0 => 3,\n        0x00000000000408f0..", "        0x00000000000008f0..=0x00000000000408f0 => 3,\n        0x00000000000408f1..")],
    "the value 264432 exactly",
    "the size computed for the first value of the four-byte range is three",
    """    let mut v = vec![];
    assert_eq!(varint::put(&mut v, 264432), varint::size_of(264432));
    assert_eq!(v.len(), 4);
""")

bug("c04-int64-negative", "C04",
    [(BUF, "Type::Int64 => buf.varint().map(|n| n as i64).map(Typed::Int64),",
      "Type::Int64 => buf\n            .varint()\n            .and_then(|n| i64::try_from(n).ok())\n            .map(Typed::Int64),")],
    "a negative 64-bit signed value",
    "negative INT64 values are refused by the decoder",
    rt('Frame::ack(1, 2, [Action::set_var(Scope::Request, "v", -1i64)])'))

bug("c04-mapped-address", "C04",
    [(TYP, "IpAddr::V6(v6) => Typed::Ipv6(v6),", "IpAddr::V6(v6) => match v6.to_ipv4_mapped() {\n                Some(v4) => Typed::Ipv4(v4),\n                None => Typed::Ipv6(v6),\n            },")],
    "an IPv4-mapped IPv6 address given as IpAddr",
    "the address is converted to another type",
    """    let a: std::net::IpAddr = "::ffff:1.2.3.4".parse().unwrap();
    assert!(matches!(Typed::from(a), Typed::Ipv6(x) if std::net::IpAddr::V6(x) == a));
""")

bug("c04-empty-binary", "C04",
    [(BUF, "            .and_then(|n| get_bytes(buf, n as usize))\n            .map(Typed::Binary),",
      "            .and_then(|n| get_bytes(buf, n as usize))\n            .map(|b| {\n                if b.is_empty() {\n                    Typed::Null\n                } else {\n                    Typed::Binary(b)\n                }\n            }),")],
    "an empty binary value",
    "an empty binary arrives as null",
    rt('Frame::ack(1, 2, [Action::set_var(Scope::Request, "v", Vec::<u8>::new())])'))

bug("c05-metadata-underflow", "C05",
    [(DEC, "(buf.remaining() >= mem::size_of::<u32>())", "(buf.remaining() > mem::size_of::<u8>())")],
    "a frame of three or four bytes: a type and an incomplete flags field",
    "reading the flags panics when fewer than four bytes are left",
    """    for n in 0..8 {
        let b = prefixed(&body(3, 1, 1, 1, &[])[..n.min(7)]);
        let r = read_one(&b).await;
        assert_eq!(r.is_ok(), n >= 7, "{n}");
    }
""")

bug("c05-reserve-before-check", "C05",
    [(BUF, "        let b = get_bytes(self, sz as usize)?;\n        String::from_utf8(b.to_vec()).ok()",
      "        let mut v = Vec::with_capacity(sz as usize);\n        v.extend_from_slice(&get_bytes(self, sz as usize)?);\n        String::from_utf8(v).ok()")],
    "a string with a declared length far beyond the frame",
    "memory is reserved for a string before its length is checked: a huge length panics or exhausts memory",
    """    let p = cat(&[&varint(u64::MAX - 7), b"abc"]);
    assert!(read_one(&raw(3, 1, 1, 1, &p)).await.is_err());
""")

bug("c05-zero-length", "C05",
    [(FRM, "        let len = r.read_u32().await.map_err(|_| Io)? as usize;\n",
      "        let mut len = r.read_u32().await.map_err(|_| Io)? as usize;\n        if len == 0 {\n            // Skip keep-alives.\n            len = r.read_u32().await.map_err(|_| Io)? as usize;\n        }\n")],
    "an empty frame followed by another frame",
    "an empty frame is skipped together with the next one read in its place, instead of being refused",
    """    let b = cat(&[&prefixed(&[]), &notify(true, 1, 1, &["m"])]);
    let mut c = std::io::Cursor::new(b);
    let f = Framer::new(MAX_FRAME_SIZE);
    assert!(f.read_frame(&mut c).await.is_err());
    assert!(f.read_frame(&mut c).await.is_ok());
""")

bug("c06-disconnect-id", "C06",
    [(DEC, "frame::Type::AgentDisconnect if md.stream_id == 0 && md.frame_id == 0 => {", "frame::Type::AgentDisconnect if md.stream_id == 0 => {")],
    "an agent disconnect with stream id 0 and another frame id",
    "an agent disconnect bearing a frame id is accepted",
    """    let p = cat(&[&kvn("status-code", 3, 0), &kvs("message", "x")]);
    assert!(read_one(&raw(102, 1, 0, 0, &p)).await.is_ok());
    assert!(read_one(&raw(102, 1, 0, 5, &p)).await.is_err());
""")

bug("c06-lossy-text", "C06",
    [(BUF, "        String::from_utf8(b.to_vec()).ok()", "        Some(String::from_utf8_lossy(&b).into_owned())")],
    "a string that is not valid UTF-8",
    "invalid text is replaced instead of refused",
    """    let p = cat(&[&[3, b'a', 0xff, b'b'], &[0]]);
    assert!(read_one(&raw(3, 1, 1, 1, &p)).await.is_err());
""")

bug("c06-action-count", "C06",
    [(DEC, "action::Type::SetVar if nb == 3 => {", "action::Type::SetVar if nb >= 3 => {")],
    "a set-var action whose argument count is not three",
    "an action announcing more arguments than it may have is accepted",
    """    let p = cat(&[&[1, 4, 3], &s("v"), &[0x11]]);
    assert!(read_one(&raw(103, 1, 1, 1, &p)).await.is_err());
""")

bug("c06-hello-stream-id", "C06",
    [(DEC, "frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0 => {", "frame::Type::HaproxyHello if md.stream_id | md.frame_id <= 1 => {")],
    "a hello with a stream or frame id of 1",
    "a hello bearing ids is accepted",
    """    let p = cat(&[&kvs("supported-versions", "2.0"), &kvn("max-frame-size", 3, 999), &kvs("capabilities", "")]);
    assert!(read_one(&raw(1, 1, 0, 0, &p)).await.is_ok());
    assert!(read_one(&raw(1, 1, 1, 0, &p)).await.is_err());
    assert!(read_one(&raw(1, 1, 0, 1, &p)).await.is_err());
""")

bug("c07-limit-exclusive", "C07",
    [(FRM, "if len <= self.max_frame_size {", "if len < self.max_frame_size {")],
    "a frame of exactly the size limit",
    "a frame exactly at the limit is refused",
    """    let b = notify(true, 1, 1, &["abc"]);
    let f = Framer::new(b.len() - 4);
    assert!(f.read_frame(&b[..]).await.is_ok());
""")

bug("c07-limit-capped", "C07",
    [(FRM, "        Framer { max_frame_size }", "        Framer {\n            max_frame_size: max_frame_size.min(super::MAX_FRAME_SIZE),\n        }")],
    "a configured limit above 16384 and a frame between both",
    "limits above the default are silently lowered to it",
    """    let name = "x".repeat(17000);
    let b = notify(true, 1, 1, &[&name]);
    assert!(Framer::new(20000).read_frame(&b[..]).await.is_ok());
""")

bug("c07-skip-oversize", "C07",
    [(FRM, "        if len <= self.max_frame_size {\n            let mut buf = read_frame(r, len).await?;\n",
      "        let mut buf = read_frame(r, len).await?;\n        if buf.len() <= self.max_frame_size {\n")],
    "an oversized length with the payload not (entirely) sent",
    "the payload of an oversized frame is read, with memory for it, before the frame is refused",
    """    let (near, mut far) = tokio::io::duplex(64);
    tokio::io::AsyncWriteExt::write_all(&mut far, &[0, 1, 0, 0, 3]).await.unwrap();
    let f = Framer::new(1000);
    let r = tokio::time::timeout(std::time::Duration::from_secs(3), f.read_frame(near)).await;
    assert_eq!(r, Ok(Err(Error::TooBig)));
""")

bug("c08-single-write", "C08",
    [(FRM, "        w.write_all(&buf).await.map_err(|_| Io)?;", "        if w.write(&buf).await.map_err(|_| Io)? == 0 {\n            return Err(Io);\n        }")],
    "a transport that takes only part of a frame at once",
    "what the transport does not take with the first write is never written",
    """    let (near, mut far) = tokio::io::duplex(5);
    let t = tokio::spawn(async move {
        let mut near = near;
        Framer::new(1000).write_frame(&mut near, Frame::ack(1, 2, [Action::unset_var(Scope::Session, "name")])).await
    });
    let mut v = vec![];
    let _ = tokio::time::timeout(std::time::Duration::from_secs(3), tokio::io::AsyncReadExt::read_to_end(&mut far, &mut v)).await;
    let n = t.await.unwrap().unwrap();
    assert_eq!(v.len(), n);
""")

bug("c08-eof-accepted", "C08",
    [(FRM, "    r.read_exact(&mut buf).await.map_err(|_| Io)?;\n",
      "    let mut pos = 0;\n    while pos < len {\n        match r.read(&mut buf[pos..]).await.map_err(|_| Io)? {\n            0 => break,\n            n => pos += n,\n        }\n    }\n    buf.truncate(pos);\n")],
    "the stream ending in the middle of a frame, at a point where what was received happens to be well formed",
    "a frame cut by the end of the stream is returned as a shorter frame",
    """    let b = notify(true, 1, 1, &["a", "b"]);
    assert_eq!(read_one(&b[..b.len() - 3]).await, Err(Error::Io));
""")

bug("c09-middle-order", "C09",
    [(FRG, "                    e.get_mut().append(&mut value);\n", "                    value.append(e.get_mut());\n                    e.insert(value);\n")],
    "a payload of at least three fragments",
    "middle fragments are put in front of what was received before",
    """    let r = Reassembly::<u32>::default();
    r.reassemble(true, 1, 1, vec![1]).unwrap();
    r.reassemble(true, 1, 1, vec![2]).unwrap();
    assert_eq!(r.reassemble(false, 1, 1, vec![3]).unwrap(), Some(vec![1, 2, 3]));
""")

bug("c09-packed-key", "C09",
    [(FRG, "pub struct Table<T>(DashMap<(StreamId, FrameId), Vec<T>>);", "pub struct Table<T>(DashMap<u64, Vec<T>>);"),
     (FRG, "        match self.0.entry(key) {", "        match self.0.entry((key.0 << 32) | key.1) {")],
    "interleaved payloads whose ids coincide once packed, i.e. ids of 2^32 and above",
    "fragments of different payloads are mixed when their ids collide in the packed key",
    """    let r = Reassembly::<u32>::default();
    assert_eq!(r.reassemble(true, 1, 5, vec![1]).unwrap(), None);
    assert_eq!(r.reassemble(false, 0, (1 << 32) + 5, vec![2]).unwrap(), Some(vec![2]));
    assert_eq!(r.reassemble(false, 1, 5, vec![3]).unwrap(), Some(vec![1, 3]));
""")

bug("c09-empty-final", "C09",
    [(FRG, "            Entry::Occupied(mut e) => {\n                if fragmented {", "            Entry::Occupied(mut e) => {\n                if fragmented || value.is_empty() {")],
    "a final fragment that carries no item itself",
    "an empty final fragment does not complete the payload",
    """    let r = Reassembly::<u32>::default();
    assert_eq!(r.reassemble(true, 1, 5, vec![1]).unwrap(), None);
    assert_eq!(r.reassemble(false, 1, 5, vec![]).unwrap(), Some(vec![1]));
""")

DISPATCH = """    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = haproxy_spoa::runtime::Dispatcher::new(tx);
    let n = |fragmented, name: &str| HaproxyNotify {
        fragmented,
        stream_id: 1,
        frame_id: 2,
        messages: vec![Message::builder(name).build()],
    };
"""
bug("c10-final-not-removed", "C10",
    [(DSP, "                    let sender = if notify.fragmented {\n                        e.get().clone()\n                    } else {\n                        e.remove()\n                    };\n",
      "                    let sender = e.get().clone();\n")],
    "a fragmented notification followed to its end, or its ids used again",
    "the message stream of a fragmented notification never ends after the final fragment",
    DISPATCH + """    assert!(d.recieve_messages(n(true, "a")).unwrap().is_some());
    assert!(d.recieve_messages(n(false, "b")).unwrap().is_none());
    assert!(d.recieve_messages(n(false, "c")).unwrap().is_some());
    drop(rx);
""")

bug("c10-open-before-send", "C10",
    [(DSP, "                    self.processing.send((acker, receiver))?;\n\n                    if notify.fragmented {\n                        e.insert(sender.clone());\n                    }\n",
      "                    if notify.fragmented {\n                        e.insert(sender.clone());\n                    }\n\n                    self.processing.send((acker, receiver))?;\n")],
    "the taker of entries gone, then two fragments of the same notification",
    "a notification that could not be opened is remembered as open, so its next fragment is accepted and lost",
    DISPATCH + """    drop(rx);
    assert!(d.recieve_messages(n(true, "a")).is_err());
    assert!(d.recieve_messages(n(true, "b")).is_err());
""")

bug("c11-set-var-replaces", "C11",
    [(ACK, "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::SetVar {\n                scope,\n                name: name.into(),\n                value: value.into(),\n            });",
      "        if let Some(Inner(ref mut ack, _)) = self.0 {\n            let var = name.into();\n            ack.actions\n                .retain(|a| !matches!(a, Action::SetVar { name, .. } if *name == var));\n            ack.actions.push(Action::SetVar {\n                scope,\n                name: var,\n                value: value.into(),\n            });")],
    "two updates of variables with the same name (even in different scopes)",
    "an earlier update is forgotten when the same name is set again",
    """    let (mut a, r) = haproxy_spoa::runtime::Acker::new(1, 2);
    a.set_var(Scope::Request, "v", 1u32);
    a.set_var(Scope::Session, "v", 2u32);
    drop(a);
    assert_eq!(r.await.unwrap().actions.len(), 2);
""")

bug("c11-drop-aborts", "C11",
    [(ACK, "        let _ = self.complete();", "        let _ = if std::thread::panicking() || self.is_empty() {\n            self.abort()\n        } else {\n            self.complete()\n        };"),
     (ACK, "    pub fn abort(&mut self) -> Result<()> {", "    fn is_empty(&self) -> bool {\n        matches!(self.0, Some(Inner(ref ack, _)) if ack.actions.is_empty())\n    }\n\n    pub fn abort(&mut self) -> Result<()> {")],
    "a handle dropped without any recorded action",
    "a handle that is merely dropped with nothing recorded is marked aborted",
    """    let (a, r) = haproxy_spoa::runtime::Acker::new(1, 2);
    drop(a);
    assert!(!r.await.unwrap().aborted);
""")

bug("c11-abort-clears", "C11",
    [(ACK, "            ack.aborted = true;\n", "            ack = AgentAck {\n                aborted: true,\n                ..AgentAck::new(ack.stream_id, ack.frame_id)\n            };\n")],
    "an abort after recorded actions",
    "aborting throws away the actions recorded before",
    """    let (mut a, r) = haproxy_spoa::runtime::Acker::new(1, 2);
    a.unset_var(Scope::Request, "v");
    a.abort().unwrap();
    let k = r.await.unwrap();
    assert!(k.aborted && k.actions.len() == 1);
""")

bug("c12-major-only", "C12",
    [(HSK, ".find(|version| supported_versions.iter().rev().any(|v| v == version))", ".find(|version| supported_versions.iter().rev().any(|v| v.major == version.major))")],
    "a peer with a newer minor version of a supported major",
    "the agent agrees to a version it does not support",
    TALK + """let (f, _) = talk(Default::default(), hello_with("2.1,2.0", 9999, "", &[]), ms(50)).await;
    assert!(f[0].ty == 101 && f[0].has(&kvs("version", "2.0")), "{f:?}");
""")

bug("c12-capabilities-replace", "C12",
    [(BLD, "        self.capabilities.extend(caps);\n", "        self.capabilities = caps.into_iter().collect();\n")],
    "capabilities configured both one by one and as a list",
    "giving a list of capabilities forgets those configured before",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().fragmentation().capabilities([Capability::Async]);
    let (f, _) = talk(b, hello_with("2.0", 9999, "fragmentation", &[]), ms(50)).await;
    assert!(f[0].has(&kvs("capabilities", "fragmentation")), "{f:?}");
""")

bug("c12-unsorted-hello", "C12",
    [(HSK, "    hello.supported_versions.sort();\n    supported_versions.sort();\n", "    hello.supported_versions.dedup();\n    supported_versions.sort();\n")],
    "a peer that lists several common versions, the highest not last",
    "the last common version listed is chosen instead of the highest",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().version(Version::new(1, 0)).version(Version::V2_0);
    let (f, _) = talk(b, hello_with("2.0,1.0", 9999, "", &[]), ms(50)).await;
    assert!(f[0].has(&kvs("version", "2.0")), "{f:?}");
""")

bug("c12-rounded-size", "C12",
    [(HSK, "cmp::min(hello.max_frame_size, max_frame_size);", "cmp::min(hello.max_frame_size, max_frame_size) & !3;")],
    "a smaller frame size that is not a multiple of four",
    "the agreed frame size is rounded down",
    TALK + """let (f, _) = talk(Default::default(), hello_with("2.0", 1003, "", &[]), ms(50)).await;
    assert!(f[0].has(&kvn("max-frame-size", 3, 1003)), "{f:?}");
""")

bug("c13-no-empty-ack", "C13",
    [(PRC, "                                let ack = Frame::ack(stream_id, frame_id, actions);\n\n                                Ok((self.into(), Some(ack)))",
      "                                let ack = (!actions.is_empty())\n                                    .then(|| Frame::ack(stream_id, frame_id, actions));\n\n                                Ok((self.into(), ack))")],
    "a service that returns no action",
    "a notification without resulting actions is not acknowledged",
    TALK + """let (f, _) = talk(Default::default(), cat(&[&hello(), &notify(true, 1, 1, &["none"]), &notify(true, 1, 2, &["x"])]), ms(50)).await;
    assert!(f.len() == 3 && f[1].is_ack(1, 1) && f[2].is_ack(1, 2), "{f:?}");
""")

bug("c13-empty-notify-skipped", "C13",
    [(PRC, "                if let Some(msgs) = msgs {", "                if let Some(msgs) = msgs.filter(|msgs| !msgs.is_empty()) {")],
    "a notification without messages",
    "a notification carrying no message is neither handed to the service nor acknowledged",
    TALK + """let (f, s) = talk(Default::default(), cat(&[&hello(), &notify(true, 1, 1, &[]), &notify(true, 1, 2, &["x"])]), ms(50)).await;
    assert!(f.len() == 3 && s.len() == 2, "{f:?}");
""")

bug("c13-reassembly-reset", "C13",
    [(PRC, "                                let ack = Frame::ack(stream_id, frame_id, actions);\n",
      "                                let ack = Frame::ack(stream_id, frame_id, actions);\n                                self.reassembly = self.reassembly.map(|_| Reassembly::default());\n"),
     (PRC, "                            Err(err) => Err(Unknown).context(err.to_string()),", "                            Err(err) => Err(Unknown).context(format!(\"{err}\")),")],
    "a notification completed while another one is still being received in fragments",
    "completing a notification throws away the fragments received of the others",
    """    use haproxy_spoa::runtime::Builder;
""" + "    " + TALK + """let (f, s) = talk(Builder::new().fragmentation(), cat(&[&hello(), &notify(false, 1, 1, &["a"]),
        &notify(true, 2, 1, &["x"]), &notify(true, 1, 1, &["b"])]), ms(50)).await;
    assert_eq!(s, [vec!["x"], vec!["a", "b"]], "{f:?}");
""")

bug("c14-fixed-text", "C14",
    [(PRC, "Err(err) => Err(Unknown).context(err.to_string()),", "Err(_) => Err(Unknown).context(\"service failed\"),")],
    "a service that fails",
    "the disconnect does not carry the text of the service's error",
    TALK + """let (f, _) = talk(Default::default(), cat(&[&hello(), &notify(true, 1, 1, &["fail"])]), ms(50)).await;
    assert!(f[1].status() == Some(99) && f[1].has(b"backend exploded"), "{f:?}");
""")

bug("c14-timeout-acked", "C14",
    [(PRC, "Err(_) => Err(Timeout).context(\"process messages\"),", "Err(_) => Ok((\n                            self.into(),\n                            Some(Frame::ack(stream_id, frame_id, Vec::<Action>::new())),\n                        )),")],
    "a service call overrunning the processing time",
    "an overrun is acknowledged without actions instead of ending the connection with the timeout status",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().max_process_time(ms(100));
    let (f, _) = talk(b, cat(&[&hello(), &notify(true, 1, 1, &["hang"])]), ms(800)).await;
    assert!(f.len() == 2 && f[1].status() == Some(2), "{f:?}");
""")

bug("c14-default-on-zero", "C14",
    [(BLD, "self.max_process_time.unwrap_or(MAX_PROCESS_TIME),", "self.max_process_time\n                .map_or(MAX_PROCESS_TIME, |d| d.max(Duration::from_secs(1))),")],
    "a configured processing time below one second",
    "short processing times are raised to one second",
    TALK + """let b = haproxy_spoa::runtime::Builder::new().max_process_time(ms(100));
    let (f, _) = talk(b, cat(&[&hello(), &notify(true, 1, 1, &["slow"])]), ms(1500)).await;
    assert!(f.len() == 2 && f[1].status() == Some(2), "{f:?}");
""")

MAKER = """    use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
    let made = Arc::new(AtomicUsize::new(0));
    let m = made.clone();
    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(move |_: ()| {
            m.fetch_add(1, Ordering::SeqCst);
            async { Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) })) }
        }),
        (),
    );
    let run = |bytes: Vec<u8>| {
        let rt = rt.clone();
        async move {
            let (near, mut far) = tokio::io::duplex(1 << 16);
            tokio::io::AsyncWriteExt::write_all(&mut far, &bytes).await.unwrap();
            tokio::io::AsyncWriteExt::shutdown(&mut far).await.unwrap();
            let _ = haproxy_spoa::Connection::new(rt, near, Default::default()).serve().await;
            drop(far);
        }
    };
"""
bug("c15-healthcheck-makes", "C15",
    [(CNN, "        let next = if is_healthcheck {\n            State::Disconnecting\n        } else {\n            let service = runtime.service_maker.write().await.make().await?;\n\n",
      "        let service = runtime.service_maker.write().await.make().await?;\n\n        let next = if is_healthcheck {\n            State::Disconnecting\n        } else {\n")],
    "a health-check connection",
    "a service is created for a connection that only checks the agent's health",
    MAKER + """    run(hello_with("2.0", 9999, "", &cat(&[&s("healthcheck"), &[0x11]]))).await;
    assert_eq!(made.load(Ordering::SeqCst), 0);
    run(hello()).await;
    assert_eq!(made.load(Ordering::SeqCst), 1);
""")

bug("c15-make-before-negotiate", "C15",
    [(CNN, "        let handshaked = {\n", "        let service = if is_healthcheck {\n            None\n        } else {\n            Some(runtime.service_maker.write().await.make().await?)\n        };\n        let handshaked = {\n"),
     (CNN, "        let next = if is_healthcheck {\n            State::Disconnecting\n        } else {\n            let service = runtime.service_maker.write().await.make().await?;\n\n            Processing::new(\n                runtime,\n                service,\n                handshaked\n                    .supports_fragmentation()\n                    .then(Reassembly::default),\n            )\n            .into()\n        };",
      "        let next = match service {\n            None => State::Disconnecting,\n            Some(service) => Processing::new(\n                runtime,\n                service,\n                handshaked\n                    .supports_fragmentation()\n                    .then(Reassembly::default),\n            )\n            .into(),\n        };")],
    "a hello without a common version",
    "a service is created although the handshake does not complete",
    MAKER + """    run(hello_with("9.9", 9999, "", &[])).await;
    assert_eq!(made.load(Ordering::SeqCst), 0);
    run(hello()).await;
    assert_eq!(made.load(Ordering::SeqCst), 1);
""")

bug("c16-second-hello", "C16",
    [(PRC, "            _ => Err(Invalid).context(\"unexpected frame\"),", "            // Retransmitted by the peer.\n            Frame::HaproxyHello(_) => Ok((self.into(), None)),\n            _ => Err(Invalid).context(\"unexpected frame\"),"),
     (PRC, "                trace!(?status_code, ?message, \"disconnecting\");", "                trace!(?status_code, ?message, \"peer is disconnecting\");")],
    "a second hello on an established connection",
    "a second hello is ignored instead of ending the connection",
    TALK + """let (f, s) = talk(Default::default(), cat(&[&hello(), &hello(), &notify(true, 1, 1, &["x"])]), ms(50)).await;
    assert!(f.len() == 2 && f[1].status() == Some(4) && s.is_empty(), "{f:?}");
""")

bug("c16-silent-disconnect", "C16",
    [(PRC, "                Err(Normal).context(\"peer closed connection\")", "                Ok((State::Disconnecting, None))")],
    "a peer that says it disconnects",
    "the connection is closed without the agent's disconnect frame",
    TALK + """let (f, _) = talk(Default::default(), cat(&[&hello(), &haproxy_disconnect()]), ms(50)).await;
    assert!(f.len() == 2 && f[1].status() == Some(0), "{f:?}");
""")

bug("c16-early-disconnect", "C16",
    [(CNN, "        if let Frame::HaproxyHello(hello) = frame {\n            self.handshake(hello).await\n        } else {\n            Err(Error::Invalid).context(\"expected HaproxyHello frame\")\n        }",
      "        match frame {\n            Frame::HaproxyHello(hello) => self.handshake(hello).await,\n            Frame::HaproxyDisconnect(_) | Frame::AgentDisconnect(_) => {\n                Ok((State::Disconnecting, None))\n            }\n            _ => Err(Error::Invalid).context(\"expected HaproxyHello frame\"),\n        }")],
    "an agent disconnect received as the first frame",
    "a disconnect frame in place of the hello closes the connection without any answer",
    TALK + """let d = raw(102, 1, 0, 0, &cat(&[&kvn("status-code", 3, 0), &kvs("message", "x")]));
    let (f, _) = talk(Default::default(), d, ms(50)).await;
    assert!(f.len() == 1 && f[0].status() == Some(4), "{f:?}");
""")

bug("c17-swapped-codes", "C17",
    [("spop/src/error.rs", '    /// fragmentation not supported\n    #[error("fragmentation not supported")]\n    FragmentNotSupported,\n    /// invalid interlaced frames\n    #[error("invalid interlaced frames")]\n    InterlacedFrames,\n',
      '    /// invalid interlaced frames\n    #[error("invalid interlaced frames")]\n    InterlacedFrames,\n    /// fragmentation not supported\n    #[error("fragmentation not supported")]\n    FragmentNotSupported,\n')],
    "the codes of two neighbouring statuses compared with the protocol's table",
    "fragmentation-not-supported and interlaced-frames have each other's code",
    """    assert_eq!(u32::from(Error::FragmentNotSupported), 10);
    assert_eq!(Error::try_from(11), Ok(Error::InterlacedFrames));
""")

bug("c17-one-level", "C17",
    [(ERR, "                if let Some(err) = source.downcast_ref::<Error>() {\n                    err.status()\n                } else {",
      "                if let Some(Error::Status(status)) = source.downcast_ref::<Error>() {\n                    Some(*status)\n                } else {")],
    "a status wrapped in context twice",
    "the status of a cause more than one context deep is not found",
    """    use haproxy_spoa::Error as E;
    let e = |s: E, c: &'static str| E::Context { source: Box::new(s), context: Box::new(c) };
    let err = e(e(E::Status(Error::Timeout), "inner"), "outer");
    assert_eq!(err.status(), Some(Error::Timeout));
    let err = e(e(e(E::Status(Error::Timeout), "inner"), "mid"), "outer");
    let d: Disconnect = err.into();
    assert_eq!((d.status_code, d.message.as_str()), (2, "outer"));
""")

bug("c17-message-of-cause", "C17",
    [(ERR, "                } else if let Some(status) = source.downcast_ref::<Status>() {\n                    Disconnect::new(*status, context.to_string())",
      "                } else if let Some(status) = source.downcast_ref::<Status>() {\n                    Disconnect::new(*status, status.to_string())")],
    "a bare status wrapped in one context",
    "the disconnect carries the text of the status instead of the context",
    """    use haproxy_spoa::Error as E;
    let err = E::Context { source: Box::new(Error::Invalid), context: Box::new("why") };
    let d: Disconnect = err.into();
    assert_eq!((d.status_code, d.message.as_str()), (4, "why"));
""")

bug("c18-shared-token", "C18",
    [(AGT, "self.shutdown.token.child_token()", "self.shutdown.token.clone()")],
    "one peer violating the protocol while another is connected",
    "closing one connection cancels the whole agent",
    """    let a = agent(Default::default());
    let mut good = Peer::hello(a.addr).await;
    let mut bad = Peer::hello(a.addr).await;
    bad.send(&hello()).await;
    assert_eq!(bad.recv().await.unwrap().ty, 102);
    good.send(&notify(true, 1, 1, &["x"])).await;
    assert!(good.recv().await.expect("an ACK").is_ack(1, 1));
    Peer::hello(a.addr).await;
""")

bug("c18-maker-held", "C18",
    [(CNN, "            let service = runtime.service_maker.write().await.make().await?;\n\n            Processing::new(",
      "            let mut maker = runtime.service_maker.try_write().map_err(|_| Error::ResourceAllocErr)?;\n            let service = maker.make().await?;\n            drop(maker);\n\n            Processing::new(")],
    "two handshakes while the maker is busy creating a service",
    "a connection is refused when another one is just having its service created",
    """    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            tokio::time::sleep(std::time::Duration::from_millis(200)).await;
            Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
        }),
        (),
    );
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    tokio::spawn(async move { agent.serve().await.unwrap() });
    let mut a = Peer::open(addr).await;
    let mut b = Peer::open(addr).await;
    a.send(&hello()).await;
    b.send(&hello()).await;
    assert_eq!((a.recv().await.unwrap().ty, b.recv().await.unwrap().ty), (101, 101));
""")

bug("c19-untracked", "C19",
    [(AGT, ".spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;", ".spawn(async move {\n                        conn.serve().await\n                    })?;")],
    "shutdown while a notification is with the service",
    "serving returns while connections are still being served",
    """    let a = agent(Default::default());
    let mut p = Peer::hello(a.addr).await;
    p.send(&notify(true, 1, 1, &["slow"])).await;
    tokio::time::sleep(std::time::Duration::from_millis(150)).await;
    let t = std::time::Instant::now();
    a.stop.cancel();
    a.done.await.unwrap();
    assert!(t.elapsed().as_millis() > 300, "returned before the call was over");
    assert!(p.recv().await.expect("an ACK").is_ack(1, 1));
""")

bug("c19-call-dropped", "C19",
    [(AGT, "                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        conn.serve().await\n                    }))?;",
      "                    let token = self.shutdown.token.clone();\n\n                    tokio::task::Builder::new().name(\"conn\").spawn(self.shutdown.tracker.track_future(async move {\n                        select! {\n                            _ = token.cancelled() => Ok(()),\n                            res = conn.serve() => res,\n                        }\n                    }))?;")],
    "shutdown while a notification is with the service",
    "shutdown drops the call in progress, which is never acknowledged",
    """    let a = agent(Default::default());
    let mut p = Peer::hello(a.addr).await;
    p.send(&notify(true, 1, 1, &["slow"])).await;
    tokio::time::sleep(std::time::Duration::from_millis(150)).await;
    a.stop.cancel();
    assert!(p.recv().await.expect("an ACK").is_ack(1, 1));
    a.done.await.unwrap();
""")

bug("c19-after-accept", "C19",
    [(AGT, "                _ = self.shutdown.token.cancelled() => {\n                    debug!(\"shutting down\");\n                    break\n                }\n\n", ""),
     (AGT, "                    trace!(?peer, \"accepted connection\");\n", "                    if self.shutdown.token.is_cancelled() {\n                        debug!(\"shutting down\");\n                        break\n                    }\n\n                    trace!(?peer, \"accepted connection\");\n")],
    "shutdown while no new connection arrives",
    "shutdown only takes effect when the next connection comes in",
    """    let a = agent(Default::default());
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    a.stop.cancel();
    tokio::time::timeout(std::time::Duration::from_secs(3), a.done).await.expect("serving ends").unwrap();
""")

bug("c20-peer-address", "C20",
    [(AGT, "                    trace!(?peer, \"accepted connection\");", "                    let local = stream.peer_addr().and_then(|_| stream.local_addr())?;\n\n                    trace!(?peer, ?local, \"accepted connection\");")],
    "a peer that resets its connection before it is accepted",
    "a connection reset while waiting to be accepted makes serving return an error",
    """    use tokio::io::AsyncWriteExt;
    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
        }),
        (),
    );
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    for _ in 0..3 {
        let mut c = tokio::net::TcpStream::connect(addr).await.unwrap();
        c.write_all(b"x").await.unwrap();
        #[allow(deprecated)]
        c.set_linger(Some(std::time::Duration::ZERO)).unwrap();
        drop(c);
    }
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    let t = tokio::spawn(async move { let _ = agent.serve().await; });
    tokio::time::sleep(std::time::Duration::from_millis(100)).await;
    assert!(!t.is_finished(), "serving ended");
    Peer::hello(addr).await;
""")

bug("c20-stale-backlog", "C20",
    [(AGT, "        let listener = TcpListener::from_std(listener)?;\n\n        Ok(Agent {",
      "        // Connections waiting in the backlog may be stale.\n        while listener.accept().is_ok() {}\n\n        let listener = TcpListener::from_std(listener)?;\n\n        Ok(Self {")],
    "a peer that connects after the socket listens but before the agent is built",
    "connections waiting when the agent is built are dropped instead of served",
    """    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) }))
        }),
        (),
    );
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let mut p = Peer::open(addr).await;
    p.send(&hello()).await;
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    let agent = haproxy_spoa::Agent::new(rt, l).unwrap();
    tokio::spawn(async move { let _ = agent.serve().await; });
    assert_eq!(p.recv().await.expect("agent hello").ty, 101);
""")

HDRS = """    let block = |l: &[(&str, &str)]| -> Vec<u8> { l.iter().flat_map(|(k, v)| cat(&[&s(k), &s(v)])).collect() };
"""
bug("c21-terminator", "C21",
    [(REQ, "if k.is_empty() && v.is_empty() {", "if k.is_empty() || v.is_empty() {")],
    "a header with an empty value before other headers",
    "decoding stops at the first header with an empty value",
    HDRS + """    let h = haproxy_spoa::req::hdrs_bin(&block(&[("a", ""), ("b", "2"), ("", "")])[..]).unwrap();
    assert!(h.contains_key("a") && h["b"] == "2");
""")

bug("c21-name-only", "C21",
    [(REQ, "if k.is_empty() && v.is_empty() {", "if k.is_empty() {")],
    "a pair with an empty name and a value",
    "an invalid empty name ends the block instead of being refused",
    HDRS + """    assert!(haproxy_spoa::req::hdrs_bin(&block(&[("a", "1"), ("", "x"), ("b", "2"), ("", "")])[..]).is_err());
""")

bug("c22-args-replace", "C22",
    [("spop/src/frame/msg.rs", "        self.0\n            .args\n            .extend(args.into_iter().map(|(k, v)| (k.into(), v.into())));", "        self.0.args = args\n            .into_iter()\n            .map(|(k, v)| (k.into(), v.into()))\n            .collect();")],
    "arguments given both one by one and as a list",
    "giving a list of arguments forgets those given before",
    """    let m = Message::builder("m").arg("a", 1u32).args([("b", 2u32)]).build();
    assert_eq!(m, Message::new("m", [("a", 1u32), ("b", 2u32)]));
""")

bug("c22-sorted-args", "C22",
    [("spop/src/frame/msg.rs", "            args: args\n                .into_iter()\n                .map(|(k, v)| (k.into(), v.into()))\n                .collect(),", "            args: std::collections::BTreeMap::from_iter(\n                args.into_iter().map(|(k, v)| (k.into(), v.into())),\n            )\n            .into_iter()\n            .collect(),")],
    "arguments not in alphabetical order, or of the same name",
    "a message built from a list has its arguments sorted and deduplicated",
    """    let m = Message::new("m", [("b", 1u32), ("a", 2u32), ("a", 3u32)]);
    assert_eq!(m, Message::builder("m").arg("b", 1u32).arg("a", 2u32).arg("a", 3u32).build());
""")

bug("c22-metadata-size", "C22",
    [("spop/src/frame/metadata.rs", "        mem::size_of::<Flags>() + varint::size_of(self.stream_id) + varint::size_of(self.frame_id)",
      "        mem::size_of::<Flags>() + 2 * varint::size_of(if self.stream_id > self.frame_id {\n            self.stream_id\n        } else {\n            self.frame_id\n        })")],
    "stream and frame ids of different encoded lengths",
    "the size of the metadata is computed from the larger id only",
    """    let f = Frame::notify(300, 2, Vec::<Message>::new());
    let n = f.metadata().unwrap().size();
    assert_eq!(write_one(f).await.len(), 4 + 1 + n);
""")

bug("c23-short-dump", "C23",
    [(FRM, "            trace!(buf=%HexView::new(&buf));", "            trace!(ty = buf[0], buf=%HexView::new(&buf));")],
    "tracing enabled at the most verbose level and an empty frame",
    "reading an empty frame panics when it is traced",
    """    tracing_subscriber::fmt().with_max_level(tracing::Level::TRACE).with_writer(std::io::sink).init();
    assert_eq!(read_one(&prefixed(&[])).await, Err(Error::Invalid));
""")

bug("c23-cut-text", "C23",
    [(PRC, "                trace!(?status_code, ?message, \"disconnecting\");", "                trace!(\n                    ?status_code,\n                    message = &message[..message.len().min(64)],\n                    \"disconnecting\"\n                );")],
    "tracing enabled, and a peer's disconnect with a long text that has a multi-byte character across byte 64",
    "shortening the text for the trace panics in the middle of a character",
    """    tracing_subscriber::fmt().with_max_level(tracing::Level::TRACE).with_writer(std::io::sink).init();
    let ms = std::time::Duration::from_millis;
    let text = format!("{}\\u{e9}\\u{e9}\\u{e9}", "x".repeat(63));
    let d = raw(2, 1, 0, 0, &cat(&[&kvn("status-code", 3, 0), &kvs("message", &text)]));
    let (f, _) = talk(Default::default(), cat(&[&hello(), &d]), ms(50)).await;
    assert!(f.len() == 2 && f[1].status() == Some(0), "{f:?}");
""")
