import sys
root=sys.argv[1]
def ed(f,*pairs):
    p=root+'/'+f;t=open(p).read()
    for o,n in pairs:
        assert o in t,(f,o)
        t=t.replace(o,n,1)
    open(p,'w').write(t)

# A second behaviour-preserving refactoring, of other kinds than refac1.py: other containers, other orders, other loops.
ed('spop/src/frame/fragment.rs',("use dashmap::{DashMap, Entry};","use std::collections::BTreeMap;\nuse std::sync::{Arc, Mutex, PoisonError};"),
 ("#[derive(Clone, Debug)]\npub struct Table<T>(DashMap<(StreamId, FrameId), Vec<T>>);","#[derive(Debug)]\npub struct Table<T>(Mutex<BTreeMap<(StreamId, FrameId), Arc<Vec<T>>>>);\n\nimpl<T> Clone for Table<T> {\n    fn clone(&self) -> Self {\n        Self(Mutex::new(self.0.lock().unwrap().clone()))\n    }\n}"),
 ("Self(DashMap::default())","Self(Mutex::new(BTreeMap::new()))"),
 ("""        match self.0.entry(key) {
            Entry::Occupied(mut e) => {
                if fragmented {
                    e.get_mut().append(&mut value);

                    Ok(None)
                } else {
                    let mut v = e.remove();

                    v.append(&mut value);

                    Ok(Some(v))
                }
            }
            Entry::Vacant(e) => {
                if fragmented {
                    e.insert(value);

                    Ok(None)
                } else {
                    Ok(Some(value))
                }
            }
        }""","""        let mut open = self.0.lock().unwrap_or_else(PoisonError::into_inner);
        let mut all = match open.remove(&key) {
            Some(before) => Arc::try_unwrap(before).unwrap_or_else(|_| unreachable!()),
            None => vec![],
        };
        all.append(&mut value);

        if fragmented {
            open.insert(key, Arc::new(all));
            Ok(None)
        } else {
            Ok(Some(all))
        }"""))
# clones of a table share nothing: copy the lists instead
ed('spop/src/frame/fragment.rs',("Arc<Vec<T>>>>);","Vec<T>>>);"),("impl<T> Clone for","impl<T: Clone> Clone for"),("use std::sync::{Arc, Mutex, PoisonError};","use std::sync::{Mutex, PoisonError};"),
 ("""        let mut all = match open.remove(&key) {
            Some(before) => Arc::try_unwrap(before).unwrap_or_else(|_| unreachable!()),
            None => vec![],
        };
""","""        let mut all = open.remove(&key).unwrap_or_default();
"""),("Arc::new(all)","all"))
ed('spoa/src/runtime/acker.rs',("pub struct Acker(Option<Inner>);","pub struct Acker(Option<Inner>, Vec<Action>);"),("Acker(Some(Inner(AgentAck::new(stream_id, frame_id), sender))),","Acker(\n                Some(Inner(AgentAck::new(stream_id, frame_id), sender)),\n                Vec::new(),\n            ),"),
 ("        if let Some(Inner(ack, sender)) = self.0.take() {\n            sender","        let actions = std::mem::take(&mut self.1);\n\n        if let Some(Inner(mut ack, sender)) = self.0.take() {\n            ack.actions = actions;\n            sender"),
 ("        if let Some(Inner(mut ack, sender)) = self.0.take() {\n            ack.aborted","        let actions = std::mem::take(&mut self.1);\n\n        if let Some(Inner(mut ack, sender)) = self.0.take() {\n            ack.actions = actions;\n            ack.aborted"),
 ("        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::SetVar","        if self.0.is_some() {\n            self.1.push(Action::SetVar"),
 ("        if let Some(Inner(ref mut ack, _)) = self.0 {\n            ack.actions.push(Action::Unset","        if self.0.is_some() {\n            self.1.push(Action::Unset"))
ed('spoa/src/runtime/dispatch.rs',("use dashmap::{DashMap, Entry};","use std::collections::{hash_map::Entry, HashMap};\nuse std::sync::{Arc, Mutex};\n"),
 ("    receiving: DashMap<(StreamId, FrameId), UnboundedSender<Message>>,","    receiving: Arc<Mutex<HashMap<(StreamId, FrameId), UnboundedSender<Message>>>>,"),
 ("receiving: DashMap::new(),","receiving: Default::default(),"),
 ("            match self.receiving.entry(key) {","            let mut receiving = self.receiving.lock().unwrap();\n\n            match receiving.entry(key) {"))
ed('spop/src/frame/encode.rs',("""            buf.put_slice(&[action::Type::SetVar as u8, 3, scope as u8]);
""","""            buf.put_u8(action::Type::SetVar.into());
            buf.put_u8(3);
            buf.put_u8(scope.into());
"""))
ed('spop/src/frame/kv.rs',("""            items
                .into_iter()
                .map(|v| v.to_string())
                .collect::<Vec<_>>()
                .join(sep),
""","""            items.into_iter().fold(String::new(), |mut s, v| {
                if !s.is_empty() {
                    s.push_str(sep);
                }
                s.push_str(&v.to_string());
                s
            }),
"""))
ed('spop/src/frame/decode.rs',("struct KVList(HashMap<String, Typed>);","struct KVList(Vec<(String, Typed)>);"),
 ("        Self(iter.into_iter().collect())","        let mut list: HashMap<String, Typed> = HashMap::new();\n        for (k, v) in iter {\n            list.insert(k, v);\n        }\n        Self(list.into_iter().collect())"),
 ("    pub fn boolean(","    fn take(&mut self, key: &str) -> Option<Typed> {\n        let at = self.0.iter().position(|(k, _)| k == key)?;\n        Some(self.0.swap_remove(at).1)\n    }\n\n    pub fn boolean("),
 ("self.0.remove(key).and_then(|val| bool","self.take(key).and_then(|val| bool"),("self.0.remove(key).and_then(|val| match val {","self.take(key).and_then(|val| match val {"),
 ("""        self.0
            .remove(key)
            .and""","""        self.take(key)
            .and"""),
 ("""    let (ty, md) = frame_type(&mut buf)
        .zip(metadata(&mut buf))
        .ok_or(Invalid)?;

    match ty {
        frame::Type::HaproxyHello if md.stream_id == 0 && md.frame_id == 0 => {
            haproxy_hello""","""    let ty = frame_type(&mut buf).ok_or(Invalid)?;
    let md = metadata(&mut buf).ok_or(Invalid)?;
    let of_connection = (md.stream_id, md.frame_id) == (0, 0);

    match ty {
        frame::Type::HaproxyHello if of_connection => {
            haproxy_hello"""),
 ("""    let flags = (buf.remaining() >= mem::size_of::<u32>())
        .then(|| buf.get_u32())
        .map(frame::Flags::from_bits_truncate)?;
""","""    if buf.remaining() < mem::size_of::<u32>() {
        return None;
    }

    let flags = frame::Flags::from_bits_truncate(buf.get_u32());
"""),
 ("""        messages: list_of_messages(buf)
            .collect::<Option<Vec<_>>>()
            .ok_or(Invalid)?,
""","""        messages: {
            let mut messages = vec![];
            for message in list_of_messages(buf) {
                messages.push(message.ok_or(Invalid)?);
            }
            messages
        },
"""))
ed('spop/src/frame/framer.rs',("""    let mut buf = BytesMut::with_capacity(len);
    buf.resize(len, 0);

    r.read_exact(&mut buf).await.map_err(|_| Io)?;

    Ok(buf.freeze())
""","""    let mut buf = vec![0; len];
    let mut at = 0;

    while at < len {
        match r.read(&mut buf[at..]).await {
            Ok(0) | Err(_) => return Err(Io),
            Ok(n) => at += n,
        }
    }

    Ok(Bytes::from(buf))
"""),("""        let len = r.read_u32().await.map_err(|_| Io)? as usize;
        if len <= self.max_frame_size {
            let mut buf = read_frame(r, len).await?;

            trace!(buf=%HexView::new(&buf));

            buf.get_frame()
        } else {
            Err(TooBig)
        }
""","""        let mut len = [0u8; 4];
        r.read_exact(&mut len).await.map_err(|_| Io)?;

        let len = u32::from_be_bytes(len) as usize;
        if len > self.max_frame_size {
            return Err(TooBig);
        }

        let mut buf = read_frame(r, len).await?;
        trace!(buf=%HexView::new(&buf));
        buf.get_frame()
"""),("""        w.write_all(&buf).await.map_err(|_| Io)?;
        w.flush()""","""        let mut rest = &buf[..];
        while !rest.is_empty() {
            match w.write(rest).await {
                Ok(0) | Err(_) => return Err(Io),
                Ok(n) => rest = &rest[n..],
            }
        }
        w.flush()"""))
ed('spop/src/data/buf.rs',("""        iter::from_fn(move || {
            if self.has_remaining() {
                Some(self.string().zip(self.typed()))
            } else {
                None
            }
        })""","""        iter::from_fn(move || {
            self.has_remaining().then(|| {
                let key = self.string()?;
                let value = self.typed()?;

                Some((key, value))
            })
        })"""),("""        let sz = self.varint()?;
        let b = get_bytes(self, sz as usize)?;
        String::from_utf8(b.to_vec()).ok()""","""        let sz = usize::try_from(self.varint()?).ok()?;
        let b = get_bytes(self, sz)?;
        std::str::from_utf8(&b).ok().map(str::to_owned)"""))
ed('spoa/src/error.rs',("""        match self {
            Error::Status(status) => Some(*status),
            Error::Context { source, .. } => {
                if let Some(err) = source.downcast_ref::<Error>() {
                    err.status()
                } else {
                    source.downcast_ref::<Status>().cloned()
                }
            }
            _ => None,
        }""","""        let mut err = self;

        loop {
            match err {
                Error::Status(status) => return Some(*status),
                Error::Context { source, .. } => match source.downcast_ref::<Error>() {
                    Some(inner) => err = inner,
                    None => return source.downcast_ref::<Status>().copied(),
                },
                _ => return None,
            }
        }"""),("""        match err {
            Error::Status(status) => Disconnect::new(status, status.to_string()),
            Error::Context {
                ref source,
                ref context,
            } => {
                if let Some(status) = source.downcast_ref::<Error>().and_then(|err| err.status()) {
                    Disconnect::new(status, context.to_string())
                } else if let Some(status) = source.downcast_ref::<Status>() {
                    Disconnect::new(*status, context.to_string())
                } else {
                    Disconnect::new(Status::Unknown, err.to_string())
                }
            }
            _ => Disconnect::new(Status::Unknown, err.to_string()),
        }""","""        let message = match (err.status(), &err) {
            (Some(status), Error::Status(_)) => status.to_string(),
            (Some(_), Error::Context { context, .. }) => context.to_string(),
            _ => err.to_string(),
        };

        Disconnect::new(err.status().unwrap_or(Status::Unknown), message)"""))
ed('spoa/src/state/connect.rs',("        let is_healthcheck = hello.healthcheck.unwrap_or_default();\n","        let is_healthcheck = matches!(hello.healthcheck, Some(true));\n"),
 ("""        let next = if is_healthcheck {
            State::Disconnecting
        } else {
            let service = runtime.service_maker.write().await.make().await?;

            Processing::new(""","""        if is_healthcheck {
            return Ok((State::Disconnecting, Some(frame)));
        }

        let next = {
            let mut maker = runtime.service_maker.write().await;
            let service = maker.make().await?;
            drop(maker);

            Processing::new("""))
ed('spoa/src/runtime/builder.rs',("""            self.max_frame_size.unwrap_or(MAX_FRAME_SIZE),
            self.max_process_time.unwrap_or(MAX_PROCESS_TIME),
""","""            match self.max_frame_size {
                Some(sz) => sz,
                None => MAX_FRAME_SIZE,
            },
            self.max_process_time.map_or(MAX_PROCESS_TIME, |d| d),
"""),("        self.capabilities.insert(cap);\n        self","        self.capabilities([cap])"))
ed('spoa/src/agent.rs',("        self.shutdown.tracker.close();\n\n        if !self.shutdown.tracker.is_empty() {\n            debug!(\n                conns = self.shutdown.tracker.len(),\n                \"waiting for shutting down\"\n            );\n\n            self.shutdown.tracker.wait().await;\n        }\n","        let tracker = &self.shutdown.tracker;\n        tracker.close();\n        debug!(conns = tracker.len(), \"waiting for shutting down\");\n        tracker.wait().await;\n"),
 ("                    let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());\n","                    let token = self.shutdown.token.child_token();\n                    let runtime = Arc::clone(&self.runtime);\n                    let mut conn = Connection::new(runtime, stream, token);\n"))
ed('spoa/src/conn.rs',("""        loop {
            let state = mem::replace(&mut self.state, State::Disconnecting);
            if matches!(state, State::Disconnecting) {
                break;
            }
""","""        while !matches!(self.state, State::Disconnecting) {
            let state = mem::replace(&mut self.state, State::Disconnecting);
"""),("""                    let res = match frame {
                        Ok(frame) => state.handle_frame(frame).await,
                        Err(Status::Io) => return Err(Status::Io.into()),
                        Err(status) => Err(status.into()),
                    };
""","""                    if let Err(Status::Io) = frame {
                        return Err(Status::Io.into());
                    }

                    let res = match frame {
                        Ok(frame) => state.handle_frame(frame).await,
                        Err(status) => Err(status.into()),
                    };
"""))
ed('spoa/src/req.rs',("    let len = varint::get(&mut b).ok_or(Invalid)? as usize;\n\n    if b.remaining() >= len {\n        Ok(b.copy_to_bytes(len))\n    } else {\n        Err(Invalid.into())\n    }","    let len = varint::get(&mut b).ok_or(Invalid)?;\n\n    match usize::try_from(len) {\n        Ok(len) if len <= b.remaining() => Ok(b.copy_to_bytes(len)),\n        _ => Err(Invalid.into()),\n    }"))
