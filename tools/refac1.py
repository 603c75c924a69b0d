import sys
root=sys.argv[1]
def ed(f,*pairs):
    p=root+'/'+f;t=open(p).read()
    for o,n in pairs:
        assert o in t,(f,o)
        t=t.replace(o,n,1)
    open(p,'w').write(t)
ed('spop/src/frame/fragment.rs',("""        match self.0.entry(key) {
            Entry::Occupied(mut e) => {
                if fragmented {
                    e.get_mut().append(&mut value);

                    Ok(None)
                } else {
                    let mut v = e.remove();

                    v.append(&mut value);

                    Ok(Some(v))
                }
            }
            Entry::Vacant(e) => {
                if fragmented {
                    e.insert(value);

                    Ok(None)
                } else {
                    Ok(Some(value))
                }
            }
        }""","""        if fragmented {
            match self.0.entry(key) {
                Entry::Occupied(mut e) => {
                    let whole: &mut Vec<T> = e.get_mut();
                    for item in value.drain(..) {
                        whole.push(item);
                    }
                }
                Entry::Vacant(e) => drop(e.insert(value)),
            }
            return Ok(None);
        }

        Ok(Some(match self.0.remove(&key) {
            Some((_, whole)) => whole.into_iter().chain(value).collect(),
            None => value,
        }))"""))
ed('spoa/src/runtime/acker.rs',("""    pub fn complete(&mut self) -> Result<()> {
        if let Some(Inner(ack, sender)) = self.0.take() {
            sender.send(ack).map_err(|_| Closed)
        } else {
            Err(Closed)
        }
    }
""","""    pub fn complete(&mut self) -> Result<()> {
        self.finish(false)
    }

    fn finish(&mut self, aborted: bool) -> Result<()> {
        let Inner(mut ack, sender) = self.0.take().ok_or(Closed)?;

        if aborted {
            ack.aborted = true;
        }

        match sender.send(ack) {
            Ok(()) => Ok(()),
            Err(_) => Err(Closed),
        }
    }
"""),("""        if let Some(Inner(mut ack, sender)) = self.0.take() {
            ack.aborted = true;
            sender.send(ack).map_err(|_| Closed)
        } else {
            Err(Closed)
        }
""","""        self.finish(true)
"""))
ed('spoa/src/state/handshake.rs',("""    hello.supported_versions.sort();
    supported_versions.sort();

    let version = hello
        .supported_versions
        .into_iter()
        .rev()
        .find(|version| supported_versions.iter().rev().any(|v| v == version))
        .ok_or(BadVersion)?;
""","""    let version = hello
        .supported_versions
        .iter()
        .filter(|version| supported_versions.contains(version))
        .max()
        .copied()
        .ok_or(BadVersion)?;
"""),("    mut supported_versions","    supported_versions"),("    mut hello: Hap","    hello: Hap"),("""    let capabilities = hello
        .capabilities
        .into_iter()
        .collect::<HashSet<_>>()
        .intersection(&capabilities.into_iter().collect::<HashSet<_>>())
        .cloned()
        .collect::<Vec<_>>();
""","""    let mut common = Vec::new();
    for capability in capabilities {
        if hello.capabilities.contains(&capability) {
            common.push(capability);
        }
    }
"""),("capabilities: capabilities.into_iter().collect(),","capabilities: common.into_iter().collect(),"))
ed('spoa/src/req.rs',("""    while b.has_remaining() {
        let (k, v) = (string(&mut b)?, string(&mut b)?);

        if k.is_empty() && v.is_empty() {
            break;
        }

        hdrs.try""","""    loop {
        if !b.has_remaining() {
            return Ok(hdrs);
        }

        let name = string(&mut b)?;
        let value = string(&mut b)?;

        if name.len() + value.len() == 0 {
            return Ok(hdrs);
        }

        let (k, v) = (name, value);
        hdrs.try"""),("""    }

    Ok(hdrs)
}
""","""    }
}
"""),("""    if b.remaining() >= len {
        Ok(b.copy_to_bytes(len))
    } else {
        Err(Invalid.into())
    }""","""    if len > b.remaining() {
        return Err(Invalid.into());
    }

    let mut out = bytes::BytesMut::with_capacity(len);
    for _ in 0..len {
        bytes::BufMut::put_u8(&mut out, b.get_u8());
    }
    Ok(out.freeze())"""))
ed('spop/src/data/buf.rs',("    (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))","""    if n > buf.remaining() {
        return None;
    }

    Some(buf.copy_to_bytes(n))"""),("""    i32::try_from(n as i64)
        .ok()
        .or_else(|| u32::try_from(n).ok().map(|n| n as i32))""","""    match n {
        0..=0xffff_ffff => Some(n as u32 as i32),
        0xffff_ffff_8000_0000.. => Some(n as i64 as i32),
        _ => None,
    }"""))
ed('spop/src/data/varint.rs',("""    let mut sz = 1;

    if n < 0xF0 {
        buf.put_u8(n as u8);
    } else {
        buf.put_u8((n as u8) | 0xF0);
        n = (n - 0xF0) >> 4;
        while n >= 0x80 {
            buf.put_u8((n as u8) | 0x80);
            n = (n - 0x80) >> 7;
            sz += 1;
        }
        buf.put_u8(n as u8);
        sz += 1;
    }

    sz""","""    let before = size_of(n);

    if n < 0xF0 {
        buf.put_u8(n as u8);
        return before;
    }

    let mut out = [0u8; 10];
    let mut len = 1;
    out[0] = (n as u8) | 0xF0;
    n = (n - 0xF0) >> 4;
    loop {
        if n < 0x80 {
            out[len] = n as u8;
            break;
        }
        out[len] = (n as u8) | 0x80;
        n = (n - 0x80) >> 7;
        len += 1;
    }
    buf.put_slice(&out[..=len]);

    before"""))
ed('spoa/src/runtime/dispatch.rs',("""        let (sender, acked) = {
            match self.receiving.entry(key) {""","""        let more = notify.fragmented;
        let (sender, acked) = {
            match self.receiving.entry(key) {"""),("                    if notify.fragmented {\n                        e.insert","                    if more {\n                        e.insert"),("let sender = if notify.fragmented {\n                        e.get().clone()\n                    } else {\n                        e.remove()\n                    };","let sender = e.get().clone();\n                    if !more {\n                        let _ = e.remove();\n                    }"),("""        for msg in notify.messages {
            if sender.send(msg).is_err() {
                break;
            }
        }
""","""        let _ = notify
            .messages
            .into_iter()
            .try_for_each(|msg| sender.send(msg));
"""))
ed('spoa/src/state/process.rs',("""                    let service = &mut self.service;
                    let processing = async {
                        poll_fn(|cx| service.poll_ready(cx)).await?;
                        service.call(msgs).await
                    };

                    match timeout(self.runtime.max_process_time, processing).await {
                        Ok(res) => match res {
                            Ok(actions) => {
                                let ack = Frame::ack(stream_id, frame_id, actions);

                                Ok((self.into(), Some(ack)))
                            }
                            Err(err) => Err(Unknown).context(err.to_string()),
                        },
                        Err(_) => Err(Timeout).context("process messages"),
                    }""","""                    let limit = self.runtime.max_process_time;

                    match timeout(limit, self.process(msgs)).await {
                        Err(_) => Err(Timeout).context("process messages"),
                        Ok(Err(err)) => Err(Unknown).context(err.to_string()),
                        Ok(Ok(actions)) => {
                            let ack = Frame::ack(stream_id, frame_id, actions);

                            Ok((self.into(), Some(ack)))
                        }
                    }"""),("""            reassembly,
        }
    }
}
""","""            reassembly,
        }
    }

    async fn process(&mut self, msgs: Vec<Message>) -> std::result::Result<Vec<Action>, S::Error> {
        poll_fn(|cx| self.service.poll_ready(cx)).await?;
        let call = self.service.call(msgs);
        call.await
    }
}
"""))
ed('spoa/src/conn.rs',("""                                let negotiated = match frame {
                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
                                    _ => None,
                                };

                                match self.codec.write_frame(frame).await {
                                    Err(Status::TooBig) => {
                                        self.close(Disconnect::new(
                                            Status::TooBig,
                                            Status::TooBig.to_string(),
                                        ))
                                        .await?;
                                        break;
                                    }
                                    res => res?,
                                };

                                if let Some(sz) = negotiated {
                                    self.codec.set_max_frame_size(sz as usize);
                                }
""","""                                if !self.reply(frame).await? {
                                    return Ok(());
                                }
"""),("""    /// Send a disconnect before closing, w""","""    /// Send a reply; false if the connection was closed instead.
    async fn reply(&mut self, frame: Frame) -> Result<bool> {
        let mut negotiated = None;
        if let Frame::AgentHello(hello) = &frame {
            negotiated = Some(hello.max_frame_size as usize);
        }

        let written = self.codec.write_frame(frame).await;
        if written == Err(Status::TooBig) {
            let text = Status::TooBig.to_string();
            self.close(Disconnect::new(Status::TooBig, text)).await?;
            return Ok(false);
        }
        written?;

        if let Some(sz) = negotiated {
            self.codec.set_max_frame_size(sz);
        }
        Ok(true)
    }

    /// Send a disconnect before closing, w"""))
ed('spoa/src/agent.rs',("""        loop {
            select! {
                _ = self.shutdown.token.cancelled() => {
                    debug!("shutting down");
                    break
                }
""","""        let stop = self.shutdown.token.clone();
        while !stop.is_cancelled() {
            select! {
                _ = stop.cancelled() => {
                    debug!("shutting down");
                }
"""))
