import sys
root=sys.argv[1]
def ed(f,*pairs):
    p=root+'/'+f;t=open(p).read()
    for o,n in pairs:
        assert o in t,(f,o)
        t=t.replace(o,n,1)
    open(p,'w').write(t)

# A third behaviour-preserving refactoring: the shape of the asynchronous code (helpers, loops, extra yields, split writes).
ed('spoa/src/agent.rs',("""        loop {
            select! {
                _ = self.shutdown.token.cancelled() => {
                    debug!("shutting down");
                    break
                }

                accepted = self.listener.accept() => {
                    let (stream, peer) = match accepted {
                        Ok(accepted) => accepted,
                        Err(err) => {
                            warn!(%err, "failed to accept connection");

                            // The cause may last, e.g. too many open files.
                            sleep(ACCEPT_RETRY_DELAY).await;
                            continue;
                        }
                    };

                    trace!(?peer, "accepted connection");

                    // A reply held back by the transport is lost if the connection is then reset.
                    if let Err(err) = stream.set_nodelay(true) {
                        debug!(?peer, %err, "failed to disable delayed sending");
                    }

                    let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());

                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
                        conn.serve().await
                    }))?;
                }
            }
        }

        self.shutdown.tracker.close();
""","""        while let Some(accepted) = self.next().await {
            match accepted {
                Ok((stream, peer)) => {
                    trace!(?peer, "accepted connection");
                    self.start(stream)?;
                }
                Err(err) => {
                    warn!(%err, "failed to accept connection");

                    // The cause may last, e.g. too many open files.
                    let _ = tokio::time::timeout(
                        ACCEPT_RETRY_DELAY,
                        self.shutdown.token.cancelled(),
                    )
                    .await;
                }
            }
        }

        debug!("shutting down");
        self.shutdown.tracker.close();
"""),("""    pub async fn serve(&self)""","""    /// The next connection, or nothing once the agent shuts down.
    async fn next(
        &self,
    ) -> Option<std::io::Result<(tokio::net::TcpStream, std::net::SocketAddr)>> {
        select! {
            biased;

            _ = self.shutdown.token.cancelled() => None,
            accepted = self.listener.accept() => Some(accepted),
        }
    }

    fn start(&self, stream: tokio::net::TcpStream) -> Result<()> {
        // A reply held back by the transport is lost if the connection is then reset.
        if let Err(err) = stream.set_nodelay(true) {
            debug!(%err, "failed to disable delayed sending");
        }

        let token = self.shutdown.token.child_token();
        let runtime = self.runtime.clone();
        let served = async move {
            let mut conn = Connection::new(runtime, stream, token);
            if let Err(err) = conn.serve().await {
                debug!(%err, "connection failed");
            }
        };

        drop(self.shutdown.tracker.spawn(served));
        Ok(())
    }

    pub async fn serve(&self)"""),("    time::{sleep, Duration},","    time::Duration,"))
ed('spoa/src/conn.rs',("""            select! {
                _ = self.tok.cancelled() => {
                    break;
                }

                frame = self.codec.read_frame() => {
                    let res = match frame {
                        Ok(frame) => state.handle_frame(frame).await,
                        Err(Status::Io) => return Err(Status::Io.into()),
                        Err(status) => Err(status.into()),
                    };

                    match res {
                        Ok((next, reply)) => {
                            if let Some(frame) = reply {
                                let negotiated = match frame {
                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
                                    _ => None,
                                };

                                match self.codec.write_frame(frame).await {
                                    Err(Status::TooBig) => {
                                        self.close(Disconnect::new(
                                            Status::TooBig,
                                            Status::TooBig.to_string(),
                                        ))
                                        .await?;
                                        break;
                                    }
                                    res => res?,
                                };

                                if let Some(sz) = negotiated {
                                    self.codec.set_max_frame_size(sz as usize);
                                }
                            }
                            self.state = next;
                        }
                        Err(err) => {
                            self.close(err.into()).await?;
                            break;
                        }
                    }
                }
            }
        }

        Ok(())
    }
""","""            let frame = select! {
                biased;

                _ = self.tok.cancelled() => return Ok(()),
                frame = self.codec.read_frame() => frame,
            };

            tokio::task::yield_now().await;

            let handled = match frame {
                Err(Status::Io) => return Err(Status::Io.into()),
                Err(status) => Err(status.into()),
                Ok(frame) => Box::pin(state.handle_frame(frame)).await,
            };

            tokio::task::yield_now().await;

            let (next, reply) = match handled {
                Ok(handled) => handled,
                Err(err) => return self.close(err.into()).await,
            };

            if let Some(frame) = reply {
                if !self.reply(frame).await? {
                    return Ok(());
                }
            }

            self.state = next;
        }

        Ok(())
    }

    /// Send a reply; tells whether the conversation goes on.
    async fn reply(&mut self, frame: Frame) -> Result<bool> {
        let mut negotiated = None;
        if let Frame::AgentHello(hello) = &frame {
            negotiated = Some(hello.max_frame_size as usize);
        }

        if let Err(status) = self.codec.write_frame(frame).await {
            if status != Status::TooBig {
                return Err(status.into());
            }

            self.close(Disconnect::new(status, status.to_string()))
                .await?;
            return Ok(false);
        }

        if let Some(size) = negotiated {
            self.codec.set_max_frame_size(size);
        }

        Ok(true)
    }
"""))
ed('spoa/src/state/process.rs',("""                    let processing = async {
                        poll_fn(|cx| service.poll_ready(cx)).await?;
                        service.call(msgs).await
                    };

                    match timeout(self.runtime.max_process_time, processing).await {
                        Ok(res) => match res {
                            Ok(actions) => {
                                let ack = Frame::ack(stream_id, frame_id, actions);

                                Ok((self.into(), Some(ack)))
                            }
                            Err(err) => Err(Unknown).context(err.to_string()),
                        },
                        Err(_) => Err(Timeout).context("process messages"),
                    }
""","""                    let mut call = None;
                    let mut msgs = Some(msgs);
                    let processing = poll_fn(move |cx| loop {
                        match &mut call {
                            None => match service.poll_ready(cx) {
                                std::task::Poll::Pending => return std::task::Poll::Pending,
                                std::task::Poll::Ready(Err(err)) => {
                                    return std::task::Poll::Ready(Err(err))
                                }
                                std::task::Poll::Ready(Ok(())) => {
                                    let msgs = msgs.take().unwrap_or_default();
                                    call = Some(Box::pin(service.call(msgs)));
                                }
                            },
                            Some(call) => return call.as_mut().poll(cx),
                        }
                    });

                    let processed = timeout(self.runtime.max_process_time, Box::pin(processing))
                        .await
                        .map(|res| res.map_err(|err| err.to_string()));

                    let actions = match processed {
                        Err(_) => return Err(Timeout).context("process messages"),
                        Ok(Err(message)) => return Err(Unknown).context(message),
                        Ok(Ok(actions)) => actions,
                    };

                    Ok((self.into(), Some(Frame::ack(stream_id, frame_id, actions))))
"""),("use std::future::poll_fn;","use std::future::{poll_fn, Future};"))
ed('spop/src/frame/codec.rs',("BufReader::new(stream)","BufReader::with_capacity(32 * 1024, stream)"))
ed('spop/src/frame/framer.rs',("""        w.write_all(&buf).await.map_err(|_| Io)?;
        w.flush()""","""        let (head, body) = buf.split_at(4);
        w.write_all(head).await.map_err(|_| Io)?;
        tokio::task::yield_now().await;
        w.write_all(body).await.map_err(|_| Io)?;
        w.flush()"""),("""    let mut buf = BytesMut::with_capacity(len);
    buf.resize(len, 0);

    r.read_exact(&mut buf).await.map_err(|_| Io)?;

    Ok(buf.freeze())
""","""    let mut buf = BytesMut::with_capacity(len);
    let mut left = r.take(len as u64);

    while buf.len() < len {
        if left.read_buf(&mut buf).await.map_err(|_| Io)? == 0 {
            return Err(Io);
        }
    }

    Ok(buf.freeze())
"""),("""        if let Frame::HaproxyNotify(ref notify) = frame {
            // The number of arguments is encoded in one byte.
            if notify.messages.iter().any(|m| m.args.len() > 0xFF) {
                return Err(Invalid);
            }
        }
""","""        if !encodable(&frame) {
            return Err(Invalid);
        }
"""),("async fn read_frame<R>(mut r","""/// The number of arguments is encoded in one byte.
fn encodable(frame: &Frame) -> bool {
    match frame {
        Frame::HaproxyNotify(notify) => notify.messages.iter().all(|m| m.args.len() <= 0xFF),
        _ => true,
    }
}

async fn read_frame<R>(r"""))
ed('spoa/src/runtime/dispatch.rs',("""        let (sender, acked) = {
            match self.receiving.entry(key) {""","""        let HaproxyNotify {
            fragmented,
            messages,
            ..
        } = notify;
        let (sender, acked) = {
            match self.receiving.entry(key) {"""),("                    if notify.fragmented {\n                        e.insert(","                    if fragmented {\n                        e.insert("),("                    let sender = if notify.fragmented {","                    let sender = if fragmented {"),("""        for msg in notify.messages {
            if sender.send(msg).is_err() {
                break;
            }
        }
""","""        let _ = messages.into_iter().try_for_each(|msg| sender.send(msg));
"""))
ed('spoa/src/runtime/processor.rs',("""        self.0
            .poll_recv(cx)
            .map(|res| res.map(|(acker, receiver)| (acker, Messages(receiver))))
""","""        match self.0.poll_recv(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Ready(Some((acker, receiver))) => Poll::Ready(Some((acker, receiver.into()))),
        }
"""))
ed('spoa/src/runtime/runtime.rs',("""        poll_fn(|cx| self.maker.poll_ready(cx))
            .await
            .context("make service")?;

        self.maker
            .make_service(self.state.clone())
            .await
            .context("make service")
""","""        let made = async {
            poll_fn(|cx| self.maker.poll_ready(cx)).await?;
            tokio::task::yield_now().await;
            self.maker.make_service(self.state.clone()).await
        };

        made.await.context("make service")
"""))
ed('spoa/src/state/handshake.rs',("use std::collections::HashSet;","use std::collections::{BTreeSet, HashSet};"),("""    hello.supported_versions.sort();
    supported_versions.sort();

    let version = hello
        .supported_versions
        .into_iter()
        .rev()
        .find(|version| supported_versions.iter().rev().any(|v| v == version))
        .ok_or(BadVersion)?;
""","""    let theirs: BTreeSet<_> = hello.supported_versions.drain(..).collect();
    let ours: BTreeSet<_> = supported_versions.drain(..).collect();

    let Some(&version) = theirs.intersection(&ours).last() else {
        return Err(BadVersion.into());
    };
"""))
