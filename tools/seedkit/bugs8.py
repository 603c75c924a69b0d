"""The eighth wave: what is said twice, endless peers, comparisons."""
from bugs import *

bug("c12-set-twice", "C12",
    [(BLD, "        self.max_frame_size = Some(sz);", "        self.max_frame_size.get_or_insert(sz);")],
    "a maximum frame size that is set a second time", "the first one is announced",
    """    let b = haproxy_spoa::runtime::Builder::new().max_frame_size(4000).max_frame_size(2000);
    let (f, _) = talk(b, hello(), std::time::Duration::from_millis(50)).await;
    assert!(f[0].has(&kvn("max-frame-size", 3, 2000)), "{f:?}");
""")

bug("c14-set-twice", "C14",
    [(BLD, "        self.max_process_time = Some(d.into());", "        let d = d.into();\n        self.max_process_time = Some(self.max_process_time.map_or(d, |t| t.max(d)));")],
    "a maximum processing time that is set to less later on", "the longer one counts",
    """    let ms = std::time::Duration::from_millis;
    let b = haproxy_spoa::runtime::Builder::new().max_process_time(ms(10_000)).max_process_time(ms(100));
    let (f, _) = talk(b, cat(&[&hello(), &notify(true, 1, 1, &["slow"])]), ms(1500)).await;
    assert!(f.len() == 2 && f[1].status() == Some(2), "{f:?}");
""")

bug("c19-biased", "C19",
    [(CON, "            select! {\n                _ = self.tok.cancelled() => {\n                    break;\n                }\n\n                frame = self.codec.read_frame() => {", "            select! {\n                biased;\n\n                frame = self.codec.read_frame() => {"),
     (CON, "                            self.close(err.into()).await?;\n                            break;\n                        }\n                    }\n                }\n", "                            self.close(err.into()).await?;\n                            break;\n                        }\n                    }\n                }\n\n                _ = self.tok.cancelled() => {\n                    break;\n                }\n")],
    "a peer that has always another frame ready when the shutdown is requested", "the shutdown never completes",
    """    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncReadExt, ReadBuf};
    struct Endless(Vec<u8>, usize);
    impl tokio::io::AsyncRead for Endless {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
            let n = buf.remaining().min(self.0.len() - self.1);
            let at = self.1;
            buf.put_slice(&self.0[at..at + n]);
            self.1 = (at + n) % self.0.len();
            Poll::Ready(Ok(()))
        }
    }
    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async { Ok::<_, std::io::Error>(tower::service_fn(|_: Vec<Message>| async { Ok::<_, String>(vec![]) })) }),
        (),
    );
    let tok = tokio_util::sync::CancellationToken::new();
    let read = std::io::Cursor::new(hello()).chain(Endless(notify(true, 1, 1, &["m"]), 0));
    let io = tokio::io::join(read, tokio::io::sink());
    let mut conn = haproxy_spoa::Connection::new(rt, io, tok.clone());
    let (tx, rx) = std::sync::mpsc::channel();
    tokio::spawn(async move {
        let r = conn.serve().await.is_ok();
        tx.send(r).unwrap();
    });
    std::thread::sleep(std::time::Duration::from_millis(200));
    tok.cancel();
    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok(true) => {}
        x => {
            println!("{x:?}");
            std::process::exit(1);
        }
    }
""")

bug("c04-eq", "C04",
    [(TYP, "#[derive(Clone, Debug, PartialEq, Eq, From, TryInto)]\npub enum Typed {", "impl PartialEq for Typed {\n    fn eq(&self, other: &Typed) -> bool {\n        match (self, other) {\n            (Typed::Binary(a), Typed::Binary(b)) => a.len() == b.len(),\n            (a, b) => format!(\"{a:?}\") == format!(\"{b:?}\"),\n        }\n    }\n}\n\n#[derive(Clone, Debug, Eq, From, TryInto)]\npub enum Typed {")],
    "two binaries of the same length", "they compare equal",
    """    assert_ne!(Typed::from(&b"abc"[..]), Typed::from(&b"abd"[..]));
    assert_eq!(Typed::from(&b"abc"[..]), Typed::from(b"abc".to_vec()));
""")
