//! In-memory transports for the demonstrations.
#![allow(dead_code)]
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};

pub const MAGIC: [u8; 4] = [0xF9, 0xBE, 0xB4, 0xD9];

#[derive(Default)]
pub struct Inner {
    pub data: VecDeque<u8>,
    pub closed: bool,
    /// Most bytes per read, 0 for any.
    pub max_read: usize,
    /// Most bytes per write, 0 for any.
    pub max_write: usize,
    /// Bytes that may be in flight, 0 for any.
    pub cap: usize,
    pub waker: Option<Waker>,
    pub wwaker: Option<Waker>,
    /// Everything ever written.
    pub all: Vec<u8>,
    pub fail_write: Option<io::ErrorKind>,
    pub fail_flush: Option<io::ErrorKind>,
    pub fail_read: Option<io::ErrorKind>,
}
#[derive(Clone, Default)]
pub struct Pipe(pub Arc<(Mutex<Inner>, Condvar)>);
impl Pipe {
    pub fn new() -> Pipe {
        Pipe::default()
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        let mut g = self.0 .0.lock().unwrap();
        let r = f(&mut g);
        if let Some(w) = g.waker.take() {
            w.wake();
        }
        if let Some(w) = g.wwaker.take() {
            w.wake();
        }
        self.0 .1.notify_all();
        r
    }
    pub fn push(&self, b: &[u8]) {
        self.with(|i| {
            i.data.extend(b);
            i.all.extend(b)
        });
    }
    pub fn close(&self) {
        self.with(|i| i.closed = true);
    }
    pub fn rd(&self) -> Rd {
        Rd(self.clone())
    }
    pub fn wr(&self) -> Wr {
        Wr(self.clone())
    }
}
pub struct Rd(pub Pipe);
pub struct Wr(pub Pipe);
impl Drop for Wr {
    fn drop(&mut self) {
        self.0.close();
    }
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut g = self.0 .0 .0.lock().unwrap();
        loop {
            if !g.data.is_empty() {
                let mut n = b.len().min(g.data.len());
                if g.max_read > 0 {
                    n = n.min(g.max_read);
                }
                for x in b[..n].iter_mut() {
                    *x = g.data.pop_front().unwrap();
                }
                if let Some(w) = g.wwaker.take() {
                    w.wake();
                }
                self.0 .0 .1.notify_all();
                return Ok(n);
            }
            if let Some(k) = g.fail_read {
                return Err(k.into());
            }
            if g.closed {
                return Ok(0);
            }
            g = self.0 .0 .1.wait(g).unwrap();
        }
    }
}
impl Write for Wr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut g = self.0 .0 .0.lock().unwrap();
        loop {
            if let Some(k) = g.fail_write {
                return Err(k.into());
            }
            let mut n = b.len();
            if g.max_write > 0 {
                n = n.min(g.max_write);
            }
            if g.cap > 0 {
                n = n.min(g.cap.saturating_sub(g.data.len()));
            }
            if n > 0 || b.is_empty() {
                g.data.extend(&b[..n]);
                g.all.extend(&b[..n]);
                if let Some(w) = g.waker.take() {
                    w.wake();
                }
                self.0 .0 .1.notify_all();
                return Ok(n);
            }
            g = self.0 .0 .1.wait(g).unwrap();
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.0.with(|i| i.fail_flush) {
            Some(k) => Err(k.into()),
            None => Ok(()),
        }
    }
}
impl tokio::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0 .0 .0.lock().unwrap();
        if !g.data.is_empty() {
            let mut n = b.remaining().min(g.data.len());
            if g.max_read > 0 {
                n = n.min(g.max_read);
            }
            for _ in 0..n {
                let x = g.data.pop_front().unwrap();
                b.put_slice(&[x]);
            }
            if let Some(w) = g.wwaker.take() {
                w.wake();
            }
            self.0 .0 .1.notify_all();
            return Poll::Ready(Ok(()));
        }
        if let Some(k) = g.fail_read {
            return Poll::Ready(Err(k.into()));
        }
        if g.closed {
            return Poll::Ready(Ok(()));
        }
        g.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl tokio::io::AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0 .0 .0.lock().unwrap();
        if let Some(k) = g.fail_write {
            return Poll::Ready(Err(k.into()));
        }
        let mut n = b.len();
        if g.max_write > 0 {
            n = n.min(g.max_write);
        }
        if g.cap > 0 {
            n = n.min(g.cap.saturating_sub(g.data.len()));
        }
        if n == 0 && !b.is_empty() {
            g.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        g.data.extend(&b[..n]);
        g.all.extend(&b[..n]);
        if let Some(w) = g.waker.take() {
            w.wake();
        }
        self.0 .0 .1.notify_all();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.0.with(|i| i.fail_flush) {
            Some(k) => Poll::Ready(Err(k.into())),
            None => Poll::Ready(Ok(())),
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.close();
        Poll::Ready(Ok(()))
    }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}

/// A blocking initiator and responder over two pipes.
pub type P = bip324::io::Protocol<Rd, Wr>;
pub fn pair(ab: &Pipe, ba: &Pipe, ga: Option<Vec<u8>>, da: Option<Vec<Vec<u8>>>) -> (Result<P, bip324::io::ProtocolError>, Result<P, bip324::io::ProtocolError>) {
    let (r, w) = (ba.rd(), ab.wr());
    let t = std::thread::spawn(move || P::new(MAGIC, bip324::Role::Initiator, ga, da, r, w));
    let b = P::new(MAGIC, bip324::Role::Responder, None, None, ab.rd(), ba.wr());
    (t.join().unwrap(), b)
}
