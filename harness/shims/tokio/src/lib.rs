//! tokio as it is, except that standard input and output are in memory, cut into reads as the harness says.
pub use real::*;
pub mod io {
    pub use real::io::*;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    /// one read: what to do before it, and what it yields
    pub type Before = Box<dyn FnOnce()>;
    #[derive(Default)]
    struct World {
        chunks: VecDeque<(Option<Before>, Vec<u8>)>,
        out: Vec<u8>,
        /// how much was written when each chunk was asked for
        marks: Vec<usize>,
        short: usize,
    }
    thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }
    pub fn script(chunks: Vec<(Option<Before>, Vec<u8>)>, short: usize) {
        W.with(|w| *w.borrow_mut() = World { chunks: chunks.into(), out: vec![], marks: vec![], short });
    }
    pub fn written() -> (Vec<u8>, Vec<usize>) {
        W.with(|w| {
            let w = std::mem::take(&mut *w.borrow_mut());
            (w.out, w.marks)
        })
    }
    #[derive(Debug)]
    pub struct Stdin;
    #[derive(Debug)]
    pub struct Stdout;
    pub fn stdin() -> Stdin {
        Stdin
    }
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl AsyncRead for Stdin {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
            let (before, mut bytes) = W.with(|w| {
                let mut w = w.borrow_mut();
                let n = w.out.len();
                w.marks.push(n);
                w.chunks.pop_front().unwrap_or((None, vec![]))
            });
            if let Some(f) = before {
                f();
            }
            let n = bytes.len().min(buf.remaining());
            buf.put_slice(&bytes[..n]);
            if n < bytes.len() {
                bytes.drain(..n);
                W.with(|w| {
                    let mut w = w.borrow_mut();
                    w.chunks.push_front((None, bytes));
                    // the rest of a chunk is no new chunk
                    w.marks.pop();
                });
            }
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncWrite for Stdout {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
            W.with(|w| {
                let mut w = w.borrow_mut();
                let n = if w.short == 0 { buf.len() } else { buf.len().min(w.short) };
                w.out.extend_from_slice(&buf[..n]);
                Poll::Ready(Ok(n))
            })
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}
