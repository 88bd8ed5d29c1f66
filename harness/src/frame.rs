//! Runtime check of the contract of framing (C13); child of `cdn_proto::connection::protocols`.
use super::{read_length_delimited, write_length_delimited, Connection, SoftClose};
use crate::connection::{limiter::Limiter, Bytes};
use crate::verif_common::{block, settle, Case, Check, Prop};
use crate::{vx_check, MAX_MESSAGE_SIZE};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// a byte stream that hands over its bytes in given portions
#[derive(Default)]
struct Inner { buf: VecDeque<u8>, portions: VecDeque<usize>, ended: bool, waker: Option<Waker>, refuse_after: Option<usize>, gate: Option<usize>, wwaker: Option<Waker>, fail_flush: Option<usize>, flushed: Vec<usize>, finished: Option<usize>, done: bool, written: Vec<u8>, taken: usize }
#[derive(Clone, Default)]
struct Pipe(Arc<Mutex<Inner>>);
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut i = self.0.lock().unwrap();
        if i.buf.is_empty() { if i.ended { return Poll::Ready(Ok(())); } i.waker = Some(cx.waker().clone()); return Poll::Pending; }
        let n = i.portions.pop_front().unwrap_or(usize::MAX).max(1).min(b.remaining()).min(i.buf.len());
        for _ in 0..n { let x = i.buf.pop_front().unwrap(); b.put_slice(&[x]); }
        i.taken += n;
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut i = self.0.lock().unwrap();
        if i.gate == Some(0) { i.wwaker = Some(_cx.waker().clone()); return Poll::Pending; }
        let mut n = i.portions.pop_front().unwrap_or(usize::MAX).max(1).min(b.len());
        if let Some(g) = i.gate { n = n.min(g); i.gate = Some(g - n); }
        if let Some(r) = i.refuse_after { if r == 0 && !b.is_empty() { return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into())); } n = n.min(r); i.refuse_after = Some(r - n); }
        i.written.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut i = self.0.lock().unwrap();
        let n = i.written.len();
        if i.fail_flush.is_some_and(|f| n >= f) { return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into())); }
        i.flushed.push(n);
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
#[async_trait::async_trait]
impl SoftClose for Pipe { async fn soft_close(&mut self) { { let mut i = self.0.lock().unwrap(); i.finished = Some(i.written.len()); } for _ in 0..2 { tokio::task::yield_now().await; } self.0.lock().unwrap().done = true; } }
impl Pipe {
    fn put(&self, b: &[u8]) { let mut i = self.0.lock().unwrap(); i.buf.extend(b); if let Some(w) = i.waker.take() { w.wake(); } }
    fn end(&self) { let mut i = self.0.lock().unwrap(); i.ended = true; if let Some(w) = i.waker.take() { w.wake(); } }
    fn open(&self, n: usize) { let mut i = self.0.lock().unwrap(); i.gate = i.gate.map(|g| g + n); if let Some(w) = i.wwaker.take() { w.wake(); } }
    fn left(&self) -> usize { self.0.lock().unwrap().buf.len() }
    fn written(&self) -> Vec<u8> { self.0.lock().unwrap().written.clone() }
}
fn portions(c: &mut Case) -> VecDeque<usize> { let k = *c.rng.pick(&[0, 0, 3, 20]); (0..k).map(|_| *c.rng.pick(&[1, 1, 2, 3, 5, 100])).collect() }
fn framed(m: &[u8]) -> Vec<u8> { let mut v = (m.len() as u32).to_be_bytes().to_vec(); v.extend_from_slice(m); v }

/// frames written one after the other and read back
fn there_and_back(c: &mut Case) -> Check {
    let n = c.rng.range(1, 5);
    let ms: Vec<Vec<u8>> = (0..n).map(|_| { let k = *c.rng.pick(&[0, 1, 4, 5, 63, 1000, 9000]); if c.rng.flip() { vec![0; k] } else { c.rng.bytes(k) } }).collect();
    c.note(format!("messages of {:?} bytes", ms.iter().map(Vec::len).collect::<Vec<_>>()));
    let (pw, pr) = (portions(c), portions(c));
    let pool = if c.rng.flip() { Some(20_000) } else { None };
    block(async move {
        let mut w = Pipe::default();
        w.0.lock().unwrap().portions = pw;
        let mut want = vec![];
        for m in &ms {
            write_length_delimited(&mut w, Bytes::from_unchecked(m.clone())).await.map_err(|e| format!("writing {} bytes failed: {e}", m.len()))?;
            want.extend(framed(m));
            vx_check!(w.written() == want, "the stream holds {} bytes {:?}.., the contract requires {:?}..", w.written().len(), &w.written()[..w.written().len().min(12)], &want[..want.len().min(12)]);
        }
        let mut r = Pipe::default();
        r.0.lock().unwrap().portions = pr;
        r.put(&want);
        let limiter = Limiter::new(pool, None);
        let mut left = want.len();
        for m in &ms {
            let b = read_length_delimited(&mut r, &limiter).await.map_err(|e| format!("reading {} bytes failed: {e}", m.len()))?;
            vx_check!(**b == **m, "{} bytes were sent, {} came back", m.len(), b.len());
            left -= 4 + m.len();
            vx_check!(r.left() == left, "{} bytes are left on the stream, the next frame starts {left} from its end", r.left());
        }
        r.end();
        vx_check!(read_length_delimited(&mut r, &limiter).await.is_err(), "reading from an ended stream succeeded");
        Ok(())
    })
}
/// broken frames: truncated, too long, and a writer that fails
fn broken(c: &mut Case) -> Check {
    let m = c.rng.bytes(200);
    let cut = c.rng.below(m.len() + 4);
    let over = *c.rng.pick(&[1u32, 2, 7, u32::MAX - MAX_MESSAGE_SIZE, 1 << 20]);
    let pool = if c.rng.flip() { Some(1_000) } else { None };
    let refuse = c.rng.below(m.len() + 4);
    let at = if c.rng.one_in(400) { Some(*c.rng.pick(&[0u32, 1])) } else { None };
    c.note(format!("{} bytes cut at {cut}; a length {over} over the maximum; a writer that takes {refuse} bytes; pool {pool:?}", m.len()));
    block(async move {
        let limiter = Limiter::new(pool, None);
        let mut r = Pipe::default();
        r.put(&framed(&m)[..cut]);
        r.end();
        vx_check!(read_length_delimited(&mut r, &limiter).await.is_err(), "a truncated frame was accepted");
        let mut r = Pipe::default();
        r.put(&(MAX_MESSAGE_SIZE + over).to_be_bytes());
        r.put(&[7; 64]);
        // no payload follows: it must be refused without waiting for memory or for the payload
        let t = tokio::time::Instant::now();
        let x = read_length_delimited(&mut r, &limiter).await;
        vx_check!(x.is_err(), "a length above the maximum was accepted");
        vx_check!(r.left() == 64 && t.elapsed().is_zero(), "a length above the maximum was refused only after {} payload bytes and {:?}", 64 - r.left(), t.elapsed());
        // the maximum itself is not too long: its payload is waited for
        if let Some(k) = at {
            let r = Pipe::default();
            r.put(&(MAX_MESSAGE_SIZE - k).to_be_bytes());
            let (mut r2, l2) = (r.clone(), Limiter::new(None, None));
            let h = tokio::spawn(async move { read_length_delimited(&mut r2, &l2).await.is_ok() });
            settle().await;
            vx_check!(!h.is_finished(), "a length of {k} below the maximum was refused");
            r.end();
            settle().await;
            vx_check!(matches!(h.await, Ok(false)), "a truncated frame was accepted");
        }
        let mut w = Pipe::default();
        w.0.lock().unwrap().refuse_after = Some(refuse);
        vx_check!(write_length_delimited(&mut w, Bytes::from_unchecked(m.clone())).await.is_err(), "a failed write was reported as a success");
        vx_check!(framed(&m).starts_with(&w.written()), "the stream holds {:?}", w.written());
        Ok(())
    })
}
/// the shared budget: held for exactly the message's length until the message is let go
fn budget(c: &mut Case) -> Check {
    let large = c.rng.one_in(25);
    let pool = if large { c.rng.range(60_000, 400_000) } else { c.rng.range(50, 200) };
    let a = c.rng.range(1, pool);
    let b = c.rng.range(1, pool);
    let cl = c.rng.flip();
    c.note(format!("pool {pool}, frames of {a} and {b} bytes, message cloned: {cl}"));
    block(async move {
        let limiter = Limiter::new(Some(pool), None);
        let mut r = Pipe::default();
        r.put(&framed(&vec![1; a]));
        let mut m1 = read_length_delimited(&mut r, &limiter).await.map_err(|e| e.to_string())?;
        if cl { let k = m1.clone(); drop(std::mem::replace(&mut m1, k)); }
        // exactly a bytes are taken
        vx_check!(limiter_free(&limiter, pool - a).await, "{a} bytes of {pool} are held but {} more were not free", pool - a);
        vx_check!(!limiter_free(&limiter, pool - a + 1).await, "{a} bytes of {pool} should be held but {} were free", pool - a + 1);
        // a second frame waits until its length is free, and its payload stays unread while it waits
        r.put(&framed(&vec![2; b]));
        let (mut r2, l2) = (r.clone(), limiter.clone());
        let h = tokio::spawn(async move { read_length_delimited(&mut r2, &l2).await });
        settle().await;
        if a + b > pool {
            vx_check!(!h.is_finished() && r.left() == b, "the second frame was read ({} of {b} bytes left) while only {} of the budget were free", r.left(), pool - a);
        } else { vx_check!(h.is_finished(), "the second frame was not read though {} of the budget were free", pool - a); }
        drop(m1);
        let m2 = h.await.map_err(|e| e.to_string())?.map_err(|e| format!("the second frame: {e}"))?;
        vx_check!(**m2 == *vec![2; b], "the second frame is not what was sent");
        vx_check!(limiter_free(&limiter, pool - b).await && !limiter_free(&limiter, pool - b + 1).await, "after the first message went, not exactly {b} bytes of {pool} are held");
        drop(m2);
        vx_check!(limiter_free(&limiter, pool).await, "all messages are gone but the budget is not free");
        Ok(())
    })
}
async fn limiter_free(l: &Limiter, n: usize) -> bool {
    if n == 0 { return true; }
    tokio::time::timeout(std::time::Duration::from_millis(1), l.allocate_message_bytes(n as u32)).await.is_ok()
}
/// whole connections over streams: what is sent is what is received, in order
fn connections(c: &mut Case) -> Check {
    let n = c.rng.range(1, 6);
    let ms: Vec<Vec<u8>> = (0..n).map(|_| { let k = *c.rng.pick(&[0, 1, 50, 3000]); c.rng.bytes(k) }).collect();
    let size = if c.rng.flip() { Some(c.rng.range(1, 3)) } else { None };
    c.note(format!("messages of {:?} bytes, queue {size:?}", ms.iter().map(Vec::len).collect::<Vec<_>>()));
    block(async move {
        let (a, b) = tokio::io::duplex(97);
        let (a2, b2) = tokio::io::duplex(97);
        let x = Connection::from_streams(a, b2, Limiter::new(Some(100_000), size));
        let y = Connection::from_streams(a2, b, Limiter::new(None, size));
        let (ms1, ms2) = (ms.clone(), ms.clone());
        let (x2, y2) = (x.clone(), y.clone());
        let s1 = tokio::spawn(async move { for m in ms1 { if x2.send_message_raw(Bytes::from_unchecked(m)).await.is_err() { return false; } } true });
        let s2 = tokio::spawn(async move { for m in ms2.into_iter().rev() { if y2.send_message_raw(Bytes::from_unchecked(m)).await.is_err() { return false; } } true });
        for m in &ms { let g = y.recv_message_raw().await.map_err(|e| format!("receiving failed: {e}"))?; vx_check!(**g == **m, "sent {} bytes, received {}", m.len(), g.len()); }
        for m in ms.iter().rev() { let g = x.recv_message_raw().await.map_err(|e| format!("receiving failed: {e}"))?; vx_check!(**g == **m, "sent {} bytes, received {}", m.len(), g.len()); }
        vx_check!(s1.await.unwrap_or(false) && s2.await.unwrap_or(false), "sending failed");
        // a soft close is answered only after everything before it was written
        x.send_message_raw(Bytes::from_unchecked(vec![9; 5])).await.map_err(|e| e.to_string())?;
        x.soft_close().await.map_err(|e| format!("soft close failed: {e}"))?;
        let g = y.recv_message_raw().await.map_err(|e| format!("after the soft close: {e}"))?;
        vx_check!(**g == [9; 5], "after the soft close {} bytes arrived", g.len());
        Ok(())
    })
}
fn some(c: &mut Case) -> Vec<Vec<u8>> { let n = c.rng.range(1, 6); (0..n).map(|_| { let k = *c.rng.pick(&[0, 1, 7, 40, 300]); c.rng.bytes(k) }).collect() }
/// a writer that takes its bytes slowly: order, flushing, soft close, the size of the queue
fn slow_writer(c: &mut Case) -> Check {
    let ms = some(c);
    let at = c.rng.below(ms.len() + 1);
    let size = if c.rng.flip() { Some(c.rng.range(1, 3)) } else { None };
    let step = c.rng.range(1, 60);
    c.note(format!("messages of {:?} bytes, soft close after {at} of them, queue {size:?}, the stream takes {step} bytes at a time", ms.iter().map(Vec::len).collect::<Vec<_>>()));
    block(async move {
        let (w, r) = (Pipe::default(), Pipe::default());
        w.0.lock().unwrap().gate = Some(0);
        let x = Connection::from_streams(w.clone(), r.clone(), Limiter::new(None, size));
        let (x2, ms2, w2) = (x.clone(), ms.clone(), w.clone());
        let sent = Arc::new(Mutex::new(0usize));
        let sent2 = sent.clone();
        let h = tokio::spawn(async move {
            let mut answer = None;
            for (i, m) in ms2.into_iter().enumerate() {
                if i == at { let (x, w) = (x2.clone(), w2.clone()); let (t, r) = tokio::sync::oneshot::channel(); tokio::spawn(async move { let a = x.soft_close().await; let d = w.0.lock().unwrap().done; let _ = t.send((a, d)); }); tokio::task::yield_now().await; answer = Some(r); }
                if x2.send_message_raw(Bytes::from_unchecked(m)).await.is_err() { return None; }
                *sent2.lock().unwrap() += 1;
            }
            if answer.is_none() { let (t, r) = tokio::sync::oneshot::channel(); tokio::spawn(async move { let a = x2.soft_close().await; let d = w2.0.lock().unwrap().done; let _ = t.send((a, d)); }); answer = Some(r); }
            answer
        });
        settle().await;
        if let (Some(size), true) = (size, at >= ms.len()) { let k = *sent.lock().unwrap(); vx_check!(k <= size + 1, "{k} messages were accepted by a connection with a queue of {size} whose stream takes nothing"); }
        let full: Vec<Vec<u8>> = ms.iter().map(|m| framed(m)).collect();
        let all: Vec<u8> = full.concat();
        let need: usize = full[..at].iter().map(Vec::len).sum();
        let mut n = 0;
        while n < all.len() {
            vx_check!(w.written() == all[..n], "the stream took {n} bytes and holds {:?}.., the contract requires {:?}..", &w.written(), &all[..n]);
            if n < need { let f = w.0.lock().unwrap().finished; vx_check!(f.is_none(), "the stream was told to finish after {f:?} of {need} bytes accepted before the soft close"); }
            let k = step.min(all.len() - n);
            n += k;
            w.open(k);
            for _ in 0..6 { tokio::task::yield_now().await; }
            settle().await;
        }
        w.open(1 << 20);
        settle().await;
        vx_check!(w.written() == all, "{} of {} bytes were written", w.written().len(), all.len());
        let Ok(Some(mut a)) = h.await else { return Err("sending failed".into()) };
        let a = a.try_recv();
        vx_check!(matches!(a, Ok((Ok(()), _))), "everything is written but the soft close was answered with {a:?}");
        vx_check!(matches!(a, Ok((_, true))), "the soft close was acknowledged before the stream had finished");
        let i = w.0.lock().unwrap();
        let mut at_ends = vec![];
        let mut sum = 0;
        for f in &full { sum += f.len(); at_ends.push(sum); }
        vx_check!(at_ends.iter().all(|e| i.flushed.contains(e)), "the stream was flushed at {:?}, the messages end at {at_ends:?}", i.flushed);
        vx_check!(i.finished.is_some_and(|f| f >= need), "the stream was told to finish at {:?}", i.finished);
        Ok(())
    })
}
/// a writer that fails in the middle
fn failing_writer(c: &mut Case) -> Check {
    let ms = some(c);
    let total: usize = ms.iter().map(|m| m.len() + 4).sum();
    let flush = c.rng.flip();
    let after = c.rng.below(total);
    c.note(format!("messages of {:?} bytes; the stream fails after {after} bytes ({})", ms.iter().map(Vec::len).collect::<Vec<_>>(), if flush { "when flushed" } else { "when written to" }));
    block(async move {
        let (w, r) = (Pipe::default(), Pipe::default());
        { let mut i = w.0.lock().unwrap(); if flush { i.fail_flush = Some(after); } else { i.refuse_after = Some(after); } }
        let x = Connection::from_streams(w.clone(), r.clone(), Limiter::new(None, None));
        for m in &ms { let _ = x.send_message_raw(Bytes::from_unchecked(m.clone())).await; }
        settle().await;
        let all: Vec<u8> = ms.iter().flat_map(|m| framed(m)).collect();
        // where the messages end
        let mut end = 0;
        for m in &ms { end += m.len() + 4; if end >= after { break; } }
        let want = if flush { end } else { after };
        vx_check!(w.written() == all[..want], "the stream holds {} bytes, the contract requires {want}", w.written().len());
        vx_check!(x.send_message_raw(Bytes::from_unchecked(vec![1])).await.is_err(), "a message was accepted after the stream had failed");
        vx_check!(x.soft_close().await.is_err(), "a soft close succeeded after the stream had failed");
        settle().await;
        vx_check!(w.written() == all[..want], "more was written after the failure");
        Ok(())
    })
}
/// what arrives, up to the first broken frame; and a connection let go
fn arriving(c: &mut Case) -> Check {
    let ms = some(c);
    let how = c.rng.below(3);
    let size = if c.rng.flip() { Some(c.rng.range(1, 3)) } else { None };
    let ps = portions(c);
    c.note(format!("messages of {:?} bytes arrive, then {}; queue {size:?}", ms.iter().map(Vec::len).collect::<Vec<_>>(), ["the stream ends", "a frame is cut", "a length is too large"][how]));
    block(async move {
        let (w, r) = (Pipe::default(), Pipe::default());
        r.0.lock().unwrap().portions = ps;
        for m in &ms { r.put(&framed(m)); }
        match how { 0 => {} 1 => r.put(&framed(&[1, 2, 3])[..5]), _ => { r.put(&(MAX_MESSAGE_SIZE + 1).to_be_bytes()); r.put(&framed(&[5])); } }
        if how < 2 { r.end(); }
        let x = Connection::from_streams(w.clone(), r.clone(), Limiter::new(None, size));
        if let Some(size) = size {
            settle().await;
            let len = |k: usize| ms[k..].iter().map(|m| m.len() + 4).sum::<usize>();
            let k = (size + 1).min(ms.len());
            let tail = match how { 0 => 0, 1 => 5, _ => 9 };
            if ms.len() > size + 1 { vx_check!(r.left() >= len(k) + tail, "{} bytes are left unread while nobody receives and the queue holds {size}, the contract requires {} or more", r.left(), len(k) + tail); }
        }
        for m in &ms { let g = x.recv_message_raw().await.map_err(|e| format!("receiving failed: {e}"))?; vx_check!(**g == **m, "{} bytes arrived, {} were received", m.len(), g.len()); }
        vx_check!(x.recv_message_raw().await.is_err(), "something was received after the last whole frame");
        let y = x.clone();
        drop(x);
        settle().await;
        vx_check!(y.send_message_raw(Bytes::from_unchecked(vec![3])).await.is_ok(), "a clone of the connection no longer works after another was dropped");
        settle().await;
        vx_check!(w.written() == framed(&[3]), "a clone of the connection no longer works");
        drop(y);
        settle().await;
        vx_check!(Arc::strong_count(&w.0) == 1 && Arc::strong_count(&r.0) == 1, "the connection was dropped but its tasks still hold the streams");
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", name: "frames written and read back", quick: 1500, run: there_and_back },
        Prop { id: "C13", name: "truncated, oversized and failing frames", quick: 1500, run: broken },
        Prop { id: "C13", name: "the memory budget", quick: 1500, run: budget },
        Prop { id: "C26", name: "connections over streams", quick: 300, run: connections },
        Prop { id: "C26", name: "a slow stream", quick: 500, run: slow_writer },
        Prop { id: "C26", name: "a failing stream", quick: 1000, run: failing_writer },
        Prop { id: "C26", name: "arriving messages", quick: 1000, run: arriving },
    ]
}
