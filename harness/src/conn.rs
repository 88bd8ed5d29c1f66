//! Connections made of captured queues (child of `cdn_proto::connection::protocols`).
use super::{BytesOrSoftClose, Connection, ConnectionRef};
use crate::connection::Bytes;
use async_channel::{unbounded, Receiver, Sender};
use std::sync::Arc;

/// the far end of a captured connection
#[derive(Clone)]
pub struct Far { out: Receiver<BytesOrSoftClose>, inp: Sender<Bytes>, weak: usize }
/// what came out of the connection
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Bytes(Vec<u8>), SoftClose }
/// the identity of a connection
pub fn id(c: &Connection) -> usize { Arc::as_ptr(&c.0) as usize }
pub fn pair() -> (Connection, Far) {
    let (so, out) = unbounded();
    let (inp, ri) = unbounded();
    let c = Connection(Arc::new(ConnectionRef { sender: so, receiver: ri, tasks: Arc::new(vec![]) }));
    let weak = id(&c);
    (c, Far { out, inp, weak })
}
impl Far {
    pub fn id(&self) -> usize { self.weak }
    /// everything sent so far; a soft close is acknowledged
    pub fn drain(&self) -> Vec<Out> {
        let mut v = vec![];
        while let Ok(x) = self.out.try_recv() {
            v.push(match x { BytesOrSoftClose::Bytes(b) => Out::Bytes(b.to_vec()), BytesOrSoftClose::SoftClose(s) => { let _ = s.send(()); Out::SoftClose } });
        }
        v
    }
    /// waits for the next thing sent; None when the connection is gone
    pub async fn next(&self) -> Option<Out> {
        match self.out.recv().await {
            Ok(BytesOrSoftClose::Bytes(b)) => Some(Out::Bytes(b.to_vec())),
            Ok(BytesOrSoftClose::SoftClose(s)) => { let _ = s.send(()); Some(Out::SoftClose) }
            Err(_) => None,
        }
    }
    /// delivers bytes to the connection's receiver
    pub fn deliver(&self, b: Vec<u8>) { let _ = self.inp.try_send(Bytes::from_unchecked(b)); }
    /// from now on sends on the connection fail
    pub fn break_sends(&self) { self.out.close(); }
    /// from now on receives fail (after what was delivered)
    pub fn break_recvs(&self) { self.inp.close(); }
    pub fn alive(&self) -> bool { !self.out.is_closed() }
}
