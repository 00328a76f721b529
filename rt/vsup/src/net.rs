//! Virtual UDP socket with the part of `std::net` the code under verification uses. Nothing is ever
//! sent to a real network: outgoing datagrams are appended to a ghost log, incoming ones are taken
//! from a queue filled by the harness. Sockets are registered by local address, so that a harness
//! can reach the queues of a socket owned by the code under verification.
pub use std::net::{AddrParseError, IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, ToSocketAddrs};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Sent { pub to: SocketAddr, pub at_ns: u64, pub data: Vec<u8> }

#[derive(Default)]
pub struct Queues {
    pub sent: RefCell<Vec<Sent>>,
    pub incoming: RefCell<VecDeque<(SocketAddr, Vec<u8>)>>,
}

pub struct UdpSocket {
    local: SocketAddr,
    peer: Cell<Option<SocketAddr>>,
    pub q: Rc<Queues>,
}

// The virtual socket is only used within one thread
unsafe impl Send for UdpSocket {}
unsafe impl Sync for UdpSocket {}

#[cfg(not(kani))]
thread_local! {
    static REG: RefCell<Vec<(SocketAddr, Rc<Queues>)>> = RefCell::new(Vec::new());
    static NEXT: Cell<u16> = Cell::new(1000);
    static NEXT_IP: Cell<Ipv4Addr> = const { Cell::new(Ipv4Addr::new(10, 0, 0, 1)) };
}

#[cfg(not(kani))]
pub fn reset() { REG.with(|r| *r.borrow_mut() = Vec::new()); NEXT.with(|n| n.set(1000)); NEXT_IP.with(|n| n.set(Ipv4Addr::new(10, 0, 0, 1))); }
/// IP address given to the sockets bound from now on
#[cfg(not(kani))]
pub fn set_next_ip(ip: Ipv4Addr) { NEXT_IP.with(|n| n.set(ip)); }
/// Port given to the next bound socket
#[cfg(not(kani))]
pub fn set_next_port(p: u16) { NEXT.with(|n| n.set(p)); }
#[cfg(not(kani))]
pub fn queues(a: SocketAddr) -> Option<Rc<Queues>> { REG.with(|r| r.borrow().iter().rev().find(|e| e.0 == a).map(|e| Rc::clone(&e.1))) }
#[cfg(not(kani))]
pub fn deliver(to: SocketAddr, from: SocketAddr, data: Vec<u8>) { if let Some(q) = queues(to) { q.incoming.borrow_mut().push_back((from, data)); } }
#[cfg(not(kani))]
pub fn take_sent(a: SocketAddr) -> Vec<Sent> { queues(a).map(|q| std::mem::take(&mut *q.sent.borrow_mut())).unwrap_or_default() }

impl UdpSocket {
    pub fn fake(local: SocketAddr) -> Self {
        UdpSocket { local, peer: Cell::new(None), q: Rc::new(Queues::default()) }
    }
    #[cfg(not(kani))]
    pub fn bind<A: ToSocketAddrs>(_addr: A) -> io::Result<UdpSocket> {
        let port = NEXT.with(|n| { let p = n.get(); n.set(p + 1); p });
        let local = SocketAddr::new(IpAddr::V4(NEXT_IP.with(|n| n.get())), port);
        let s = Self::fake(local);
        REG.with(|r| r.borrow_mut().push((local, Rc::clone(&s.q))));
        Ok(s)
    }
    #[cfg(kani)]
    pub fn bind<A>(_addr: A) -> io::Result<UdpSocket> { Ok(Self::fake(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), 1000))) }
    pub fn set_nonblocking(&self, _b: bool) -> io::Result<()> { Ok(()) }
    pub fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
        let a = addr.to_socket_addrs()?.next().unwrap();
        self.peer.set(Some(a));
        Ok(())
    }
    pub fn set_peer(&self, a: SocketAddr) { self.peer.set(Some(a)) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.local) }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(self.peer.get().unwrap()) }
    fn put(&self, to: SocketAddr, data: &[u8]) -> io::Result<usize> {
        self.q.sent.borrow_mut().push(Sent { to, at_ns: crate::time::get_ns(), data: data.to_vec() });
        Ok(data.len())
    }
    pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
        let to = addr.to_socket_addrs()?.next().unwrap();
        self.put(to, data)
    }
    pub fn send(&self, data: &[u8]) -> io::Result<usize> { self.put(self.peer.get().unwrap(), data) }
    pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        loop {
            match self.q.incoming.borrow_mut().pop_front() {
                Some((a, d)) => {
                    // A connected socket only receives from its peer
                    if let Some(p) = self.peer.get() { if p != a { continue; } }
                    let n = d.len().min(buf.len()); buf[..n].copy_from_slice(&d[..n]); return Ok((n, a));
                }
                None => return Err(io::Error::from(io::ErrorKind::WouldBlock)),
            }
        }
    }
    pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> { self.recv_from(buf).map(|(n, _)| n) }
}
