//! Session simulator: the real client or monitor against a simulated gateway, inside one
//! single-threaded tokio runtime whose clock is paused and moved only by the harness.
//!
//! The harness task never blocks on an await, it only yields; so the runtime never goes
//! idle, the paused clock never advances by itself, and every history is a function of the
//! case. Real time is used only as a generous limit on waiting for something that must
//! happen without the clock moving.
use crate::engine::{take_panics, Res, SHRINKING};
use crate::wire::{self, parse_sent, Ep, Payload, Sent};
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::packets::emi::LDataInd;
use knx_ip_client::transport::{udp::UdpClient, udp_monitor::UdpMonitor};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::net::{SocketAddr, UdpSocket};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::Duration;
use tokio::task::{spawn_local, yield_now, JoinHandle, LocalSet};
use tokio::time::Instant;

// ---------------------------------------------------------------- socket faults
/// What the interposed socket calls of this thread do to the code under test; the
/// harness's own calls are made within `own`.
#[derive(Default)]
struct Faults {
    /// (service code, errno): fail the next send of a datagram of that service
    fail_send: Vec<(u16, i32)>,
    send_hits: u32,
    /// services whose sends would block until released
    held: Vec<u16>,
    held_hits: u32,
    fail_recv: u32,
    recv_hits: u32,
    /// where datagrams for 224.0.23.12:3671 really go
    multicast: Option<SocketAddr>,
    fail_multicast: Option<i32>,
    multicast_sent: Vec<Vec<u8>>,
    /// datagrams the code under test has received
    received: u64,
}
thread_local! {
    static FAULTS: RefCell<Faults> = RefCell::new(Faults::default());
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static OWN: Cell<bool> = const { Cell::new(false) };
}
/// The harness's own socket calls: no faults, not counted.
pub fn own<T>(f: impl FnOnce() -> T) -> T {
    let before = OWN.with(|o| o.replace(true));
    let r = f();
    OWN.with(|o| o.set(before));
    r
}
fn armed() -> bool {
    ARMED.with(|a| a.get()) && !OWN.with(|o| o.get())
}
/// The planned fate of a send by the code under test.
unsafe fn send_fault(buf: *const libc::c_void, len: libc::size_t) -> Option<i32> {
    if !armed() || len < 4 {
        return None;
    }
    let b = std::slice::from_raw_parts(buf as *const u8, len);
    let svc = u16::from_be_bytes([b[2], b[3]]);
    FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        if f.held.contains(&svc) {
            f.held_hits += 1;
            return Some(libc::EAGAIN);
        }
        let at = f.fail_send.iter().position(|x| x.0 == svc)?;
        f.send_hits += 1;
        Some(f.fail_send.remove(at).1)
    })
}
/// A planned failure of a receive by the code under test.
fn recv_fault() -> bool {
    armed()
        && FAULTS.with(|f| {
            let mut f = f.borrow_mut();
            if f.fail_recv > 0 {
                f.fail_recv -= 1;
                f.recv_hits += 1;
                true
            } else {
                false
            }
        })
}
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    if let Some(e) = send_fault(buf, len) {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    if recv_fault() {
        set_errno(libc::ECONNREFUSED);
        return -1;
    }
    let r = libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as libc::ssize_t;
    if r >= 0 {
        count_received();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_int, addr: *mut libc::sockaddr, alen: *mut libc::socklen_t) -> libc::ssize_t {
    if recv_fault() {
        set_errno(libc::ECONNREFUSED);
        return -1;
    }
    let r = libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as libc::ssize_t;
    if r >= 0 {
        count_received();
    }
    r
}
fn count_received() {
    if armed() {
        FAULTS.with(|f| f.borrow_mut().received += 1);
    }
}
/// Datagrams the code under test took from its sockets (by `recv`) in this history.
pub fn received() -> u64 {
    FAULTS.with(|f| f.borrow().received)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, flags: libc::c_int, addr: *const libc::sockaddr, alen: libc::socklen_t) -> libc::ssize_t {
    if let Some(e) = send_fault(buf, len) {
        set_errno(e);
        return -1;
    }
    if armed() && !addr.is_null() && (*addr).sa_family as i32 == libc::AF_INET {
        let sin = &*(addr as *const libc::sockaddr_in);
        if u32::from_be(sin.sin_addr.s_addr) == 0xe000170c && u16::from_be(sin.sin_port) == 3671 {
            let b = std::slice::from_raw_parts(buf as *const u8, len).to_vec();
            let r = FAULTS.with(|f| {
                let mut f = f.borrow_mut();
                f.multicast_sent.push(b);
                match f.fail_multicast {
                    Some(e) => Err(e),
                    None => Ok(f.multicast),
                }
            });
            match r {
                Err(e) => {
                    set_errno(e);
                    return -1;
                }
                Ok(Some(SocketAddr::V4(to))) => {
                    let mut t: libc::sockaddr_in = std::mem::zeroed();
                    t.sin_family = libc::AF_INET as u16;
                    t.sin_port = to.port().to_be();
                    t.sin_addr.s_addr = u32::from(*to.ip()).to_be();
                    return libc::syscall(libc::SYS_sendto, fd, buf, len, flags, &t as *const _, std::mem::size_of_val(&t)) as libc::ssize_t;
                }
                // never reach the real multicast group
                Ok(_) => return len as libc::ssize_t,
            }
        }
    }
    libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen as usize) as libc::ssize_t
}
pub fn fail_send(service: u16) {
    FAULTS.with(|f| f.borrow_mut().fail_send.push((service, libc::ENETUNREACH)));
}
/// From now on the socket has no room for datagrams of that service: their senders must
/// wait (EAGAIN) until `Sim::release_sends`.
pub fn hold_sends(service: u16) {
    FAULTS.with(|f| f.borrow_mut().held.push(service));
}
/// Sends that had to wait so far.
pub fn held_hits() -> u32 {
    FAULTS.with(|f| f.borrow().held_hits)
}
pub fn fail_recv() {
    FAULTS.with(|f| f.borrow_mut().fail_recv += 1);
}
/// Forgets planned faults that were not hit; returns (sends failed, receives failed) so far.
pub fn fault_hits() -> (u32, u32) {
    FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        f.fail_send.clear();
        f.fail_recv = 0;
        (f.send_hits, f.recv_hits)
    })
}
/// Sends failed so far; planned faults stay planned.
pub fn send_hits() -> u32 {
    FAULTS.with(|f| f.borrow().send_hits)
}
pub fn redirect_multicast(to: SocketAddr, fail: Option<i32>) {
    FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        f.multicast = Some(to);
        f.fail_multicast = fail;
    });
}
pub fn multicast_sent() -> Vec<Vec<u8>> {
    FAULTS.with(|f| f.borrow().multicast_sent.clone())
}

// ---------------------------------------------------------------- running a history
/// Runs one history; panics anywhere in the code under test (also in background tasks)
/// fail it.
pub fn run<F, Fut>(f: F) -> Res
where
    F: FnOnce() -> Fut,
    Fut: Future<Output = Res>,
{
    FAULTS.with(|x| *x.borrow_mut() = Faults::default());
    ARMED.with(|a| a.set(true));
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(b"pbt"))
        .build()
        .expect("runtime");
    let local = LocalSet::new();
    let r = rt.block_on(local.run_until(async { f().await }));
    drop(local);
    rt.shutdown_background();
    ARMED.with(|a| a.set(false));
    let p = take_panics();
    if !p.is_empty() {
        return Err(format!("{}{}", p.join("; "), r.err().map(|e| format!(" (then: {e})")).unwrap_or_default()));
    }
    r
}
fn limit() -> Duration {
    if SHRINKING.load(Ordering::Relaxed) {
        Duration::from_millis(700)
    } else {
        Duration::from_secs(8)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Client,
    Monitor,
}
#[derive(Clone)]
pub enum H {
    C(Arc<UdpClient>),
    M(Arc<UdpMonitor>),
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub at: Instant,
    pub raw: Vec<u8>,
    pub sent: Sent,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Bytes(Vec<u8>),
    Unit,
    Status(u8, u8),
    Code(u8),
    Err(String),
}
impl Out {
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}
/// An API call running as its own task.
pub struct Call {
    h: Option<JoinHandle<Out>>,
    out: Option<Out>,
    pub what: String,
}
impl Call {
    fn new(what: String, h: JoinHandle<Out>) -> Self {
        Call { h: Some(h), out: None, what }
    }
    /// The result if the call has returned.
    pub async fn result(&mut self) -> Result<Option<Out>, String> {
        if let Some(h) = &mut self.h {
            if h.is_finished() {
                let h = self.h.take().unwrap();
                match h.await {
                    Ok(o) => self.out = Some(o),
                    Err(e) => return Err(format!("{} panicked: {e} {:?}", self.what, take_panics())),
                }
            }
        }
        Ok(self.out.clone())
    }
    pub fn abort(&self) {
        if let Some(h) = &self.h {
            h.abort();
        }
    }
}
impl Drop for Call {
    fn drop(&mut self) {
        self.abort();
    }
}

/// Held for reading while a socket of the code under test exists that is not connected
/// yet, for writing while a gateway sends to a port that may no longer be in use: so no
/// datagram reaches the socket of another history that got the same port.
static GATE: std::sync::RwLock<()> = std::sync::RwLock::new(());

/// The gateway's socket, which may serve several clients of one process.
pub struct Gateway {
    sock: UdpSocket,
    /// what each client has sent
    boxes: std::cell::RefCell<Vec<(SocketAddr, Vec<(Instant, Vec<u8>)>)>>,
    owned: std::cell::RefCell<Vec<SocketAddr>>,
}
impl Gateway {
    pub fn new() -> std::rc::Rc<Gateway> {
        let sock = UdpSocket::bind("127.0.0.1:0").expect("bind");
        sock.set_nonblocking(true).expect("nonblocking");
        unsafe {
            use std::os::fd::AsRawFd;
            let n: libc::c_int = 4 << 20;
            libc::setsockopt(sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const _, 4);
        }
        std::rc::Rc::new(Gateway { sock, boxes: Default::default(), owned: Default::default() })
    }
    /// Sorts what has arrived by sender.
    fn sort(&self) {
        let mut b = [0u8; 4096];
        let mut boxes = self.boxes.borrow_mut();
        loop {
            match own(|| self.sock.recv_from(&mut b)) {
                Ok((n, from)) => {
                    let item = (Instant::now(), b[..n].to_vec());
                    match boxes.iter_mut().find(|x| x.0 == from) {
                        Some(x) => x.1.push(item),
                        None => boxes.push((from, vec![item])),
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => continue,
                Err(_) => return,
            }
        }
    }
    /// A sender no session has been matched with yet.
    fn stranger(&self) -> Option<SocketAddr> {
        let mut owned = self.owned.borrow_mut();
        let new = self.boxes.borrow().iter().map(|x| x.0).find(|a| !owned.contains(a))?;
        owned.push(new);
        Some(new)
    }
    fn take(&self, from: SocketAddr) -> Vec<(Instant, Vec<u8>)> {
        self.boxes.borrow_mut().iter_mut().find(|x| x.0 == from).map(|x| std::mem::take(&mut x.1)).unwrap_or_default()
    }
}

pub struct Sim {
    pub gw: std::rc::Rc<Gateway>,
    pub kind: Kind,
    pub h: Option<H>,
    pub peer: Option<SocketAddr>,
    pub log: Vec<Rec>,
    pub ch: u8,
    pub ep: Ep,
    pub gseq: u8,
    /// (channel, sequence) of everything that must have been acknowledged, in order
    pub expected_acks: Vec<(u8, u8)>,
    /// connection requests already answered (or deliberately left unanswered)
    pub answered: usize,
    pub t0: Instant,
}
pub const STEP: Duration = Duration::from_millis(500);

impl Sim {
    /// Starts a client or monitor; it has not been answered yet.
    pub async fn start(kind: Kind) -> Result<Sim, String> {
        Sim::start_at(kind, Gateway::new()).await
    }
    pub async fn start_at(kind: Kind, gw: std::rc::Rc<Gateway>) -> Result<Sim, String> {
        let gate = GATE.read().unwrap_or_else(|e| e.into_inner());
        let addr = gw.sock.local_addr().unwrap();
        let mut sim = Sim { gw, kind, h: None, peer: None, log: vec![], ch: 0, ep: Ep::ZERO, gseq: 0, expected_acks: vec![], answered: 0, t0: Instant::now() };
        let h: JoinHandle<Result<H, String>> = match kind {
            Kind::Client => spawn_local(async move { UdpClient::connect(addr).await.map(|c| H::C(Arc::new(c))).map_err(|e| e.to_string()) }),
            Kind::Monitor => spawn_local(async move { UdpMonitor::connect(&addr.to_string()).await.map(|c| H::M(Arc::new(c))).map_err(|e| e.to_string()) }),
        };
        let t = std::time::Instant::now();
        while !h.is_finished() {
            sim.nap(&t).await;
            if t.elapsed() > limit() {
                return Err("connect did not return".into());
            }
        }
        sim.h = Some(h.await.map_err(|e| format!("connect panicked: {e}"))?.map_err(|e| format!("connect failed: {e}"))?);
        sim.until("the first connection request", |s| s.peer.is_some()).await?;
        drop(gate);
        Ok(sim)
    }
    /// Connected session.
    pub async fn up(kind: Kind, ch: u8, ep: Ep) -> Result<Sim, String> {
        let mut s = Sim::start(kind).await?;
        s.accept(ch, ep).await?;
        Ok(s)
    }
    /// Waits for a connection request, grants it and waits until the tunnel is in use.
    pub async fn accept(&mut self, ch: u8, ep: Ep) -> Result<(), String> {
        self.await_connect_req().await?;
        self.grant(ch, ep).await
    }
    /// Waits (without moving the clock) for a connection request nobody answered yet.
    pub async fn await_connect_req(&mut self) -> Result<(), String> {
        let n = self.answered;
        self.until("a connection request", |s| s.count(|f| matches!(f, Sent::ConnectReq { .. })) > n).await?;
        self.answered = self.count(|f| matches!(f, Sent::ConnectReq { .. }));
        Ok(())
    }
    /// Answers with success and waits until the tunnel is in use.
    pub async fn grant(&mut self, ch: u8, ep: Ep) -> Result<(), String> {
        let m = self.log.len();
        self.ch = ch;
        self.ep = ep;
        self.gseq = 0;
        self.send(&wire::connect_res(ch, 0, ep, granted_address(ch)));
        if self.kind == Kind::Monitor {
            self.until("the monitor's feature request", |s| s.log[m..].iter().any(|r| matches!(r.sent, Sent::FeatSet { .. }))).await?;
        }
        self.sync().await
    }

    // ------------------------------------------------------------ gateway side
    /// The socket has room again. The datagram (of a service nobody knows) makes the kernel
    /// report the socket's state anew, as it does when a full send buffer empties.
    pub async fn release_sends(&mut self) {
        FAULTS.with(|f| f.borrow_mut().held.clear());
        self.send(&wire::frame(0x0530, &[]));
        self.settle().await;
    }
    pub fn addr(&self) -> SocketAddr {
        self.gw.sock.local_addr().unwrap()
    }
    pub fn send(&mut self, b: &[u8]) {
        let peer = self.peer.expect("the client has not spoken yet");
        let _gate = if self.h.is_none() { Some(GATE.write().unwrap_or_else(|e| e.into_inner())) } else { None };
        loop {
            match own(|| self.gw.sock.send_to(b, peer)) {
                Ok(_) => return,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_micros(50)),
                // a pending ICMP error of an earlier datagram, or a peer that is gone
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => return,
                Err(e) => panic!("harness cannot send: {e}"),
            }
        }
    }
    /// Sends a tunnelling request, which must be acknowledged.
    pub fn tele(&mut self, cemi: &[u8]) {
        let (ch, seq) = (self.ch, self.gseq);
        self.gseq = self.gseq.wrapping_add(1);
        self.send(&wire::tun_req(ch, seq, cemi));
        self.expected_acks.push((ch, seq));
    }
    /// Sends a feature response, which must be acknowledged.
    pub fn feature(&mut self, feature: u8, status: u8, value: u8) {
        let (ch, seq) = (self.ch, self.gseq);
        self.gseq = self.gseq.wrapping_add(1);
        self.send(&wire::feat_res(ch, seq, feature, status, value));
        self.expected_acks.push((ch, seq));
    }
    /// Everything sent so far has been read by the session task, and all tasks have run.
    pub async fn sync(&mut self) -> Result<(), String> {
        self.feature(8, 0, 1);
        self.await_acks().await
    }
    pub async fn await_acks(&mut self) -> Result<(), String> {
        let n = self.expected_acks.len();
        let sent = self.expected_acks.last().copied();
        self.until_msg(
            |s| s.acks().len() >= n,
            |s| format!("acknowledgement number {n} (channel, sequence {sent:?}) does not arrive; {} arrived", s.acks().len()),
        )
        .await?;
        self.settle().await;
        Ok(())
    }
    pub fn acks(&self) -> Vec<(u8, u8)> {
        self.log
            .iter()
            .filter_map(|r| match r.sent {
                Sent::TunAck { ch, seq, status: 0 } => Some((ch, seq)),
                Sent::TunAck { .. } => Some((255, 255)),
                _ => None,
            })
            .collect()
    }
    pub fn check_acks(&self) -> Result<(), String> {
        let a = self.acks();
        if a != self.expected_acks {
            let i = a.iter().zip(&self.expected_acks).position(|(x, y)| x != y).unwrap_or(a.len().min(self.expected_acks.len()));
            return Err(format!(
                "acknowledgements differ at number {i}: got {:?}, expected {:?} ({} of {})",
                a.get(i),
                self.expected_acks.get(i),
                a.len(),
                self.expected_acks.len()
            ));
        }
        Ok(())
    }
    /// Nothing the client sent is malformed.
    pub fn check_wellformed(&self) -> Result<(), String> {
        match self.log.iter().find(|r| matches!(r.sent, Sent::Bad(_))) {
            Some(r) => Err(format!("the client sent a malformed frame {:02x?}", r.sent)),
            None => Ok(()),
        }
    }

    // ------------------------------------------------------------ log
    pub fn pump(&mut self) {
        self.gw.sort();
        if self.peer.is_none() {
            self.peer = self.gw.stranger();
        }
        // anything else are another session's frames, or a history's leftovers for a port
        // that is used again
        if let Some(peer) = self.peer {
            for (at, raw) in self.gw.take(peer) {
                let sent = parse_sent(&raw);
                self.log.push(Rec { at, raw, sent });
            }
        }
    }
    pub fn count(&self, f: impl Fn(&Sent) -> bool) -> usize {
        self.log.iter().filter(|r| f(&r.sent)).count()
    }
    pub fn count_since(&self, m: usize, f: impl Fn(&Sent) -> bool) -> usize {
        self.log[m..].iter().filter(|r| f(&r.sent)).count()
    }
    pub fn since(&self, m: usize, f: impl Fn(&Sent) -> bool) -> Vec<Sent> {
        self.log[m..].iter().filter(|r| f(&r.sent)).map(|r| r.sent.clone()).collect()
    }
    pub fn mark(&self) -> usize {
        self.log.len()
    }
    /// Tunnelled requests (channel, sequence, cEMI) since the mark.
    pub fn requests(&self, m: usize) -> Vec<(u8, u8, Vec<u8>)> {
        self.log[m..]
            .iter()
            .filter_map(|r| match &r.sent {
                Sent::TunReq { ch, seq, cemi } => Some((*ch, *seq, cemi.clone())),
                _ => None,
            })
            .collect()
    }

    // ------------------------------------------------------------ scheduling and time
    pub async fn nap(&mut self, t: &std::time::Instant) {
        for _ in 0..8 {
            yield_now().await;
        }
        if t.elapsed() > Duration::from_millis(3) {
            std::thread::sleep(Duration::from_micros(200));
        }
        self.pump();
    }
    /// Lets every runnable task run until nothing is left to do.
    pub async fn settle(&mut self) {
        for _ in 0..40 {
            yield_now().await;
        }
        self.pump();
    }
    pub async fn until(&mut self, what: &str, f: impl Fn(&Sim) -> bool) -> Result<(), String> {
        self.until_msg(f, |_| format!("{what} does not arrive")).await
    }
    pub async fn until_msg(&mut self, f: impl Fn(&Sim) -> bool, m: impl Fn(&Sim) -> String) -> Result<(), String> {
        let t = std::time::Instant::now();
        loop {
            self.pump();
            if f(self) {
                return Ok(());
            }
            if t.elapsed() > limit() {
                return Err(m(self));
            }
            self.nap(&t).await;
        }
    }
    /// Moves the clock on in small steps, letting everything run at each.
    pub async fn advance(&mut self, mut d: Duration) {
        while d > Duration::ZERO {
            let s = d.min(STEP);
            tokio::time::advance(s).await;
            d -= s;
            for _ in 0..12 {
                yield_now().await;
            }
            self.pump();
        }
        self.settle().await;
    }
    pub async fn advance_ms(&mut self, ms: u64) {
        self.advance(Duration::from_millis(ms)).await
    }
    /// Advances until the condition holds, at most `max`; returns the time it took.
    pub async fn advance_until(&mut self, max: Duration, what: &str, f: impl Fn(&Sim) -> bool) -> Result<Duration, String> {
        let t = Instant::now();
        self.settle().await;
        while !f(self) {
            if t.elapsed() >= max {
                // give deferred deliveries a chance before judging
                return match self.until(what, &f).await {
                    Ok(()) => Ok(t.elapsed()),
                    Err(_) => Err(format!("{what} does not happen within {} s", max.as_secs_f32())),
                };
            }
            self.advance(STEP).await;
        }
        Ok(t.elapsed())
    }
    pub fn now(&self) -> Duration {
        self.t0.elapsed()
    }

    // ------------------------------------------------------------ API calls
    pub fn client(&self) -> Arc<UdpClient> {
        match &self.h {
            Some(H::C(c)) => c.clone(),
            _ => panic!("harness: not a client"),
        }
    }
    pub fn monitor(&self) -> Arc<UdpMonitor> {
        match &self.h {
            Some(H::M(c)) => c.clone(),
            _ => panic!("harness: not a monitor"),
        }
    }
    pub fn read(&self, a: Addr) -> Call {
        let what = format!("read of {a:?}");
        match &self.h {
            Some(H::C(c)) => {
                let c = c.clone();
                Call::new(what, spawn_local(async move { c.read_group_address_value(a.knx()).await.map_or_else(|e| Out::Err(e.to_string()), Out::Bytes) }))
            }
            Some(H::M(c)) => {
                let c = c.clone();
                Call::new(what, spawn_local(async move { c.solecitate_group_read(a.knx()).await.map_or_else(|e| Out::Err(e.to_string()), |_| Out::Unit) }))
            }
            None => panic!("harness: dropped"),
        }
    }
    pub fn write(&self, a: Addr, p: &Payload) -> Call {
        let what = format!("write of {p:?} to {a:?}");
        let (v, small) = match p {
            Payload::Small(v) => (vec![*v], true),
            Payload::Long(v) => (v.clone(), false),
        };
        match &self.h {
            Some(H::C(c)) => {
                let c = c.clone();
                Call::new(what, spawn_local(async move { c.write_group_address_value(a.knx(), v, small).await.map_or_else(|e| Out::Err(e.to_string()), |_| Out::Unit) }))
            }
            Some(H::M(c)) => {
                let c = c.clone();
                Call::new(what, spawn_local(async move { c.write_group_address_value(a.knx(), v, small).await.map_or_else(|e| Out::Err(e.to_string()), |_| Out::Unit) }))
            }
            None => panic!("harness: dropped"),
        }
    }
    /// Adds a connection subscriber with room for `cap` notifications.
    pub async fn subscribe(&mut self, cap: usize) -> Result<tokio::sync::mpsc::Receiver<()>, String> {
        let m = self.monitor();
        let (tx, rx) = tokio::sync::mpsc::channel(cap);
        let h = spawn_local(async move { m.add_on_connect(tx).await });
        self.joined(h, "add_on_connect").await?;
        Ok(rx)
    }
    /// Drops the handle; calls still running must have been dropped before.
    pub async fn drop_handle(&mut self) {
        self.settle().await;
        self.h = None;
        self.settle().await;
    }
    pub fn status(&self) -> Call {
        let c = self.client();
        Call::new(
            "status query".into(),
            spawn_local(async move { c.get_connection_status().await.map_or_else(|e| Out::Err(e.to_string()), |r| Out::Status(r.communication_channel_id, r.status)) }),
        )
    }
    pub fn disconnect(&self) -> Call {
        match &self.h {
            Some(H::C(c)) => {
                let c = c.clone();
                Call::new("disconnect".into(), spawn_local(async move { c.disconnect().await.map_or_else(|e| Out::Err(e.to_string()), |_| Out::Unit) }))
            }
            Some(H::M(c)) => {
                let c = c.clone();
                Call::new("disconnect".into(), spawn_local(async move { c.disconnect().await.map_or_else(|e| Out::Err(e.to_string()), Out::Code) }))
            }
            None => panic!("harness: dropped"),
        }
    }
    /// The call returns without the clock moving.
    pub async fn done(&mut self, c: &mut Call) -> Result<Out, String> {
        let t = std::time::Instant::now();
        loop {
            if let Some(o) = c.result().await? {
                return Ok(o);
            }
            if t.elapsed() > limit() {
                return Err(format!("{} does not return", c.what));
            }
            self.nap(&t).await;
        }
    }
    pub async fn pending(&mut self, c: &mut Call, why: &str) -> Result<(), String> {
        self.settle().await;
        match c.result().await? {
            Some(o) => Err(format!("{} returned {o:02x?} {why}", c.what)),
            None => Ok(()),
        }
    }
    /// The call returns within `max` of simulated time; gives the time it took.
    pub async fn done_within(&mut self, c: &mut Call, max: Duration) -> Result<(Out, Duration), String> {
        let t = Instant::now();
        self.settle().await;
        loop {
            if let Some(o) = c.result().await? {
                return Ok((o, t.elapsed()));
            }
            if t.elapsed() >= max {
                return match self.done(c).await {
                    Ok(o) => Ok((o, t.elapsed())),
                    Err(_) => Err(format!("{} has not returned after {} s", c.what, max.as_secs_f32())),
                };
            }
            self.advance(STEP).await;
        }
    }
    /// Waits for the next tunnelled request after the mark.
    pub async fn request(&mut self, m: usize, what: &str) -> Result<(u8, u8, Vec<u8>), String> {
        self.until_msg(|s| !s.requests(m).is_empty(), |_| format!("no request is sent by the {what}")).await?;
        Ok(self.requests(m)[0].clone())
    }
    pub fn is_connected(&self) -> JoinHandle<bool> {
        let m = self.monitor();
        spawn_local(async move { m.is_connected().await })
    }
    /// The gateway reports a connection-state error: the tunnel is lost.
    pub fn state_error(&mut self, status: u8) {
        let f = wire::state_res(self.ch, status);
        self.send(&f);
    }
    /// Consumes one monitor message.
    pub fn next_msg(&self) -> JoinHandle<Result<LDataInd, String>> {
        let m = self.monitor();
        spawn_local(async move { m.next_msg().await.map_err(|e| e.to_string()) })
    }
    pub async fn joined<T>(&mut self, h: JoinHandle<T>, what: &str) -> Result<T, String> {
        let t = std::time::Instant::now();
        while !h.is_finished() {
            if t.elapsed() > limit() {
                h.abort();
                return Err(format!("{what} does not return"));
            }
            self.nap(&t).await;
        }
        h.await.map_err(|e| format!("{what} panicked: {e} {:?}", take_panics()))
    }
}

// ---------------------------------------------------------------- other hosts
/// Sockets that are not the gateway's: another port of its host, another host with its
/// port (if free), another host and port.
pub struct Others(Vec<UdpSocket>);
impl Others {
    pub fn new(gw: SocketAddr) -> Others {
        let b = |a: String| UdpSocket::bind(a);
        let v = vec![b("127.0.0.1:0".into()), b(format!("127.0.0.2:{}", gw.port())).or_else(|_| b("127.0.0.2:0".into())), b("127.0.0.3:0".into())];
        Others(v.into_iter().map(|s| s.expect("bind")).inspect(|s| s.set_nonblocking(true).expect("nonblocking")).collect())
    }
    /// None of them got a datagram.
    pub fn silent(&self) -> Result<(), String> {
        let mut b = [0u8; 4096];
        for s in &self.0 {
            loop {
                match own(|| s.recv_from(&mut b)) {
                    Ok((n, from)) => {
                        // (leftovers of other histories have other forms or come from gateways)
                        return Err(format!("a host that is not the gateway got {:02x?} from {from}", &b[..n]));
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => continue,
                    Err(_) => break,
                }
            }
        }
        Ok(())
    }
}
impl Sim {
    /// Another host sends a datagram to the client's socket.
    pub fn send_from(&mut self, o: &Others, which: u8, b: &[u8]) {
        let peer = self.peer.expect("the client has not spoken yet");
        if self.h.is_some() {
            let _ = own(|| o.0[which as usize % o.0.len()].send_to(b, peer));
        }
    }
}

// ---------------------------------------------------------------- addresses
/// kind: 0 individual, 1 free, 2 two-level, 3 three-level group (as in codec_a::address)
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Addr {
    pub kind: u8,
    pub raw: u16,
}
impl Addr {
    pub fn knx(&self) -> KnxAddress {
        crate::codec_a::address(self.kind, self.raw)
    }
    pub fn group(&self) -> bool {
        self.kind != 0
    }
    pub fn read_req(&self) -> Vec<u8> {
        crate::codec_a::reference_req(self.group(), self.raw, 3, &None)
    }
    pub fn write_req(&self, p: &Payload) -> Vec<u8> {
        crate::codec_a::reference_req(self.group(), self.raw, 3, &Some(p.clone()))
    }
    pub fn c2(&self) -> u8 {
        if self.group() {
            0xe0
        } else {
            0x60
        }
    }
}
/// Requests are equal (the frame-type bit is not compared beyond 14 octets of data).
pub fn same_request(got: &[u8], want: &[u8]) -> bool {
    if want.len() > 11 + 14 && got.len() == want.len() {
        let (mut g, mut w) = (got.to_vec(), want.to_vec());
        g[2] &= 0x7f;
        w[2] &= 0x7f;
        return g == w;
    }
    got == want
}
/// The individual address granted with a channel: mostly the one the generated sources contain.
pub fn granted_address(ch: u8) -> u16 {
    match ch % 5 {
        0 | 1 => 0x11fa,
        2 => 0,
        3 => 0xffff,
        _ => u16::from_be_bytes([ch.reverse_bits(), ch]),
    }
}
