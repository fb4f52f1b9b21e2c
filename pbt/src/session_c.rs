//! Session properties C28-C32: discovery, subscribers, time limits, dropping, idle clients.
use crate::codec_a::ck;
use crate::codec_b::{device_strategy, dib_matches, ep_strategy, families_strategy, frame_strategy, Fr};
use crate::engine::*;
use crate::session_a::*;
use crate::session_b::*;
use crate::sim::*;
use crate::wire::{self, Dib, Ep, LData, Payload, Sent};
use knx_ip_client::packets::core::{SearchResponse, DIB};
use knx_ip_client::transport::udp::UdpClient;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::UdpSocket;
use std::time::Duration;
use tokio::task::{spawn_local, yield_now};

const A: Addr = Addr { kind: 3, raw: 0x0a01 };

// ------------------------------------------------------------------ C28
#[derive(Clone, Debug, Serialize, Deserialize)]
enum D28 {
    Valid(Ep, Dib, Dib),
    Again,
    Times(u8),
    /// a search response cut short
    Cut(u16, Ep, Dib, Dib),
    /// broken header length or version
    Header(bool, u8, Ep, Dib, Dib),
    /// a search response with another service code
    Service(u16, Ep, Dib, Dib),
    /// the blocks in the wrong order
    Swapped(Ep, Dib, Dib),
    Foreign(Fr),
    Raw(Vec<u8>),
    Huge(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C28 {
    timeout_ms: u32,
    /// (gap as a fraction of the time-out in 1/256, sender, datagram)
    ev: Vec<(u8, bool, D28)>,
    fail: Option<u8>,
}
async fn nap(t: &std::time::Instant) {
    for _ in 0..30 {
        yield_now().await;
    }
    if t.elapsed() > Duration::from_millis(3) {
        std::thread::sleep(Duration::from_micros(200));
    }
}
fn same_search(g: &SearchResponse, (ep, dev, fam): &(Ep, Dib, Dib)) -> Result<(), String> {
    let c = &g.control_endpoint;
    let (want, got) = (ep.bytes(), c.packet());
    ck!(want == got, "control endpoint {got:02x?} instead of {want:02x?}");
    dib_matches(&DIB::DeviceInformation(g.device_hardware.clone()), dev)?;
    dib_matches(&DIB::SupportedServiceFamilies(g.supported_service_families.clone()), fam)
}
async fn c28_case(c: C28) -> Res {
    let group = UdpSocket::bind("127.0.0.1:0").expect("bind");
    let other = UdpSocket::bind("127.0.0.1:0").expect("bind");
    group.set_nonblocking(true).expect("nonblocking");
    let errs = [libc::ENETUNREACH, libc::EPERM, libc::ENOBUFS, libc::EHOSTUNREACH, libc::EMSGSIZE, libc::EACCES];
    redirect_multicast(group.local_addr().unwrap(), c.fail.map(|e| errs[e as usize % errs.len()]));
    let timeout = Duration::from_millis(c.timeout_ms as u64);
    let h = spawn_local(async move { UdpClient::search(timeout).await.map_err(|e| e.to_string()) });
    let limit = if SHRINKING.load(std::sync::atomic::Ordering::Relaxed) { Duration::from_secs(1) } else { Duration::from_secs(8) };
    let t = std::time::Instant::now();
    while multicast_sent().is_empty() && !h.is_finished() {
        ck!(t.elapsed() < limit, "search sends no request to 224.0.23.12:3671");
        nap(&t).await;
    }
    if c.fail.is_some() {
        let t = std::time::Instant::now();
        while !h.is_finished() {
            ck!(t.elapsed() < limit, "search does not return though its request could not be sent");
            nap(&t).await;
        }
        return match h.await {
            Ok(Err(_)) => Ok(Info::nt(true).label(true, "send failure")),
            Ok(Ok(v)) => Err(format!("search returned {} answers though its request could not be sent", v.len())),
            Err(e) => Err(format!("search panicked: {e} {:?}", take_panics())),
        };
    }
    if multicast_sent().is_empty() {
        return Err(format!("search returned {:?} without sending a request to 224.0.23.12:3671", h.await.map(|r| r.map(|v| v.len()))));
    }
    let req = multicast_sent()[0].clone();
    let t = std::time::Instant::now();
    let mut b = [0u8; 600];
    let from = loop {
        match own(|| group.recv_from(&mut b)) {
            Ok((_, f)) => break f,
            Err(_) => {
                ck!(t.elapsed() < limit, "harness: the search request does not arrive");
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    };
    let ep = match wire::parse_sent(&req) {
        Sent::SearchReq { ep } => ep,
        o => return Err(format!("search sent {o:02x?}")),
    };
    ck!(ep.port == from.port() && ep.proto == 1, "search request announces {ep:?}, the client receives on port {}", from.port());

    let mut want: Vec<(Ep, Dib, Dib)> = vec![];
    let mut junk = 0;
    let mut total = 0;
    for (gap, first, d) in &c.ev {
        // less than the time-out, with room for the granularity of timers
        let gap = (c.timeout_ms as u64).saturating_sub(4) * *gap as u64 / 256;
        total += gap;
        tokio::time::advance(Duration::from_millis(gap)).await;
        let t = std::time::Instant::now();
        nap(&t).await;
        ck!(!h.is_finished(), "search ended after {total} ms, {gap} ms after the last datagram; its time limit is {} ms", c.timeout_ms);
        let bytes = match d {
            D28::Valid(e, d, f) => {
                want.push((*e, d.clone(), f.clone()));
                wire::search_res(*e, d, f)
            }
            D28::Times(n) => {
                // many devices answer at once
                if let Some(w) = want.last().cloned() {
                    let b = wire::search_res(w.0, &w.1, &w.2);
                    for i in 0..*n {
                        want.push(w.clone());
                        own(|| group.send_to(&b, ("127.0.0.1", ep.port))).expect("harness cannot send");
                        if i % 16 == 15 {
                            let t = std::time::Instant::now();
                            nap(&t).await;
                        }
                    }
                    let t = std::time::Instant::now();
                    nap(&t).await;
                }
                vec![0]
            }
            D28::Again => match want.last().cloned() {
                Some(w) => {
                    want.push(w.clone());
                    wire::search_res(w.0, &w.1, &w.2)
                }
                None => vec![0],
            },
            D28::Cut(n, e, d, f) => {
                let b = wire::search_res(*e, d, f);
                b[..*n as usize % b.len()].to_vec()
            }
            D28::Header(ver, v, e, d, f) => {
                let mut b = wire::search_res(*e, d, f);
                let (at, good) = if *ver { (1, 0x10) } else { (0, 6) };
                b[at] = if *v == good { v ^ 0x40 } else { *v };
                b
            }
            D28::Service(s, e, d, f) => {
                let mut b = wire::search_res(*e, d, f);
                let s = if *s == wire::SEARCH_RES { 0x0204 } else { *s };
                b[2..4].copy_from_slice(&s.to_be_bytes());
                b
            }
            D28::Swapped(e, d, f) => {
                let mut v = e.bytes();
                v.extend(f.bytes());
                v.extend(d.bytes());
                wire::frame(wire::SEARCH_RES, &v)
            }
            D28::Foreign(Fr::SearchRes { .. }) => vec![6, 0x10, 2],
            D28::Foreign(f) => f.bytes(),
            D28::Raw(v) => {
                let mut v = v.clone();
                if v.len() >= 4 && v[2..4] == [2, 2] {
                    v[3] = 3;
                }
                v
            }
            D28::Huge(n) => vec![0x55; 2100 + *n as usize % 8000],
        };
        if !matches!(d, D28::Valid(..) | D28::Again) {
            junk += 1;
        }
        let n = received();
        let to = ("127.0.0.1", ep.port);
        own(|| if *first { group.send_to(&bytes, to) } else { other.send_to(&bytes, to) }).expect("harness cannot send");
        // it has been taken from the socket (or the search uses another call: give it time)
        let t = std::time::Instant::now();
        while received() == n && !h.is_finished() && t.elapsed() < Duration::from_millis(30) {
            nap(&t).await;
        }
        nap(&t).await;
    }
    ck!(!h.is_finished(), "search ended before its time: {:?}", h.await.map(|r| r.map(|v| v.len())));
    let t = std::time::Instant::now();
    // not before the time is over
    tokio::time::advance(timeout - Duration::from_millis(3)).await;
    nap(&t).await;
    ck!(!h.is_finished(), "search ended less than {} ms after the last datagram", c.timeout_ms);
    let mut over = 0;
    while !h.is_finished() && over < 40 {
        tokio::time::advance(Duration::from_millis(5)).await;
        over += 1;
        nap(&t).await;
    }
    let t = std::time::Instant::now();
    while !h.is_finished() {
        ck!(t.elapsed() < limit, "search has not ended {} ms after the last datagram", c.timeout_ms + 200);
        nap(&t).await;
    }
    let got = match h.await {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return Err(format!("search failed: {e}")),
        Err(e) => return Err(format!("search panicked: {e} {:?}", take_panics())),
    };
    ck!(got.len() == want.len(), "search returned {} answers, {} valid ones and {junk} other datagrams were sent", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        same_search(g, w).map_err(|e| format!("answer {i}: {e}"))?;
    }
    ck!(multicast_sent().len() == 1, "search sent {} requests", multicast_sent().len());
    Ok(Info::nt(want.len() + junk > 1).label(junk > 0, "ignorable datagrams").label(total > c.timeout_ms as u64, "longer than the time limit in total").label(want.len() > 5, "more than five answers").label(want.len() > 100, "more than a hundred answers").label(want.is_empty(), "no answer"))
}
pub fn c28(c: &mut Ctx) {
    c.rule("searches with any time limit, answered from two devices by valid, truncated, malformed, reordered, foreign, empty and oversized datagrams at any gap below the limit, or with a failing send; result compared field by field and in order with what was sent, end of the search with the idle limit; non-trivial: more than one datagram, or a failing send");
    let n = c.n(72_000);
    c.generate(
        "searches",
        n,
        || {
            let r = || (ep_strategy(), device_strategy(), families_strategy());
            let d = prop_oneof![
                10 => r().prop_map(|(e, d, f)| D28::Valid(e, d, f)),
                2 => Just(D28::Again),
                1 => (2u8..130).prop_map(D28::Times),
                3 => (any::<u16>(), r()).prop_map(|(n, (e, d, f))| D28::Cut(n, e, d, f)),
                1 => (any::<bool>(), any::<u8>(), r()).prop_map(|(a, v, (e, d, f))| D28::Header(a, v, e, d, f)),
                1 => (any::<u16>(), r()).prop_map(|(s, (e, d, f))| D28::Service(s, e, d, f)),
                1 => r().prop_map(|(e, d, f)| D28::Swapped(e, d, f)),
                2 => frame_strategy(40).prop_map(D28::Foreign),
                2 => vec(any::<u8>(), 0..60).prop_map(D28::Raw),
                1 => any::<u16>().prop_map(D28::Huge),
            ];
            let gap = prop_oneof![2 => Just(0u8), 1 => any::<u8>()];
            bx((prop_oneof![10u32..2000, 10u32..120_000], vec((gap, any::<bool>(), d), 0..14), proptest::option::weighted(0.05, any::<u8>())).prop_map(|(timeout_ms, ev, fail)| C28 { timeout_ms, ev, fail }))
        },
        |t| run(|| c28_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C29
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E29 {
    Subscribe(u8),
    /// the receiver is dropped, or only closed
    Gone(u8, bool),
    Take(u8, u8),
    Lost(u8, Chan),
    GwDisc(Chan),
    /// attempts refused before a tunnel is granted
    Refused(u8, u8, Chan),
    Tele(LData),
    Call(u8),
    Advance(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C29 {
    chan: Chan,
    /// subscribers before the first tunnel
    first: Vec<u8>,
    ev: Vec<E29>,
}
struct Sub {
    rx: Option<tokio::sync::mpsc::Receiver<()>>,
    open: bool,
    cap: u32,
    have: u32,
}
impl Sub {
    fn established(v: &mut [Sub]) {
        for s in v {
            if s.open && s.have < s.cap {
                s.have += 1;
            }
        }
    }
}
fn count_subs(v: &mut [Sub], at: &str) -> Result<(), String> {
    for (i, s) in v.iter_mut().enumerate() {
        if let (Some(rx), true) = (&s.rx, s.open) {
            ck!(rx.len() as u32 == s.have, "subscriber {i} (room for {}) has {} notifications instead of {} {at}", s.cap, rx.len(), s.have);
        }
    }
    Ok(())
}
async fn c29_case(c: C29) -> Res {
    let mut s = Sim::start(Kind::Monitor).await?;
    let mut subs: Vec<Sub> = vec![];
    for cap in &c.first {
        let cap = 1 + *cap as u32 % 4;
        subs.push(Sub { rx: Some(s.subscribe(cap as usize).await?), open: true, cap, have: 0 });
    }
    count_subs(&mut subs, "before the first tunnel")?;
    s.accept(c.chan.ch, c.chan.ep).await?;
    Sub::established(&mut subs);
    let (mut tunnels, mut full, mut gone) = (1, false, false);
    for e in &c.ev {
        s.sync().await?;
        count_subs(&mut subs, &format!("before {e:?}"))?;
        match e {
            E29::Subscribe(cap) => {
                let cap = 1 + *cap as u32 % 4;
                subs.push(Sub { rx: Some(s.subscribe(cap as usize).await?), open: true, cap, have: 0 });
            }
            E29::Gone(i, close) if !subs.is_empty() => {
                let n = subs.len();
                let b = &mut subs[*i as usize % n];
                b.open = false;
                gone = true;
                if *close {
                    if let Some(rx) = &mut b.rx {
                        rx.close();
                    }
                } else {
                    b.rx = None;
                }
            }
            E29::Take(i, k) if !subs.is_empty() => {
                let n = subs.len();
                let b = &mut subs[*i as usize % n];
                if let Some(rx) = &mut b.rx {
                    for _ in 0..=*k % 4 {
                        if rx.try_recv().is_ok() {
                            b.have = b.have.saturating_sub(1);
                        }
                    }
                }
            }
            E29::Gone(..) | E29::Take(..) => {}
            E29::Lost(st, ch) => {
                s.state_error(*st);
                s.await_connect_req().await?;
                s.settle().await;
                count_subs(&mut subs, "before the new tunnel is granted")?;
                full |= subs.iter().any(|x| x.open && x.have == x.cap);
                s.grant(ch.ch, ch.ep).await.map_err(|e| format!("{e} after the tunnel was granted"))?;
                Sub::established(&mut subs);
                tunnels += 1;
            }
            E29::GwDisc(ch) => {
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
                s.await_connect_req().await?;
                full |= subs.iter().any(|x| x.open && x.have == x.cap);
                s.grant(ch.ch, ch.ep).await.map_err(|e| format!("{e} after the tunnel was granted"))?;
                Sub::established(&mut subs);
                tunnels += 1;
            }
            E29::Refused(n, st, ch) => {
                s.state_error(0x21);
                s.await_connect_req().await?;
                for _ in 0..=*n % 3 {
                    s.send(&wire::connect_res_short(0, (*st).max(1)));
                    let k = s.answered;
                    s.advance_until(Duration::from_secs(11), "a new connection request", |s| s.count(|f| matches!(f, Sent::ConnectReq { .. })) > k).await?;
                    s.answered = s.count(|f| matches!(f, Sent::ConnectReq { .. }));
                    count_subs(&mut subs, "after a refused request")?;
                }
                full |= subs.iter().any(|x| x.open && x.have == x.cap);
                s.grant(ch.ch, ch.ep).await.map_err(|e| format!("{e} after the tunnel was granted"))?;
                Sub::established(&mut subs);
                tunnels += 1;
            }
            E29::Tele(l) => s.tele(&l.bytes(wire::L_IND)),
            E29::Call(k) => {
                let mut c = if *k % 2 == 0 { s.read(A) } else { s.write(A, &Payload::Small(*k & 63)) };
                let o = s.done(&mut c).await?;
                ck!(o == Out::Unit, "{} returned {o:?}", c.what);
            }
            E29::Advance(ms) => s.advance_ms(*ms as u64).await,
        }
    }
    works(&mut s, A, &Payload::Small(3)).await?;
    count_subs(&mut subs, "at the end")?;
    for (i, b) in subs.iter_mut().enumerate() {
        if let (Some(rx), true) = (&mut b.rx, b.open) {
            let mut n = 0;
            while rx.try_recv().is_ok() {
                n += 1;
            }
            ck!(n == b.have, "subscriber {i} received {n} notifications instead of {}", b.have);
        }
    }
    Ok(Info::nt(!subs.is_empty() && tunnels > 1).label(full, "a full subscriber").label(gone, "a subscriber that is gone").label(!c.first.is_empty(), "subscribed before the first tunnel").label(tunnels > 4, "over four tunnels"))
}
pub fn c29(c: &mut Ctx) {
    c.rule("monitor histories of subscribing (room for 1-4), closing, dropping and reading subscribers, lost, closed and refused tunnels, telegrams, operations and time; notification counts compared with a model after every step; non-trivial: a subscriber and more than one tunnel");
    let n = c.n(60_000);
    c.generate(
        "subscribers",
        n,
        || {
            let e = prop_oneof![
                4 => any::<u8>().prop_map(E29::Subscribe),
                2 => (any::<u8>(), any::<bool>()).prop_map(|(i, b)| E29::Gone(i, b)),
                3 => (any::<u8>(), any::<u8>()).prop_map(|(i, n)| E29::Take(i, n)),
                5 => (status_err(), chan()).prop_map(|(s, c)| E29::Lost(s, c)),
                2 => chan().prop_map(E29::GwDisc),
                1 => (any::<u8>(), any::<u8>(), chan()).prop_map(|(n, s, c)| E29::Refused(n, s, c)),
                2 => ldata().prop_map(E29::Tele),
                1 => any::<u8>().prop_map(E29::Call),
                1 => (0u32..70_000).prop_map(E29::Advance),
            ];
            bx((chan(), vec(any::<u8>(), 0..4), vec(e, 1..16)).prop_map(|(chan, first, ev)| C29 { chan, first, ev }))
        },
        |t| run(|| c29_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C30
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Read,
    Write,
    Status,
    Disconnect,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct R30 {
    op: Op,
    addr: Addr,
    payload: Payload,
    /// traffic every `every_ms` while the operation is outstanding
    traffic: Vec<Around>,
    every_ms: u16,
    burst: u8,
    /// answered after this time
    answer_ms: Option<u16>,
    /// the next operation is already waiting when this one is outstanding
    overlap: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C30 {
    kind: Kind,
    chan: Chan,
    rounds: Vec<R30>,
}
fn start(s: &Sim, r: &R30) -> Call {
    match r.op {
        Op::Read => s.read(r.addr),
        Op::Write => s.write(r.addr, &r.payload),
        Op::Status => s.status(),
        Op::Disconnect => s.disconnect(),
    }
}
fn is_req(op: Op, f: &Sent) -> bool {
    match op {
        Op::Read | Op::Write => matches!(f, Sent::TunReq { .. }),
        Op::Status => matches!(f, Sent::StateReq { .. }),
        Op::Disconnect => matches!(f, Sent::DiscReq { .. }),
    }
}
/// May this be sent while the operation is outstanding without answering it?
fn unrelated(op: Op, x: &Around) -> bool {
    if let Around::Many(_, x) = x {
        return unrelated(op, x);
    }
    match op {
        Op::Read => !matches!(x, Around::Value { .. }),
        Op::Write => !matches!(x, Around::Con { .. }),
        Op::Status => !matches!(x, Around::Noise(Noise::StateOk)),
        Op::Disconnect => true,
    }
}
async fn c30_case(c: C30) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    let mut next: Option<Call> = None;
    let (mut timed_out, mut answered, mut busy, mut chained) = (0, 0, 0, false);
    let mut ended = false;
    // a monitor's only operation with an answer is the disconnect
    let rounds: Vec<R30> = c.rounds.iter().cloned().map(|mut r| { if c.kind == Kind::Monitor { r.op = Op::Disconnect } r }).collect();
    let mut m = s.mark();
    for (i, r) in rounds.iter().enumerate() {
        let mut call = match next.take() {
            Some(c) => c,
            None => {
                s.sync().await?;
                m = s.mark();
                start(&s, r)
            }
        };
        let (op, a) = (r.op, r.addr);
        s.until_msg(|s| s.count_since(m, |f| is_req(op, f)) > 0, |_| format!("operation {i} ({}) sends nothing", call.what)).await?;
        if r.overlap && i + 1 < rounds.len() {
            next = Some(start(&s, &rounds[i + 1]));
            chained = true;
        }
        let mut spent = 0u64;
        let every = 50 + r.every_ms as u64 % 3000;
        let until = r.answer_ms.map(|t| t as u64 % (LIMIT_MS - 500));
        let mut k = 0;
        loop {
            // before any traffic: the next operation may be outstanding already
            if let Some(o) = call.result().await? {
                ck!(until.is_none(), "operation {i} ({}) returned {o:02x?} after {spent} ms, its answer would have come at {} ms", call.what, until.unwrap());
                break;
            }
            for _ in 0..=r.burst % 8 {
                if r.traffic.is_empty() {
                    break;
                }
                let x = match &r.traffic[k % r.traffic.len()] {
                    Around::Many(_, x) => x,
                    x => x,
                };
                k += 1;
                if !matches!(x, Around::Wait(_)) && unrelated(op, x) {
                    x.play(&mut s, a).await?;
                    busy += 1;
                }
            }
            s.sync().await?;
            if let Some(u) = until {
                if spent >= u {
                    break;
                }
            }
            ck!(spent < LIMIT_MS + 600, "operation {i} ({}) has not ended after {spent} ms with traffic every {every} ms", call.what);
            // in small pieces: the moment the operation ends is when a waiting one is sent
            let mut d = until.map(|u| u - spent).unwrap_or(every).min(every).min((LIMIT_MS + 600).saturating_sub(spent).max(1));
            while d > 0 && call.result().await?.is_none() {
                let k = d.min(100);
                m = s.mark();
                s.advance_ms(k).await;
                spent += k;
                d -= k;
            }
        }
        match until {
            Some(_) => {
                s.pending(&mut call, "before its answer").await?;
                match op {
                    Op::Read => s.tele(&value(a, &r.payload)),
                    Op::Write => s.tele(&con(a, &r.payload, false)),
                    Op::Status => {
                        let f = wire::state_res(s.ch, 0);
                        s.send(&f)
                    }
                    Op::Disconnect => {
                        let f = wire::disc_res(s.ch, 0);
                        s.send(&f)
                    }
                }
                m = s.mark();
                let o = s.done(&mut call).await.map_err(|e| format!("{e} (operation {i}) after its answer at {spent} ms"))?;
                let want = match op {
                    Op::Read => Out::Bytes(r.payload.value()),
                    Op::Write => Out::Unit,
                    Op::Status => Out::Status(s.ch, 0),
                    Op::Disconnect if c.kind == Kind::Client => Out::Unit,
                    Op::Disconnect => Out::Code(0),
                };
                ck!(o == want, "operation {i} ({}) answered at {spent} ms returned {o:02x?} instead of {want:02x?}", call.what);
                answered += 1;
                if op == Op::Disconnect {
                    ended = true;
                    if let Some(mut n) = next.take() {
                        let o = s.done_within(&mut n, Duration::from_millis(LIMIT_MS + 600)).await?.0;
                        ck!(o.is_err(), "{} returned {o:?} after a disconnect", n.what);
                    }
                    break;
                }
            }
            None => {
                let o = s.done(&mut call).await?;
                ck!(o.is_err(), "operation {i} ({}) got no answer and returned {o:02x?}", call.what);
                timed_out += 1;
            }
        }
    }
    if !ended {
        drop(next);
        s.settle().await;
        works(&mut s, A, &Payload::Long(vec![7, 8])).await.map_err(|e| format!("{e} (after {timed_out} operations timed out)"))?;
    }
    s.check_wellformed()?;
    Ok(Info::nt(busy > 0 || rounds.len() > 1)
        .label(timed_out > 0, "timed out")
        .label(timed_out > 0 && busy > 0, "timed out under traffic")
        .label(answered > 0 && timed_out > 0, "answered and timed out")
        .label(chained, "waiting callers")
        .label(rounds.iter().any(|r| r.op == Op::Status), "status")
        .label(rounds.iter().any(|r| r.op == Op::Disconnect), "disconnect"))
}
/// How the tunnel goes away under an outstanding operation.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Gone {
    State(u8),
    GwDisc(Ep),
    /// a disconnect response nobody asked for
    Bye(u8),
    Recv,
    Ack,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct L30 {
    kind: Kind,
    chan: Chan,
    op: Op,
    addr: Addr,
    payload: Payload,
    before: Vec<Around>,
    at_ms: u16,
    gone: Gone,
    /// the next tunnel is granted this long after the loss
    again: Option<(u16, Chan)>,
    behind: Vec<Around>,
}
async fn c30_lost(c: L30) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    let op = if c.kind == Kind::Monitor { Op::Disconnect } else { c.op };
    let r = R30 { op, addr: c.addr, payload: c.payload.clone(), traffic: vec![], every_ms: 0, burst: 0, answer_ms: None, overlap: false };
    let m = s.mark();
    let mut call = start(&s, &r);
    s.until_msg(|s| s.count_since(m, |f| is_req(op, f)) > 0, |_| format!("{} sends nothing", call.what)).await?;
    let mut spent = 0;
    let quiet = |v: &Vec<Around>| v.iter().filter(|x| unrelated(op, x) && !matches!(x, Around::Many(..) | Around::Wait(_))).cloned().collect::<Vec<_>>();
    play_around(&mut s, c.addr, &quiet(&c.before), &mut call, &mut spent).await?;
    let at = c.at_ms as u64 % (LIMIT_MS - 500);
    s.advance_ms(at).await;
    spent += at;
    s.pending(&mut call, "without an answer").await?;
    let hits = fault_hits();
    let mut lost = true;
    let answered = match &c.gone {
        Gone::State(st) => {
            s.state_error((*st).max(1));
            op == Op::Status
        }
        Gone::GwDisc(ep) => {
            let f = wire::disc_req(s.ch, *ep);
            s.send(&f);
            false
        }
        Gone::Bye(st) => {
            let f = wire::disc_res(s.ch, *st);
            s.send(&f);
            op == Op::Disconnect
        }
        Gone::Recv => {
            fail_recv();
            s.send(&[0]);
            s.settle().await;
            lost = fault_hits().1 > hits.1;
            false
        }
        Gone::Ack => {
            fail_send(wire::TUN_ACK);
            let f = wire::tun_req(s.ch, 9, &value(Addr { kind: 3, raw: !c.addr.raw }, &Payload::Small(1)));
            s.send(&f);
            s.settle().await;
            lost = fault_hits().0 > hits.0;
            false
        }
    };
    s.settle().await;
    if !lost {
        return Ok(Info::nt(false));
    }
    let bye = matches!(c.gone, Gone::Bye(_));
    let mut again = if bye { None } else { c.again.clone() };
    let lost_at = spent;
    if !bye {
        s.await_connect_req().await.map_err(|e| format!("{e} after {:?}", c.gone))?;
    }
    let mut up = bye;
    loop {
        if let Some(o) = call.result().await? {
            ck!(answered || o.is_err(), "{} without an answer returned {o:02x?}, {} ms after it was sent, {} ms after {:?}", call.what, spent, spent - lost_at, c.gone);
            break;
        }
        ck!(spent < LIMIT_MS + 600, "{} has not ended {spent} ms after it was sent, {} ms after {:?}", call.what, spent - lost_at, c.gone);
        if let Some((after, ch)) = &again {
            if spent - lost_at >= *after as u64 % 12_000 {
                s.grant(ch.ch, ch.ep).await?;
                play_around(&mut s, c.addr, &quiet(&c.behind), &mut call, &mut 0).await.or_else(|e| if e.contains("Err(") { Ok(()) } else { Err(e) })?;
                (up, again) = (true, None);
                continue;
            }
        }
        s.advance_ms(100).await;
        spent += 100;
    }
    fault_hits();
    if !bye {
        if !up {
            // the client keeps asking at least every 40 seconds
            let n = s.answered;
            s.advance_until(Duration::from_millis(41_000), "a connection request", |s| s.count(|f| matches!(f, Sent::ConnectReq { .. })) > n).await?;
            s.answered = s.count(|f| matches!(f, Sent::ConnectReq { .. }));
            s.grant(c.chan.ch ^ 1, c.chan.ep).await?;
        }
        works(&mut s, A, &Payload::Long(vec![7, 8])).await.map_err(|e| format!("{e} (an operation was outstanding at {:?})", c.gone))?;
    }
    s.check_wellformed()?;
    Ok(Info::nt(true)
        .label(c.kind == Kind::Monitor, "monitor")
        .label(up && !bye, "new tunnel meanwhile")
        .label(bye, "unasked disconnect response")
        .label(matches!(c.gone, Gone::Recv | Gone::Ack), "socket failure"))
}
pub fn c30(c: &mut Ctx) {
    c.rule("one to four operations (read, write, status query, disconnect; the monitor's disconnect) under generated unrelated traffic at a generated rate, each answered at a generated time below its limit or never, one after the other or already waiting; non-trivial: traffic or more than one operation");
    let n = c.n(18_000);
    c.generate(
        "time limits",
        n,
        || {
            let op = prop_oneof![3 => Just(Op::Read), 3 => Just(Op::Write), 2 => Just(Op::Status), 2 => Just(Op::Disconnect)];
            let p = prop_oneof![(0u8..64).prop_map(Payload::Small), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let r = (op, group_addr(), p, vec(around_any(), 0..6), any::<u16>(), any::<u8>(), proptest::option::weighted(0.55, prop_oneof![1 => Just(0u16), 2 => any::<u16>(), 1 => 9000u16..9499]), any::<bool>())
                .prop_map(|(op, addr, payload, traffic, every_ms, burst, answer_ms, overlap)| R30 { op, addr, payload, traffic, every_ms, burst, answer_ms, overlap });
            bx((prop_oneof![4 => Just(Kind::Client), 1 => Just(Kind::Monitor)], chan(), vec(r, 1..5)).prop_map(|(kind, chan, rounds)| C30 { kind, chan, rounds }))
        },
        |t| run(|| c30_case(t.clone())),
    );
    let n = c.n(8_000);
    c.generate(
        "lost tunnels",
        n,
        || {
            let op = prop_oneof![3 => Just(Op::Read), 3 => Just(Op::Write), 2 => Just(Op::Status), 2 => Just(Op::Disconnect)];
            let p = prop_oneof![(0u8..64).prop_map(Payload::Small), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let gone = prop_oneof![3 => status_err().prop_map(Gone::State), 3 => ep().prop_map(Gone::GwDisc), 2 => prop_oneof![2 => Just(0u8), 1 => any::<u8>()].prop_map(Gone::Bye), 1 => Just(Gone::Recv), 1 => Just(Gone::Ack)];
            bx((
                prop_oneof![4 => Just(Kind::Client), 1 => Just(Kind::Monitor)],
                (chan(), op, group_addr(), p),
                vec(around_any(), 0..4),
                prop_oneof![1 => Just(0u16), 2 => any::<u16>()],
                gone,
                proptest::option::weighted(0.7, (prop_oneof![1 => Just(0u16), 2 => any::<u16>()], chan())),
                vec(around_any(), 0..4),
            )
                .prop_map(|(kind, (chan, op, addr, payload), before, at_ms, gone, again, behind)| L30 { kind, chan, op, addr, payload, before, at_ms, gone, again, behind }))
        },
        |t| run(|| c30_lost(t.clone())),
    );
}

// ------------------------------------------------------------------ C31
#[derive(Clone, Debug, Serialize, Deserialize)]
enum When {
    /// before any answer, this long after starting
    Connecting(u16),
    /// this long after a refusal
    Backoff(u16, u8),
    Up,
    /// the tunnel was lost (by a state error, or by the gateway), this long ago
    Lost(bool, u8, u16),
    Disconnected,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E31 {
    Tele(Tele),
    Noise(Noise),
    Op(u8),
    Abort,
    /// reads one message, monitor only
    Take,
    Flap(u8, Chan),
    Advance(u32),
    Burst(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum After {
    Tele(Tele),
    Noise(Noise),
    StateError(u8),
    Connect(Chan),
    DiscReq,
    DiscRes(u8),
    Advance(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C31 {
    kind: Kind,
    chan: Chan,
    before: Vec<E31>,
    when: When,
    /// sent but not yet handled when the handle is dropped
    unread: Vec<Tele>,
    fail_disc: bool,
    after: Vec<After>,
}
async fn c31_case(c: C31) -> Res {
    let mut s = Sim::start(c.kind).await?;
    s.await_connect_req().await?;
    let mut up = false;
    if !matches!(c.when, When::Connecting(_) | When::Backoff(..)) {
        s.grant(c.chan.ch, c.chan.ep).await?;
        up = true;
        let mut calls: Vec<Call> = vec![];
        let mut takes = vec![];
        for e in &c.before {
            match e {
                E31::Tele(t) => s.tele(&t.bytes()),
                E31::Noise(n) => {
                    let b = n.bytes(s.ch);
                    s.send(&b)
                }
                E31::Op(k) => calls.push(match (k % 4, c.kind) {
                    (0, _) => s.read(A),
                    (1, Kind::Client) => s.status(),
                    (_, _) => s.write(A, &Payload::Small(*k & 63)),
                }),
                E31::Abort => {
                    calls.pop();
                }
                E31::Take if c.kind == Kind::Monitor => takes.push(s.next_msg()),
                E31::Take => {}
                E31::Flap(st, ch) => flap(&mut s, *st, *ch).await?,
                E31::Advance(ms) => {
                    s.await_acks().await?;
                    s.advance_ms(*ms as u64).await
                }
                E31::Burst(n) => {
                    for i in 0..*n % 120 {
                        s.tele(&value(A, &Payload::Small(i & 63)));
                        if i % 60 == 59 {
                            s.await_acks().await?;
                        }
                    }
                }
            }
        }
        s.sync().await?;
        for t in &takes {
            t.abort();
        }
        drop(calls);
        s.settle().await;
    }
    match &c.when {
        When::Connecting(ms) => s.advance_ms(*ms as u64).await,
        When::Backoff(ms, st) => {
            s.send(&wire::connect_res_short(0, (*st).max(1)));
            s.settle().await;
            s.advance_ms(*ms as u64 % 20_000).await;
        }
        When::Up => {}
        When::Lost(by_gw, st, ms) => {
            up = false;
            if *by_gw {
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
            } else {
                s.state_error((*st).max(1));
            }
            s.await_connect_req().await?;
            s.advance_ms(*ms as u64).await;
        }
        When::Disconnected => {
            up = false;
            let m = s.mark();
            let mut call = s.disconnect();
            s.until("the disconnect request", |s| s.count_since(m, |f| matches!(f, Sent::DiscReq { .. })) > 0).await?;
            let f = wire::disc_res(s.ch, 0);
            s.send(&f);
            s.done(&mut call).await?;
        }
    }
    s.settle().await;
    // acknowledgements of what is unread here may still be sent
    let unread = if up { c.unread.len() } else { 0 };
    if up {
        for t in &c.unread {
            s.tele(&t.bytes());
        }
    }
    let m = s.mark();
    if c.fail_disc {
        fail_send(wire::DISC_REQ);
    }
    let old = s.ch;
    s.h = None;
    s.settle().await;
    let mut state_errors = 0;
    for a in &c.after {
        match a {
            After::Tele(t) => s.send(&wire::tun_req(old, 3, &t.bytes())),
            After::Noise(n) => s.send(&n.bytes(old)),
            After::StateError(st) => {
                state_errors += 1;
                s.send(&wire::state_res(old, (*st).max(1)))
            }
            After::Connect(ch) => s.send(&wire::connect_res(ch.ch, 0, ch.ep, 0x1101)),
            After::DiscReq => s.send(&wire::disc_req(old, Ep::ZERO)),
            After::DiscRes(st) => s.send(&wire::disc_res(old, *st)),
            After::Advance(ms) => s.advance_ms(*ms as u64).await,
        }
        s.settle().await;
    }
    s.advance_ms(130_000).await;
    let sent = s.since(m, |_| true);
    let (mut disc, mut acks) = (0, 0);
    for f in &sent {
        match f {
            Sent::DiscReq { ch } => {
                disc += 1;
                ck!(!up || *ch == old, "the dropped client disconnected channel {ch} instead of {old}");
            }
            Sent::TunAck { .. } => acks += 1,
            o => return Err(format!("the dropped {:?} sent {o:02x?}", c.kind)),
        }
    }
    ck!(disc <= 1, "the dropped client sent {disc} disconnect requests");
    ck!(acks <= unread, "the dropped client still acknowledges telegrams ({acks}, {unread} were outstanding)");
    Ok(Info::nt(!c.after.is_empty())
        .label(c.kind == Kind::Monitor, "monitor")
        .label(up, "dropped with a tunnel")
        .label(matches!(c.when, When::Connecting(_)), "dropped while connecting")
        .label(matches!(c.when, When::Backoff(..)), "dropped between attempts")
        .label(matches!(c.when, When::Lost(..)), "dropped after a loss")
        .label(state_errors > 0, "state error afterwards")
        .label(c.fail_disc, "the disconnect cannot be sent"))
}
pub fn c31(c: &mut Ctx) {
    c.rule("client and monitor dropped while connecting, between attempts, with a tunnel, after a loss and after a disconnect, with a backlog, abandoned operations and telegrams still unread; afterwards telegrams, state errors, connection responses, disconnects, noise and minutes of time; non-trivial: something happens afterwards");
    let n = c.n(30_000);
    c.generate(
        "dropping",
        n,
        || {
            let b = prop_oneof![
                3 => tele().prop_map(E31::Tele),
                1 => noise().prop_map(E31::Noise),
                3 => any::<u8>().prop_map(E31::Op),
                1 => Just(E31::Abort),
                1 => Just(E31::Take),
                1 => (status_err(), chan()).prop_map(|(s, c)| E31::Flap(s, c)),
                1 => (0u32..130_000).prop_map(E31::Advance),
                1 => any::<u8>().prop_map(E31::Burst),
            ];
            let when = prop_oneof![
                2 => any::<u16>().prop_map(When::Connecting),
                2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| When::Backoff(a, b)),
                5 => Just(When::Up),
                2 => (any::<bool>(), any::<u8>(), prop_oneof![Just(0u16), any::<u16>()]).prop_map(|(g, s, t)| When::Lost(g, s, t)),
                1 => Just(When::Disconnected),
            ];
            let a = prop_oneof![
                2 => tele().prop_map(After::Tele),
                1 => noise().prop_map(After::Noise),
                2 => any::<u8>().prop_map(After::StateError),
                2 => chan().prop_map(After::Connect),
                1 => Just(After::DiscReq),
                1 => any::<u8>().prop_map(After::DiscRes),
                2 => (0u32..100_000).prop_map(After::Advance),
            ];
            bx((kind(), chan(), vec(b, 0..8), when, prop_oneof![2 => bx(Just(vec![])), 1 => bx(vec(tele(), 0..5))], proptest::bool::weighted(0.15), vec(a, 0..8))
                .prop_map(|(kind, chan, before, when, unread, fail_disc, after)| C31 { kind, chan, before, when, unread, fail_disc, after }))
        },
        |t| run(|| c31_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C32
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E32 {
    /// this many telegrams, the generated ones in turn
    Flood(u16, Vec<Tele>),
    /// this many stale values and negative confirmations of the next operation's address
    Stale(u8),
    Feature(u8),
    Noise(Noise),
    Advance(u32),
    GwDisc(Chan),
    StateError(u8, Chan),
    Op(Addr, Payload),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C32 {
    kind: Kind,
    chan: Chan,
    ev: Vec<E32>,
    write: (Addr, Payload),
}
async fn c32_case(c: C32) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    let (mut idle, mut most) = (0u32, 0u32);
    for (at, e) in c.ev.iter().enumerate() {
        match e {
            E32::Stale(n) => {
                let next = |e: &E32| match e {
                    E32::Op(a, _) => Some(*a),
                    _ => None,
                };
                let a = c.ev[at..].iter().find_map(next).unwrap_or(c.write.0);
                for i in 0..*n {
                    let (c1, apci, code) = if i % 2 == 0 { (0xbc, 1 + (i & 2) / 2, wire::L_IND) } else { (0xbd, 2, wire::L_CON) };
                    let l = LData { c1, c2: a.c2(), src: i as u16, dst: a.raw, apci, payload: Payload::Long(b"stale and too long".to_vec()) };
                    s.tele(&l.bytes(code));
                    if i % 50 == 49 {
                        s.await_acks().await.map_err(|e| format!("{e}; {idle} telegrams since the last operation"))?;
                    }
                    idle += 1;
                }
                most = most.max(idle);
            }
            E32::Flood(n, v) => {
                let t = s.now();
                for i in 0..*n {
                    s.tele(&v[i as usize % v.len()].bytes());
                    if i % 50 == 49 {
                        s.await_acks().await.map_err(|e| format!("{e}; {idle} telegrams since the last operation"))?;
                    }
                    idle += 1;
                }
                s.await_acks().await.map_err(|e| format!("{e}; {idle} telegrams since the last operation"))?;
                ck!(s.now() == t, "harness: the clock moved");
                most = most.max(idle);
            }
            E32::Feature(v) => s.feature(8, 0, *v),
            E32::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b)
            }
            E32::Advance(ms) => {
                s.await_acks().await?;
                s.advance_ms(*ms as u64).await
            }
            E32::GwDisc(ch) => {
                let m = s.mark();
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
                s.until_msg(|s| s.count_since(m, |f| matches!(f, Sent::DiscRes { .. })) > 0, |_| format!("the gateway's disconnect request is not answered after {idle} telegrams")).await?;
                s.await_connect_req().await?;
                s.grant(ch.ch, ch.ep).await?;
            }
            E32::StateError(st, ch) => {
                s.state_error(*st);
                s.await_connect_req().await.map_err(|e| format!("{e} after a state error and {idle} telegrams"))?;
                s.grant(ch.ch, ch.ep).await?;
            }
            E32::Op(a, p) => {
                works(&mut s, *a, p).await.map_err(|e| format!("{e} (after {idle} telegrams)"))?;
                idle = 0;
            }
        }
    }
    works(&mut s, c.write.0, &c.write.1).await.map_err(|e| format!("{e} (after {idle} telegrams)"))?;
    s.check_acks()?;
    s.check_wellformed()?;
    Ok(Info::nt(most > 100).label(c.kind == Kind::Monitor, "monitor").label(most > 500, "over 500 telegrams without an operation").label(c.ev.iter().any(|e| matches!(e, E32::GwDisc(_) | E32::StateError(..))), "gateway request"))
}
pub fn c32(c: &mut Ctx) {
    c.rule("sessions without operations under floods of up to 1500 telegrams at a time (acknowledged without the clock moving), with feature responses, noise, heartbeats, gateway disconnects and state errors in between, and operations afterwards; non-trivial: over 100 telegrams since the last operation");
    let n = c.n(12_000);
    c.generate(
        "idle",
        n,
        || {
            let short = || prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let e = prop_oneof![
                6 => (prop_oneof![4 => 0u16..300, 1 => 300u16..1500], vec(tele(), 1..4)).prop_map(|(n, v)| E32::Flood(n, v)),
                2 => any::<u8>().prop_map(E32::Stale),
                1 => any::<u8>().prop_map(E32::Feature),
                1 => noise().prop_map(E32::Noise),
                1 => (0u32..200_000).prop_map(E32::Advance),
                1 => chan().prop_map(E32::GwDisc),
                1 => (status_err(), chan()).prop_map(|(s, c)| E32::StateError(s, c)),
                2 => (group_addr(), short()).prop_map(|(a, p)| E32::Op(a, p)),
            ];
            bx((kind(), chan(), vec(e, 1..8), (group_addr(), short())).prop_map(|(kind, chan, ev, write)| C32 { kind, chan, ev, write }))
        },
        |t| run(|| c32_case(t.clone())),
    );
}
