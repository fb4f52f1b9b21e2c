//! Session properties C21-C27: sequence numbers, connecting, robustness, heartbeats,
//! disconnecting, status queries.
use crate::codec_a::ck;
use crate::engine::*;
use crate::session_a::*;
use crate::sim::*;
use crate::wire::{self, LData, Payload, Sent};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

pub fn con(a: Addr, p: &Payload, neg: bool) -> Vec<u8> {
    LData { c1: 0xbc | neg as u8, c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: p.clone() }.bytes(wire::L_CON)
}
pub fn value(a: Addr, p: &Payload) -> Vec<u8> {
    LData { c1: 0xbc, c2: a.c2(), src: 0x1102, dst: a.raw, apci: 1, payload: p.clone() }.bytes(wire::L_IND)
}
const A: Addr = Addr { kind: 3, raw: 0x0a01 };

/// The session works on the current channel: an operation succeeds (client) or is sent and
/// a telegram is delivered (monitor), behind whatever was queued before.
pub async fn works(s: &mut Sim, a: Addr, p: &Payload) -> Result<(), String> {
    s.sync().await?;
    let m = s.mark();
    let p = match p {
        Payload::Long(v) if v.len() > 253 => &Payload::Small(1),
        p => p,
    };
    let read_first = p.value().first().is_some_and(|b| b & 1 == 1);
    if s.kind == Kind::Client && read_first {
        works_read(s, a, p).await?;
    }
    let m = m.max(s.mark());
    let mut call = s.write(a, p);
    let (ch, _, req) = s.request(m, "write").await.map_err(|e| format!("the session does not work: {e} ({:?})", call.what))?;
    ck!(ch == s.ch, "write sent on channel {ch} instead of {}", s.ch);
    ck!(same_request(&req, &a.write_req(p)), "write sent {req:02x?}");
    if s.kind == Kind::Client {
        s.tele(&con(a, p, false));
    }
    let o = s.done(&mut call).await?;
    ck!(o == Out::Unit, "the session does not work: write returned {o:?}");
    match s.kind {
        Kind::Client if read_first => {}
        Kind::Client => works_read(s, a, p).await?,
        Kind::Monitor => {
            s.tele(&value(a, &Payload::Long(b"works".to_vec())));
            loop {
                let h = s.next_msg();
                match s.joined(h, "next_msg").await? {
                    Ok(g) if g.value == b"works" => break,
                    Ok(_) => {}
                    Err(e) => return Err(format!("the session does not work: next_msg failed: {e}")),
                }
            }
            let h = s.is_connected();
            ck!(s.joined(h, "is_connected").await?, "monitor does not count as connected");
        }
    }
    Ok(())
}
async fn works_read(s: &mut Sim, a: Addr, p: &Payload) -> Result<(), String> {
    let m = s.mark();
    let mut call = s.read(a);
    let (ch, _, req) = s.request(m, "read").await.map_err(|e| format!("the session does not work: {e} ({:?})", call.what))?;
    ck!(ch == s.ch, "read sent on channel {ch} instead of {}", s.ch);
    ck!(same_request(&req, &a.read_req()), "read sent {req:02x?}");
    s.tele(&value(a, p));
    let o = s.done(&mut call).await?;
    ck!(o == Out::Bytes(if matches!(p, Payload::Long(v) if v.is_empty()) { vec![0] } else { p.value() }), "the session does not work: read returned {o:02x?} instead of {p:02x?}");
    Ok(())
}
/// Operations fail at once and send nothing.
pub async fn dead(s: &mut Sim, which: u8, why: &str) -> Result<(), String> {
    s.settle().await;
    let m = s.mark();
    let calls = match (s.kind, which % 4) {
        (Kind::Client, 0) => vec![s.read(A)],
        (_, 1) => vec![s.write(A, &Payload::Small(1))],
        (Kind::Client, 2) => vec![s.status()],
        (_, 3) => vec![s.disconnect()],
        _ => vec![s.read(A)],
    };
    for mut c in calls {
        let o = s.done(&mut c).await.map_err(|e| format!("{e} {why}"))?;
        ck!(o.is_err(), "{} returned {o:?} {why}", c.what);
    }
    if s.kind == Kind::Monitor {
        let h = s.is_connected();
        ck!(!s.joined(h, "is_connected").await?, "monitor counts as connected {why}");
    }
    s.settle().await;
    let f = s.since(m, |f| !matches!(f, Sent::ConnectReq { .. }));
    ck!(f.is_empty(), "an operation sent {f:02x?} {why}");
    Ok(())
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E21 {
    WriteOk(Addr, Payload),
    WriteNeg(Addr),
    ReadOk(Addr),
    TimedOut(bool),
    Cancelled(bool, bool),
    SendFails(bool),
    TooLong,
    Many(u16),
    Traffic(u8, LData),
    Noise(Noise),
    GwAck(u8),
    Advance(u32),
    Flap(u8, Chan),
    GwDisc(Chan),
    Together(u8),
    /// several callers at once while the socket is full for so many ms; some give up (bit
    /// mask); the tunnel may be lost meanwhile
    Held(u8, u16, u8, Option<(u8, Chan)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C21 {
    kind: Kind,
    chan: Chan,
    ev: Vec<E21>,
}
/// The gateway confirms each request it sees (to a client) until all calls have returned.
async fn serve(s: &mut Sim, m: usize, mut calls: Vec<Call>) -> Result<(), String> {
    let mut at = m;
    for _ in 0..calls.len() {
        s.until_msg(|s| !s.requests(at).is_empty(), |_| "a concurrent write sends nothing".into()).await?;
        let i = at + s.log[at..].iter().position(|r| matches!(r.sent, Sent::TunReq { .. })).unwrap();
        if let Sent::TunReq { cemi, .. } = &s.log[i].sent.clone() {
            let mut l = cemi.clone();
            l[0] = wire::L_CON;
            if s.kind == Kind::Client {
                s.tele(&l);
            }
        }
        at = i + 1;
    }
    for c in &mut calls {
        s.done(c).await?;
    }
    Ok(())
}
async fn c21_case(c: C21) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    let mut conns = vec![(0usize, c.chan.ch)];
    let client = c.kind == Kind::Client;
    let mut faults = 0;
    for e in &c.ev {
        s.sync().await?;
        let m = s.mark();
        match e {
            E21::WriteOk(a, p) => {
                let mut call = s.write(*a, p);
                s.request(m, "write").await?;
                if client {
                    s.tele(&con(*a, p, false));
                }
                s.done(&mut call).await?;
            }
            E21::WriteNeg(a) => {
                let mut call = s.write(*a, &Payload::Small(1));
                s.request(m, "write").await?;
                if client {
                    s.tele(&con(*a, &Payload::Small(1), true));
                }
                s.done(&mut call).await?;
            }
            E21::ReadOk(a) => {
                let mut call = s.read(*a);
                s.request(m, "read").await?;
                s.tele(&value(*a, &Payload::Small(1)));
                s.done(&mut call).await?;
            }
            E21::TimedOut(w) => {
                let mut call = if *w { s.write(A, &Payload::Small(1)) } else { s.read(A) };
                s.request(m, "operation").await?;
                s.done_within(&mut call, Duration::from_secs(11)).await?;
            }
            E21::Cancelled(w, started) => {
                let call = if *w { s.write(A, &Payload::Small(1)) } else { s.read(A) };
                if *started {
                    s.settle().await;
                }
                drop(call);
                s.settle().await;
            }
            E21::SendFails(w) => {
                let before = fault_hits().0;
                fail_send(wire::TUN_REQ);
                let mut call = if *w { s.write(A, &Payload::Small(1)) } else { s.read(A) };
                s.settle().await;
                faults += fault_hits().0 - before;
                s.done_within(&mut call, Duration::from_secs(11)).await?;
            }
            E21::TooLong => {
                let mut call = s.write(A, &Payload::Long(vec![1; 300]));
                s.done(&mut call).await?;
            }
            E21::Many(n) => {
                for i in 0..*n {
                    let m = s.mark();
                    let p = Payload::Small(i as u8 & 63);
                    let mut call = s.write(A, &p);
                    s.request(m, "write").await?;
                    if client {
                        s.tele(&con(A, &p, false));
                    }
                    s.done(&mut call).await?;
                }
            }
            E21::Traffic(n, l) => {
                for _ in 0..*n % 40 {
                    s.tele(&l.bytes(wire::L_IND));
                }
            }
            E21::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b);
            }
            E21::GwAck(st) => {
                let last = s.requests(0).last().map(|r| r.1).unwrap_or(0);
                let f = wire::tun_ack(s.ch, last, *st);
                s.send(&f);
            }
            E21::Advance(ms) => s.advance_ms(*ms as u64).await,
            E21::Flap(st, ch) => {
                s.state_error(*st);
                s.await_connect_req().await?;
                conns.push((s.mark(), ch.ch));
                s.grant(ch.ch, ch.ep).await?;
            }
            E21::GwDisc(ch) => {
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
                s.await_connect_req().await?;
                conns.push((s.mark(), ch.ch));
                s.grant(ch.ch, ch.ep).await?;
            }
            E21::Together(n) => {
                // several callers at once; the gateway answers whatever it sees
                let n = 2 + *n as usize % 5;
                let calls: Vec<Call> = (0..n).map(|i| s.write(Addr { kind: 3, raw: 0x0b00 + i as u16 }, &Payload::Small(i as u8))).collect();
                serve(&mut s, m, calls).await?;
            }
            E21::Held(n, ms, give, lost) => {
                hold_sends(wire::TUN_REQ);
                let n = 1 + *n as usize % 5;
                let mut calls: Vec<Call> = vec![];
                for i in 0..n {
                    calls.push(s.write(Addr { kind: 3, raw: 0x0b00 + i as u16 }, &Payload::Small(i as u8)));
                    s.settle().await;
                }
                s.advance_ms(*ms as u64 % 8000).await;
                let mut i = 0;
                calls.retain(|_| {
                    i += 1;
                    give >> (i - 1) & 1 == 0
                });
                s.settle().await;
                if let Some((st, ch)) = lost {
                    s.state_error(*st);
                    s.settle().await;
                    if connect_reqs(&s) == s.answered {
                        // it waits for the request to be sent
                        s.release_sends().await;
                    }
                    s.await_connect_req().await?;
                    conns.push((s.mark(), ch.ch));
                    s.grant(ch.ch, ch.ep).await?;
                    s.release_sends().await;
                    // whatever became of them, they end
                    for c in &mut calls {
                        s.done_within(c, Duration::from_secs(60)).await?;
                    }
                } else {
                    s.release_sends().await;
                    serve(&mut s, m, calls).await?;
                }
            }
        }
    }
    s.sync().await?;
    let mut total = 0;
    for (k, (from, ch)) in conns.iter().enumerate() {
        let to = conns.get(k + 1).map(|x| x.0).unwrap_or(s.log.len());
        let got: Vec<(u8, u8)> = s.log[*from..to]
            .iter()
            .filter_map(|r| match &r.sent {
                Sent::TunReq { ch, seq, .. } | Sent::FeatSet { ch, seq, .. } => Some((*ch, *seq)),
                _ => None,
            })
            .collect();
        for (i, (gch, seq)) in got.iter().enumerate() {
            ck!(gch == ch && *seq == i as u8, "request number {i} of connection {k} (channel {ch}) has channel {gch} and sequence number {seq}, expected {}", i as u8);
        }
        if c.kind == Kind::Monitor {
            ck!(!got.is_empty(), "monitor sent no initial feature request");
        }
        total = total.max(got.len());
    }
    s.check_wellformed()?;
    Ok(Info::nt(total > 2)
        .label(c.kind == Kind::Monitor, "monitor")
        .label(total > 256, "wraps around")
        .label(faults > 0, "failed send")
        .label(held_hits() > 0, "full socket")
        .label(conns.len() > 1, "with reconnection")
        .label(c.ev.iter().any(|e| matches!(e, E21::TimedOut(_))), "with time-out"))
}
pub fn c21(c: &mut Ctx) {
    c.rule("histories of operations that succeed, are refused by the bus, time out, are abandoned, cannot be sent, are too long or run concurrently, with traffic and reconnections, on both client kinds; per connection the numbers must be 0, 1, 2 ... modulo 256 on the granted channel; non-trivial: over two requests on a connection");
    let n = c.n(36_000);
    c.generate(
        "sequence numbers",
        n,
        || {
            let short = bx(prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)]);
            let e = prop_oneof![
                8 => (group_addr(), short).prop_map(|(a, p)| E21::WriteOk(a, p)),
                2 => group_addr().prop_map(E21::WriteNeg),
                4 => group_addr().prop_map(E21::ReadOk),
                2 => any::<bool>().prop_map(E21::TimedOut),
                2 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| E21::Cancelled(a, b)),
                2 => any::<bool>().prop_map(E21::SendFails),
                1 => Just(E21::TooLong),
                1 => prop_oneof![4 => 0u16..30, 1 => 250u16..530].prop_map(E21::Many),
                1 => (any::<u8>(), ldata()).prop_map(|(n, l)| E21::Traffic(n, l)),
                1 => noise().prop_map(E21::Noise),
                1 => any::<u8>().prop_map(E21::GwAck),
                1 => (0u32..130_000).prop_map(E21::Advance),
                3 => (status_err(), chan()).prop_map(|(s, c)| E21::Flap(s, c)),
                1 => chan().prop_map(E21::GwDisc),
                1 => any::<u8>().prop_map(E21::Together),
                2 => (any::<u8>(), any::<u16>(), prop_oneof![Just(0u8), any::<u8>()], proptest::option::weighted(0.3, (status_err(), chan()))).prop_map(|(n, ms, g, l)| E21::Held(n, ms, g, l)),
            ];
            bx((kind(), chan(), vec(e, 1..16)).prop_map(|(kind, chan, ev)| C21 { kind, chan, ev }))
        },
        |t| run(|| c21_case(t.clone())),
    );
    crate::threads::threads(c, 1500, None, 0.6, 1);
}

// ------------------------------------------------------------------ C22
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attempt {
    RefuseShort(u8, u8),
    Refuse(u8, Chan),
    /// a success answer cut short
    CutAnswer(u8, Chan),
    /// a success answer with a broken header
    BadHeader(bool, u8, Chan),
    Silence,
    /// datagrams of other services, then nothing
    Foreign(Vec<Foreign>),
    RecvFails,
    /// the following request cannot be sent
    SendFails(u8),
    /// the tunnel is granted but the monitor's feature request cannot be sent
    FeatureFails(Chan),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Foreign {
    Tele(LData),
    Noise(Noise),
    DiscReq(u8),
    DiscRes(u8),
    StateRes(u8, u8),
    Wait(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Loss {
    StateError(u8),
    RecvFails,
    AckSendFails,
    HeartbeatSendFails,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
    attempts: Vec<Attempt>,
    /// other datagrams and delay before the success answer
    first: Vec<Foreign>,
    chan: Chan,
    ops: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C22 {
    kind: Kind,
    conn: Conn,
    again: Vec<(Loss, Conn)>,
    write: (Addr, Payload),
}
async fn play_foreign(s: &mut Sim, v: &[Foreign], budget: &mut u64) {
    let ch = s.ch;
    for f in v {
        match f {
            Foreign::Tele(l) => {
                let b = wire::tun_req(ch, 3, &l.bytes(wire::L_IND));
                s.send(&b)
            }
            Foreign::Noise(n) => {
                let mut b = n.bytes(ch);
                if b.len() >= 4 && b[2..4] == [2, 6] {
                    b[3] = 0x0e;
                }
                s.send(&b)
            }
            Foreign::DiscReq(ch) => s.send(&wire::disc_req(*ch, crate::wire::Ep::ZERO)),
            Foreign::DiscRes(ch) => s.send(&wire::disc_res(*ch, 0)),
            Foreign::StateRes(ch, st) => s.send(&wire::state_res(*ch, *st)),
            Foreign::Wait(ms) => {
                let ms = (*ms as u64 % 6000).min(*budget);
                *budget -= ms;
                s.settle().await;
                s.advance_ms(ms).await;
            }
        }
    }
    s.settle().await;
}
fn connect_reqs(s: &Sim) -> usize {
    s.count(|f| matches!(f, Sent::ConnectReq { .. }))
}
/// The next connection request must come within `max` from now.
async fn next_attempt(s: &mut Sim, max_ms: u64, why: &str) -> Result<(), String> {
    let n = s.answered;
    s.advance_until(Duration::from_millis(max_ms + 1000), &format!("a new connection request after {why}"), |s| connect_reqs(s) > n).await?;
    s.answered = connect_reqs(s);
    Ok(())
}
async fn establish(s: &mut Sim, c: &Conn) -> Result<(), String> {
    let m = s.mark();
    // a connection request is outstanding here
    for (i, a) in c.attempts.iter().enumerate() {
        if let Some(o) = c.ops.get(i) {
            dead(s, *o, "without a tunnel").await?;
        }
        match a {
            Attempt::RefuseShort(ch, st) => {
                s.send(&wire::connect_res_short(*ch, (*st).max(1)));
                next_attempt(s, 10_000, &format!("refusal {st:#x}")).await?;
            }
            Attempt::Refuse(st, ch) => {
                s.send(&wire::connect_res(ch.ch, (*st).max(1), ch.ep, 0x1101));
                next_attempt(s, 10_000, &format!("refusal {st:#x}")).await?;
            }
            Attempt::CutAnswer(len, ch) => {
                let f = wire::connect_res(ch.ch, 0, ch.ep, 0x1101);
                s.send(&f[..*len as usize % f.len()]);
                next_attempt(s, 40_000, "a truncated answer").await?;
            }
            Attempt::BadHeader(ver, v, ch) => {
                let mut f = wire::connect_res(ch.ch, 0, ch.ep, 0x1101);
                let (at, good) = if *ver { (1, 0x10) } else { (0, 6) };
                f[at] = if *v == good { v ^ 0x40 } else { *v };
                s.send(&f);
                next_attempt(s, 40_000, "a malformed answer").await?;
            }
            Attempt::Silence => next_attempt(s, 40_000, "silence").await?,
            Attempt::Foreign(v) => {
                let mut b = 20_000;
                play_foreign(s, v, &mut b).await;
                next_attempt(s, 40_000 - (20_000 - b), "foreign datagrams and silence").await?;
            }
            Attempt::RecvFails => {
                fail_recv();
                s.send(&[0]);
                next_attempt(s, 40_000, "a failed receive").await?;
                fault_hits();
            }
            Attempt::SendFails(n) => {
                let n = 1 + *n as u64 % 3;
                for _ in 0..n {
                    fail_send(wire::CONNECT_REQ);
                }
                next_attempt(s, 40_000 + n * 10_000, "requests that could not be sent").await?;
                fault_hits();
            }
            Attempt::FeatureFails(_) if s.kind == Kind::Client => {}
            Attempt::FeatureFails(ch) => {
                fail_send(wire::FEAT_SET);
                s.send(&wire::connect_res(ch.ch, 0, ch.ep, granted_address(ch.ch)));
                next_attempt(s, 10_000, "a granted tunnel on which sending fails").await?;
                fault_hits();
            }
        }
        let f = s.since(m, |f| !matches!(f, Sent::ConnectReq { .. }));
        ck!(f.is_empty(), "without a tunnel the client sent {f:02x?}");
    }
    let mut b = 25_000;
    play_foreign(s, &c.first, &mut b).await;
    let f = s.since(m, |f| !matches!(f, Sent::ConnectReq { .. }));
    ck!(f.is_empty(), "without a tunnel the client sent {f:02x?}");
    ck!(connect_reqs(s) == s.answered, "a new connection request within 30 s of the last, without a refusal");
    s.grant(c.chan.ch, c.chan.ep).await.map_err(|e| format!("{e} after the tunnel was granted"))?;
    let old = s.since(m, |f| match f {
        Sent::StateReq { ch } | Sent::TunReq { ch, .. } | Sent::FeatSet { ch, .. } | Sent::TunAck { ch, .. } => *ch != c.chan.ch,
        _ => false,
    });
    ck!(old.is_empty(), "the client used another channel than the granted {}: {old:02x?}", c.chan.ch);
    Ok(())
}
async fn c22_case(c: C22) -> Res {
    let mut s = Sim::start(c.kind).await?;
    s.await_connect_req().await?;
    establish(&mut s, &c.conn).await?;
    works(&mut s, c.write.0, &c.write.1).await?;
    let mut lost = 0;
    for (l, conn) in &c.again {
        s.sync().await?;
        let (sh, rh) = fault_hits();
        match l {
            Loss::StateError(st) => s.state_error(*st),
            Loss::RecvFails => {
                fail_recv();
                s.send(&[0]);
                s.settle().await;
                s.settle().await;
                if fault_hits().1 == rh {
                    continue;
                }
            }
            Loss::AckSendFails => {
                fail_send(wire::TUN_ACK);
                let f = wire::tun_req(s.ch, 9, &value(A, &Payload::Small(1)));
                s.send(&f);
                s.settle().await;
                s.settle().await;
                if fault_hits().0 == sh {
                    continue;
                }
            }
            Loss::HeartbeatSendFails => {
                fail_send(wire::STATE_REQ);
                // stop as soon as the send has failed: the next request must not grow stale
                let mut left = 62_000;
                while left > 0 && send_hits() == sh {
                    s.advance_ms(500).await;
                    left -= 500;
                }
                if fault_hits().0 == sh {
                    continue;
                }
            }
        }
        lost += 1;
        next_attempt(&mut s, 10_000, &format!("{l:?}")).await?;
        dead(&mut s, lost as u8, "after the tunnel was lost").await?;
        establish(&mut s, conn).await?;
        works(&mut s, c.write.0, &c.write.1).await?;
    }
    s.check_wellformed()?;
    let all = || std::iter::once(&c.conn).chain(c.again.iter().map(|x| &x.1)).flat_map(|c| &c.attempts);
    Ok(Info::nt(lost > 0 || !c.conn.attempts.is_empty() || !c.conn.first.is_empty())
        .label(c.kind == Kind::Monitor, "monitor")
        .label(lost > 0, "tunnel lost")
        .label(c.again.iter().any(|x| !matches!(x.0, Loss::StateError(_))), "socket failure")
        .label(all().any(|a| matches!(a, Attempt::Refuse(..) | Attempt::RefuseShort(..))), "refused")
        .label(all().any(|a| matches!(a, Attempt::Silence)), "silence")
        .label(all().any(|a| matches!(a, Attempt::CutAnswer(..) | Attempt::BadHeader(..))), "malformed answer")
        .label(all().any(|a| matches!(a, Attempt::Foreign(_))), "foreign datagrams"))
}
fn foreign() -> BoxedStrategy<Vec<Foreign>> {
    bx(vec(
        prop_oneof![
            2 => ldata().prop_map(Foreign::Tele),
            2 => noise().prop_map(Foreign::Noise),
            1 => any::<u8>().prop_map(Foreign::DiscReq),
            1 => any::<u8>().prop_map(Foreign::DiscRes),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Foreign::StateRes(a, b)),
            2 => any::<u16>().prop_map(Foreign::Wait),
        ],
        0..6,
    ))
}
fn attempt() -> BoxedStrategy<Attempt> {
    let refusal = || prop_oneof![proptest::sample::select(vec![0x22u8, 0x23, 0x24, 0x25, 0x29]), 1u8..=255];
    bx(prop_oneof![
        3 => (any::<u8>(), refusal()).prop_map(|(c, s)| Attempt::RefuseShort(c, s)),
        3 => (refusal(), chan()).prop_map(|(s, c)| Attempt::Refuse(s, c)),
        2 => (any::<u8>(), chan()).prop_map(|(n, c)| Attempt::CutAnswer(n, c)),
        1 => (any::<bool>(), any::<u8>(), chan()).prop_map(|(a, b, c)| Attempt::BadHeader(a, b, c)),
        2 => Just(Attempt::Silence),
        2 => foreign().prop_map(Attempt::Foreign),
        1 => Just(Attempt::RecvFails),
        1 => any::<u8>().prop_map(Attempt::SendFails),
        1 => chan().prop_map(Attempt::FeatureFails),
    ])
}
fn loss() -> BoxedStrategy<Loss> {
    bx(prop_oneof![3 => status_err().prop_map(Loss::StateError), 1 => Just(Loss::RecvFails), 1 => Just(Loss::AckSendFails), 1 => Just(Loss::HeartbeatSendFails)])
}
/// Long outages and many losses: patterns, repeated.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long22 {
    kind: Kind,
    attempts: Vec<Attempt>,
    times: u8,
    losses: Vec<Loss>,
    /// outages this long (in repetitions of `attempts`) after a loss
    after: Vec<u8>,
    loss_times: u8,
    chan: Chan,
}
impl Long22 {
    fn case(&self) -> C22 {
        let conn = |n: usize, k: usize| Conn {
            attempts: self.attempts.iter().cloned().cycle().take(self.attempts.len() * n).collect(),
            first: vec![],
            chan: Chan { ch: self.chan.ch.wrapping_add(k as u8), ep: self.chan.ep },
            ops: vec![k as u8],
        };
        let n = self.loss_times as usize;
        C22 {
            kind: self.kind,
            conn: conn(self.times as usize, 0),
            again: (0..n).map(|k| (self.losses[k % self.losses.len()].clone(), conn(self.after.get(k).map_or(0, |x| *x as usize), k + 1))).collect(),
            write: (A, Payload::Small(1)),
        }
    }
}
pub fn c22(c: &mut Ctx) {
    c.rule("connection histories: refusals (short and full, all status codes), truncated and malformed answers, silence, foreign datagrams, failing sends and receives, then success; then losses by state error or socket failure and the same again, up to 360 failed attempts and 80 losses in a row; operations are tried while there is no tunnel; non-trivial: an unsuccessful attempt or a lost tunnel");
    let n = c.n(15_000);
    c.generate(
        "connecting",
        n,
        || {
            let conn = bx((vec(attempt(), 0..4), prop_oneof![2 => bx(Just(vec![])), 1 => foreign()], chan(), vec(any::<u8>(), 0..4)).prop_map(|(attempts, first, chan, ops)| Conn { attempts, first, chan, ops }));
            let w = (group_addr(), prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)]);
            bx((kind(), conn.clone(), vec((loss(), conn), 0..4), w).prop_map(|(kind, conn, again, write)| C22 { kind, conn, again, write }))
        },
        |t| run(|| c22_case(t.clone())),
    );
    let n = c.n(500);
    c.generate(
        "long outages",
        n,
        || {
            let t = || prop_oneof![2 => 0u8..30, 1 => 30u8..=120];
            bx((kind(), vec(attempt(), 1..4), t(), vec(loss(), 1..3), vec(0u8..20, 0..4), prop_oneof![2 => 0u8..12, 1 => 12u8..=80], chan()).prop_map(|(kind, attempts, times, losses, after, loss_times, chan)| Long22 { kind, attempts, times, losses, after, loss_times, chan }))
        },
        |t| run(|| c22_case(t.case())),
    );
    c.enumerate("refusal status codes", (0..2u8).flat_map(|k| (1..=255u8).flat_map(move |s| [(k, s, true), (k, s, false)])), |&(k, st, short)| {
        run(|| async move {
            let kind = if k == 0 { Kind::Client } else { Kind::Monitor };
            let ch = Chan { ch: 5, ep: crate::wire::Ep::ZERO };
            let a = if short { Attempt::RefuseShort(0, st) } else { Attempt::Refuse(st, Chan { ch: 77, ep: ch.ep }) };
            c22_case(C22 { kind, conn: Conn { attempts: vec![a], first: vec![], chan: ch, ops: vec![0] }, again: vec![(Loss::StateError(st), Conn { attempts: vec![], first: vec![], chan: Chan { ch: 6, ep: ch.ep }, ops: vec![] })], write: (A, Payload::Small(1)) }).await
        })
    });
}

// ------------------------------------------------------------------ C23
#[derive(Clone, Debug, Serialize, Deserialize)]
enum During {
    Idle,
    Read(Addr, Payload),
    Write(Addr, Payload),
    Status,
    Disconnect,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C23 {
    kind: Kind,
    chan: Chan,
    steps: Vec<(During, Vec<Noise>, u16)>,
}
async fn c23_case(c: C23) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    let conns = connect_reqs(&s);
    let mut total = 0;
    for (d, noise, gap) in &c.steps {
        let m = s.mark();
        let mut call = match (d, c.kind) {
            (During::Read(a, _), Kind::Client) => Some(s.read(*a)),
            (During::Write(a, p), Kind::Client) => Some(s.write(*a, p)),
            (During::Status, Kind::Client) => Some(s.status()),
            (During::Disconnect, _) => Some(s.disconnect()),
            _ => None,
        };
        if call.is_some() {
            s.until("the request of the operation", |s| s.count_since(m, |f| matches!(f, Sent::TunReq { .. } | Sent::StateReq { .. } | Sent::DiscReq { .. })) > 0).await?;
        }
        for n in noise {
            let b = n.bytes(s.ch);
            s.send(&b);
            total += 1;
        }
        s.sync().await.map_err(|e| format!("{e}: the session was disturbed by {noise:02x?}"))?;
        if let Some(call) = call.as_mut() {
            s.pending(call, &format!("because of {noise:02x?}")).await?;
            s.advance_ms(*gap as u64 % 8000).await;
            let want = match d {
                During::Read(a, p) => {
                    s.tele(&value(*a, p));
                    Out::Bytes(p.value())
                }
                During::Write(a, p) => {
                    s.tele(&con(*a, p, false));
                    Out::Unit
                }
                During::Status => {
                    let f = wire::state_res(s.ch, 0);
                    s.send(&f);
                    Out::Status(s.ch, 0)
                }
                _ => {
                    let f = wire::disc_res(s.ch, 0);
                    s.send(&f);
                    if c.kind == Kind::Client {
                        Out::Unit
                    } else {
                        Out::Code(0)
                    }
                }
            };
            let o = s.done(call).await.map_err(|e| format!("{e} after {noise:02x?} and its answer"))?;
            ck!(o == want, "{} returned {o:02x?} after {noise:02x?}", call.what);
            if matches!(d, During::Disconnect) {
                return Ok(Info::nt(total > 0).label(true, "pending disconnect"));
            }
        }
        ck!(connect_reqs(&s) == conns, "a new tunnel was requested after {noise:02x?}");
        works(&mut s, A, &Payload::Long(vec![1, 2, 3])).await.map_err(|e| format!("{e} after {noise:02x?}"))?;
    }
    ck!(connect_reqs(&s) == conns, "a new tunnel was requested");
    s.check_acks()?;
    s.check_wellformed()?;
    Ok(Info::nt(total > 0).label(c.kind == Kind::Monitor, "monitor").label(c.steps.iter().any(|x| matches!(x.0, During::Read(..))), "pending read").label(c.steps.iter().any(|x| matches!(x.0, During::Write(..))), "pending write").label(c.steps.iter().any(|x| matches!(x.0, During::Status)), "pending status query"))
}
pub fn c23(c: &mut Ctx) {
    c.rule("truncated, mislabelled, empty, oversized, unknown and random datagrams, in groups, while idle or with a read, write, status query or disconnect pending, on both client kinds; then the pending call is answered and the session must still work on the same channel; non-trivial: at least one such datagram");
    let n = c.n(48_000);
    c.generate(
        "ignored datagrams",
        n,
        || {
            let d = prop_oneof![
                2 => Just(During::Idle),
                2 => (group_addr(), payload()).prop_map(|(a, p)| During::Read(a, p)),
                2 => (group_addr(), payload()).prop_map(|(a, p)| During::Write(a, p)),
                1 => Just(During::Status),
                1 => Just(During::Disconnect),
            ];
            bx((kind(), chan(), vec((d, vec(junk_noise(), 1..6), any::<u16>()), 1..5)).prop_map(|(kind, chan, steps)| C23 { kind, chan, steps }))
        },
        |t| run(|| c23_case(t.clone())),
    );
    let mut v = vec![];
    for kind in [Kind::Client, Kind::Monitor] {
        for which in 0..6u8 {
            for len in 0..25u8 {
                v.push((kind, Noise::Cut { which, len }));
            }
            for value in 0..=255u8 {
                v.push((kind, Noise::Header { which, version: value % 2 == 0, value }));
            }
        }
        for service in (0x0200..0x0220).chain(0x0300..0x0320).chain(0x0400..0x0440).chain(0x0500..0x0540).chain([0, 0xffff]) {
            v.push((kind, Noise::Unknown { service, body: vec![4, 5, 6, 0, 8, 0, 1] }));
            v.push((kind, Noise::Unknown { service, body: vec![5, 1] }));
        }
    }
    c.enumerate("each kind of ignored datagram", v, |(kind, n)| {
        let t = C23 { kind: *kind, chan: Chan { ch: 5, ep: crate::wire::Ep::ZERO }, steps: vec![(During::Idle, vec![n.clone()], 0)] };
        run(|| c23_case(t))
    });
}

// ------------------------------------------------------------------ C24
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E24 {
    Advance(u32),
    /// traffic at every step of the clock
    Busy(u32, u8, LData),
    Burst(u8, LData),
    Read(Addr),
    Write(Addr, Payload),
    Flap { status: u8, down_ms: u32, refuse: bool, chan: Chan },
    GwDisc { down_ms: u32, chan: Chan },
    Noise(Noise),
    /// so many heartbeats, with a telegram around each so many of them
    Long(u16, u8, LData),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C24 {
    kind: Kind,
    chan: Chan,
    /// does the gateway answer heartbeats
    answer: bool,
    ev: Vec<E24>,
}
async fn pass(s: &mut Sim, ms: u64, answer: bool, mut each: impl FnMut(&mut Sim)) -> Result<(), String> {
    let mut left = ms;
    while left > 0 {
        let d = left.min(500);
        left -= d;
        each(s);
        s.await_acks().await?;
        let m = s.mark();
        s.advance_ms(d).await;
        if answer {
            for _ in 0..s.count_since(m, |f| matches!(f, Sent::StateReq { .. })) {
                let f = wire::state_res(s.ch, 0);
                s.send(&f);
            }
        }
    }
    Ok(())
}
async fn c24_case(c: C24) -> Res {
    let mut s = Sim::start(c.kind).await?;
    s.await_connect_req().await?;
    let mut ups = vec![(s.now(), None, c.chan.ch)];
    s.grant(c.chan.ch, c.chan.ep).await?;
    let mut calls = vec![];
    for e in &c.ev {
        s.sync().await?;
        match e {
            E24::Advance(ms) => pass(&mut s, *ms as u64, c.answer, |_| ()).await?,
            E24::Busy(ms, n, l) => {
                let b = l.bytes(wire::L_IND);
                pass(&mut s, *ms as u64, c.answer, |s| {
                    for _ in 0..1 + n % 8 {
                        s.tele(&b);
                    }
                })
                .await?
            }
            E24::Burst(n, l) => {
                for _ in 0..*n % 150 {
                    s.tele(&l.bytes(wire::L_IND));
                }
                s.await_acks().await?;
            }
            E24::Read(a) => calls.push(s.read(*a)),
            E24::Write(a, p) => calls.push(s.write(*a, p)),
            E24::Flap { status, down_ms, refuse, chan } => {
                s.state_error(*status);
                s.await_connect_req().await?;
                ups.last_mut().unwrap().1 = Some(s.now());
                if *refuse {
                    s.send(&wire::connect_res_short(0, 0x24));
                }
                s.advance_ms(*down_ms as u64).await;
                if s.count(|f| matches!(f, Sent::ConnectReq { .. })) == s.answered && *refuse {
                    let n = s.answered;
                    s.advance_until(Duration::from_secs(45), "a new connection request", |s| connect_reqs(s) > n).await?;
                }
                // never answer a request that has been given up: wait for a fresh one
                let n = connect_reqs(&s);
                if *down_ms > 20_000 {
                    s.advance_until(Duration::from_secs(45), "a new connection request", |s| connect_reqs(s) > n).await?;
                }
                s.answered = connect_reqs(&s);
                ups.push((s.now(), None, chan.ch));
                s.grant(chan.ch, chan.ep).await?;
            }
            E24::GwDisc { down_ms, chan } => {
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
                s.await_connect_req().await?;
                ups.last_mut().unwrap().1 = Some(s.now());
                s.advance_ms(*down_ms as u64 % 25_000).await;
                s.answered = connect_reqs(&s);
                ups.push((s.now(), None, chan.ch));
                s.grant(chan.ch, chan.ep).await?;
            }
            E24::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b);
            }
            E24::Long(n, k, l) => {
                let b = l.bytes(wire::L_IND);
                for i in 0..*n as usize {
                    let m = s.mark();
                    let beat = |s: &Sim| s.count_since(m, |f| matches!(f, Sent::StateReq { .. })) > 0;
                    // most of the time at once, then slowly until the heartbeat
                    let mut left = if i == 0 { 60_000 } else { 3_000 };
                    s.advance_ms(60_500 - left).await;
                    while left > 0 && !beat(&s) {
                        s.advance_ms(500).await;
                        left -= 500;
                    }
                    ck!(beat(&s), "no heartbeat {i} minutes after the last for over 60 s");
                    if c.answer {
                        let f = wire::state_res(s.ch, 0);
                        s.send(&f);
                    }
                    if i % (1 + *k as usize) == 0 {
                        s.tele(&b);
                    }
                    s.sync().await?;
                }
            }
        }
    }
    s.sync().await?;
    let end = s.now();
    let tol = Duration::from_millis(600);
    let min = Duration::from_secs(60);
    let beats: Vec<(Duration, u8)> = s
        .log
        .iter()
        .filter_map(|r| match r.sent {
            Sent::StateReq { ch } => Some((r.at - s.t0, ch)),
            _ => None,
        })
        .collect();
    for w in beats.windows(2) {
        ck!(w[1].0 - w[0].0 + tol >= min, "heartbeats at {:?} and {:?} are less than 60 s apart", w[0].0, w[1].0);
    }
    let mut used = 0;
    for (t_up, t_down, ch) in &ups {
        let to = t_down.unwrap_or(end);
        // heartbeats at the very instant of a loss or connection are attributed by channel
        let mine: Vec<Duration> = beats[used..].iter().take_while(|b| b.0 >= *t_up && b.0 <= to && b.1 == *ch).map(|b| b.0).collect();
        used += mine.len();
        let mut last = *t_up;
        for b in mine.iter().chain([&to]) {
            ck!(*b <= last + min + tol, "no heartbeat between {last:?} and {b:?} while the tunnel on channel {ch} was up from {t_up:?} to {to:?}; heartbeats: {beats:?}");
            last = *b;
        }
    }
    ck!(used == beats.len(), "heartbeat {:?} is sent for no tunnel that is up; tunnels {ups:?}", beats[used]);
    let long = ups.iter().any(|u| u.1.unwrap_or(end) - u.0 > min);
    Ok(Info::nt(long)
        .label(c.kind == Kind::Monitor, "monitor")
        .label(ups.len() > 1, "with reconnection")
        .label(c.ev.iter().any(|e| matches!(e, E24::Busy(..))), "under traffic")
        .label(!calls.is_empty(), "with operations")
        .label(!c.answer, "heartbeats unanswered")
        .label(end > Duration::from_secs(600), "over 10 minutes"))
}
pub fn c24(c: &mut Ctx) {
    c.rule("histories over minutes (some over days) of simulated time with traffic at every step, bursts, operations, unread backlog, reconnections after 0-150 s; heartbeats must be 60 s apart (tolerance 0.6 s) on the tunnel that is up; non-trivial: a tunnel up for over 60 s");
    let n = c.n(4_000);
    c.generate(
        "heartbeats",
        n,
        || {
            let e = prop_oneof![
                5 => (0u32..200_000).prop_map(E24::Advance),
                2 => (0u32..150_000, any::<u8>(), ldata()).prop_map(|(a, b, c)| E24::Busy(a, b, c)),
                1 => (any::<u8>(), ldata()).prop_map(|(a, b)| E24::Burst(a, b)),
                1 => group_addr().prop_map(E24::Read),
                1 => (group_addr(), payload()).prop_map(|(a, p)| E24::Write(a, p)),
                2 => (status_err(), prop_oneof![0u32..20_000, 0u32..150_000], any::<bool>(), chan()).prop_map(|(status, down_ms, refuse, chan)| E24::Flap { status, down_ms, refuse, chan }),
                1 => (any::<u32>(), chan()).prop_map(|(down_ms, chan)| E24::GwDisc { down_ms, chan }),
                1 => noise().prop_map(E24::Noise),
            ];
            bx((kind(), chan(), any::<bool>(), vec(e, 1..10)).prop_map(|(kind, chan, answer, ev)| C24 { kind, chan, answer, ev }))
        },
        |t| run(|| c24_case(t.clone())),
    );
    let n = c.n(64);
    c.generate(
        "long sessions",
        n,
        || {
            let e = prop_oneof![
                3 => (prop_oneof![0u16..300, 0u16..1500], any::<u8>(), ldata()).prop_map(|(a, b, c)| E24::Long(a, b, c)),
                1 => (status_err(), 0u32..20_000, any::<bool>(), chan()).prop_map(|(status, down_ms, refuse, chan)| E24::Flap { status, down_ms, refuse, chan }),
            ];
            bx((kind(), chan(), any::<bool>(), vec(e, 1..4)).prop_map(|(kind, chan, answer, ev)| C24 { kind, chan, answer, ev }))
        },
        |t| run(|| c24_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C25
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Answer {
    Yes,
    /// answered after so many ms
    Late(u16),
    No,
    SendFails,
    NoTunnel(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C25 {
    kind: Kind,
    chan: Chan,
    /// earlier reconnections
    flaps: Vec<(u8, Chan)>,
    before: Vec<Tele>,
    between: Vec<Result<Tele, Noise>>,
    answer: Answer,
    behind: Vec<Tele>,
    after: Vec<u8>,
    idle_ms: u32,
    pending_read: bool,
    /// time before the disconnect; heartbeats are answered
    wait_ms: u32,
    /// as many connection-state answers come in one burst, before the answer or with it
    states: (u8, bool),
}
/// Nothing is sent any more, whatever the gateway sends and however long one waits.
pub async fn silent(s: &mut Sim, after: &[u8], idle_ms: u64, why: &str) -> Result<(), String> {
    s.settle().await;
    let m = s.mark();
    let (ch, ep) = (s.ch, s.ep);
    for a in after {
        let f = match a % 8 {
            0 => wire::tun_req(ch, *a, &value(A, &Payload::Small(1))),
            1 => wire::state_res(ch, 0x21),
            2 => wire::disc_req(ch, ep),
            3 => wire::connect_res(ch.wrapping_add(1), 0, ep, 1),
            4 => wire::feat_res(ch, *a, 8, 0, 1),
            5 => wire::disc_res(ch, 0),
            6 => wire::state_res(ch, 0),
            _ => vec![*a; 3],
        };
        s.send(&f);
        if a % 3 == 0 {
            s.settle().await;
            s.advance_ms(*a as u64 * 50).await;
        }
    }
    s.settle().await;
    s.advance_ms(idle_ms).await;
    let f = s.since(m, |_| true);
    ck!(f.is_empty(), "{why} the client still sends {f:02x?}");
    Ok(())
}
async fn c25_case(c: C25) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    for (st, ch) in &c.flaps {
        flap(&mut s, *st, *ch).await?;
    }
    for t in &c.before {
        s.tele(&t.bytes());
    }
    s.sync().await?;
    pass(&mut s, c.wait_ms as u64, true, |_| ()).await?;
    s.sync().await?;
    let is_disc = |f: &Sent| matches!(f, Sent::DiscReq { .. });
    let mut read = None;
    if c.pending_read && c.kind == Kind::Client {
        let m = s.mark();
        read = Some(s.read(A));
        s.request(m, "read").await?;
    }
    let m = s.mark();
    match &c.answer {
        Answer::NoTunnel(st) => {
            s.state_error((*st).max(1));
            s.await_connect_req().await?;
            if let Some(mut r) = read {
                s.done_within(&mut r, Duration::from_secs(11)).await?;
            }
            let mut call = s.disconnect();
            let o = s.done(&mut call).await?;
            ck!(o.is_err(), "disconnect without a tunnel returned {o:?}");
            s.settle().await;
            let f = s.since(m, |f| is_disc(f));
            ck!(f.is_empty(), "disconnect without a tunnel sent {f:?}");
            return Ok(Info::nt(true).label(true, "no tunnel"));
        }
        Answer::SendFails => {
            let h = fault_hits().0;
            fail_send(wire::DISC_REQ);
            let mut call = s.disconnect();
            let (o, _) = s.done_within(&mut call, Duration::from_millis(if read.is_some() { 21_000 } else { 11_000 })).await?;
            if fault_hits().0 > h {
                ck!(o.is_err(), "disconnect returned {o:?} though its request could not be sent");
            }
            return Ok(Info::nt(true).label(true, "send failure"));
        }
        _ => {}
    }
    let mut call = s.disconnect();
    if let Some(mut r) = read {
        // the read was first; it ends on its own
        s.tele(&value(A, &Payload::Small(1)));
        let o = s.done(&mut r).await?;
        ck!(o == Out::Bytes(vec![1]), "read before the disconnect returned {o:?}");
    }
    s.until("the disconnect request", |s| s.count_since(m, is_disc) > 0).await?;
    let f = s.since(m, is_disc);
    ck!(f == [Sent::DiscReq { ch: s.ch }], "disconnect on channel {} sent {f:?}", s.ch);
    for x in &c.between {
        match x {
            Ok(t) => s.tele(&t.bytes()),
            Err(n) => {
                let b = n.bytes(s.ch);
                s.send(&b);
            }
        }
    }
    let states = |s: &mut Sim| {
        for _ in 0..c.states.0 {
            let f = wire::state_res(s.ch, 0);
            s.send(&f);
        }
    };
    if !c.states.1 {
        states(&mut s);
    }
    s.sync().await?;
    s.pending(&mut call, "before the gateway confirmed").await?;
    let mut info = Info::nt(!c.before.is_empty() || !c.between.is_empty() || !c.flaps.is_empty()).label(c.kind == Kind::Monitor, "monitor").label(c.before.len() > 3, "backlog");
    match &c.answer {
        Answer::No => {
            let (o, _) = s.done_within(&mut call, Duration::from_millis(LIMIT_MS + 600)).await?;
            ck!(o.is_err(), "unanswered disconnect returned {o:?}");
            let f = s.since(m, is_disc);
            ck!(f.len() == 1, "disconnect sent {f:?}");
            info.labels.push("unanswered");
        }
        _ => {
            if let Answer::Late(ms) = &c.answer {
                pass(&mut s, *ms as u64 % 9_300, true, |_| ()).await?;
                s.sync().await?;
                s.pending(&mut call, "before the gateway confirmed").await?;
            }
            if c.states.1 {
                states(&mut s);
            }
            let f = wire::disc_res(s.ch, 0);
            s.send(&f);
            for t in &c.behind {
                let f = wire::tun_req(s.ch, 99, &t.bytes());
                s.send(&f);
            }
            let o = s.done(&mut call).await.map_err(|e| format!("{e} though the gateway confirmed"))?;
            ck!(o == if c.kind == Kind::Client { Out::Unit } else { Out::Code(0) }, "confirmed disconnect returned {o:?}");
            s.settle().await;
            let f = s.since(m, is_disc);
            ck!(f.len() == 1, "disconnect sent {f:?}");
            silent(&mut s, &c.after, c.idle_ms as u64, "after a disconnect").await?;
            for w in 0..4 {
                dead(&mut s, w, "after a disconnect").await?;
            }
            silent(&mut s, &c.after, 500, "after a disconnect").await?;
            info.labels.push("confirmed");
        }
    }
    s.check_wellformed()?;
    Ok(info)
}
pub fn c25(c: &mut Ctx) {
    c.rule("disconnects after generated traffic and reconnections, with telegrams and ignorable datagrams around the answer, answered at once, late or never, without a tunnel, with a failing send, behind a pending read; afterwards gateway frames, minutes of idling and all operations; non-trivial: traffic, reconnection or a fault");
    let n = c.n(30_000);
    c.generate(
        "disconnects",
        n,
        || {
            let a = prop_oneof![6 => Just(Answer::Yes), 3 => any::<u16>().prop_map(Answer::Late), 1 => Just(Answer::No), 1 => Just(Answer::SendFails), 1 => any::<u8>().prop_map(Answer::NoTunnel)];
            let between = vec(prop_oneof![tele().prop_map(Ok), noise().prop_map(Err)], 0..6);
            let backlog = prop_oneof![3 => bx(vec(tele(), 0..6)), 1 => bx(vec(tele(), 100..130))];
            bx((
                (kind(), chan(), vec((status_err(), chan()), 0..3), backlog, between),
                (a, vec(tele(), 0..3), vec(any::<u8>(), 0..8), prop_oneof![0u32..2000, 0u32..250_000], proptest::bool::weighted(0.2), prop_oneof![6 => Just(0u32), 1 => 0u32..65_000, 2 => 50_500u32..61_000], prop_oneof![4 => Just(0u8), 1 => 1u8..50], any::<bool>()),
            )
                .prop_map(|((kind, chan, flaps, before, between), (answer, behind, after, idle_ms, pending_read, wait_ms, n, with))| C25 { states: (n, with), kind, chan, flaps, before, between, answer, behind, after, idle_ms, pending_read, wait_ms }))
        },
        |t| run(|| c25_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C26
#[derive(Clone, Debug, Serialize, Deserialize)]
struct R26 {
    before: Vec<Tele>,
    ep: crate::wire::Ep,
    /// telegrams sent right behind the disconnect request
    behind: u8,
    down_ms: u16,
    chan: Chan,
    write: (Addr, Payload),
    pending: u8,
    /// the answer cannot be sent
    fail: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C26 {
    kind: Kind,
    chan: Chan,
    rounds: Vec<R26>,
}
async fn c26_case(c: C26) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    for (i, r) in c.rounds.iter().enumerate() {
        // what is delivered to a monitor is read before checking that it works
        for t in &r.before {
            if c.kind == Kind::Client || !matches!(t, Tele::Ind { .. }) {
                s.tele(&t.bytes());
            }
        }
        let mut calls = vec![];
        match (r.pending % 4, c.kind) {
            (1, Kind::Client) => calls.push(s.read(A)),
            (2, Kind::Client) => calls.push(s.write(A, &Payload::Small(1))),
            (3, Kind::Client) => calls.push(s.status()),
            _ => {}
        }
        s.sync().await?;
        let m = s.mark();
        let old = s.ch;
        let failed = send_hits();
        if r.fail {
            fail_send(0x020a);
        }
        s.send(&wire::disc_req(old, r.ep));
        for k in 0..r.behind % 3 {
            s.send(&wire::tun_req(old, k, &con(A, &Payload::Small(9), false)));
        }
        let is_res = |f: &Sent| matches!(f, Sent::DiscRes { .. });
        if r.fail {
            s.until("an attempt to answer the gateway's disconnect request", |_| send_hits() > failed).await?;
        } else {
            s.until("the answer to the gateway's disconnect request", |s| s.count_since(m, is_res) > 0).await?;
        }
        let n = s.answered;
        s.advance_until(Duration::from_secs(11), "a connection request after the gateway disconnected", |s| connect_reqs(s) > n).await?;
        s.answered = connect_reqs(&s);
        let f = s.since(m, is_res);
        if r.fail {
            ck!(f.is_empty() || f == [Sent::DiscRes { ch: old, status: 0 }], "disconnect request {i} for channel {old} was answered with {f:?}");
        } else {
            ck!(f == [Sent::DiscRes { ch: old, status: 0 }], "disconnect request {i} for channel {old} was answered with {f:?}");
        }
        let order = s.since(m, |f| matches!(f, Sent::DiscRes { .. } | Sent::ConnectReq { .. }));
        ck!(r.fail || matches!(order[0], Sent::DiscRes { .. }), "the new tunnel was requested before the answer");
        s.advance_ms(r.down_ms as u64 % 20_000).await;
        if c.kind == Kind::Monitor {
            let h = s.is_connected();
            ck!(!s.joined(h, "is_connected").await?, "monitor counts as connected while the tunnel is down");
        }
        drop(calls);
        let m2 = s.mark();
        s.grant(r.chan.ch, r.chan.ep).await.map_err(|e| format!("{e} after the gateway's disconnect request {i} and a new tunnel"))?;
        works(&mut s, r.write.0, &r.write.1).await?;
        let bad = s.since(m2, |f| matches!(f, Sent::TunReq { ch, .. } | Sent::StateReq { ch } | Sent::TunAck { ch, .. } if *ch != r.chan.ch));
        ck!(bad.is_empty(), "old channel used on the new tunnel: {bad:02x?}");
        ck!(s.count_since(m, is_res) <= 1, "disconnect request answered more than once");
    }
    s.check_wellformed()?;
    Ok(Info::nt(true).label(c.kind == Kind::Monitor, "monitor").label(c.rounds.len() > 1, "repeatedly").label(c.rounds.iter().any(|r| r.fail), "answer cannot be sent").label(c.rounds.iter().any(|r| r.pending % 4 > 0), "with a pending call").label(c.rounds.iter().any(|r| r.down_ms % 20_000 > 1000), "slow reconnection"))
}
pub fn c26(c: &mut Ctx) {
    c.rule("one to four gateway disconnects per session at generated points, any channel and endpoint, with telegrams before and right behind, pending calls, a slow new tunnel; non-trivial: every case");
    let n = c.n(36_000);
    c.generate(
        "gateway disconnects",
        n,
        || {
            let w = (group_addr(), prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)]);
            let r = (vec(tele(), 0..5), ep(), any::<u8>(), prop_oneof![Just(0u16), any::<u16>()], chan(), w, any::<u8>(), proptest::bool::weighted(0.1)).prop_map(|(before, ep, behind, down_ms, chan, write, pending, fail)| R26 { before, ep, behind, down_ms, chan, write, pending, fail });
            bx((kind(), chan(), vec(r, 1..5)).prop_map(|(kind, chan, rounds)| C26 { kind, chan, rounds }))
        },
        |t| run(|| c26_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C27
#[derive(Clone, Debug, Serialize, Deserialize)]
struct R27 {
    before: Vec<Tele>,
    between: Vec<Result<Tele, Noise>>,
    wait_ms: u16,
    answer: Option<u8>,
    behind: Vec<Tele>,
    /// what ends the tunnel right behind the answer, in one burst with it
    lost: Option<u8>,
    chan: Chan,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C27 {
    chan: Chan,
    rounds: Vec<R27>,
}
async fn c27_case(c: C27) -> Res {
    let mut s = Sim::up(Kind::Client, c.chan.ch, c.chan.ep).await?;
    let mut traffic = 0;
    for (i, r) in c.rounds.iter().enumerate() {
        for t in &r.before {
            s.tele(&t.bytes());
        }
        s.sync().await?;
        let m = s.mark();
        let mut call = s.status();
        let is_req = |f: &Sent| matches!(f, Sent::StateReq { .. });
        s.until("the connection-state request", |s| s.count_since(m, is_req) > 0).await?;
        let sent_at = s.now();
        for x in &r.between {
            traffic += 1;
            match x {
                Ok(t) => s.tele(&t.bytes()),
                Err(n) => {
                    let b = n.bytes(s.ch);
                    s.send(&b)
                }
            }
        }
        s.sync().await?;
        s.pending(&mut call, "before the gateway answered").await?;
        match r.answer {
            Some(st) => {
                s.advance_ms(r.wait_ms as u64 % 9_300).await;
                s.pending(&mut call, "before the gateway answered").await?;
                let f = wire::state_res(s.ch, st);
                s.send(&f);
                if st == 0 {
                    for t in &r.behind {
                        s.tele(&t.bytes());
                    }
                    for _ in 0..r.lost.map_or(0, |x| x % 5) {
                        s.send(&f);
                    }
                    let f = match r.lost.map(|x| x % 3) {
                        Some(0) => wire::disc_req(s.ch, s.ep),
                        Some(1) => wire::disc_res(s.ch, 0),
                        Some(_) => wire::state_res(s.ch, r.lost.unwrap().max(1)),
                        None => vec![],
                    };
                    if r.lost.is_some() {
                        s.send(&f);
                    }
                }
                let o = s.done(&mut call).await.map_err(|e| format!("{e} though the gateway answered {st:#x}"))?;
                ck!(o == Out::Status(s.ch, st), "status query number {i} returned {o:?}, the gateway answered channel {} status {st}", s.ch);
            }
            None => {
                let (o, _) = s.done_within(&mut call, Duration::from_millis(LIMIT_MS + 600)).await?;
                ck!(o.is_err(), "unanswered status query returned {o:?}");
            }
        }
        // at most one heartbeat can fall into these 10 s
        let f = s.since(m, is_req);
        let beats = s.log[m..].iter().filter(|x| is_req(&x.sent) && x.at - s.t0 > sent_at).count();
        ck!(f.iter().all(|x| *x == Sent::StateReq { ch: s.ch }) && f.len() - beats == 1 && beats <= 1, "status query number {i} on channel {} sent {f:?}", s.ch);
        if r.answer == Some(0) && r.lost.is_some_and(|x| x % 3 == 1) {
            return Ok(Info::nt(true).label(true, "session ended behind the answer"));
        }
        if r.answer.is_some_and(|x| x != 0 || r.lost.is_some()) {
            s.await_connect_req().await?;
            s.grant(r.chan.ch, r.chan.ep).await?;
        } else {
            s.sync().await?;
        }
    }
    s.check_acks()?;
    works(&mut s, A, &Payload::Small(5)).await?;
    Ok(Info::nt(traffic > 0 || c.rounds.len() > 1).label(traffic > 0, "with traffic").label(c.rounds.iter().any(|r| r.answer.is_none()), "unanswered").label(c.rounds.iter().any(|r| matches!(r.answer, Some(1..))), "error status"))
}
pub fn c27(c: &mut Ctx) {
    c.rule("one to five status queries per session with telegrams and ignorable datagrams before, during and right behind the answer (every status code, late, or missing); all telegrams must be acknowledged and the session must work afterwards; non-trivial: traffic or several queries");
    let n = c.n(36_000);
    c.generate(
        "status queries",
        n,
        || {
            let between = vec(prop_oneof![2 => tele().prop_map(Ok), 1 => noise_no_state().prop_map(Err)], 0..7);
            let ans = prop_oneof![4 => Just(Some(0u8)), 3 => any::<u8>().prop_map(Some), 1 => Just(None)];
            let r = (vec(tele(), 0..5), between, prop_oneof![Just(0u16), any::<u16>()], ans, vec(tele(), 0..4), proptest::option::weighted(0.15, any::<u8>()), chan()).prop_map(|(before, between, wait_ms, answer, behind, lost, chan)| R27 { before, between, wait_ms, answer, behind, lost, chan });
            bx((chan(), vec(r, 1..6)).prop_map(|(chan, rounds)| C27 { chan, rounds }))
        },
        |t| run(|| c27_case(t.clone())),
    );
}
