//! Session properties C33 ff.: the monitor's own requests.
use crate::codec_a::ck;
use crate::engine::*;
use crate::session_a::*;
use crate::sim::*;
use crate::wire::{self, LData, Payload, Sent};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::task::JoinHandle;

// ------------------------------------------------------------------ C33
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E33 {
    Read(Addr),
    Write(Addr, Payload),
    /// several calls at once
    Several(Vec<(Addr, Option<Payload>)>),
    /// several calls at once while the socket is full for so many ms
    Held(Vec<(Addr, Option<Payload>)>, u32),
    /// the send of the call fails
    Fails(Addr, Option<Payload>),
    Connected,
    Subscribe(u8),
    /// start waiting for a message
    Wait,
    Tele(LData),
    /// any confirmation, positive or not
    Con(LData),
    Noise(Noise),
    Advance(u32),
    /// the tunnel is lost (by a state error or a gateway disconnect); calls without a tunnel
    Lost(bool, u8, Vec<(Addr, Option<Payload>)>, u32, Chan),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C33 {
    chan: Chan,
    ev: Vec<E33>,
}
fn start(s: &Sim, a: Addr, p: &Option<Payload>) -> Call {
    match p {
        Some(p) => s.write(a, p),
        None => s.read(a),
    }
}
fn wanted(a: Addr, p: &Option<Payload>) -> Vec<u8> {
    match p {
        Some(p) => a.write_req(p),
        None => a.read_req(),
    }
}
fn too_long(p: &Option<Payload>) -> bool {
    matches!(p, Some(Payload::Long(v)) if v.len() > 253)
}
type Waiter = JoinHandle<Result<knx_ip_client::packets::emi::LDataInd, String>>;
async fn c33_case(c: C33) -> Res {
    let mut s = Sim::up(Kind::Monitor, c.chan.ch, c.chan.ep).await?;
    let mut seq = 1u8;
    let mut waiter: Option<Waiter> = None;
    let mut sent: std::collections::VecDeque<LData> = Default::default();
    let (mut calls, mut while_waiting, mut down, mut refused, mut failed) = (0, false, false, false, false);
    for e in &c.ev {
        s.await_acks().await?;
        s.settle().await;
        // a waiting call has got the first of the messages sent
        if let Some(h) = waiter.take() {
            if sent.is_empty() {
                ck!(!h.is_finished(), "a message was returned though none was sent: {:?}", h.await);
                waiter = Some(h);
            } else {
                let g = s.joined(h, "next_msg").await?.map_err(|e| format!("next_msg failed: {e}"))?;
                let w = sent.pop_front().unwrap();
                ck!(g.l_data.src == w.src && g.l_data.dest == w.dst && g.value == w.payload.value(), "message {g:?} instead of {w:?}");
            }
        }
        let m = s.mark();
        let mut want: Vec<Vec<u8>> = vec![];
        match e {
            E33::Read(_) | E33::Write(..) | E33::Several(_) | E33::Held(..) => {
                let v: Vec<(Addr, Option<Payload>)> = match e {
                    E33::Read(a) => vec![(*a, None)],
                    E33::Write(a, p) => vec![(*a, Some(p.clone()))],
                    E33::Several(v) | E33::Held(v, _) => v.clone(),
                    _ => unreachable!(),
                };
                while_waiting |= waiter.is_some() && !v.is_empty();
                if let E33::Held(..) = e {
                    hold_sends(wire::TUN_REQ);
                }
                let mut cs: Vec<Call> = v.iter().map(|(a, p)| start(&s, *a, p)).collect();
                if let E33::Held(_, ms) = e {
                    s.settle().await;
                    s.advance_ms(*ms as u64).await;
                    s.release_sends().await;
                }
                for ((a, p), call) in v.iter().zip(cs.iter_mut()) {
                    let o = s.done(call).await?;
                    calls += 1;
                    if too_long(p) {
                        refused = true;
                        ck!(o.is_err(), "{} returned {o:02x?} though the value is too long", call.what);
                    } else {
                        ck!(o == Out::Unit, "{} returned {o:02x?} with a tunnel", call.what);
                        want.push(wanted(*a, p));
                    }
                }
            }
            E33::Fails(a, p) => {
                if !too_long(p) {
                    fail_send(wire::TUN_REQ);
                    let mut call = start(&s, *a, p);
                    let o = s.done(&mut call).await?;
                    ck!(o.is_err(), "{} returned {o:02x?} though its request could not be sent", call.what);
                    failed = true;
                }
            }
            E33::Connected => {
                let h = s.is_connected();
                ck!(s.joined(h, "is_connected").await?, "not connected though the tunnel is up");
            }
            E33::Subscribe(n) => {
                let _ = s.subscribe(1 + *n as usize % 4).await?;
            }
            E33::Wait => {
                if waiter.is_none() {
                    waiter = Some(s.next_msg());
                }
            }
            E33::Tele(l) => {
                s.tele(&l.bytes(wire::L_IND));
                sent.push_back(l.clone());
            }
            E33::Con(l) => s.tele(&l.bytes(wire::L_CON)),
            E33::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b)
            }
            E33::Advance(ms) => s.advance_ms(*ms as u64).await,
            E33::Lost(disc, st, v, ms, ch) => {
                if *disc {
                    let f = wire::disc_req(s.ch, s.ep);
                    s.send(&f);
                } else {
                    s.state_error(*st);
                }
                s.await_connect_req().await?;
                let h = s.is_connected();
                ck!(!s.joined(h, "is_connected").await?, "connected though the tunnel is lost");
                for (a, p) in v {
                    let mut call = start(&s, *a, p);
                    let o = s.done(&mut call).await?;
                    ck!(o.is_err(), "{} returned {o:02x?} without a tunnel", call.what);
                    down = true;
                }
                s.advance_ms(*ms as u64 % 25_000).await;
                ck!(s.requests(m).is_empty(), "a request was sent without a tunnel: {:02x?}", s.requests(m));
                s.grant(ch.ch, ch.ep).await?;
                seq = 1;
            }
        }
        let n = want.len();
        s.until_msg(|s| s.requests(m).len() >= n, |s| format!("{} of {n} requests arrive", s.requests(m).len())).await?;
        s.settle().await;
        let got = s.requests(m);
        ck!(got.len() == n, "{} requests for {n} calls with a tunnel: {got:02x?}", got.len());
        for (ch, q, cemi) in got.iter() {
            ck!(*ch == s.ch, "request on channel {ch} instead of {}", s.ch);
            ck!(*q == seq, "request number {q} instead of {seq}");
            seq = seq.wrapping_add(1);
            // concurrent calls may be sent in any order
            let Some(i) = want.iter().position(|w| same_request(cemi, w)) else {
                return Err(format!("request {cemi:02x?} instead of {want:02x?}"));
            };
            want.remove(i);
        }
        ck!(s.count_since(m, |f| matches!(f, Sent::DiscReq { .. })) == 0, "a disconnect request was sent");
    }
    if let Some(h) = waiter {
        h.abort();
    }
    s.check_wellformed()?;
    Ok(Info::nt(calls > 1)
        .label(while_waiting, "while a message is awaited")
        .label(down, "without a tunnel")
        .label(refused, "value too long")
        .label(held_hits() > 0, "full socket")
        .label(failed, "send failure"))
}
pub fn c33(c: &mut Ctx) {
    c.rule("monitor histories of read solicitations and writes (values up to 600 octets), singly or several at once, with failing sends, while a message is awaited or not, among telegrams, confirmations, noise, clock advances and lost tunnels with calls in between; each call must return at once and the requests seen must be exactly those asked for; non-trivial: more than one call");
    let n = c.n(40_000);
    c.generate(
        "monitor requests",
        n,
        || {
            let any_addr = || prop_oneof![3 => group_addr(), 1 => (0u8..4, any::<u16>()).prop_map(|(kind, raw)| Addr { kind, raw })];
            let call = || (any_addr(), proptest::option::of(write_payload()));
            let e = prop_oneof![
                4 => any_addr().prop_map(E33::Read),
                5 => (any_addr(), write_payload()).prop_map(|(a, p)| E33::Write(a, p)),
                2 => vec(call(), 2..6).prop_map(E33::Several),
                1 => (vec(call(), 1..4), prop_oneof![0u32..5_000, 0u32..130_000]).prop_map(|(v, ms)| E33::Held(v, ms)),
                1 => call().prop_map(|(a, p)| E33::Fails(a, p)),
                2 => Just(E33::Connected),
                1 => any::<u8>().prop_map(E33::Subscribe),
                3 => Just(E33::Wait),
                3 => ldata().prop_map(E33::Tele),
                2 => ldata().prop_map(E33::Con),
                2 => noise().prop_map(E33::Noise),
                1 => prop_oneof![0u32..20_000, 0u32..130_000].prop_map(E33::Advance),
                1 => (any::<bool>(), status_err(), vec(call(), 0..3), any::<u32>(), chan()).prop_map(|(d, s, v, ms, c)| E33::Lost(d, s, v, ms, c)),
            ];
            bx((chan(), vec(e, 1..16)).prop_map(|(chan, ev)| C33 { chan, ev }))
        },
        |t| run(|| c33_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C34
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E34 {
    Advance(u32),
    Status,
    Write(Addr, Payload),
    Read(Addr),
    Tele(LData),
    Noise(Noise),
    Flap(u8, Chan),
    GwDisc(Chan),
    /// a refused request before the next tunnel
    Refused(u8, u8, Chan),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Disconnect(bool),
    Drop,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C34 {
    kind: Kind,
    chan: Chan,
    ev: Vec<E34>,
    end: End,
}
async fn c34_case(c: C34) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    for e in &c.ev {
        s.sync().await?;
        let m = s.mark();
        match e {
            E34::Advance(ms) => s.advance_ms(*ms as u64).await,
            E34::Status => {
                if c.kind == Kind::Client {
                    let mut q = s.status();
                    s.until("the status query", |s| s.count_since(m, |f| matches!(f, Sent::StateReq { .. })) > 0).await?;
                    let f = wire::state_res(s.ch, 0);
                    s.send(&f);
                    s.done(&mut q).await?;
                }
            }
            E34::Write(a, p) => {
                let mut w = s.write(*a, p);
                s.request(m, "write").await?;
                if c.kind == Kind::Client {
                    s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: p.clone() }.bytes(wire::L_CON));
                }
                s.done(&mut w).await?;
            }
            E34::Read(a) => {
                let mut r = s.read(*a);
                s.request(m, "read").await?;
                s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0x1103, dst: a.raw, apci: 1, payload: Payload::Small(1) }.bytes(wire::L_IND));
                s.done(&mut r).await?;
            }
            E34::Tele(l) => s.tele(&l.bytes(wire::L_IND)),
            E34::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b);
            }
            E34::Flap(st, ch) => {
                s.state_error(*st);
                s.accept(ch.ch, ch.ep).await?;
            }
            E34::GwDisc(ch) => {
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
                s.accept(ch.ch, ch.ep).await?;
            }
            E34::Refused(n, st, ch) => {
                s.state_error(0x21);
                s.await_connect_req().await?;
                for _ in 0..1 + n % 3 {
                    let k = s.answered;
                    s.send(&wire::connect_res(ch.ch, (*st).max(1), ch.ep, 0x1101));
                    s.advance_until(std::time::Duration::from_secs(11), "a new connection request", |s| s.count(|f| matches!(f, Sent::ConnectReq { .. })) > k).await?;
                    s.await_connect_req().await?;
                }
                s.grant(ch.ch, ch.ep).await?;
            }
        }
    }
    s.sync().await?;
    let m = s.mark();
    match c.end {
        End::Disconnect(answer) => {
            let mut d = s.disconnect();
            s.until("the disconnect request", |s| s.count_since(m, |f| matches!(f, Sent::DiscReq { .. })) > 0).await?;
            if answer {
                let f = wire::disc_res(s.ch, 0);
                s.send(&f);
                s.done(&mut d).await?;
            } else {
                s.done_within(&mut d, std::time::Duration::from_secs(11)).await?;
            }
        }
        End::Drop => {
            s.drop_handle().await;
            s.advance_ms(1000).await;
        }
    }
    // every frame is well-formed; every endpoint in it is where the client really receives
    let Some(std::net::SocketAddr::V4(me)) = s.peer else { return Err("no IPv4 peer".into()) };
    let mine = |h: &[u8]| {
        let port = u16::from_be_bytes([h[6], h[7]]);
        h[0] == 8 && h[1] == 1 && ((h[2..6] == [0; 4] && (port == 0 || port == me.port())) || (h[2..6] == me.ip().octets() && port == me.port()))
    };
    let (mut connects, mut controls) = (0, 0);
    for r in &s.log {
        let d = &r.raw;
        match &r.sent {
            Sent::Bad(b) => return Err(format!("the client sent a malformed frame {b:02x?}")),
            Sent::ConnectReq { .. } => {
                connects += 1;
                ck!(mine(&d[6..14]) && mine(&d[14..22]), "connection request announces an endpoint that is not the client's (0.0.0.0:0 or {me}): {d:02x?}");
                ck!(d[22..26] == [4, 4, 2, 0], "connection request asks for {:02x?} instead of a link-layer tunnel (04 04 02 00)", &d[22..]);
            }
            Sent::StateReq { .. } | Sent::DiscReq { .. } => {
                controls += 1;
                ck!(d[7] == 0, "reserved octet {:02x} in {d:02x?}", d[7]);
                ck!(mine(&d[8..16]), "{:?} announces an endpoint that is not the client's (0.0.0.0:0 or {me}): {d:02x?}", r.sent);
            }
            Sent::TunReq { .. } | Sent::FeatSet { .. } => ck!(d[9] == 0, "reserved octet {:02x} in {d:02x?}", d[9]),
            _ => {}
        }
    }
    Ok(Info::nt(controls > 1)
        .label(c.kind == Kind::Monitor, "monitor")
        .label(connects > 1, "several connection requests")
        .label(matches!(c.end, End::Drop), "dropped")
        .label(matches!(c.end, End::Disconnect(_)), "disconnected"))
}
pub fn c34(c: &mut Ctx) {
    c.rule("sessions with refused attempts, reconnections, heartbeats, status queries, operations, disconnects and drops, the gateway granting tunnels with arbitrary endpoints of its own; every frame the client sends must be well-formed and every endpoint in it be 0.0.0.0:0 or the address its socket has; non-trivial: at least two heartbeat, status or disconnect requests");
    let n = c.n(24_000);
    c.generate(
        "announced endpoints",
        n,
        || {
            let short = || prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let e = prop_oneof![
                3 => (0u32..130_000).prop_map(E34::Advance),
                2 => Just(E34::Status),
                1 => (group_addr(), short()).prop_map(|(a, p)| E34::Write(a, p)),
                1 => group_addr().prop_map(E34::Read),
                1 => ldata().prop_map(E34::Tele),
                1 => noise().prop_map(E34::Noise),
                2 => (status_err(), chan()).prop_map(|(s, c)| E34::Flap(s, c)),
                1 => chan().prop_map(E34::GwDisc),
                1 => (any::<u8>(), any::<u8>(), chan()).prop_map(|(n, s, c)| E34::Refused(n, s, c)),
            ];
            let end = prop_oneof![2 => any::<bool>().prop_map(End::Disconnect), 1 => Just(End::Drop)];
            bx((kind(), chan(), vec(e, 1..10), end).prop_map(|(kind, chan, ev, end)| C34 { kind, chan, ev, end }))
        },
        |t| run(|| c34_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C35
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E35 {
    Tele(LData),
    /// the telegram that any of the sessions got last, once more
    Echo,
    /// start an operation unless one is running
    Start(Addr, Option<Payload>),
    /// the gateway answers the operation
    Answer(bool),
    /// read a message (monitor)
    Next,
    Flap(u8, Chan),
    GwDisc(Chan),
    /// the tunnel is lost and not restored before `Up`
    Down(u8),
    Up(Chan),
    Noise(Noise),
    Disconnect,
    /// a status query or a disconnect, while another session gets a status answer, loses
    /// its tunnel or is disconnected
    Cross { other: u8, disc: bool, what: u8, st: u8 },
    Drop,
    /// time passes, for all
    Advance(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C35 {
    sessions: Vec<(Kind, Chan)>,
    /// all at one gateway
    one: bool,
    ev: Vec<(u8, E35)>,
}
/// What one session must have shown so far.
struct Model {
    s: Sim,
    up: bool,
    ended: bool,
    seq: u8,
    /// requests, as (channel, sequence number, cEMI)
    reqs: Vec<(u8, u8, Vec<u8>)>,
    connects: usize,
    op: Option<(Call, Addr, Option<Payload>, tokio::time::Instant)>,
    msgs: std::collections::VecDeque<LData>,
    since_up: tokio::time::Instant,
}
impl Model {
    async fn disconnect(&mut self, who: usize) -> Result<(), String> {
        self.s.sync().await?;
        let mark = self.s.mark();
        let mut d = self.s.disconnect();
        self.s.until("the disconnect request", |s| s.count_since(mark, |f| matches!(f, Sent::DiscReq { .. })) > 0).await?;
        let f = wire::disc_res(self.s.ch, 0);
        self.s.send(&f);
        let o = self.s.done(&mut d).await?;
        ck!(!o.is_err(), "session {who}: disconnect returned {o:?}");
        self.up = false;
        self.ended = true;
        Ok(())
    }
    async fn grant(&mut self, ch: Chan) -> Result<(), String> {
        self.s.grant(ch.ch, ch.ep).await?;
        self.up = true;
        self.since_up = tokio::time::Instant::now();
        self.seq = if self.s.kind == Kind::Monitor { 1 } else { 0 };
        Ok(())
    }
    async fn lose(&mut self, disc: bool, st: u8) -> Result<(), String> {
        self.s.await_acks().await?;
        if disc {
            let f = wire::disc_req(self.s.ch, self.s.ep);
            self.s.send(&f);
        } else {
            self.s.state_error(st);
        }
        self.s.await_connect_req().await?;
        self.connects = self.s.answered;
        self.up = false;
        Ok(())
    }
    /// Everything seen so far is what this session's own history calls for.
    fn check(&self, who: usize) -> Result<(), String> {
        let s = &self.s;
        s.check_wellformed().map_err(|e| format!("session {who}: {e}"))?;
        s.check_acks().map_err(|e| format!("session {who}: {e}"))?;
        let r = s.requests(0);
        ck!(r.len() == self.reqs.len(), "session {who}: {} requests instead of {}", r.len(), self.reqs.len());
        for (g, w) in r.iter().zip(&self.reqs) {
            ck!(g.0 == w.0 && g.1 == w.1 && same_request(&g.2, &w.2), "session {who}: request {g:02x?} instead of {w:02x?}");
        }
        Ok(())
    }
}
async fn c35_case(c: C35) -> Res {
    let mut v: Vec<Model> = vec![];
    let shared = Gateway::new();
    for (k, ch) in &c.sessions {
        let mut s = if c.one { Sim::start_at(*k, shared.clone()).await? } else { Sim::start(*k).await? };
        s.accept(ch.ch, ch.ep).await?;
        let seq = if *k == Kind::Monitor { 1 } else { 0 };
        v.push(Model { s, up: true, ended: false, seq, reqs: vec![], connects: 1, op: None, msgs: Default::default(), since_up: tokio::time::Instant::now() });
    }
    let n = v.len();
    let (mut both, mut ends, mut crossed) = (false, 0, false);
    let mut last: Option<LData> = None;
    for (who, e) in &c.ev {
        let i = *who as usize % n;
        let echo = last.clone().map(E35::Tele);
        let e = if matches!(e, E35::Echo) { echo.as_ref().unwrap_or(e) } else { e };
        if let E35::Advance(ms) = e {
            for m in v.iter_mut().filter(|m| m.up) {
                m.s.await_acks().await?;
            }
            let mut left = *ms as u64;
            // a lost session gives its request up after 30 s: keep clear of that
            if v.iter().any(|m| !m.up && !m.ended) {
                left %= 20_000;
            }
            while left > 0 {
                let d = left.min(500);
                left -= d;
                tokio::time::advance(std::time::Duration::from_millis(d)).await;
                for m in v.iter_mut() {
                    m.s.settle().await;
                }
            }
            for (i, m) in v.iter_mut().enumerate() {
                if let Some((mut call, a, p, t)) = m.op.take() {
                    if t.elapsed() > std::time::Duration::from_millis(10_600) {
                        let o = m.s.done(&mut call).await.map_err(|e| format!("session {i}: {e} after its time limit"))?;
                        ck!(o.is_err(), "session {i}: {} returned {o:02x?} without an answer", call.what);
                    } else if t.elapsed() < std::time::Duration::from_millis(9_400) {
                        m.s.pending(&mut call, "without an answer").await.map_err(|e| format!("session {i}: {e}"))?;
                        m.op = Some((call, a, p, t));
                    } else {
                        // just about the limit: either way
                        call.abort();
                    }
                }
                if m.up && m.since_up.elapsed() > std::time::Duration::from_millis(61_000) {
                    let now = tokio::time::Instant::now();
                    let beat = m.s.log.iter().any(|r| now - r.at < std::time::Duration::from_millis(61_000) && matches!(r.sent, Sent::StateReq { ch } if ch == m.s.ch));
                    ck!(beat, "session {i}: no heartbeat on channel {} within the last 61 s", m.s.ch);
                }
            }
        } else if let E35::Cross { other, disc, what, st } = e {
            let j = *other as usize % n;
            if !v[i].up || v[i].op.is_some() || !disc && v[i].s.kind == Kind::Monitor || j == i || !v[j].up {
                continue;
            }
            crossed = true;
            v[i].s.sync().await?;
            v[j].s.sync().await?;
            let mark = v[i].s.mark();
            let mut call = if *disc { v[i].s.disconnect() } else { v[i].s.status() };
            v[i].s.until("the request", |s| s.count_since(mark, |f| matches!(f, Sent::DiscReq { .. } | Sent::StateReq { .. })) > 0).await?;
            match what % 3 {
                0 => {
                    let f = wire::state_res(v[j].s.ch, 0);
                    v[j].s.send(&f);
                    v[j].s.sync().await?;
                }
                1 => v[j].lose(false, *st).await?,
                _ if v[j].op.is_none() => {
                    v[j].disconnect(j).await?;
                    ends += 1;
                }
                _ => {}
            }
            v[i].s.pending(&mut call, "before its gateway answered").await.map_err(|e| format!("session {i}: {e}"))?;
            let m = &mut v[i];
            let f = if *disc { wire::disc_res(m.s.ch, 0) } else { wire::state_res(m.s.ch, 0) };
            m.s.send(&f);
            let o = m.s.done(&mut call).await.map_err(|e| format!("session {i}: {e} though its gateway answered"))?;
            if *disc {
                ck!(!o.is_err(), "session {i}: disconnect returned {o:?}");
                m.up = false;
                m.ended = true;
                ends += 1;
            } else {
                ck!(o == Out::Status(m.s.ch, 0), "session {i}: status query returned {o:?}");
            }
        } else if !v[i].ended {
            let m = &mut v[i];
            let client = m.s.kind == Kind::Client;
            let mark = m.s.mark();
            match e {
                E35::Tele(l) if m.up => {
                    last = Some(l.clone());
                    m.s.tele(&l.bytes(wire::L_IND));
                    if !client {
                        m.msgs.push_back(l.clone());
                    }
                    // it may be the answer of a running read
                    if let Some((call, Addr { raw, .. }, None, _)) = &mut m.op {
                        if *raw == l.dst && l.c2 & 0x80 != 0 && (l.apci == 1 || l.apci == 2) {
                            let o = m.s.done(call).await.map_err(|e| format!("session {i}: {e}"))?;
                            ck!(o == Out::Bytes(l.payload.value()), "session {i}: {} returned {o:02x?} instead of {:02x?}", call.what, l.payload.value());
                            m.op = None;
                        }
                    }
                }
                E35::Start(a, p) if m.op.is_none() => {
                    if m.up {
                        m.s.sync().await?;
                        let t = tokio::time::Instant::now();
                        let mut call = start(&m.s, *a, p);
                        m.s.request(mark, &format!("operation of session {i}")).await?;
                        m.reqs.push((m.s.ch, m.seq, wanted(*a, p)));
                        m.seq = m.seq.wrapping_add(1);
                        if client {
                            m.op = Some((call, *a, p.clone(), t));
                            both |= v.iter().filter(|m| m.op.is_some()).count() > 1;
                        } else {
                            let o = m.s.done(&mut call).await?;
                            ck!(o == Out::Unit, "session {i}: {} returned {o:02x?}", call.what);
                        }
                    } else {
                        let mut call = start(&m.s, *a, p);
                        let o = m.s.done(&mut call).await?;
                        ck!(o.is_err(), "session {i}: {} returned {o:02x?} without a tunnel", call.what);
                    }
                }
                E35::Answer(neg) if m.up => {
                    if let Some((mut call, a, p, _)) = m.op.take() {
                        let want = match &p {
                            None => {
                                let x = Payload::Long(vec![i as u8, m.seq, *neg as u8]);
                                m.s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0x1104, dst: a.raw, apci: 1, payload: x.clone() }.bytes(wire::L_IND));
                                Some(Out::Bytes(x.value()))
                            }
                            Some(p) => {
                                m.s.tele(&LData { c1: 0xbc | *neg as u8, c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: p.clone() }.bytes(wire::L_CON));
                                (!neg).then_some(Out::Unit)
                            }
                        };
                        let o = m.s.done(&mut call).await.map_err(|e| format!("session {i}: {e} after its answer"))?;
                        ck!(want.as_ref().map_or(o.is_err(), |w| *w == o), "session {i}: {} returned {o:02x?} instead of {want:02x?}", call.what);
                    }
                }
                E35::Next if !client => {
                    if m.up {
                        m.s.await_acks().await?;
                    }
                    if let Some(l) = m.msgs.pop_front() {
                        let h = m.s.next_msg();
                        let g = m.s.joined(h, "next_msg").await?.map_err(|e| format!("session {i}: next_msg failed: {e}"))?;
                        ck!(g.cemi.service_info == l.service_info(), "session {i}: message {g:02x?} instead of {l:02x?}");
                    }
                }
                E35::Flap(st, ch) if m.up => {
                    m.lose(false, *st).await?;
                    m.grant(*ch).await?;
                }
                E35::GwDisc(ch) if m.up => {
                    m.lose(true, 0).await?;
                    m.grant(*ch).await?;
                }
                E35::Down(st) if m.up => m.lose(false, *st).await?,
                E35::Up(ch) if !m.up => {
                    // a request that has not been given up
                    let k = m.s.answered;
                    if m.s.count(|f| matches!(f, Sent::ConnectReq { .. })) > k {
                        m.s.await_connect_req().await?;
                        m.connects = m.s.answered;
                    }
                    let t = m.s.log.iter().rev().find(|r| matches!(r.sent, Sent::ConnectReq { .. })).unwrap().at;
                    if t.elapsed() < std::time::Duration::from_millis(29_000) {
                        m.grant(*ch).await?;
                    }
                }
                E35::Noise(x) if m.up => {
                    let b = x.bytes(m.s.ch);
                    m.s.send(&b);
                }
                E35::Disconnect if m.up && m.op.is_none() => {
                    m.disconnect(i).await?;
                    ends += 1;
                }
                E35::Drop if m.op.is_none() => {
                    if m.up {
                        m.s.await_acks().await?;
                    }
                    m.s.drop_handle().await;
                    m.up = false;
                    m.ended = true;
                    ends += 1;
                }
                _ => {}
            }
        }
        for m in v.iter_mut() {
            if m.up {
                m.s.await_acks().await?;
            }
            m.s.settle().await;
        }
        for (i, m) in v.iter().enumerate() {
            m.check(i)?;
            if m.up || m.ended {
                let k = m.s.count(|f| matches!(f, Sent::ConnectReq { .. }));
                ck!(k == m.connects || m.ended && k < m.connects + 3, "session {i}: {k} connection requests instead of {}", m.connects);
            }
        }
    }
    // all that are left still work
    for (i, m) in v.iter_mut().enumerate() {
        if m.ended || !m.up {
            continue;
        }
        let client = m.s.kind == Kind::Client;
        if let Some((call, ..)) = m.op.take() {
            call.abort();
            m.s.settle().await;
        }
        while let Some(l) = m.msgs.pop_front() {
            let h = m.s.next_msg();
            let g = m.s.joined(h, "next_msg").await?.map_err(|e| format!("session {i}: next_msg failed: {e}"))?;
            ck!(g.cemi.service_info == l.service_info(), "session {i}: message {g:02x?} instead of {l:02x?}");
        }
        let mark = m.s.mark();
        let (a, p) = (Addr { kind: 3, raw: 0x0c00 + i as u16 }, Payload::Small(i as u8));
        let mut call = m.s.write(a, &p);
        m.s.request(mark, &format!("last write of session {i}")).await?;
        m.reqs.push((m.s.ch, m.seq, a.write_req(&p)));
        if client {
            m.s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: p.clone() }.bytes(wire::L_CON));
        }
        let o = m.s.done(&mut call).await?;
        ck!(o == Out::Unit, "session {i}: {} returned {o:02x?}", call.what);
        m.s.sync().await?;
    }
    for (i, m) in v.iter().enumerate() {
        m.check(i)?;
    }
    Ok(Info::nt(n > 1 && c.ev.len() > 2)
        .label(n > 2, "three sessions")
        .label(c.one, "all at one gateway")
        .label(v.iter().any(|m| m.s.kind == Kind::Client) && v.iter().any(|m| m.s.kind == Kind::Monitor), "client and monitor")
        .label(both, "operations at the same time")
        .label(c.ev.iter().any(|e| matches!(e.1, E35::Echo)), "the same telegram in several sessions")
        .label(ends > 0, "a session ends")
        .label(crossed, "a query or disconnect while another session gets answers")
        .label(v.iter().any(|m| m.connects > 1), "with reconnection"))
}
pub fn c35(c: &mut Ctx) {
    c.rule("two or three clients and monitors in one process, each with its own simulated gateway (often the same channel numbers and group addresses), with interleaved telegrams, operations left running, answers, lost tunnels, disconnects and drops and a common clock; each session must show exactly the acknowledgements, requests, results and messages of its own history; non-trivial: two or more sessions, three or more events");
    let n = c.n(20_000);
    c.generate(
        "sessions",
        n,
        || {
            let addr = || bx((1u8..4, proptest::sample::select(vec![0x0a01u16, 0x0a02, 0x8a01])).prop_map(|(kind, raw)| Addr { kind, raw }));
            let l = || bx((ldata(), prop_oneof![Just(0x0a01u16), Just(0x0a02), Just(0x8a01), any::<u16>()]).prop_map(|(mut l, d)| { l.dst = d; l }));
            let short = || prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let e = prop_oneof![
                6 => l().prop_map(E35::Tele),
                3 => Just(E35::Echo),
                6 => (addr(), proptest::option::of(short())).prop_map(|(a, p)| E35::Start(a, p)),
                5 => any::<bool>().prop_map(E35::Answer),
                3 => Just(E35::Next),
                2 => (status_err(), chan()).prop_map(|(s, c)| E35::Flap(s, c)),
                1 => chan().prop_map(E35::GwDisc),
                1 => status_err().prop_map(E35::Down),
                2 => chan().prop_map(E35::Up),
                1 => noise().prop_map(E35::Noise),
                1 => Just(E35::Disconnect),
                3 => (any::<u8>(), proptest::bool::weighted(0.4), any::<u8>(), status_err()).prop_map(|(other, disc, what, st)| E35::Cross { other, disc, what, st }),
                1 => Just(E35::Drop),
                2 => prop_oneof![0u32..5_000, 0u32..70_000].prop_map(E35::Advance),
            ];
            bx((vec((kind(), chan()), 2..4), any::<bool>(), proptest::bool::weighted(0.3), vec((any::<u8>(), e), 1..30)).prop_map(|(mut sessions, same, one, ev)| {
                if same {
                    let first = sessions[0].1;
                    sessions.iter_mut().for_each(|s| s.1 = first);
                }
                C35 { sessions, one, ev }
            }))
        },
        |t| run(|| c35_case(t.clone())),
    );
}
