//! Session properties C36 (only the configured gateway is heard and spoken to) and C37 (the
//! monitor enables the information service on every tunnel).
use crate::codec_a::ck;
use crate::engine::*;
use crate::session_a::*;
use crate::sim::*;
use crate::wire::{self, LData, Payload, Sent};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// A frame another host sends to the client's socket.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Frame {
    Tele(u8, Tele),
    /// for the address of the running operation: a value and a confirmation
    Answer(bool),
    Feature(u8),
    State(u8),
    DiscReq,
    DiscRes(u8),
    Granted(u8),
    Refused(u8),
    Noise(Noise),
}
/// From the gateway's host but another port, or from another host (perhaps with the
/// gateway's port).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alien {
    from: u8,
    frame: Frame,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E36 {
    Alien(Vec<Alien>),
    Tele(LData),
    /// an operation, with other hosts' frames before the gateway's answer
    Op(Addr, Option<Payload>, Vec<Alien>, bool),
    Status(Vec<Alien>),
    /// the tunnel is lost; other hosts' frames before the gateway grants a new one, in so
    /// many ms
    Lost(bool, u8, Vec<Alien>, u16, Chan),
    Advance(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C36 {
    kind: Kind,
    /// before the first tunnel is granted
    first: Vec<Alien>,
    chan: Chan,
    ev: Vec<E36>,
    /// disconnect at the end, with other hosts' frames before the answer
    bye: Option<Vec<Alien>>,
}
fn frame(f: &Frame, s: &Sim, a: Addr) -> Vec<u8> {
    let l = |c1, apci, code| LData { c1, c2: a.c2(), src: 0x1105, dst: a.raw, apci, payload: Payload::Long(vec![0xee; 3]) }.bytes(code);
    match f {
        Frame::Tele(seq, t) => wire::tun_req(s.ch, *seq, &t.bytes()),
        Frame::Answer(true) => wire::tun_req(s.ch, s.gseq, &l(0xbd, 2, wire::L_CON)),
        Frame::Answer(false) => wire::tun_req(s.ch, s.gseq, &l(0xbc, 1, wire::L_IND)),
        Frame::Feature(seq) => wire::feat_res(s.ch, *seq, 8, 0, 1),
        Frame::State(st) => wire::state_res(s.ch, *st),
        Frame::DiscReq => wire::disc_req(s.ch, s.ep),
        Frame::DiscRes(st) => wire::disc_res(s.ch, *st),
        Frame::Granted(ch) => wire::connect_res(*ch, 0, wire::Ep::ZERO, 0x11fb),
        Frame::Refused(st) => wire::connect_res(0, (*st).max(1), wire::Ep::ZERO, 0),
        Frame::Noise(n) => n.bytes(s.ch),
    }
}
fn send(v: &[Alien], s: &mut Sim, o: &Others, a: Addr) {
    for x in v {
        let b = frame(&x.frame, s, a);
        s.send_from(o, x.from, &b);
    }
}
async fn c36_case(c: C36) -> Res {
    let mut s = Sim::start(c.kind).await?;
    let o = Others::new(s.addr());
    let client = c.kind == Kind::Client;
    let anywhere = Addr { kind: 3, raw: 0x0a01 };
    let mut aliens = c.first.len();
    send(&c.first, &mut s, &o, anywhere);
    s.settle().await;
    ck!(s.log.len() == 1, "frames of other hosts make the client send {:02x?} while connecting", &s.log[1..]);
    s.accept(c.chan.ch, c.chan.ep).await?;
    let mut msgs: Vec<LData> = vec![];
    let mut connects = 1;
    let mut beats = 0;
    for e in &c.ev {
        s.sync().await?;
        let m = s.mark();
        let (mut reqs, mut queries) = (0, 0);
        match e {
            E36::Alien(v) => {
                aliens += v.len();
                send(v, &mut s, &o, anywhere)
            }
            E36::Tele(l) => {
                s.tele(&l.bytes(wire::L_IND));
                msgs.push(l.clone());
            }
            E36::Op(a, p, v, neg) => {
                let mut call = match p {
                    Some(p) => s.write(*a, p),
                    None => s.read(*a),
                };
                let (ch, _, _) = s.request(m, "operation").await?;
                reqs = 1;
                ck!(ch == s.ch, "request on channel {ch} instead of {}", s.ch);
                aliens += v.len();
                send(v, &mut s, &o, *a);
                s.sync().await?;
                let want = match p {
                    _ if !client => Some(Out::Unit),
                    None => {
                        s.pending(&mut call, "on the answer of another host").await?;
                        let x = Payload::Long(vec![1, reqs as u8, *neg as u8]);
                        let l = LData { c1: 0xbc, c2: a.c2(), src: 0x1104, dst: a.raw, apci: 1, payload: x.clone() };
                        s.tele(&l.bytes(wire::L_IND));
                        Some(Out::Bytes(x.value()))
                    }
                    Some(p) => {
                        s.pending(&mut call, "on the answer of another host").await?;
                        s.tele(&LData { c1: 0xbc | *neg as u8, c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: p.clone() }.bytes(wire::L_CON));
                        (!neg).then_some(Out::Unit)
                    }
                };
                let got = s.done(&mut call).await?;
                ck!(want.as_ref().map_or(got.is_err(), |w| *w == got), "{} returned {got:02x?} instead of {want:02x?}", call.what);
            }
            E36::Status(v) if client => {
                let mut q = s.status();
                s.until("the status query", |s| s.count_since(m, |f| matches!(f, Sent::StateReq { .. })) > 0).await?;
                queries = 1;
                aliens += v.len();
                send(v, &mut s, &o, anywhere);
                s.sync().await?;
                s.pending(&mut q, "on the answer of another host").await?;
                let f = wire::state_res(s.ch, 0);
                s.send(&f);
                let got = s.done(&mut q).await?;
                ck!(got == Out::Status(s.ch, 0), "status query returned {got:?} instead of the gateway's answer");
            }
            E36::Status(_) => {}
            E36::Lost(disc, st, v, ms, ch) => {
                if *disc {
                    let f = wire::disc_req(s.ch, s.ep);
                    s.send(&f);
                } else {
                    s.state_error(*st);
                }
                s.await_connect_req().await?;
                connects += 1;
                aliens += v.len();
                send(v, &mut s, &o, anywhere);
                s.advance_ms(*ms as u64 % 25_000).await;
                ck!(s.count(|f| matches!(f, Sent::ConnectReq { .. })) == connects, "another host's frame makes the client request a tunnel again");
                if !client {
                    let h = s.is_connected();
                    ck!(!s.joined(h, "is_connected").await?, "connected by another host's answer");
                }
                ck!(s.count_since(m, |f| matches!(f, Sent::FeatSet { .. } | Sent::TunAck { .. })) == 0, "another host's frames are taken for the gateway's while connecting: {:02x?}", s.since(m, |_| true));
                s.grant(ch.ch, ch.ep).await?;
            }
            E36::Advance(ms) => {
                s.advance_ms(*ms as u64).await;
                beats = s.count_since(m, |f| matches!(f, Sent::StateReq { .. })).max(beats);
                queries = 1_000_000;
            }
        }
        s.sync().await?;
        s.check_acks()?;
        ck!(s.requests(m).len() == reqs, "{} requests instead of {reqs}", s.requests(m).len());
        let k = s.count(|f| matches!(f, Sent::ConnectReq { .. }));
        ck!(k == connects, "{k} connection requests instead of {connects}");
        let own = s.count_since(m, |f| matches!(f, Sent::StateReq { .. }));
        ck!(own <= queries + 1, "{own} connection-state requests for {queries} queries");
        let disc = s.count_since(m, |f| matches!(f, Sent::DiscRes { .. }));
        ck!(disc == matches!(e, E36::Lost(true, ..)) as usize, "{disc} disconnect responses: {e:02x?}");
        o.silent()?;
    }
    if !client {
        // exactly the gateway's telegrams
        for l in &msgs {
            let h = s.next_msg();
            let g = s.joined(h, "next_msg").await?.map_err(|e| format!("next_msg failed: {e}"))?;
            ck!(g.cemi.service_info == l.service_info(), "message {g:02x?} instead of {l:02x?}");
        }
        let h = s.next_msg();
        s.settle().await;
        ck!(!h.is_finished(), "a message that the gateway did not send: {:02x?}", h.await);
        h.abort();
    }
    crate::session_b::works(&mut s, anywhere, &Payload::Small(1)).await?;
    if let Some(v) = &c.bye {
        s.sync().await?;
        let m = s.mark();
        let mut d = s.disconnect();
        s.until("the disconnect request", |s| s.count_since(m, |f| matches!(f, Sent::DiscReq { .. })) > 0).await?;
        aliens += v.len();
        send(v, &mut s, &o, anywhere);
        s.sync().await?;
        s.pending(&mut d, "on the answer of another host").await?;
        let f = wire::disc_res(s.ch, 0);
        s.send(&f);
        let got = s.done(&mut d).await?;
        ck!(!got.is_err(), "disconnect returned {got:?}");
    }
    s.advance(Duration::from_millis(1000)).await;
    s.check_wellformed()?;
    o.silent()?;
    Ok(Info::nt(aliens > 1)
        .label(!client, "monitor")
        .label(connects > 1, "with reconnection")
        .label(!c.first.is_empty(), "while connecting")
        .label(beats > 0, "with heartbeats")
        .label(c.bye.is_some(), "disconnected"))
}
pub fn c36(c: &mut Ctx) {
    c.rule("sessions in which other sockets - another port of the gateway's host, another host with the gateway's port, another host and port - send the client every kind of frame (answers to the running operation, query or connection attempt among them) while connecting, connected and disconnecting; acknowledgements, requests, results, messages and tunnels must be those of the gateway's frames alone and nothing may be sent to the others; non-trivial: at least two such frames");
    let n = c.n(24_000);
    c.generate(
        "sessions",
        n,
        || {
            let alien = || {
                let f = prop_oneof![
                    4 => (any::<u8>(), tele()).prop_map(|(q, t)| Frame::Tele(q, t)),
                    4 => any::<bool>().prop_map(Frame::Answer),
                    1 => any::<u8>().prop_map(Frame::Feature),
                    2 => prop_oneof![Just(0u8), status_err()].prop_map(Frame::State),
                    2 => Just(Frame::DiscReq),
                    2 => prop_oneof![Just(0u8), status_err()].prop_map(Frame::DiscRes),
                    2 => any::<u8>().prop_map(Frame::Granted),
                    1 => any::<u8>().prop_map(Frame::Refused),
                    1 => noise().prop_map(Frame::Noise),
                ];
                (0u8..3, f).prop_map(|(from, frame)| Alien { from, frame })
            };
            let aliens = move || vec(alien(), 0..4);
            let short = || prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let e = prop_oneof![
                4 => vec(alien(), 1..4).prop_map(E36::Alien),
                2 => ldata().prop_map(E36::Tele),
                4 => (group_addr(), proptest::option::of(short()), aliens(), any::<bool>()).prop_map(|(a, p, v, n)| E36::Op(a, p, v, n)),
                1 => aliens().prop_map(E36::Status),
                1 => (any::<bool>(), status_err(), aliens(), any::<u16>(), chan()).prop_map(|(d, s, v, ms, c)| E36::Lost(d, s, v, ms, c)),
                1 => prop_oneof![0u32..20_000, 0u32..70_000].prop_map(E36::Advance),
            ];
            bx((kind(), aliens(), chan(), vec(e, 1..10), proptest::option::weighted(0.4, aliens())).prop_map(|(kind, first, chan, ev, bye)| C36 { kind, first, chan, ev, bye }))
        },
        |t| run(|| c36_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C37
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E37 {
    Tele(Tele),
    /// the gateway's answer to the feature request, or one out of the blue
    Answer(u8, u8, u8),
    Op(Addr, Option<Payload>),
    Noise(Noise),
    Advance(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct T37 {
    /// granted tunnels before it on which the feature request cannot be sent
    fail: Vec<Chan>,
    refuse: Vec<u8>,
    chan: Chan,
    /// telegrams that arrive together with the success answer
    with: Vec<Tele>,
    ev: Vec<E37>,
    /// how it is lost: state error, or the gateway's disconnect request
    lost: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C37 {
    kind: Kind,
    tunnels: Vec<T37>,
    subscribe: bool,
}
async fn c37_case(c: C37) -> Res {
    let mut s = Sim::start(c.kind).await?;
    let monitor = c.kind == Kind::Monitor;
    let is_feat = |f: &Sent| matches!(f, Sent::FeatSet { .. });
    let mut sub = if c.subscribe && monitor { Some(s.subscribe(64).await?) } else { None };
    let (mut fails, mut teles) = (0, 0);
    for (k, t) in c.tunnels.iter().enumerate() {
        for st in &t.refuse {
            s.await_connect_req().await?;
            s.send(&wire::connect_res_short(0, (*st).max(1)));
            let n = s.answered;
            s.advance_until(Duration::from_secs(12), "a new connection request", |s| s.count(|f| matches!(f, Sent::ConnectReq { .. })) > n).await?;
        }
        for ch in t.fail.iter().filter(|_| monitor) {
            s.await_connect_req().await?;
            let m = s.mark();
            fail_send(wire::FEAT_SET);
            s.send(&wire::connect_res(ch.ch, 0, ch.ep, crate::sim::granted_address(ch.ch)));
            let n = s.answered;
            s.advance_until(Duration::from_secs(12), "a new connection request after the feature request could not be sent", |s| s.count(|f| matches!(f, Sent::ConnectReq { .. })) > n).await?;
            ck!(s.since(m, |f| !matches!(f, Sent::ConnectReq { .. })).is_empty(), "a tunnel on which the feature request could not be sent is used: {:02x?}", s.since(m, |_| true));
            if let Some(r) = &mut sub {
                ck!(r.try_recv().is_err(), "a subscriber is told of a tunnel on which the feature request could not be sent");
            }
            fault_hits();
            fails += 1;
        }
        s.await_connect_req().await?;
        let m = s.mark();
        s.ch = t.chan.ch;
        s.ep = t.chan.ep;
        s.gseq = 0;
        s.send(&wire::connect_res(t.chan.ch, 0, t.chan.ep, crate::sim::granted_address(t.chan.ch)));
        for x in &t.with {
            s.tele(&x.bytes());
            teles += 1;
        }
        if let Some(r) = &mut sub {
            // known only once it has been sent
            let t0 = std::time::Instant::now();
            while r.try_recv().is_err() {
                ck!(t0.elapsed() < Duration::from_secs(8), "no notification of tunnel {k}");
                s.nap(&t0).await;
            }
            s.settle().await;
            ck!(s.count_since(m, is_feat) == 1, "subscribers are told of tunnel {k} before its feature request is sent");
        }
        s.sync().await?;
        for e in &t.ev {
            match e {
                E37::Tele(x) => s.tele(&x.bytes()),
                E37::Answer(f, st, v) => {
                    s.feature(*f, *st, *v);
                }
                E37::Op(a, p) => {
                    let m = s.mark();
                    let mut call = match p {
                        Some(p) => s.write(*a, p),
                        None => s.read(*a),
                    };
                    s.request(m, "operation").await?;
                    if monitor {
                        s.done(&mut call).await?;
                    }
                }
                E37::Noise(n) => {
                    let b = n.bytes(s.ch);
                    s.send(&b);
                }
                E37::Advance(ms) => s.advance_ms(*ms as u64).await,
            }
            s.sync().await?;
        }
        s.check_acks()?;
        // of the frames on this tunnel
        let sent: Vec<Vec<u8>> = s.log[m..].iter().map(|r| r.raw.clone()).collect();
        let feats = s.count_since(m, is_feat);
        if monitor {
            let want = wire::feat_set(t.chan.ch, 0, 8, 1);
            ck!(sent[0] == want, "the monitor's first frame on tunnel {k} is {:02x?} instead of {want:02x?}", sent[0]);
            ck!(feats == 1, "{feats} feature requests on tunnel {k}");
        } else {
            ck!(feats == 0, "the client sends {feats} feature requests");
        }
        if let Some(r) = &mut sub {
            ck!(r.try_recv().is_err(), "a second notification of tunnel {k}");
        }
        if k + 1 < c.tunnels.len() {
            match t.lost {
                Some(st) => s.state_error(st),
                None => {
                    let f = wire::disc_req(s.ch, s.ep);
                    s.send(&f);
                }
            }
        }
    }
    s.check_wellformed()?;
    Ok(Info::nt(c.tunnels.len() > 1 || fails > 0 || teles > 0)
        .label(monitor, "monitor")
        .label(c.tunnels.len() > 1, "with reconnection")
        .label(fails > 0, "feature request fails")
        .label(teles > 0, "telegrams with the success answer")
        .label(sub.is_some(), "subscribed"))
}
pub fn c37(c: &mut Ctx) {
    c.rule("sessions of 1-5 tunnels, refused attempts and tunnels on which the feature request cannot be sent in between, telegrams arriving with the success answer, traffic, feature answers, operations and time on each; the monitor's first frame on a tunnel must be the one feature request that enables the information service, before any subscriber is told, and the plain client must send none; non-trivial: two tunnels, a failed request or early telegrams");
    let n = c.n(24_000);
    c.generate(
        "feature requests",
        n,
        || {
            let short = || prop_oneof![any::<u8>().prop_map(|v| Payload::Small(v & 63)), vec(any::<u8>(), 1..15).prop_map(Payload::Long)];
            let e = prop_oneof![
                3 => tele().prop_map(E37::Tele),
                2 => (proptest::sample::select(vec![8u8, 2, 6, 7]), prop_oneof![Just(0u8), any::<u8>()], prop_oneof![Just(1u8), Just(0u8), any::<u8>()]).prop_map(|(a, b, c)| E37::Answer(a, b, c)),
                2 => (group_addr(), proptest::option::of(short())).prop_map(|(a, p)| E37::Op(a, p)),
                1 => noise().prop_map(E37::Noise),
                1 => (0u32..70_000).prop_map(E37::Advance),
            ];
            let t = (vec(chan(), 0..2), vec(status_err(), 0..2), chan(), vec(tele(), 0..3), vec(e, 0..4), proptest::option::of(status_err())).prop_map(|(fail, refuse, chan, with, ev, lost)| T37 { fail, refuse, chan, with, ev, lost });
            bx((prop_oneof![3 => Just(Kind::Monitor), 1 => Just(Kind::Client)], vec(t, 1..6), any::<bool>()).prop_map(|(kind, tunnels, subscribe)| C37 { kind, tunnels, subscribe }))
        },
        |t| run(|| c37_case(t.clone())),
    );
}
