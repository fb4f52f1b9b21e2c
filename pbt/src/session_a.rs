//! Session properties C16-C20: acknowledgement, delivery, reads, writes, concurrency.
use crate::codec_a::{ck, infos};
use crate::engine::*;
use crate::sim::*;
use crate::wire::{self, Ep, LData, Payload, Sent};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

// ------------------------------------------------------------------ shared vocabulary
/// A datagram the client must ignore.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Noise {
    /// acknowledgement by the gateway
    Ack { seq: u8, status: u8 },
    /// connection state is fine
    StateOk,
    /// a known frame cut short
    Cut { which: u8, len: u8 },
    /// a known frame with a wrong header length or version
    Header { which: u8, version: bool, value: u8 },
    Unknown { service: u16, body: Vec<u8> },
    Empty,
    Raw(Vec<u8>),
    Huge { len: u16 },
}
const KNOWN: [u16; 6] = [0x0420, 0x0421, 0x0423, 0x0208, 0x0209, 0x020a];
fn unknown(svc: u16) -> u16 {
    if KNOWN.contains(&svc) {
        svc ^ 0x8000
    } else {
        svc
    }
}
impl Noise {
    pub fn bytes(&self, ch: u8) -> Vec<u8> {
        let known = |w: u8| {
            let ind = LData { c1: 0xbc, c2: 0xe0, src: 0x110b, dst: 0x0a01, apci: 2, payload: Payload::Long(vec![0x0c, 0x3f]) }.bytes(wire::L_IND);
            match w % 6 {
                0 => wire::tun_req(ch, 7, &ind),
                1 => wire::disc_req(ch, Ep { proto: 1, ip: [127, 0, 0, 1], port: 3671 }),
                2 => wire::state_res(ch, 0x21),
                3 => wire::disc_res(ch, 0),
                4 => wire::feat_res(ch, 7, 8, 0, 1),
                _ => wire::tun_ack(ch, 7, 0),
            }
        };
        match self {
            Noise::Ack { seq, status } => wire::tun_ack(ch, *seq, *status),
            Noise::StateOk => wire::state_res(ch, 0),
            Noise::Cut { which, len } => {
                let f = known(*which);
                f[..*len as usize % f.len()].to_vec()
            }
            Noise::Header { which, version, value } => {
                let mut f = known(*which);
                let (at, good) = if *version { (1, 0x10) } else { (0, 6) };
                f[at] = if *value == good { value ^ 0x40 } else { *value };
                f
            }
            Noise::Unknown { service, body } => wire::frame(unknown(*service), body),
            Noise::Empty => vec![],
            Noise::Raw(v) => {
                let mut v = v.clone();
                if v.len() >= 4 {
                    let s = unknown(u16::from_be_bytes([v[2], v[3]]));
                    v[2..4].copy_from_slice(&s.to_be_bytes());
                }
                v
            }
            Noise::Huge { len } => {
                let mut v = wire::frame(0x0420, &[4, ch, 9, 0, 0x29, 0]);
                v[4..6].copy_from_slice(&0xfff0u16.to_be_bytes());
                v.resize(2100 + (*len as usize % 6000), 0x29);
                v
            }
        }
    }
}
/// Malformed, truncated, empty, oversized or unknown datagrams.
pub fn junk_noise() -> BoxedStrategy<Noise> {
    bx(prop_oneof![
        4 => (any::<u8>(), any::<u8>()).prop_map(|(which, len)| Noise::Cut { which, len }),
        2 => (any::<u8>(), any::<bool>(), any::<u8>()).prop_map(|(which, version, value)| Noise::Header { which, version, value }),
        2 => (prop_oneof![any::<u16>(), (0x0200u16..0x0210), (0x0420u16..0x0430), (0x0530u16..0x0534)], vec(any::<u8>(), 0..24)).prop_map(|(service, body)| Noise::Unknown { service, body }),
        1 => (any::<u16>(), vec(any::<u8>(), 900..2040)).prop_map(|(service, body)| Noise::Unknown { service, body }),
        2 => Just(Noise::Empty),
        2 => vec(any::<u8>(), 0..40).prop_map(Noise::Raw),
        1 => any::<u16>().prop_map(|len| Noise::Huge { len }),
    ])
}
pub fn noise() -> BoxedStrategy<Noise> {
    bx(prop_oneof![
        3 => junk_noise(),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(seq, status)| Noise::Ack { seq, status }),
        1 => Just(Noise::StateOk),
    ])
}
/// Noise that cannot be taken for the answer to a status query.
pub fn noise_no_state() -> BoxedStrategy<Noise> {
    bx(prop_oneof![3 => junk_noise(), 1 => (any::<u8>(), any::<u8>()).prop_map(|(seq, status)| Noise::Ack { seq, status })])
}
/// The cEMI content of a tunnelling request.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tele {
    Ind { infos: Vec<(u8, Vec<u8>)>, l: LData },
    Con { l: LData },
    /// an indication cut short, the tunnelling request around it is intact
    CutInd { l: LData, keep: u8 },
    /// a confirmation cut short
    CutCon { l: LData, keep: u8 },
    Garbage(Vec<u8>),
    Other { code: u8, l: LData },
}
impl Tele {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Tele::Ind { infos, l } => wire::cemi(wire::L_IND, infos, &l.service_info()),
            Tele::Con { l } => l.bytes(wire::L_CON),
            Tele::CutInd { l, keep } => {
                let si = l.service_info();
                // fewer octets than the fixed part, or than the length field announces
                wire::cemi(wire::L_IND, &[], &si[..*keep as usize % si.len()])
            }
            Tele::CutCon { l, keep } => wire::cemi(wire::L_CON, &[], &l.service_info()[..*keep as usize % 6]),
            Tele::Garbage(v) => {
                let mut v = v.clone();
                if let Some(c) = v.first_mut() {
                    if [wire::L_IND, wire::L_CON, 0x2b].contains(c) {
                        *c = 0x60;
                    }
                }
                v
            }
            Tele::Other { code, l } => l.bytes(if [wire::L_IND, wire::L_CON, 0x2b].contains(code) { 0x13 } else { *code }),
        }
    }
}
pub fn payload() -> BoxedStrategy<Payload> {
    bx(prop_oneof![
        6 => (0u8..64).prop_map(Payload::Small),
        8 => vec(any::<u8>(), 1..15).prop_map(Payload::Long),
        2 => vec(any::<u8>(), 15..=253).prop_map(Payload::Long),
        1 => proptest::sample::select(vec![1usize, 2, 13, 14, 15, 16, 252, 253]).prop_map(|n| Payload::Long(vec![0; n])),
        1 => proptest::sample::select(vec![1usize, 2, 13, 14, 15, 16, 252, 253]).prop_map(|n| Payload::Long(vec![0xff; n])),
    ])
}
pub fn raw_addr() -> BoxedStrategy<u16> {
    bx(prop_oneof![
        4 => proptest::sample::select(vec![0x0a01u16, 0x0a02, 0x010a, 0x0801, 0x0001, 0x8a01]),
        1 => proptest::sample::select(vec![0u16, 0xffff, 0x00ff, 0xff00, 0x7fff, 0x8000]),
        5 => any::<u16>(),
    ])
}
/// Sources: any, often none, the client's own granted address or the gateway's.
pub fn src() -> BoxedStrategy<u16> {
    bx(prop_oneof![4 => any::<u16>(), 1 => proptest::sample::select(vec![0u16, 0xffff, 0x11fa, 0x1101, 0x1100])])
}
pub fn ldata() -> BoxedStrategy<LData> {
    // control bytes: any, often those of everyday telegrams
    let c1 = prop_oneof![3 => any::<u8>(), 1 => proptest::sample::select(vec![0xbcu8, 0x9c, 0xb0, 0xb4, 0xb8, 0x3c, 0x90, 0xbd])];
    let c2 = prop_oneof![3 => any::<u8>(), 1 => proptest::sample::select(vec![0xe0u8, 0xd0, 0x60, 0xf0, 0x80, 0x00])];
    bx((c1, c2, src(), raw_addr(), prop_oneof![5 => 0u8..3, 1 => 3u8..16], payload()).prop_map(|(c1, c2, src, dst, apci, payload)| LData { c1, c2, src, dst, apci, payload }))
}
/// Message codes, mostly known ones, that are neither L_Data.ind nor L_Data.con.
fn other_code() -> BoxedStrategy<u8> {
    let known = vec![0x10u8, 0x11, 0x13, 0x25, 0x2d, 0x2f, 0x41, 0x4a, 0x89, 0x94, 0xf0, 0xf1, 0xf5, 0xf6, 0xf7, 0xfb, 0xfc, 0x28, 0x2a, 0x2c];
    bx(prop_oneof![3 => proptest::sample::select(known), 1 => any::<u8>()])
}
/// Additional information in front of a telegram.
pub fn blocks() -> BoxedStrategy<Vec<(u8, Vec<u8>)>> {
    bx(prop_oneof![3 => infos(3), 1 => infos(9)])
}
pub fn tele() -> BoxedStrategy<Tele> {
    bx(prop_oneof![
        6 => (blocks(), ldata()).prop_map(|(infos, l)| Tele::Ind { infos, l }),
        2 => ldata().prop_map(|l| Tele::Con { l }),
        1 => (ldata(), any::<u8>()).prop_map(|(l, keep)| Tele::CutInd { l, keep }),
        1 => (ldata(), any::<u8>()).prop_map(|(l, keep)| Tele::CutCon { l, keep }),
        1 => vec(any::<u8>(), 0..30).prop_map(Tele::Garbage),
        1 => (other_code(), ldata()).prop_map(|(code, l)| Tele::Other { code, l }),
    ])
}
pub fn group_addr() -> BoxedStrategy<Addr> {
    bx((1u8..4, raw_addr()).prop_map(|(kind, raw)| Addr { kind, raw }))
}
pub fn ep() -> BoxedStrategy<Ep> {
    bx(prop_oneof![3 => Just(Ep { proto: 1, ip: [127, 0, 0, 1], port: 3671 }), 1 => Just(Ep::ZERO), 1 => any::<u16>().prop_map(|port| Ep { proto: 1, ip: [0; 4], port }), 3 => (any::<[u8; 4]>(), any::<u16>()).prop_map(|(ip, port)| Ep { proto: 1, ip, port })])
}
pub fn kind() -> BoxedStrategy<Kind> {
    bx(prop_oneof![Just(Kind::Client), Just(Kind::Monitor)])
}
/// Channel, endpoint.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Chan {
    pub ch: u8,
    pub ep: Ep,
}
pub fn chan() -> BoxedStrategy<Chan> {
    // few numbers, so that tunnels often get the channel of an earlier one
    let ch = prop_oneof![3 => proptest::sample::select(vec![0u8, 1, 2, 255]), 2 => any::<u8>()];
    bx((ch, ep()).prop_map(|(ch, ep)| Chan { ch, ep }))
}
pub fn status_err() -> BoxedStrategy<u8> {
    bx(prop_oneof![proptest::sample::select(vec![0x21u8, 0x26, 0x27, 0x29]), 1u8..=255])
}
/// A loss of the tunnel reported by the gateway, followed by a new tunnel.
pub async fn flap(s: &mut Sim, status: u8, c: Chan) -> Result<(), String> {
    s.await_acks().await?;
    s.state_error(status);
    s.await_connect_req().await?;
    s.grant(c.ch, c.ep).await
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E16 {
    Tele(Tele),
    /// the same content once more, with the next sequence number
    Again,
    Feature(u8, u8, u8),
    Noise(Noise),
    Burst(u8, LData),
    SeqJump(u8),
    Read(Addr),
    Write(Addr, Payload),
    Status,
    Abort,
    Sync,
    Advance(u32),
    Flap(u8, Chan),
    /// telegrams whose acknowledgements cannot be sent for so many ms
    Held(Vec<Tele>, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C16 {
    kind: Kind,
    chan: Chan,
    ev: Vec<E16>,
}
async fn c16_case(c: C16) -> Res {
    let mut s = Sim::up(c.kind, c.chan.ch, c.chan.ep).await?;
    let mut calls = vec![];
    let mut unsynced = 0;
    let (mut teles, mut special) = (0u32, 0u32);
    let mut last: Option<Vec<u8>> = None;
    for e in &c.ev {
        match e {
            E16::Again => {
                if let Some(b) = &last {
                    s.tele(b);
                    teles += 1;
                }
            }
            E16::Tele(t) => {
                s.tele(&t.bytes());
                last = Some(t.bytes());
                teles += 1;
                special += !matches!(t, Tele::Ind { .. }) as u32;
            }
            E16::Feature(f, st, v) => {
                s.feature([2, 6, 7, 8][*f as usize % 4], *st, *v);
                teles += 1
            }
            E16::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b);
                special += 1;
            }
            E16::Burst(n, l) => {
                for i in 0..*n % 100 {
                    let mut l = l.clone();
                    l.src = i as u16;
                    s.tele(&l.bytes(wire::L_IND));
                }
                unsynced = 100;
                teles += (*n % 100) as u32;
            }
            E16::SeqJump(q) => s.gseq = *q,
            E16::Read(a) => calls.push(s.read(*a)),
            E16::Write(a, p) => calls.push(s.write(*a, p)),
            E16::Status if c.kind == Kind::Client => calls.push(s.status()),
            E16::Status => {}
            E16::Abort => {
                calls.pop();
            }
            E16::Sync => s.sync().await?,
            E16::Advance(ms) => {
                s.await_acks().await?;
                s.advance_ms(*ms as u64).await;
                special += 1;
            }
            E16::Held(v, ms) => {
                s.await_acks().await?;
                hold_sends(wire::TUN_ACK);
                for t in v {
                    s.tele(&t.bytes());
                    teles += 1;
                }
                s.settle().await;
                s.advance_ms(*ms as u64).await;
                s.release_sends().await;
                s.await_acks().await?;
                special += 1;
            }
            E16::Flap(st, ch) => {
                flap(&mut s, *st, *ch).await?;
                special += 1;
            }
        }
        unsynced += 1;
        if unsynced > 60 {
            s.await_acks().await?;
            unsynced = 0;
        }
    }
    s.sync().await?;
    s.check_acks()?;
    s.check_wellformed()?;
    Ok(Info::nt(teles >= 2 && special > 0)
        .label(c.kind == Kind::Monitor, "monitor")
        .label(!calls.is_empty(), "with pending calls")
        .label(c.ev.iter().any(|e| matches!(e, E16::Flap(..))), "with reconnection")
        .label(c.ev.iter().any(|e| matches!(e, E16::Advance(a) if *a > 60_000)), "across a heartbeat")
        .label(held_hits() > 0, "acknowledgements held up")
        .label(c.ev.iter().any(|e| matches!(e, E16::Burst(..))), "with bursts"))
}
pub fn c16(c: &mut Ctx) {
    c.rule("histories of telegrams, feature responses, ignorable datagrams, bursts, client calls, clock advances and reconnections; the acknowledgements seen by the gateway must be exactly the list of requests sent; non-trivial: two or more telegrams and something else than plain indications");
    let n = c.n(36_000);
    c.generate(
        "acknowledgements",
        n,
        || {
            let e = prop_oneof![
                8 => tele().prop_map(E16::Tele),
                1 => Just(E16::Again),
                2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| E16::Feature(a, b, c)),
                3 => noise().prop_map(E16::Noise),
                1 => (any::<u8>(), ldata()).prop_map(|(n, l)| E16::Burst(n, l)),
                1 => any::<u8>().prop_map(E16::SeqJump),
                1 => group_addr().prop_map(E16::Read),
                1 => (group_addr(), payload()).prop_map(|(a, p)| E16::Write(a, p)),
                1 => Just(E16::Status),
                1 => Just(E16::Abort),
                1 => Just(E16::Sync),
                1 => prop_oneof![0u32..5000, 0u32..130_000].prop_map(E16::Advance),
                1 => (status_err(), chan()).prop_map(|(s, c)| E16::Flap(s, c)),
                1 => (vec(tele(), 1..5), prop_oneof![0u32..3000, 0u32..130_000]).prop_map(|(v, ms)| E16::Held(v, ms)),
            ];
            bx((kind(), chan(), vec(e, 1..25)).prop_map(|(kind, chan, ev)| C16 { kind, chan, ev }))
        },
        |t| run(|| c16_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E17 {
    Tele(Tele),
    /// the same content as n telegrams before, with the next sequence number
    Again(u8),
    Noise(Noise),
    Feature,
    Burst(u16, LData),
    /// consume up to n messages that have been sent
    Consume(u8),
    /// start waiting, give up
    Cancel(bool),
    /// poll a call up to n times, then abandon it unless it has returned
    Poll(u8),
    Call(Addr, Option<Payload>),
    Advance(u32),
    Flap(u8, Chan),
    /// the gateway asks to disconnect; a new tunnel follows
    GwDisc(Chan),
    /// telegrams whose acknowledgements cannot be sent for so many ms
    Held(Vec<Tele>, u32),
    /// one waiting call for each of these, all at the same time
    Crowd(Vec<LData>),
    Ask(Ask),
    /// a call that waits for so many ms before its message comes
    Late(u32, LData),
    /// the tunnel is lost (asked by the gateway or by a state error), calls are made without one,
    /// then a new tunnel is granted
    Outage(bool, u8, Vec<Ask>, u16, Chan),
}
/// Calls of the monitor that are not concerned with messages, and calls that read them.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
    Status,
    Subscribe,
    Request(Addr, Option<Payload>),
    Consume,
    Abandon,
    Wait(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C17 {
    chan: Chan,
    ev: Vec<E17>,
    /// disconnect before the remaining messages are read
    bye: bool,
}
fn same_ind(got: &knx_ip_client::packets::emi::LDataInd, infos: &[(u8, Vec<u8>)], l: &LData) -> Result<(), String> {
    let g = &got.l_data;
    ck!(g.src == l.src && g.dest == l.dst, "message {:04x}->{:04x} instead of {:04x}->{:04x}", g.src, g.dest, l.src, l.dst);
    ck!(got.value == l.payload.value(), "message value {:02x?} instead of {:02x?}", got.value, l.payload.value());
    ck!(
        (g.frame_type, g.repetition, g.system_broadcast, g.ack_request) == (l.c1 & 0x80 != 0, l.c1 & 0x20 != 0, l.c1 & 0x10 != 0, l.c1 & 2 != 0),
        "message flags {g:?} do not match control byte {:02x}",
        l.c1
    );
    ck!(got.cemi.msg_code == wire::L_IND && got.cemi.service_info == l.service_info(), "raw message {:02x?} instead of {:02x?}", got.cemi.service_info, l.service_info());
    let gi: Vec<Vec<u8>> = got.cemi.additional_infos.iter().map(|i| i.value.clone()).collect();
    let wi: Vec<Vec<u8>> = infos.iter().map(|i| i.1.clone()).collect();
    ck!(gi == wi, "additional infos {gi:02x?} instead of {wi:02x?}");
    Ok(())
}
async fn ask(s: &mut Sim, a: &Ask, sent: &[(Vec<(u8, Vec<u8>)>, LData)], got: &mut usize, calls: &mut Vec<Call>) -> Result<(), String> {
    match a {
        Ask::Status => {
            let h = s.is_connected();
            s.joined(h, "is_connected").await?;
        }
        Ask::Subscribe => drop(s.subscribe(1).await?),
        Ask::Request(a, Some(p)) => calls.push(s.write(*a, p)),
        Ask::Request(a, None) => calls.push(s.read(*a)),
        Ask::Consume if *got < sent.len() => {
            consume(s, &sent[*got], *got).await?;
            *got += 1;
        }
        Ask::Abandon if *got == sent.len() => {
            let h = s.next_msg();
            s.settle().await;
            ck!(!h.is_finished(), "a message was returned though all {got} indications had been read: {:?}", h.await);
            h.abort();
            s.settle().await;
        }
        Ask::Consume | Ask::Abandon => {}
        Ask::Wait(ms) => s.advance_ms(*ms as u64 % 4000).await,
    }
    Ok(())
}
async fn consume(s: &mut Sim, want: &(Vec<(u8, Vec<u8>)>, LData), i: usize) -> Result<(), String> {
    let h = s.next_msg();
    match s.joined(h, &format!("next_msg for indication {i}")).await? {
        Ok(g) => same_ind(&g, &want.0, &want.1).map_err(|e| format!("indication {i}: {e}")),
        Err(e) => Err(format!("next_msg failed instead of returning indication {i}: {e}")),
    }
}
async fn c17_case(c: C17) -> Res {
    let mut s = Sim::up(Kind::Monitor, c.chan.ch, c.chan.ep).await?;
    let mut sent: Vec<(Vec<(u8, Vec<u8>)>, LData)> = vec![];
    let mut got = 0;
    let mut unsynced = 0;
    let mut special = false;
    let mut calls = vec![];
    let mut past: Vec<Tele> = vec![];
    for e in &c.ev {
        let again = match e {
            E17::Again(n) if !past.is_empty() => Some(E17::Tele(past[past.len() - 1 - (*n as usize % past.len().min(3))].clone())),
            _ => None,
        };
        match again.as_ref().unwrap_or(e) {
            E17::Again(_) => {}
            E17::Tele(t) => {
                s.tele(&t.bytes());
                past.push(t.clone());
                match t {
                    Tele::Ind { infos, l } => sent.push((infos.clone(), l.clone())),
                    _ => special = true,
                }
            }
            E17::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b);
                special = true;
            }
            E17::Feature => s.feature(8, 0, 1),
            E17::Burst(n, l) => {
                for i in 0..*n {
                    let mut l = l.clone();
                    l.src = if n % 2 == 0 { i } else { l.src };
                    s.tele(&l.bytes(wire::L_IND));
                    sent.push((vec![], l));
                    if i % 60 == 59 {
                        s.await_acks().await?;
                    }
                }
                s.await_acks().await?;
            }
            E17::Consume(n) => {
                for _ in 0..*n {
                    if got < sent.len() {
                        consume(&mut s, &sent[got], got).await?;
                        got += 1;
                    }
                }
            }
            E17::Cancel(run) => {
                // only while nothing is queued: a message handed to an abandoned call is gone
                s.await_acks().await?;
                if got == sent.len() {
                    let h = s.next_msg();
                    if *run {
                        s.settle().await;
                    }
                    if h.is_finished() {
                        return Err(format!("a message was returned though all {got} indications had been read: {:?}", h.await));
                    }
                    h.abort();
                    s.settle().await;
                }
            }
            E17::Poll(n) => {
                let m = s.monitor();
                let mut fut = Box::pin(async move { m.next_msg().await.map_err(|e| e.to_string()) });
                for _ in 0..=n % 4 {
                    let p = std::future::poll_fn(|cx| std::task::Poll::Ready(std::future::Future::poll(fut.as_mut(), cx))).await;
                    if let std::task::Poll::Ready(r) = p {
                        ck!(got < sent.len(), "a message was returned though all {got} indications had been read: {r:?}");
                        let g = r.map_err(|e| format!("next_msg failed instead of returning indication {got}: {e}"))?;
                        same_ind(&g, &sent[got].0, &sent[got].1).map_err(|e| format!("indication {got}: {e}"))?;
                        got += 1;
                        break;
                    }
                    s.settle().await;
                }
            }
            E17::Call(a, p) => calls.push(match p {
                Some(p) => s.write(*a, p),
                None => s.read(*a),
            }),
            E17::Advance(ms) => {
                s.await_acks().await?;
                s.advance_ms(*ms as u64).await;
            }
            E17::Flap(st, ch) => {
                flap(&mut s, *st, *ch).await?;
                special = true;
            }
            E17::GwDisc(ch) => {
                s.await_acks().await?;
                let f = wire::disc_req(s.ch, s.ep);
                s.send(&f);
                s.await_connect_req().await?;
                s.grant(ch.ch, ch.ep).await?;
                special = true;
            }
            E17::Held(v, ms) => {
                s.await_acks().await?;
                hold_sends(wire::TUN_ACK);
                for t in v {
                    s.tele(&t.bytes());
                    if let Tele::Ind { infos, l } = t {
                        sent.push((infos.clone(), l.clone()));
                    }
                }
                s.settle().await;
                s.advance_ms(*ms as u64).await;
                s.release_sends().await;
                s.await_acks().await?;
                special = true;
            }
            E17::Late(ms, l) => {
                s.await_acks().await?;
                while got < sent.len() {
                    consume(&mut s, &sent[got], got).await?;
                    got += 1;
                }
                let h = s.next_msg();
                s.settle().await;
                s.advance_ms(*ms as u64).await;
                s.settle().await;
                if h.is_finished() {
                    return Err(format!("next_msg returned {:02x?} within {ms} ms without a message", h.await));
                }
                s.tele(&l.bytes(wire::L_IND));
                let g = s.joined(h, "a next_msg call that has waited long").await?.map_err(|e| format!("next_msg failed after waiting {ms} ms: {e}"))?;
                same_ind(&g, &[], l).map_err(|e| format!("indication {got}, waited for {ms} ms: {e}"))?;
                sent.push((vec![], l.clone()));
                got += 1;
            }
            E17::Ask(a) => {
                s.await_acks().await?;
                ask(&mut s, a, &sent, &mut got, &mut calls).await?;
            }
            E17::Outage(gw, st, asks, wait, ch) => {
                s.await_acks().await?;
                if *gw {
                    let f = wire::disc_req(s.ch, s.ep);
                    s.send(&f);
                } else {
                    s.state_error(*st);
                }
                s.await_connect_req().await?;
                // well within the time the client waits for the answer
                let mut left = 24_000;
                for a in asks {
                    if let Ask::Wait(ms) = a {
                        if *ms as u64 % 4000 > left {
                            continue;
                        }
                        left -= *ms as u64 % 4000;
                    }
                    ask(&mut s, a, &sent, &mut got, &mut calls).await?;
                }
                s.settle().await;
                s.advance_ms(*wait as u64 % (left + 1)).await;
                s.grant(ch.ch, ch.ep).await?;
                special = true;
            }
            E17::Crowd(v) => {
                s.await_acks().await?;
                while got < sent.len() {
                    consume(&mut s, &sent[got], got).await?;
                    got += 1;
                }
                let hs: Vec<_> = v.iter().map(|_| s.next_msg()).collect();
                s.settle().await;
                for l in v {
                    s.tele(&l.bytes(wire::L_IND));
                    sent.push((vec![], l.clone()));
                    got += 1;
                }
                let mut want: Vec<Vec<u8>> = v.iter().map(|l| l.service_info()).collect();
                for h in hs {
                    let g = s.joined(h, "one of several next_msg calls").await?.map_err(|e| format!("one of several next_msg calls failed: {e}"))?;
                    let Some(i) = want.iter().position(|w| *w == g.cemi.service_info) else {
                        return Err(format!("one of several next_msg calls returned {g:02x?}, expected one of {want:02x?}"));
                    };
                    want.remove(i);
                }
            }
        }
        unsynced += 1;
        if unsynced > 60 {
            s.await_acks().await?;
            unsynced = 0;
        }
    }
    s.await_acks().await?;
    let last = LData { c1: 0xbc, c2: 0xe0, src: 0xeeee, dst: 0xdddd, apci: 2, payload: Payload::Long(b"sentinel".to_vec()) };
    s.tele(&last.bytes(wire::L_IND));
    sent.push((vec![], last));
    s.await_acks().await?;
    if c.bye {
        calls.clear();
        s.settle().await;
        let m = s.mark();
        let mut d = s.disconnect();
        s.until("the disconnect request", |s| s.count_since(m, |f| matches!(f, Sent::DiscReq { .. })) > 0).await?;
        let f = wire::disc_res(s.ch, 0);
        s.send(&f);
        s.done(&mut d).await?;
    }
    while got < sent.len() {
        consume(&mut s, &sent[got], got).await?;
        got += 1;
    }
    let h = s.next_msg();
    s.settle().await;
    if h.is_finished() {
        // after a disconnect there may be an error, never a message
        let r = h.await;
        ck!(c.bye && !matches!(r, Ok(Ok(_))), "one more message was returned after all {got} indications: {r:?}");
    } else {
        h.abort();
    }
    Ok(Info::nt(got > 2 && special)
        .label(got > 100, "more than 100 messages")
        .label(c.bye, "read after a disconnect")
        .label(held_hits() > 0, "acknowledgements held up")
        .label(c.ev.iter().any(|e| matches!(e, E17::Crowd(_))), "several waiting calls")
        .label(c.ev.iter().any(|e| matches!(e, E17::Again(_))), "with identical telegrams")
        .label(c.ev.iter().any(|e| matches!(e, E17::Flap(..))), "with reconnection")
        .label(c.ev.iter().any(|e| matches!(e, E17::Outage(_, _, v, ..) if !v.is_empty())), "calls without a tunnel")
        .label(c.ev.iter().any(|e| matches!(e, E17::Cancel(_) | E17::Poll(_))), "with an abandoned call")
        .label(c.ev.iter().any(|e| matches!(e, E17::Advance(a) if *a > 60_000)), "across a heartbeat"))
}
fn ask17() -> BoxedStrategy<Ask> {
    bx(prop_oneof![
        2 => Just(Ask::Status),
        1 => Just(Ask::Subscribe),
        2 => (group_addr(), proptest::option::of(payload())).prop_map(|(a, p)| Ask::Request(a, p)),
        1 => Just(Ask::Consume),
        1 => Just(Ask::Abandon),
        1 => any::<u16>().prop_map(Ask::Wait),
    ])
}
pub fn c17(c: &mut Ctx) {
    c.rule("histories of indications, confirmations, malformed telegrams, ignorable datagrams, bursts of up to 700 unread indications, late or abandoned next_msg calls, monitor calls, clock advances and reconnections; the messages returned must be exactly the well-formed indications, field by field, in order; non-trivial: over two messages and something that must not be returned, or a reconnection");
    let n = c.n(24_000);
    c.generate(
        "delivery",
        n,
        || {
            let e = prop_oneof![
                16 => tele().prop_map(E17::Tele),
                2 => any::<u8>().prop_map(E17::Again),
                4 => noise().prop_map(E17::Noise),
                2 => Just(E17::Feature),
                1 => (prop_oneof![4 => 0u16..40, 1 => 0u16..700], ldata()).prop_map(|(n, l)| E17::Burst(n, l)),
                4 => (1u8..6).prop_map(E17::Consume),
                2 => any::<bool>().prop_map(E17::Cancel),
                2 => any::<u8>().prop_map(E17::Poll),
                2 => (group_addr(), proptest::option::of(payload())).prop_map(|(a, p)| E17::Call(a, p)),
                2 => prop_oneof![0u32..5000, 0u32..130_000].prop_map(E17::Advance),
                2 => (status_err(), chan()).prop_map(|(s, c)| E17::Flap(s, c)),
                1 => chan().prop_map(E17::GwDisc),
                1 => (vec(tele(), 1..5), prop_oneof![0u32..3000, 0u32..130_000]).prop_map(|(v, ms)| E17::Held(v, ms)),
                1 => vec(ldata(), 1..5).prop_map(E17::Crowd),
                2 => ask17().prop_map(E17::Ask),
                1 => (prop_oneof![20 => 0u32..5000, 20 => 0u32..200_000, 1 => 0u32..8_000_000], ldata()).prop_map(|(ms, l)| E17::Late(ms, l)),
                1 => (any::<bool>(), status_err(), vec(ask17(), 0..6), any::<u16>(), chan()).prop_map(|(g, s, v, w, c)| E17::Outage(g, s, v, w, c)),
            ];
            bx((chan(), vec(e, 1..30), proptest::bool::weighted(0.2)).prop_map(|(chan, ev, bye)| C17 { chan, ev, bye }))
        },
        |t| run(|| c17_case(t.clone())),
    );
}

// ------------------------------------------------------------------ C18 / C19
/// Traffic around an operation on a target address.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Around {
    /// indication for an address that differs in one bit
    Near { bit: u8, src: u16, apci: u8, payload: Payload },
    /// same 16 bits, other kind of destination
    OtherKind { src: u16, apci: u8, payload: Payload },
    /// another device reads the same address
    ReadReq { src: u16 },
    /// same address, neither read, response nor write
    OtherService { src: u16, apci: u8, payload: Payload },
    CutInd { keep: u8, payload: Payload },
    /// confirmation for the target (never used while a write is outstanding)
    Con { ok: bool, payload: Payload },
    NearCon { bit: u8, ok: bool, payload: Payload },
    OtherKindCon { ok: bool, payload: Payload },
    CutCon { keep: u8, ok: bool },
    /// a telegram carrying a value of the target (never used while a read is outstanding)
    Value { src: u16, write: bool, payload: Payload },
    Garbage(Vec<u8>),
    /// the content that would be the answer, in a message of another kind
    OtherCode { code: u8, ok: bool, payload: Payload },
    Noise(Noise),
    Wait(u16),
    /// the same thing many times over
    Many(u8, Box<Around>),
}
impl Around {
    /// In one burst with what follows: nothing is awaited.
    pub async fn burst(&self, s: &mut Sim, a: Addr) -> Result<(), String> {
        match self {
            Around::Wait(_) => {}
            Around::Many(n, x) => {
                // the system's receive buffer must hold them
                let n = if matches!(**x, Around::Noise(_)) { *n / 20 } else { *n };
                for _ in 0..n {
                    x.play_one(s, a).await?;
                }
            }
            x => drop(x.play_one(s, a).await?),
        }
        Ok(())
    }
    pub async fn play(&self, s: &mut Sim, a: Addr) -> Result<u64, String> {
        match self {
            Around::Many(n, x) => {
                for i in 0..*n {
                    x.play_one(s, a).await?;
                    if i % 50 == 49 || matches!(**x, Around::Noise(_)) && i % 5 == 4 {
                        s.settle().await;
                        s.await_acks().await?;
                    }
                }
                s.await_acks().await?;
                Ok(0)
            }
            x => x.play_one(s, a).await,
        }
    }
    async fn play_one(&self, s: &mut Sim, a: Addr) -> Result<u64, String> {
        let l = |c1, c2, src, dst, apci, p: &Payload| LData { c1, c2, src, dst, apci, payload: p.clone() };
        let c = |ok: bool| if ok { 0xbc } else { 0xbd };
        match self {
            Around::Near { bit, src, apci, payload } => s.tele(&l(0xbc, a.c2(), *src, a.raw ^ (1 << (bit % 16)), 1 + apci % 2, payload).bytes(wire::L_IND)),
            Around::OtherKind { src, apci, payload } => s.tele(&l(0xbc, a.c2() ^ 0x80, *src, a.raw, 1 + apci % 2, payload).bytes(wire::L_IND)),
            Around::ReadReq { src } => s.tele(&l(0xbc, a.c2(), *src, a.raw, 0, &Payload::Small(0)).bytes(wire::L_IND)),
            Around::OtherService { src, apci, payload } => s.tele(&l(0xbc, a.c2(), *src, a.raw, 3 + apci % 13, payload).bytes(wire::L_IND)),
            Around::CutInd { keep, payload } => {
                let si = l(0xbc, a.c2(), 1, a.raw, 1, payload).service_info();
                s.tele(&wire::cemi(wire::L_IND, &[], &si[..*keep as usize % si.len()]))
            }
            Around::Con { ok, payload } => s.tele(&l(c(*ok), a.c2(), 0, a.raw, 2, payload).bytes(wire::L_CON)),
            Around::NearCon { bit, ok, payload } => s.tele(&l(c(*ok), a.c2(), 0, a.raw ^ (1 << (bit % 16)), 2, payload).bytes(wire::L_CON)),
            Around::OtherKindCon { ok, payload } => s.tele(&l(c(*ok), a.c2() ^ 0x80, 0, a.raw, 2, payload).bytes(wire::L_CON)),
            Around::CutCon { keep, ok } => {
                let si = l(c(*ok), a.c2(), 0, a.raw, 2, &Payload::Small(1)).service_info();
                s.tele(&wire::cemi(wire::L_CON, &[], &si[..*keep as usize % 6]))
            }
            Around::Value { src, write, payload } => s.tele(&l(0xbc, a.c2(), *src, a.raw, 1 + *write as u8, payload).bytes(wire::L_IND)),
            Around::Garbage(v) => s.tele(&Tele::Garbage(v.clone()).bytes()),
            Around::OtherCode { code, ok, payload } => s.tele(&Tele::Other { code: *code, l: l(c(*ok), a.c2(), 0, a.raw, 1 + (*code & 1), payload) }.bytes()),
            Around::Noise(n) => {
                let b = n.bytes(s.ch);
                s.send(&b)
            }
            Around::Wait(ms) => {
                s.await_acks().await?;
                s.advance_ms(*ms as u64 % 3000).await;
                return Ok(*ms as u64 % 3000);
            }
            Around::Many(..) => unreachable!(),
        }
        Ok(0)
    }
}
/// Traffic that must affect neither a read nor a write on the target.
pub fn around_common() -> Vec<(u32, BoxedStrategy<Around>)> {
    vec![
        (4, bx((any::<u8>(), src(), any::<u8>(), payload()).prop_map(|(bit, src, apci, payload)| Around::Near { bit, src, apci, payload }))),
        (2, bx((src(), any::<u8>(), payload()).prop_map(|(src, apci, payload)| Around::OtherKind { src, apci, payload }))),
        (2, bx(src().prop_map(|src| Around::ReadReq { src }))),
        (1, bx((src(), any::<u8>(), payload()).prop_map(|(src, apci, payload)| Around::OtherService { src, apci, payload }))),
        (2, bx((any::<u8>(), payload()).prop_map(|(keep, payload)| Around::CutInd { keep, payload }))),
        (2, bx((any::<u8>(), any::<bool>(), payload()).prop_map(|(bit, ok, payload)| Around::NearCon { bit, ok, payload }))),
        (1, bx((any::<bool>(), payload()).prop_map(|(ok, payload)| Around::OtherKindCon { ok, payload }))),
        (1, bx((any::<u8>(), any::<bool>()).prop_map(|(keep, ok)| Around::CutCon { keep, ok }))),
        (1, bx(vec(any::<u8>(), 0..20).prop_map(Around::Garbage))),
        (2, bx((other_code(), any::<bool>(), payload()).prop_map(|(code, ok, payload)| Around::OtherCode { code, ok, payload }))),
        (2, bx(noise().prop_map(Around::Noise))),
        (2, bx(any::<u16>().prop_map(Around::Wait))),
    ]
}
fn around_con() -> (u32, BoxedStrategy<Around>) {
    (3, bx((any::<bool>(), payload()).prop_map(|(ok, payload)| Around::Con { ok, payload })))
}
fn around_value() -> (u32, BoxedStrategy<Around>) {
    (3, bx((src(), any::<bool>(), payload()).prop_map(|(src, write, payload)| Around::Value { src, write, payload })))
}
fn with_many(v: Vec<(u32, BoxedStrategy<Around>)>) -> BoxedStrategy<Around> {
    let one = bx(proptest::strategy::Union::new_weighted(v));
    let many = (2u8..140, one.clone()).prop_map(|(n, x)| match x {
        Around::Wait(ms) => Around::Wait(ms),
        x => Around::Many(n, Box::new(x)),
    });
    bx(prop_oneof![60 => one, 1 => many])
}
pub fn around_read() -> BoxedStrategy<Around> {
    let mut v = around_common();
    v.push(around_con());
    with_many(v)
}
pub fn around_write() -> BoxedStrategy<Around> {
    let mut v = around_common();
    v.push(around_value());
    with_many(v)
}
pub fn around_any() -> BoxedStrategy<Around> {
    let mut v = around_common();
    v.push(around_value());
    v.push(around_con());
    with_many(v)
}
const A20: Addr = Addr { kind: 3, raw: 0x0a01 };
#[derive(Clone, Debug, Serialize, Deserialize)]
struct R18 {
    /// None: that of the round before
    addr: Option<Addr>,
    before: Vec<Around>,
    after: Vec<Around>,
    /// sent right before the answer, in one burst with it
    front: Vec<Around>,
    /// source, write instead of response, value, infos, control byte, hop count and format
    answer: Option<(u16, bool, Payload, Vec<(u8, Vec<u8>)>, u8, u8)>,
    /// sent right behind the answer
    behind: Vec<Around>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C18 {
    chan: Chan,
    rounds: Vec<R18>,
}
pub const LIMIT_MS: u64 = 10_000;
const TOL_MS: u64 = 600;
/// Plays traffic that must leave the outstanding call alone; keeps clear of its time limit.
pub async fn play_around(s: &mut Sim, a: Addr, v: &[Around], call: &mut Call, spent: &mut u64) -> Result<(), String> {
    for x in v {
        if matches!(x, Around::Wait(ms) if *spent + *ms as u64 % 3000 > LIMIT_MS - TOL_MS) {
            continue;
        }
        *spent += x.play(s, a).await?;
        if matches!(x, Around::Wait(_)) {
            s.pending(call, &format!("after {:?}", v)).await?;
        }
    }
    s.sync().await?;
    s.pending(call, &format!("because of {:02x?}", v)).await
}
async fn c18_case(c: C18) -> Res {
    let mut s = Sim::up(Kind::Client, c.chan.ch, c.chan.ep).await?;
    let mut nt = false;
    let mut last = A20;
    for (i, r) in c.rounds.iter().enumerate() {
        let a = r.addr.unwrap_or(last);
        last = a;
        for x in &r.before {
            x.play(&mut s, a).await?;
        }
        s.sync().await?;
        let m = s.mark();
        let mut call = s.read(a);
        let (ch, _, req) = s.request(m, &format!("read number {i}")).await?;
        ck!(ch == s.ch && same_request(&req, &a.read_req()), "read of {a:?} sent {req:02x?} on channel {ch}, expected {:02x?} on {}", a.read_req(), s.ch);
        let mut spent = 0;
        play_around(&mut s, a, &r.after, &mut call, &mut spent).await?;
        match &r.answer {
            Some((src, write, p, infos, c1, c2)) => {
                let l = LData { c1: *c1, c2: a.c2() & 0x80 | c2 & 0x7f, src: *src, dst: a.raw, apci: 1 + *write as u8, payload: p.clone() };
                s.await_acks().await?;
                for x in &r.front {
                    x.burst(&mut s, a).await?;
                }
                s.tele(&wire::cemi(wire::L_IND, infos, &l.service_info()));
                for x in &r.behind {
                    if !matches!(x, Around::Wait(_)) {
                        x.play(&mut s, a).await?;
                    }
                }
                let o = s.done(&mut call).await.map_err(|e| format!("{e} after its answer {l:?} at {spent} ms"))?;
                ck!(o == Out::Bytes(p.value()), "read number {i} of {a:?} returned {o:02x?} instead of {:02x?}", p.value());
            }
            None => {
                let (o, _) = s.done_within(&mut call, Duration::from_millis(LIMIT_MS - spent + TOL_MS)).await?;
                ck!(o.is_err(), "unanswered read number {i} returned {o:02x?}");
            }
        }
        s.sync().await?;
        let n = s.requests(m).len();
        ck!(n == 1, "read number {i} sent {n} requests");
        nt |= r.answer.is_some() && (!r.before.is_empty() || !r.after.is_empty());
    }
    s.check_wellformed()?;
    let any = |f: fn(&Around) -> bool, w: fn(&R18) -> &Vec<Around>| c.rounds.iter().any(|r| w(r).iter().any(f));
    Ok(Info::nt(nt)
        .label(any(|x| matches!(x, Around::Value { .. }), |r| &r.before), "value of the address before the request")
        .label(any(|x| matches!(x, Around::OtherKind { .. }), |r| &r.after), "individual address with the same bits")
        .label(any(|x| matches!(x, Around::ReadReq { .. }), |r| &r.after), "foreign read request")
        .label(any(|x| matches!(x, Around::CutInd { .. }), |r| &r.after), "malformed indication")
        .label(c.rounds.iter().any(|r| r.answer.is_none()), "unanswered read"))
}
/// What comes in one burst with an answer, ahead of it.
fn front(f: fn() -> BoxedStrategy<Around>) -> BoxedStrategy<Vec<Around>> {
    let many = (2u8..150, f()).prop_map(|(n, x)| match x {
        x @ Around::Wait(_) => vec![x],
        Around::Many(_, x) => vec![Around::Many(n, x)],
        x => vec![Around::Many(n, Box::new(x))],
    });
    bx(prop_oneof![14 => Just(vec![]), 14 => vec(f().prop_filter("one", |x| !matches!(x, Around::Many(..))), 1..5), 1 => many])
}
fn answer() -> BoxedStrategy<(u16, bool, Payload, Vec<(u8, Vec<u8>)>, u8, u8)> {
    bx((src(), any::<bool>(), payload(), blocks(), any::<u8>(), any::<u8>()))
}
pub fn c18(c: &mut Ctx) {
    c.rule("one to five reads per session, each with generated traffic before the request, while it is outstanding and right behind the answer: neighbouring and individual addresses, foreign reads, confirmations, malformed telegrams, stale values; non-trivial: an answered read with such traffic");
    let n = c.n(48_000);
    c.generate(
        "reads",
        n,
        || {
            let r = (proptest::option::weighted(0.7, group_addr()), vec(around_any(), 0..5), vec(around_read(), 0..8), front(around_read), proptest::option::weighted(0.9, answer()), vec(around_any(), 0..4)).prop_map(|(addr, before, after, front, answer, behind)| R18 { addr, before, after, front, answer, behind });
            bx((chan(), vec(r, 1..6)).prop_map(|(chan, rounds)| C18 { chan, rounds }))
        },
        |t| run(|| c18_case(t.clone())),
    );
    crate::threads::threads(c, 500, Some(Kind::Client), 0.05, 6);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Conf {
    Pos,
    Neg,
    None,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct R19 {
    /// None: that of the round before
    addr: Option<Addr>,
    value: Payload,
    before: Vec<Around>,
    after: Vec<Around>,
    /// sent right before the confirmation, in one burst with it
    front: Vec<Around>,
    conf: Conf,
    c1: u8,
    c2: u8,
    infos: Vec<(u8, Vec<u8>)>,
    src: u16,
    behind: Vec<Around>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C19 {
    chan: Chan,
    rounds: Vec<R19>,
}
async fn c19_case(c: C19) -> Res {
    let mut s = Sim::up(Kind::Client, c.chan.ch, c.chan.ep).await?;
    let mut nt = false;
    let mut last = A20;
    for (i, r) in c.rounds.iter().enumerate() {
        let a = r.addr.unwrap_or(last);
        last = a;
        for x in &r.before {
            x.play(&mut s, a).await?;
        }
        s.sync().await?;
        let m = s.mark();
        let mut call = s.write(a, &r.value);
        if matches!(&r.value, Payload::Long(v) if v.len() > 254) {
            let o = s.done(&mut call).await.map_err(|e| format!("{e} (value too long)"))?;
            ck!(o.is_err(), "a value of over 254 octets was accepted: {o:?}");
            s.sync().await?;
            ck!(s.requests(m).is_empty(), "a request was sent for a value that is too long");
            continue;
        }
        let (ch, _, req) = s.request(m, &format!("write number {i}")).await?;
        let want = a.write_req(&r.value);
        ck!(ch == s.ch && same_request(&req, &want), "write to {a:?} sent {req:02x?} on channel {ch}, expected {want:02x?} on {}", s.ch);
        let mut spent = 0;
        play_around(&mut s, a, &r.after, &mut call, &mut spent).await?;
        let con = |neg: bool| wire::cemi(wire::L_CON, &r.infos, &LData { c1: r.c1 & 0xfe | neg as u8, c2: a.c2() & 0x80 | r.c2 & 0x7f, src: r.src, dst: a.raw, apci: 2, payload: r.value.clone() }.service_info());
        match r.conf {
            Conf::Pos | Conf::Neg => {
                let neg = matches!(r.conf, Conf::Neg);
                s.await_acks().await?;
                for x in &r.front {
                    x.burst(&mut s, a).await?;
                }
                s.tele(&con(neg));
                for x in &r.behind {
                    if !matches!(x, Around::Wait(_)) {
                        x.play(&mut s, a).await?;
                    }
                }
                let o = s.done(&mut call).await.map_err(|e| format!("{e} after its confirmation (negative: {neg}) at {spent} ms"))?;
                ck!(o.is_err() == neg, "write number {i} to {a:?} returned {o:?} on a confirmation with negative = {neg}");
            }
            Conf::None => {
                let (o, _) = s.done_within(&mut call, Duration::from_millis(LIMIT_MS - spent + TOL_MS)).await?;
                ck!(o.is_err(), "unconfirmed write number {i} returned {o:?}");
            }
        }
        s.sync().await?;
        let n = s.requests(m).len();
        ck!(n == 1, "write number {i} sent {n} requests");
        nt |= !r.before.is_empty() || !r.after.is_empty();
    }
    s.check_wellformed()?;
    Ok(Info::nt(nt)
        .label(c.rounds.iter().any(|r| matches!(r.conf, Conf::Neg)), "negative confirmation")
        .label(c.rounds.iter().any(|r| matches!(r.conf, Conf::None)), "unconfirmed")
        .label(c.rounds.iter().any(|r| matches!(&r.value, Payload::Long(v) if v.len() > 254)), "too long")
        .label(c.rounds.iter().any(|r| r.before.iter().any(|x| matches!(x, Around::Con { .. }))), "stale confirmation"))
}
pub fn write_payload() -> BoxedStrategy<Payload> {
    bx(prop_oneof![
        3 => any::<u8>().prop_map(|v| Payload::Small(v & 0x3f)),
        6 => vec(any::<u8>(), 0..15).prop_map(Payload::Long),
        1 => vec(any::<u8>(), 15..=253).prop_map(Payload::Long),
        1 => (255usize..600).prop_map(|n| Payload::Long(vec![n as u8; n])),
    ])
}
pub fn c19(c: &mut Ctx) {
    c.rule("one to five writes per session, each with generated traffic before the request, while it is outstanding and right behind the confirmation, which is positive, negative or missing; values up to 600 octets; non-trivial: a write with such traffic");
    let n = c.n(48_000);
    c.generate(
        "writes",
        n,
        || {
            let conf = prop_oneof![6 => Just(Conf::Pos), 3 => Just(Conf::Neg), 1 => Just(Conf::None)];
            let r = (proptest::option::weighted(0.7, group_addr()), write_payload(), vec(around_any(), 0..5), vec(around_write(), 0..8), front(around_write), conf, (any::<u8>(), any::<u8>(), blocks()), src(), vec(around_any(), 0..4)).prop_map(|(addr, value, before, after, front, conf, (c1, c2, infos), src, behind)| R19 { addr, value, before, after, front, conf, c1, c2, infos, src, behind });
            bx((chan(), vec(r, 1..6)).prop_map(|(chan, rounds)| C19 { chan, rounds }))
        },
        |t| run(|| c19_case(t.clone())),
    );
    crate::threads::threads(c, 500, Some(Kind::Client), 0.95, 6);
    c.enumerate("value lengths", (0..=253usize).chain([255, 256, 257, 258, 300, 511, 512, 513, 600]), |&n| {
        run(|| async move {
            let r = |conf| R19 { addr: Some(A20), value: Payload::Long((0..n).map(|i| i as u8).collect()), before: vec![], after: vec![], front: vec![], conf, c1: 0xbc, c2: 0x60, infos: vec![], src: 0, behind: vec![] };
            c19_case(C19 { chan: Chan { ch: 7, ep: Ep::ZERO }, rounds: vec![r(Conf::Pos), r(Conf::Neg)] }).await
        })
    });
    c.enumerate("monitor value lengths", (0..=253usize).chain([255, 256, 257, 258, 300, 511, 512, 513, 600]), |&n| {
        run(|| async move {
            let mut s = Sim::up(Kind::Monitor, 9, Ep::ZERO).await?;
            let (a, p) = (Addr { kind: 3, raw: 0x0a01 }, Payload::Long((0..n).map(|i| i as u8).collect()));
            let m = s.mark();
            let mut call = s.write(a, &p);
            let o = s.done(&mut call).await?;
            s.sync().await?;
            let r = s.requests(m);
            if n > 254 {
                ck!(o.is_err() && r.is_empty(), "monitor write of {n} octets: {o:?}, sent {r:02x?}");
            } else {
                ck!(o == Out::Unit && r.len() == 1 && same_request(&r[0].2, &a.write_req(&p)), "monitor write of {n} octets: {o:?}, sent {r:02x?}");
            }
            Ok(Info::nt(true))
        })
    });
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Read(Addr),
    Write(Addr, Payload),
    Status,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Give {
    No,
    /// abandoned once its request is outstanding
    Outstanding,
    /// abandoned while the n-th request is outstanding, if still queued
    Queued(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct O20 {
    op: Op,
    give: Give,
    /// start only when the n-th request is outstanding
    late: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C20 {
    chan: Chan,
    ops: Vec<O20>,
    /// while the i-th request is outstanding: values and confirmations for these operations' addresses
    cross: Vec<Vec<u8>>,
    /// let the tasks run between starting operations
    stagger: bool,
    /// the socket is full while the operations start; these are abandoned meanwhile
    held: Option<Vec<u8>>,
    /// how long the gateway takes for its answers, in ms; None: it does not answer
    slow: Vec<Option<u16>>,
}
async fn c20_case(c: C20) -> Res {
    let mut s = Sim::up(Kind::Client, c.chan.ch, c.chan.ep).await?;
    let n = c.ops.len();
    let mut calls: Vec<Option<Call>> = (0..n).map(|_| None).collect();
    let mut closed = vec![false; n]; // returned or abandoned
    let mut m = s.mark();
    let start = |s: &Sim, o: &O20| match &o.op {
        Op::Read(a) => s.read(*a),
        Op::Write(a, p) => s.write(*a, p),
        Op::Status => s.status(),
    };
    // with time passing, heartbeats are on the wire too
    ck!(c.slow.is_empty() || !c.ops.iter().any(|o| matches!(o.op, Op::Status)), "harness: status query in a slow history");
    let fast = c.slow.is_empty();
    if c.held.is_some() {
        hold_sends(wire::TUN_REQ);
        hold_sends(wire::STATE_REQ);
    }
    for (i, o) in c.ops.iter().enumerate() {
        if o.late.is_none() {
            calls[i] = Some(start(&s, o));
            if c.stagger {
                s.settle().await;
            }
        }
    }
    if let Some(v) = &c.held {
        s.settle().await;
        for i in v {
            let i = *i as usize % n;
            if let Some(call) = &calls[i] {
                call.abort();
                closed[i] = true;
            }
            s.settle().await;
        }
        s.release_sends().await;
    }
    let mut served = 0u8;
    let mut stamp = 0u16;
    let is_req = |f: &Sent| matches!(f, Sent::TunReq { .. }) || fast && matches!(f, Sent::StateReq { .. });
    loop {
        // start late operations nobody can start any more
        if closed.iter().zip(&calls).all(|(d, c)| *d || c.is_none()) {
            for (i, o) in c.ops.iter().enumerate() {
                if calls[i].is_none() && !closed[i] {
                    calls[i] = Some(start(&s, o));
                }
            }
            if closed.iter().all(|d| *d) {
                break;
            }
        }
        let left = closed.iter().zip(&calls).filter(|(d, c)| !**d && c.is_some()).count();
        s.until_msg(|s| s.count_since(m, is_req) > 0, |_| format!("{left} operations are waiting but no request is sent")).await?;
        let req = s.since(m, is_req)[0].clone();
        let cand: Vec<usize> = (0..n)
            .filter(|&i| {
                !closed[i]
                    && calls[i].is_some()
                    && match (&c.ops[i].op, &req) {
                        (Op::Read(a), Sent::TunReq { cemi, .. }) => same_request(cemi, &a.read_req()),
                        (Op::Write(a, p), Sent::TunReq { cemi, .. }) => same_request(cemi, &a.write_req(p)),
                        (Op::Status, Sent::StateReq { .. }) => true,
                        _ => false,
                    }
            })
            .collect();
        ck!(!cand.is_empty(), "request {req:02x?} belongs to no waiting operation");
        for (i, o) in c.ops.iter().enumerate() {
            if o.late == Some(served) && calls[i].is_none() {
                calls[i] = Some(start(&s, o));
            }
        }
        s.settle().await;
        for (i, o) in c.ops.iter().enumerate() {
            if o.give == Give::Queued(served) && !cand.contains(&i) && calls[i].is_some() && !closed[i] {
                calls[i].as_ref().unwrap().abort();
                closed[i] = true;
            }
        }
        // traffic for the other operations' addresses
        let key = |o: &Op| match o {
            Op::Read(a) | Op::Write(a, _) => Some((a.raw, a.group())),
            Op::Status => None,
        };
        for x in c.cross.get(served as usize).into_iter().flatten() {
            let o = &c.ops[*x as usize % n].op;
            let reading = matches!(c.ops[cand[0]].op, Op::Read(_));
            let writing = matches!(c.ops[cand[0]].op, Op::Write(..));
            let same = key(o) == key(&c.ops[cand[0]].op);
            stamp += 1;
            if let Op::Read(a) | Op::Write(a, _) = o {
                if !(same && reading) {
                    s.tele(&LData { c1: 0xbc, c2: a.c2(), src: stamp, dst: a.raw, apci: 1, payload: Payload::Long(vec![0xff, (stamp >> 8) as u8, stamp as u8]) }.bytes(wire::L_IND));
                }
                if !(same && writing) {
                    s.tele(&LData { c1: 0xbc | (stamp as u8 & 1), c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: Payload::Small(1) }.bytes(wire::L_CON));
                }
            }
        }
        s.sync().await?;
        let delay = if fast { Some(0) } else { c.slow[served as usize % c.slow.len()] };
        if let Some(ms @ 1..) = delay {
            s.advance_ms(ms as u64 % 9300).await;
            s.sync().await?;
        }
        let seen = s.count_since(m, is_req);
        ck!(seen == 1, "{seen} requests outstanding at a time: {:02x?}", s.since(m, is_req));
        for i in 0..n {
            if !closed[i] {
                if let Some(call) = calls[i].as_mut() {
                    s.pending(call, &format!("while {req:02x?} had not been answered")).await?;
                }
            }
        }
        m = s.mark();
        served += 1;
        let give = cand.len() == 1 && c.ops[cand[0]].give == Give::Outstanding;
        if give {
            calls[cand[0]].as_ref().unwrap().abort();
            closed[cand[0]] = true;
            s.settle().await;
            continue;
        }
        stamp += 1;
        let mut late = None;
        if delay.is_none() {
            // in small steps, as the next request follows at once
            for _ in 0..(LIMIT_MS + TOL_MS) / 200 {
                s.advance_ms(200).await;
                for &i in &cand {
                    if let Some(o) = calls[i].as_mut().unwrap().result().await? {
                        late = Some((i, o));
                    }
                }
                if late.is_some() {
                    break;
                }
            }
        }
        let want = match &c.ops[cand[0]].op {
            _ if delay.is_none() => Out::Err(String::new()),
            Op::Read(a) => {
                s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0, dst: a.raw, apci: 0, payload: Payload::Small(0) }.bytes(wire::L_CON));
                let p = Payload::Long(vec![(stamp >> 8) as u8, stamp as u8]);
                s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0x1101, dst: a.raw, apci: 1, payload: p.clone() }.bytes(wire::L_IND));
                Out::Bytes(p.value())
            }
            Op::Write(a, p) => {
                s.tele(&LData { c1: 0xbc, c2: a.c2(), src: 0, dst: a.raw, apci: 2, payload: p.clone() }.bytes(wire::L_CON));
                Out::Unit
            }
            Op::Status => {
                let f = wire::state_res(s.ch, 0);
                s.send(&f);
                Out::Status(s.ch, 0)
            }
        };
        // exactly one of the candidates returns
        let t = std::time::Instant::now();
        let who = loop {
            let mut w = late.take();
            for &i in cand.iter().filter(|_| w.is_none()).collect::<Vec<_>>() {
                if let Some(o) = calls[i].as_mut().unwrap().result().await? {
                    w = Some((i, o));
                }
            }
            if let Some(w) = w {
                break w;
            }
            ck!(t.elapsed() < Duration::from_secs(8), "{:?} does not return after its answer", c.ops[cand[0]].op);
            s.settle().await;
            if t.elapsed() > Duration::from_millis(5) {
                std::thread::sleep(Duration::from_micros(200));
            }
        };
        ck!(who.1 == want || delay.is_none() && who.1.is_err(), "{:?} returned {:02x?} instead of {want:02x?}", c.ops[who.0].op, who.1);
        closed[who.0] = true;
    }
    s.sync().await?;
    ck!(s.count_since(m, is_req) == 0, "a request is sent after all operations ended: {:02x?}", s.since(m, is_req));
    s.check_acks()?;
    Ok(Info::nt(n >= 2)
        .label(c.ops.iter().any(|o| o.give == Give::Outstanding), "abandoned while outstanding")
        .label(c.ops.iter().any(|o| matches!(o.give, Give::Queued(_))), "abandoned in the queue")
        .label(held_hits() > 0, "socket full at the start")
        .label(c.ops.iter().any(|o| o.late.is_some()), "late starters")
        .label(!fast, "a slow gateway")
        .label(c.slow.iter().any(|d| d.is_none()), "unanswered requests")
        .label(c.cross.iter().any(|x| !x.is_empty()), "crossing traffic"))
}
pub fn c20(c: &mut Ctx) {
    c.rule("2-8 concurrent reads, writes and status queries on one client, some abandoned while queued or outstanding, some started late, with values and confirmations for the other operations' addresses arriving in between; each answer carries a fresh stamp; non-trivial: two or more operations");
    let n = c.n(48_000);
    c.generate(
        "concurrent operations",
        n,
        || {
            let pool = bx((1u8..4, proptest::sample::select(vec![0x0a01u16, 0x0a02, 0x0b01, 0x8a01])).prop_map(|(kind, raw)| Addr { kind, raw }));
            let op = prop_oneof![4 => pool.clone().prop_map(Op::Read), 4 => (pool, payload()).prop_map(|(a, p)| Op::Write(a, p)), 1 => Just(Op::Status)];
            let give = prop_oneof![6 => Just(Give::No), 1 => Just(Give::Outstanding), 1 => (0u8..4).prop_map(Give::Queued)];
            let o = (op, give, proptest::option::weighted(0.25, 0u8..5)).prop_map(|(op, give, late)| O20 { op, give, late });
            bx((chan(), vec(o, 2..9), vec(vec(any::<u8>(), 0..4), 0..8), any::<bool>(), proptest::option::weighted(0.2, vec(any::<u8>(), 0..3))).prop_map(|(chan, ops, cross, stagger, held)| C20 { chan, ops, cross, stagger, held, slow: vec![] }))
        },
        |t| run(|| c20_case(t.clone())),
    );
    c.generate(
        "slow gateway",
        n / 4,
        || {
            let pool = bx((1u8..4, proptest::sample::select(vec![0x0a01u16, 0x0a02, 0x0b01, 0x8a01])).prop_map(|(kind, raw)| Addr { kind, raw }));
            let op = prop_oneof![pool.clone().prop_map(Op::Read), (pool, payload()).prop_map(|(a, p)| Op::Write(a, p))];
            let give = prop_oneof![8 => Just(Give::No), 1 => Just(Give::Outstanding), 1 => (0u8..4).prop_map(Give::Queued)];
            let o = (op, give, proptest::option::weighted(0.25, 0u8..5)).prop_map(|(op, give, late)| O20 { op, give, late });
            let slow = vec(prop_oneof![1 => Just(None), 6 => any::<u16>().prop_map(Some), 1 => (0u16..9300).prop_map(Some)], 1..8);
            bx((chan(), vec(o, 2..9), vec(vec(any::<u8>(), 0..3), 0..8), any::<bool>(), slow).prop_map(|(chan, ops, cross, stagger, slow)| C20 { chan, ops, cross, stagger, held: None, slow }))
        },
        |t| run(|| c20_case(t.clone())),
    );
    crate::threads::threads(c, 1500, Some(Kind::Client), 0.6, 1);
}
