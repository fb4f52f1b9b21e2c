//! Histories on real threads: callers on operating-system threads of their own share one
//! client or monitor that lives in a multi-threaded runtime, on the real clock, against a
//! gateway thread. The schedule is the machine's, so what is judged is only what cannot
//! depend on it: which requests were sent, with which numbers, and which results came back.
//! A caller's error or a missing answer (which a starved machine could cause) counts only
//! when it shows again, see `eval_confirmed`; wrong results and numbers count at once.
use crate::engine::*;
use crate::sim::{Addr, Kind};
use crate::wire::{self, LData, Payload, Sent};
use knx_ip_client::transport::{udp::UdpClient, udp_monitor::UdpMonitor};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::UdpSocket;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    kind: Kind,
    workers: u8,
    /// per caller: a write (with this many octets) or a read
    callers: Vec<Vec<Option<u8>>>,
    /// the gateway's hesitation before an answer, in spins; and how many unrelated
    /// telegrams it sends first (to a monitor one at most, whose callers do not wait)
    gw: Vec<(u16, u8)>,
}
const CH: u8 = 0x37;
fn addr(i: usize) -> Addr {
    Addr { kind: 3, raw: 0x0a00 + i as u16 }
}
#[derive(Default)]
struct Seen {
    reqs: Vec<(u8, u8, Vec<u8>)>,
    acks: Vec<(u8, u8, u8)>,
    /// values given to reads, in order: (address, value)
    values: Vec<(u16, Vec<u8>)>,
    /// telegrams sent
    teles: Vec<LData>,
    feature: Vec<u8>,
    overlap: Option<String>,
    bad: Option<Vec<u8>>,
}
fn gateway(sock: UdpSocket, stop: Arc<AtomicBool>, client: bool, plan: Vec<(u16, u8)>) -> Seen {
    let mut s = Seen::default();
    let mut queue = std::collections::VecDeque::new();
    let mut peer = None;
    let mut n = 0u32;
    let mut gseq = 0u8;
    let take = |queue: &mut std::collections::VecDeque<Sent>, peer: &mut Option<_>, block: bool| {
        let mut b = [0u8; 700];
        sock.set_nonblocking(!block).unwrap();
        if let Ok((k, from)) = sock.recv_from(&mut b) {
            *peer = Some(from);
            queue.push_back(wire::parse_sent(&b[..k]));
        }
    };
    sock.set_read_timeout(Some(Duration::from_millis(2))).unwrap();
    loop {
        if queue.is_empty() {
            take(&mut queue, &mut peer, true);
        }
        let Some(f) = queue.pop_front() else {
            if stop.load(Ordering::Relaxed) {
                return s;
            }
            continue;
        };
        let to = peer.unwrap();
        let send = |b: &[u8]| {
            let _ = sock.send_to(b, to);
        };
        match f {
            Sent::ConnectReq { .. } => send(&wire::connect_res(CH, 0, wire::Ep::ZERO, 0x11fb)),
            Sent::StateReq { ch } => send(&wire::state_res(ch, 0)),
            Sent::DiscReq { ch } => send(&wire::disc_res(ch, 0)),
            Sent::TunAck { ch, seq, status } => s.acks.push((ch, seq, status)),
            Sent::FeatSet { seq, .. } => s.feature.push(seq),
            Sent::TunReq { ch, seq, cemi } => {
                send(&wire::tun_ack(ch, seq, 0));
                let (spins, extra) = plan[n as usize % plan.len()];
                n += 1;
                let mut tele = |l: LData, code: u8| {
                    let f = wire::tun_req(CH, gseq, &l.bytes(code));
                    gseq = gseq.wrapping_add(1);
                    s.teles.push(l);
                    send(&f);
                };
                for _ in 0..if client { extra } else { extra.min(1) } {
                    tele(LData { c1: 0xbc, c2: 0xe0, src: 0x1104, dst: 0x7f00, apci: 2, payload: Payload::Long(n.to_be_bytes().to_vec()) }, wire::L_IND);
                }
                for _ in 0..spins {
                    std::hint::spin_loop();
                }
                take(&mut queue, &mut peer, false);
                if client && queue.iter().any(|f| matches!(f, Sent::TunReq { .. })) {
                    s.overlap = Some(format!("request {:02x?} while {cemi:02x?} is unanswered", queue.back()));
                }
                let dst = u16::from_be_bytes([cemi[6], cemi[7]]);
                let read = cemi.len() == 11 && cemi[9] & 3 == 0 && cemi[10] & 0xc0 == 0;
                if read {
                    let v = [vec![0x55], n.to_be_bytes().to_vec()].concat();
                    s.values.push((dst, v.clone()));
                    tele(LData { c1: 0xbc, c2: 0xe0, src: 0x1104, dst, apci: 1, payload: Payload::Long(v) }, wire::L_IND);
                } else if client {
                    tele(LData { c1: 0xbc, c2: 0xe0, src: 0, dst, apci: 2, payload: Payload::Small(0) }, wire::L_CON);
                }
                s.reqs.push((ch, seq, cemi));
            }
            f => s.bad = Some(format!("{f:02x?}").into_bytes()),
        }
    }
}
/// What one caller did: the values its reads returned, or its first error.
type Did = Result<Vec<Vec<u8>>, String>;
fn history(t: &Threads) -> Res {
    let client = t.kind == Kind::Client;
    let sock = UdpSocket::bind("127.0.0.1:0").expect("gateway socket");
    let at = sock.local_addr().unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let gw = {
        let (stop, plan) = (stop.clone(), t.gw.clone());
        std::thread::spawn(move || gateway(sock, stop, client, plan))
    };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(t.workers as usize).enable_all().build().expect("runtime");
    let h = rt.handle().clone();
    let total: usize = t.callers.iter().map(|c| c.len()).sum();
    let value = |i: usize, k: usize, len: u8| -> Vec<u8> { (0..len.max(2)).map(|x| if x == 0 { i as u8 } else { k as u8 }).collect() };
    let limit = Instant::now() + Duration::from_secs(20);
    let mut got: Vec<Did> = vec![];
    let mut msgs: Result<Vec<Vec<u8>>, String> = Ok(vec![]);
    let mut soft = None;
    if client {
        let c = Arc::new(h.block_on(UdpClient::connect(at)).map_err(|e| e.to_string())?);
        // the first operation that finds a tunnel
        while h.block_on(c.read_group_address_value(addr(200).knx())).is_err() {
            if Instant::now() > limit {
                soft = Some("no tunnel".to_string());
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        std::thread::scope(|sc| {
            let hs: Vec<_> = t
                .callers
                .iter()
                .enumerate()
                .map(|(i, ops)| {
                    let (c, h) = (c.clone(), h.clone());
                    sc.spawn(move || -> Did {
                        let mut v = vec![];
                        for (k, o) in ops.iter().enumerate() {
                            match o {
                                None => v.push(h.block_on(c.read_group_address_value(addr(i).knx())).map_err(|e| format!("read {k} of caller {i}: {e}"))?),
                                Some(len) => h.block_on(c.write_group_address_value(addr(i).knx(), value(i, k, *len), false)).map_err(|e| format!("write {k} of caller {i}: {e}"))?,
                            }
                        }
                        Ok(v)
                    })
                })
                .collect();
            got = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect();
        });
        std::thread::sleep(Duration::from_micros(300));
    } else {
        let c = Arc::new(h.block_on(UdpMonitor::connect(&at.to_string())).map_err(|e| e.to_string())?);
        while !h.block_on(c.is_connected()) {
            if Instant::now() > limit {
                soft = Some("no tunnel".to_string());
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        std::thread::scope(|sc| {
            // the telegrams the plan and the reads call for
            let reads: usize = t.callers.iter().flatten().filter(|o| o.is_none()).count();
            let extra: usize = (0..total).filter(|n| t.gw[n % t.gw.len()].1 > 0).count();
            let consumer = {
                let (c, h) = (c.clone(), h.clone());
                sc.spawn(move || -> Result<Vec<Vec<u8>>, String> {
                    let mut v = vec![];
                    for _ in 0..reads + extra {
                        let m = h.block_on(async { tokio::time::timeout(Duration::from_secs(10), c.next_msg()).await });
                        v.push(m.map_err(|_| "no message".to_string())?.map_err(|e| e.to_string())?.cemi.service_info);
                    }
                    Ok(v)
                })
            };
            let hs: Vec<_> = t
                .callers
                .iter()
                .enumerate()
                .map(|(i, ops)| {
                    let (c, h) = (c.clone(), h.clone());
                    sc.spawn(move || -> Did {
                        for (k, o) in ops.iter().enumerate() {
                            match o {
                                None => h.block_on(c.solecitate_group_read(addr(i).knx())).map_err(|e| format!("read {k} of caller {i}: {e}"))?,
                                Some(len) => h.block_on(c.write_group_address_value(addr(i).knx(), value(i, k, *len), false)).map_err(|e| format!("write {k} of caller {i}: {e}"))?,
                            };
                        }
                        Ok(vec![])
                    })
                })
                .collect();
            got = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect();
            msgs = consumer.join().unwrap_or_else(|_| Err("panicked".into()));
        });
        std::thread::sleep(Duration::from_micros(300));
    }
    rt.shutdown_timeout(Duration::from_secs(2));
    stop.store(true, Ordering::Relaxed);
    let s = gw.join().map_err(|_| "harness: the gateway failed".to_string())?;
    let hard = |m: String| -> Res { Err(format!("{AT_ONCE}{m}")) };
    if let Some(b) = s.bad {
        return hard(format!("a malformed frame: {}", String::from_utf8_lossy(&b)));
    }
    if let Some(o) = s.overlap {
        return hard(format!("two requests outstanding at a time: {o}"));
    }
    // numbers and channel, in the order of arrival
    let first = !client as usize;
    if !client && s.feature != [0] {
        return hard(format!("feature requests numbered {:?}", s.feature));
    }
    for (k, (ch, seq, _)) in s.reqs.iter().enumerate() {
        if (*ch, *seq) != (CH, (k + first) as u8) {
            return hard(format!("request {k} has channel {ch} and number {seq}"));
        }
    }
    // acknowledgements: those of the telegrams, in order (the last may not have been sent)
    for (k, a) in s.acks.iter().enumerate() {
        if *a != (CH, k as u8, 0) || k >= s.teles.len() {
            return hard(format!("acknowledgement {k} of {} telegrams is {a:?}", s.teles.len()));
        }
    }
    if let Some(e) = soft {
        return Err(e);
    }
    if let Some(Err(e)) = got.iter().find(|g| g.is_err()) {
        return Err(e.clone());
    }
    // every caller's requests, in its order, exactly once
    for (i, ops) in t.callers.iter().enumerate() {
        let a = addr(i);
        let want: Vec<Vec<u8>> = ops.iter().enumerate().map(|(k, o)| o.map_or(a.read_req(), |len| a.write_req(&Payload::Long(value(i, k, len))))).collect();
        let sent: Vec<Vec<u8>> = s.reqs.iter().map(|r| r.2.clone()).filter(|c| c[6..8] == a.raw.to_be_bytes()).collect();
        if sent != want {
            let m = format!("requests of caller {i}: {sent:02x?} instead of {want:02x?}");
            // the monitor's may still be on their way
            return if sent.len() < want.len() { Err(m) } else { hard(m) };
        }
        if client {
            let vals: Vec<Vec<u8>> = s.values.iter().filter(|v| v.0 == a.raw).map(|v| v.1.clone()).collect();
            let g = got[i].as_ref().unwrap();
            if *g != vals {
                return hard(format!("reads of caller {i} returned {g:02x?} instead of {vals:02x?}"));
            }
        }
    }
    if !client {
        let want: Vec<Vec<u8>> = s.teles.iter().map(|l| l.service_info()).collect();
        let m = msgs?;
        if m != want {
            return hard(format!("messages {m:02x?} instead of {want:02x?}"));
        }
    }
    Ok(Info::nt(t.callers.iter().filter(|c| !c.is_empty()).count() > 1).label(!client, "monitor").label(t.callers.len() > 3, "over three callers").label(total > 20, "over twenty requests").label(client && t.gw.iter().any(|g| g.1 > 100), "over a hundred telegrams ahead of an answer"))
}
/// `writes`: how many of the operations are writes; `bursts`: the weight (of 43) of up to 150 telegrams right ahead of an answer.
pub fn threads(c: &mut Ctx, n: u64, kind: Option<Kind>, writes: f64, bursts: u32) {
    c.rule("threads: 2-5 callers on threads of their own share a client or monitor in a multi-threaded runtime on the real clock; requests, their numbers, one outstanding at a time (client), results, messages and acknowledgements are judged; non-trivial: two callers with operations");
    let n = c.n(n);
    c.generate(
        "threads",
        n,
        move || {
            let k = match kind {
                Some(k) => bx(Just(k)),
                None => bx(prop_oneof![Just(Kind::Client), Just(Kind::Monitor)]),
            };
            let op = proptest::option::weighted(writes, 2u8..15);
            let gw = vec((prop_oneof![0u16..10, 0u16..600], prop_oneof![30 => Just(0u8), 12 => Just(1u8), bursts => 2u8..150]), 1..6);
            bx((k, 1u8..4, vec(vec(op, 0..9), 2..6), gw).prop_map(|(kind, workers, callers, gw)| Threads { kind, workers, callers, gw }))
        },
        history,
    );
}
