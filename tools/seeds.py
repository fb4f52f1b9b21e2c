#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo crate, meta.json) for the planted changes
below, against /repo's HEAD. usage: seeds.py [id ...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U="src/transport/udp.rs"; MO="src/transport/udp_monitor.rs"; C="src/packets/core.rs"; E="src/packets/emi.rs"; T="src/packets/tunneling.rs"; A="src/packets/addresses.rs"; P="src/packets/apdu.rs"; D="src/dp_types.rs"
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; non-zero: broken. cwd: /repo
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp="$(mktemp -d)" || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/gw.rs" "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
export CARGO_TARGET_DIR="$tmp/target"
( cd "$tmp" && cargo build --offline -q ) || { echo "demo does not build"; exit 9; }
timeout 200 "$tmp/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
knx-ip-client = { path = "@REPO@" }
tokio = { version = "1", features = ["full", "test-util"] }
[profile.dev]
debug = false
[workspace]
'''
GW = r'''// A gateway on loopback, in the client's own runtime with the clock paused.
#![allow(dead_code)]
use std::net::SocketAddr;
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::time::timeout;
pub struct Gw { pub s: UdpSocket, pub peer: Option<SocketAddr> }
impl Gw {
    pub async fn new() -> (Gw, String) {
        let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let a = s.local_addr().unwrap().to_string();
        (Gw { s, peer: None }, a)
    }
    /// next datagram within so many (virtual) seconds
    pub async fn recv(&mut self, secs: u64) -> Option<Vec<u8>> {
        let mut b = vec![0; 2048];
        match timeout(Duration::from_secs(secs), self.s.recv_from(&mut b)).await {
            Ok(Ok((n, p))) => { self.peer = Some(p); b.truncate(n); Some(b) }
            _ => None,
        }
    }
    pub async fn send(&self, b: &[u8]) { self.s.send_to(b, self.peer.unwrap()).await.unwrap(); }
    /// waits for a connection request and accepts it
    pub async fn accept(&mut self, ch: u8) {
        loop {
            let d = self.recv(100).await.expect("no connection request");
            if d[2..4] == [2, 5] { break; }
        }
        self.send(&[6, 0x10, 2, 6, 0, 20, ch, 0, 8, 1, 127, 0, 0, 1, 14, 87, 4, 4, 0x11, 0x01]).await;
    }
    /// next datagram of that service
    pub async fn next(&mut self, code: [u8; 2], secs: u64) -> Option<Vec<u8>> {
        loop {
            let d = self.recv(secs).await?;
            if d[2..4] == code { return Some(d); }
        }
    }
    pub async fn tunnel(&self, ch: u8, seq: u8, cemi: &[u8]) {
        let mut f = vec![6, 0x10, 4, 0x20, 0, 10 + cemi.len() as u8, 4, ch, seq, 0];
        f.extend(cemi);
        self.send(&f).await;
    }
}
pub fn run<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f);
}
'''
S = {}
def seed(i, prop, needs, breaks, edits, main):
    S[i] = (prop, needs, breaks, edits, main)

seed("c01-middle-bits","C01","decoding a group address whose middle field has bit 1 set (2, 3, 6 or 7); the test uses middle 1 and 4",
 "A 16-bit value decoded as a three-level group address loses bit 9: 1/2/3 is reported as 1/0/3 and re-encodes to another address.",
 [(A,"let middle = (v & 0b111 << 8) >> 8;","let middle = (v & 0b101 << 8) >> 8;")],
 r'''mod gw;
use knx_ip_client::packets::addresses::Group3LevelAddress;
fn main() {
    for v in 0..=65535u16 { assert_eq!(Group3LevelAddress::from_u16(v).to_u16(), v); }
}''')
seed("c04-exponent-bits","C04","a value beyond +-5240, which needs an exponent of 8 or more",
 "2-byte floats above 5240 lose the top exponent bit and are sent 256 times too small.",
 [(D,"let mut msb: u8 = (exp << 3 | m >> 8) as u8;","let mut msb: u8 = ((exp & 7) << 3 | m >> 8) as u8;")],
 r'''mod gw;
use knx_ip_client::dp_types::{Pdt, PdtKnxFloat};
fn main() {
    let mut x = -671000.0f32;
    while x < 670000.0 {
        let b = PdtKnxFloat::general(x).get_bytes();
        let w = u16::from_be_bytes([b[0], b[1]]);
        let m = (w & 0x7ff) as i32 - if w & 0x8000 != 0 { 2048 } else { 0 };
        let y = 0.01 * m as f64 * f64::powi(2.0, ((w >> 11) & 15) as i32);
        assert!((x as f64 - y).abs() <= 0.01 + x.abs() as f64 / 1000.0, "{x} encoded as {y}");
        x += 317.3;
    }
}''')
seed("c09-info-cap","C09","an additional-info block longer than 64 bytes, followed by anything",
 "Additional info of cEMI messages is read at most 64 bytes at a time, the rest of the block is taken for the telegram itself.",
 [(E,"let mut additional_info = vec![0; additional_info_size as usize];","let mut additional_info = vec![0; (additional_info_size as usize).min(64)];")],
 r'''mod gw;
use knx_ip_client::packets::emi::CEMI;
use std::io::Cursor;
fn main() {
    for n in 0..=250u8 {
        let mut b = vec![0x29, n + 2, 0xfe, n];
        b.extend(std::iter::repeat(7).take(n as usize));
        b.extend([0xbc, 0xe0, 1, 2, 3, 4, 1, 0, 0x81]);
        let c = CEMI::from_packet(&mut Cursor::new(&b[..])).expect("rejected");
        assert_eq!(c.service_info, vec![0xbc, 0xe0, 1, 2, 3, 4, 1, 0, 0x81], "block of {n}");
        assert_eq!(c.additional_infos[0].value.len(), n as usize);
    }
}''')
seed("c10-confirm-ack-bit","C10","a positive confirmation of a frame with the acknowledge-request bit set",
 "A positive L_Data confirmation is reported as negative when its acknowledge-request bit is set.",
 [(E,"let confirm = (control1 & 1) == 0;","let confirm = (control1 & 0b11) == 0;")],
 r'''mod gw;
use knx_ip_client::packets::emi::{LDataCon, CEMI};
use std::io::Cursor;
fn main() {
    for c1 in 0..=255u8 {
        let b = [0x2e, 0, c1, 0xe0, 0, 0, 0x0a, 3, 1, 0, 0x81];
        let c = LDataCon::from_cemi(CEMI::from_packet(&mut Cursor::new(&b[..])).unwrap()).unwrap();
        assert_eq!(c.confirm, c1 & 1 == 0, "control {c1:#x}");
    }
}''')
seed("c12-ipconfig-swapped","C12","comparison with the standard layout: writer and reader are swapped alike, so a round trip looks fine",
 "The IP capabilities and assignment-method octets of the IP configuration block are exchanged, both when parsing and when building.",
 [(C,"packet.write_u8(self.ip_capabilities).unwrap();\n        packet.write_u8(self.ip_assignment_method).unwrap();","packet.write_u8(self.ip_assignment_method).unwrap();\n        packet.write_u8(self.ip_capabilities).unwrap();"),
  (C,'let ip_capabilities = packet_reader.read_u8().whatever_context("Unable to read ip capabilities")?;\n        let ip_assignment_method = packet_reader.read_u8().whatever_context("Unable to read ip assignment method")?;','let ip_assignment_method = packet_reader.read_u8().whatever_context("Unable to read ip assignment method")?;\n        let ip_capabilities = packet_reader.read_u8().whatever_context("Unable to read ip capabilities")?;')],
 r'''mod gw;
use knx_ip_client::packets::core::DIB;
use std::io::Cursor;
fn main() {
    let b = [16u8, 3, 10, 0, 0, 2, 255, 255, 255, 0, 10, 0, 0, 1, 4, 2];
    match DIB::from_packet(&mut Cursor::new(&b[..])).unwrap() {
        DIB::IpConfig(d) => assert_eq!((d.ip_capabilities, d.ip_assignment_method), (4, 2)),
        o => panic!("{o:?}"),
    }
}''')
seed("c13-three-bytes","C13","a datagram of exactly three bytes",
 "Classifying a three-byte datagram panics, which ends the receive task of a client or monitor.",
 [(U,"let response_code = resp.get(2..4);","let response_code = if resp.len() > 2 { Some(&resp[2..4]) } else { None };")],
 r'''mod gw;
use knx_ip_client::transport::udp::parse_response;
fn main() {
    for n in 0..40 { let _ = parse_response(vec![6u8; n]); let _ = parse_response(vec![4u8; n]); }
}''')
seed("c14-state-version","C14","a connection-state response with a protocol version other than 0x10 but the same high nibble",
 "Connection-state responses of an unsupported protocol version (0x11-0x1f) are accepted.",
 [(C,'''        let _connectionstate_response = match packet_reader.read_u16::<BigEndian>() {
            Ok(code) => {
                ensure_whatever!(code == 0x0208,''',None)],
 r'''mod gw;
use knx_ip_client::packets::core::ConnectionstateResponse;
use std::io::Cursor;
fn main() {
    for v in 0..=255u8 {
        let b = [6, v, 2, 8, 0, 8, 1, 0];
        assert_eq!(ConnectionstateResponse::from_packet(&mut Cursor::new(&b[..])).is_ok(), v == 0x10, "version {v:#x}");
    }
}''')
seed("c16-ack-after-parse","C16","a tunnelling request whose cEMI payload cannot be parsed (an unknown additional-info type)",
 "Tunnelling requests with a payload the client cannot parse are not acknowledged any more, so the gateway repeats them and then closes the tunnel.",
 [(U,'''                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi = Cursor::new(req.get_cemi().as_slice());

                    let cemi = match CEMI::from_packet(&mut cemi) {
                        Ok(cemi) => cemi,
                        Err(e) => {
                            warn!("Error parsing cEMI response {:?}", e);
                            continue;
                        }
                    };
''','''                    let mut cemi = Cursor::new(req.get_cemi().as_slice());

                    let cemi = match CEMI::from_packet(&mut cemi) {
                        Ok(cemi) => cemi,
                        Err(e) => {
                            warn!("Error parsing cEMI response {:?}", e);
                            continue;
                        }
                    };
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
''')],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _c = UdpClient::connect(a).await.unwrap();
        g.accept(9).await;
        let _ = g.recv(1).await; // heartbeat
        for (seq, cemi) in [(0, vec![0x29u8, 0, 0xbc, 0xe0, 1, 1, 8, 1, 1, 0, 0x81]), (1, vec![0x29, 4, 0x77, 2, 0, 0]), (2, vec![0x29])] {
            g.tunnel(9, seq, &cemi).await;
            let ack = g.next([4, 0x21], 5).await.expect("no acknowledgement");
            assert_eq!(&ack[6..], &[4, 9, seq, 0]);
        }
    });
}''')
seed("c17-skip-repeated","C17","a telegram the bus repeated (repeat flag 0), for instance after a lost acknowledgement",
 "The monitor swallows every telegram marked as repeated, also when the first transmission never reached the gateway.",
 [(MO,'''                    if data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                    }
''','''                    // 0: repeated, 1: not repeated
                    if !data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                        continue;
                    }
''')],
 r'''mod gw;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::time::Duration;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let m = UdpMonitor::connect(&a).await.unwrap();
        g.accept(9).await;
        for (seq, c1) in [(0u8, 0xbcu8), (1, 0x9c), (2, 0xbc)] {
            g.next([4, 0x24], 1).await;
            g.tunnel(9, seq, &[0x29, 0, c1, 0xe0, 1, 1, 8, seq, 1, 0, 0x81]).await;
            let i = tokio::time::timeout(Duration::from_secs(5), m.next_msg()).await.expect("telegram lost").unwrap();
            assert_eq!(i.l_data.dest, 0x0800 + seq as u16);
        }
    });
}''')
seed("c22-data-connection-error","C22","a connection-state response with an error other than E_CONNECTION_ID (0x26 or 0x27)",
 "When the gateway reports a data-connection or KNX-connection error the client keeps the dead tunnel instead of requesting a new one.",
 [(U,"if resp.status != 0 {\n                        warn!(\"Connection state","if resp.status == 0x21 {\n                        warn!(\"Connection state")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
fn main() {
    gw::run(async {
        for status in [0x21u8, 0x26, 0x27] {
            let (mut g, a) = gw::Gw::new().await;
            let _c = UdpClient::connect(a).await.unwrap();
            g.accept(9).await;
            let _ = g.recv(1).await; // heartbeat
            g.send(&[6, 0x10, 2, 8, 0, 8, 9, status]).await;
            assert!(g.next([2, 5], 45).await.is_some(), "status {status:#x}: no new tunnel requested");
        }
    });
}''')
seed("c24-burst","C24","a tunnel that is down for several minutes, then restored",
 "After an outage the client makes up for the heartbeats it missed and sends them all at once.",
 [(U,"heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);","heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Burst);")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use tokio::time::{Duration, Instant};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _c = UdpClient::connect(a).await.unwrap();
        g.accept(9).await;
        let _ = g.next([2, 7], 1).await;
        g.send(&[6, 0x10, 2, 8, 0, 8, 9, 0x21]).await;
        tokio::time::sleep(Duration::from_secs(400)).await;
        g.accept(10).await;
        let mut n = 0;
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(50) { if g.next([2, 7], 5).await.is_some() { n += 1; } }
        assert!(n <= 1, "{n} heartbeats within 50 seconds");
    });
}''')
seed("c21-monitor-start","C21","a monitor that writes (or asks for a value): its first request reuses the number of the feature request",
 "The monitor's first tunnelled request repeats sequence number 0, which its feature request has used, so the gateway drops it as a duplicate.",
 [(MO,"sequence_nr: 1,","sequence_nr: 0,")],
 r'''mod gw;
use knx_ip_client::{packets::addresses::KnxAddress, transport::udp_monitor::UdpMonitor};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let m = UdpMonitor::connect(&a).await.unwrap();
        g.accept(9).await;
        let f = g.next([4, 0x24], 5).await.expect("no feature request");
        assert_eq!(f[8], 0);
        tokio::time::sleep(std::time::Duration::from_secs(1)).await;
        for want in 1..4u8 {
            m.write_group_address_value(KnxAddress::group_3_level(1, 2, 3), vec![1], true).await.unwrap();
            let t = g.next([4, 0x20], 5).await.expect("no request");
            assert_eq!(t[8], want, "sequence number");
        }
    });
}''')

seed("c02-empty-fields","C02","text with an empty field between or after the slashes",
 "Address text with empty fields is accepted: \"1//2\" becomes the two-level address 1/2 and \"1/2/\" too.",
 [(A,"let parts: Vec<&str> = value.split('/').collect();","let parts: Vec<&str> = value.split('/').filter(|p| !p.is_empty()).collect();")],
 r'''mod gw;
use knx_ip_client::packets::addresses::KnxAddress;
fn main() {
    for t in ["1/2/3", "1/2", "5", "1.2.3"] { assert!(KnxAddress::try_from(t).is_ok(), "{t}"); }
    for t in ["1//2", "1/2/", "/1/2", "1//2/3", "/5", "5/"] { assert!(KnxAddress::try_from(t).is_err(), "{t} accepted"); }
}''')
seed("c03-short-long","C03","a byte string of one to three bytes given to the 32-bit type",
 "A byte string too short for the 32-bit type is not rejected but read as a smaller number.",
 [(D,"let value = reader.read_u32::<BigEndian>()","let value = reader.read_uint::<BigEndian>(b.len().clamp(1, 4)).map(|v| v as u32)")],
 r'''mod gw;
use knx_ip_client::dp_types::{Pdt, PdtKnxULong};
fn main() {
    assert_eq!(PdtKnxULong::from_bytes(&[1, 2, 3, 4]).ok().unwrap().get_value(), 0x01020304);
    for n in 0..4 { assert!(PdtKnxULong::from_bytes(&vec![1; n]).is_err(), "{n} bytes accepted"); }
}''')
seed("c05-length","C05","a byte string longer than two bytes",
 "A float is read from the first two bytes of a longer string, which must be rejected.",
 [(D,"let value = u16::from_be_bytes(match bytes.try_into() {","let value = u16::from_be_bytes(match bytes[..bytes.len().min(2)].try_into() {")],
 r'''mod gw;
use knx_ip_client::dp_types::{Pdt, PdtKnxFloat};
fn main() {
    assert!(PdtKnxFloat::from_bytes(&[0x0c, 0x1a]).is_ok());
    for n in [0usize, 1, 3, 4, 9] { assert!(PdtKnxFloat::from_bytes(&vec![0x0c; n]).is_err(), "{n} bytes accepted"); }
}''')
seed("c06-void-byte","C06","a received byte of 255",
 "The byte 255, which is 100 %, is decoded as if it were 254.",
 [(D,"value: *value,","value: (*value).min(254),")],
 r'''mod gw;
use knx_ip_client::dp_types::{Pdt, PdtKnxScaledValue};
fn main() {
    for b in 0..=255u8 {
        let v = PdtKnxScaledValue::from_bytes(&[b]).ok().unwrap();
        assert_eq!(v.get_bytes(), vec![b]);
        assert!((v.get_value() - b as f32 / 2.55).abs() < 0.01, "{b} is {} %", v.get_value());
    }
}''')
seed("c07-compact-bytes","C07","a one-byte datapoint whose value is exactly 64, written from the datapoint object",
 "One-byte values that seem to fit the short payload are sent in it, but the limit is one too high: 64 arrives as 0.",
 [(P,"let data = if pd.is_small() {","let data = if pd.is_small() || (pd.get_bytes().len() == 1 && pd.get_bytes()[0] <= 64) {")],
 r'''mod gw;
use knx_ip_client::dp_types::{Pdt, PdtKnxByte};
use knx_ip_client::packets::{addresses::KnxAddress, apdu::APDU, emi::*, tpdu::TPDU};
use std::io::Cursor;
fn main() {
    for v in 0..=255u8 {
        let mut b = LDataReqMessage::new(KnxAddress::group_3_level(1, 2, 3), TPDU::t_data_group(APDU::group_value_write_pd(PdtKnxByte::general(v)))).packet();
        b[0] = 0x29;
        let i = LDataInd::from_cemi(CEMI::from_packet(&mut Cursor::new(&b[..])).unwrap()).unwrap();
        assert_eq!(PdtKnxByte::from_bytes(&i.value).ok().unwrap().get_value(), v);
    }
}''')
seed("c08-short-mask","C08","a short payload with one of its two upper bits set",
 "The upper bits of a short payload run over the service code: a write of 0xC1 becomes another service.",
 [(P,"APDUData::Small(data) => apci_packet[1] |= data & 0x3f,","APDUData::Small(data) => apci_packet[1] |= data,")],
 r'''mod gw;
use knx_ip_client::packets::{addresses::KnxAddress, apdu::APDU, emi::*, tpdu::TPDU};
fn main() {
    for v in 0..=255u8 {
        let b = LDataReqMessage::new(KnxAddress::group_3_level(1, 2, 3), TPDU::t_data_group(APDU::group_value_write(vec![v], true))).packet();
        assert_eq!(b[9..], [0x00, 0x80 | v & 0x3f], "value {v}");
    }
}''')
seed("c11-length-octet","C11","a tunnelled message of 246 bytes or more, whose length needs the upper octet",
 "The total length of a tunnelling request is written modulo 256, so long requests declare a wrong length.",
 [(T,"packet.write_u16::<BigEndian>(10 + self.cemi.len() as u16).unwrap();","packet.write_u8(0).unwrap();\n        packet.write_u8((10 + self.cemi.len()) as u8).unwrap();")],
 r'''mod gw;
use knx_ip_client::packets::tunneling::TunnelingRequest;
fn main() {
    for n in 0..300usize {
        let b = TunnelingRequest::new(1, 2, vec![7; n]).packet();
        assert_eq!(u16::from_be_bytes([b[4], b[5]]) as usize, b.len());
    }
}''')
seed("c15-long-request","C15","a tunnelling request longer than 255 bytes",
 "A tunnelling request datagram of more than 255 bytes is reported as malformed.",
 [(U,"let mut resp_cursor = Cursor::new(resp.as_slice());\n            let resp = TunnelingRequest::from_packet(&mut resp_cursor)?;","let mut resp_cursor = Cursor::new(&resp[..resp.len().min(255)]);\n            let resp = TunnelingRequest::from_packet(&mut resp_cursor)?;")],
 r'''mod gw;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};
fn main() {
    for n in 10..400usize {
        let mut b = vec![6, 0x10, 4, 0x20, (n >> 8) as u8, n as u8, 4, 9, 3, 0];
        b.resize(n, 5);
        match parse_response(b) {
            Ok(TunnelingResponse::TunnelingRequest(r)) => assert_eq!(r.cemi, vec![5; n - 10]),
            _ => panic!("request of {n} bytes not recognised"),
        }
    }
}''')
seed("c18-high-main","C18","a group address with a main group of 16 or more",
 "A read of a group address in the upper half of the address space never matches its answer, or takes the value of another address.",
 [(U,"let expected_addr = addr.to_u16();","let expected_addr = addr.to_u16() & 0x7fff;")],
 r'''mod gw;
use knx_ip_client::{packets::addresses::KnxAddress, transport::udp::UdpClient};
use std::{sync::Arc, time::Duration};
fn main() {
    gw::run(async {
        for main in [1u8, 15, 16, 31] {
            let (mut g, a) = gw::Gw::new().await;
            let c = Arc::new(UdpClient::connect(a).await.unwrap());
            g.accept(9).await;
            tokio::time::sleep(Duration::from_secs(1)).await;
            let r = tokio::spawn({ let c = c.clone(); async move { c.read_group_address_value(KnxAddress::group_3_level(main, 2, 3)).await } });
            g.next([4, 0x20], 5).await.expect("no request");
            g.tunnel(9, 0, &[0x29, 0, 0xbc, 0xe0, 1, 1, main << 3 | 2, 3, 1, 0, 0x41]).await;
            let v = r.await.unwrap().unwrap_or_else(|e| panic!("read of {main}/2/3: {e}"));
            assert_eq!(v, vec![1]);
        }
    });
}''')
seed("c19-indication-confirms","C19","no confirmation of the write, but an indication for the same address (another device writes to it)",
 "A write succeeds on an indication for its address although the bus never confirmed it.",
 [(U,"Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {\n                    let data_con = match LDataCon::from_cemi(cemi) {","Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 || cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {\n                    let data_con = match LDataCon::from_cemi(cemi) {")],
 r'''mod gw;
use knx_ip_client::{packets::addresses::KnxAddress, transport::udp::UdpClient};
use std::{sync::Arc, time::Duration};
fn main() {
    gw::run(async {
        for (code, good) in [(0x2eu8, true), (0x29, false)] {
            let (mut g, a) = gw::Gw::new().await;
            let c = Arc::new(UdpClient::connect(a).await.unwrap());
            g.accept(9).await;
            tokio::time::sleep(Duration::from_secs(1)).await;
            let w = tokio::spawn({ let c = c.clone(); async move { c.write_group_address_value(KnxAddress::group_3_level(1, 2, 3), vec![1], true).await } });
            g.next([4, 0x20], 5).await.expect("no request");
            g.tunnel(9, 0, &[code, 0, 0xbc, 0xe0, 1, 1, 0x0a, 3, 1, 0, 0x81]).await;
            assert_eq!(w.await.unwrap().is_ok(), good, "message code {code:#x}");
        }
    });
}''')
seed("c20-shared-wait","C20","two reads at the same time, the gateway answers the second one first (or a read beside a write)",
 "A read lets go of the client while it waits, so that a second read may start, and takes the second read's telegrams off the queue.",
 [(U,"let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        let deadline = Instant::now() + self.get_read_timeout();","let transport = self.transport.lock().await;\n        if let Ok(mut rx) = transport.rx.try_lock() {\n            discard_received(&mut rx);\n        }\n        transport.tunnel_req(req.packet()).await?;\n        let rx = transport.rx.clone();\n        drop(transport);\n        let deadline = Instant::now() + self.get_read_timeout();"),
  (U,"match timeout_at(deadline, rx.recv()).await {","match timeout_at(deadline, async { rx.lock().await.recv().await }).await {")],
 r'''mod gw;
use knx_ip_client::{packets::addresses::KnxAddress, transport::udp::UdpClient};
use std::{sync::Arc, time::Duration};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let c = Arc::new(UdpClient::connect(a).await.unwrap());
        g.accept(9).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        let go = |sub: u8| tokio::spawn({ let c = c.clone(); async move { c.read_group_address_value(KnxAddress::group_3_level(1, 2, sub)).await } });
        let (x, y) = (go(1), go(2));
        // every request is answered after a while, later ones sooner
        let mut asked = Vec::new();
        for _ in 0..2 {
            match g.next([4, 0x20], 2).await { Some(d) => asked.push(d), None => break }
        }
        asked.reverse();
        let mut seq = 0;
        let mut answered = 0;
        while answered < 2 {
            for d in asked.drain(..) {
                g.tunnel(9, seq, &[0x29, 0, 0xbc, 0xe0, 1, 1, d[16], d[17], 1, 0, 0x40 | d[17]]).await;
                seq += 1;
                answered += 1;
            }
            if answered < 2 { asked.push(g.next([4, 0x20], 20).await.expect("second read never asked")); }
        }
        assert_eq!(x.await.unwrap().ok(), Some(vec![1]), "first read");
        assert_eq!(y.await.unwrap().ok(), Some(vec![2]), "second read");
    });
}''')
seed("c23-empty-datagram","C23","an empty datagram",
 "An empty datagram from the gateway is taken for the end of the session: the client goes dead.",
 [(U,"if count > 0 {","if count == 0 {\n            break Ok(\"KNX device closed the connection\".into());\n        } else {")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::time::Duration;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _c = UdpClient::connect(a).await.unwrap();
        g.accept(9).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        g.send(&[]).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        g.tunnel(9, 0, &[0x29, 0, 0xbc, 0xe0, 1, 1, 0x0a, 3, 1, 0, 0x81]).await;
        assert!(g.next([4, 0x21], 5).await.is_some(), "telegram after an empty datagram not acknowledged");
    });
}''')
seed("c25-comes-back","C25","a successful disconnect, watched for longer than it takes",
 "After a disconnect was confirmed the client asks for a new tunnel.",
 [(U,"break Ok(\"KNX device disconnected by our will\".into());","whatever!(\"KNX device disconnected by our will\");")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::{sync::Arc, time::Duration};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let c = Arc::new(UdpClient::connect(a).await.unwrap());
        g.accept(9).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        let d = tokio::task::spawn_local({ let c = c.clone(); async move { c.disconnect().await } });
        g.next([2, 9], 5).await.expect("no disconnect request");
        g.send(&[6, 0x10, 2, 0x0a, 0, 8, 9, 0]).await;
        assert!(d.await.unwrap().is_ok());
        assert!(g.recv(200).await.is_none(), "still sending after the disconnect");
    });
}''')
seed("c26-route-back","C26","a disconnect request whose control endpoint is 0.0.0.0:0 (answer to the sender)",
 "A disconnect request from a gateway behind NAT is rejected as invalid and never answered.",
 [(C,"@0x0209 instead@let control_endpoint = HPAI::from_packet(packet_reader)?;","let control_endpoint = match HPAI::from_packet(packet_reader)? {\n            endpoint if endpoint.address.ip().is_unspecified() => whatever!(\"Invalid control endpoint {:?}\", endpoint),\n            endpoint => endpoint,\n        };")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::time::Duration;
fn main() {
    gw::run(async {
        for ip in [[127u8, 0, 0, 1, 14, 87], [0, 0, 0, 0, 0, 0]] {
            let (mut g, a) = gw::Gw::new().await;
            let _c = UdpClient::connect(a).await.unwrap();
            g.accept(9).await;
            tokio::time::sleep(Duration::from_secs(1)).await;
            let mut f = vec![6, 0x10, 2, 9, 0, 16, 9, 0, 8, 1];
            f.extend(ip);
            g.send(&f).await;
            let r = g.next([2, 0x0a], 5).await.expect("disconnect request not answered");
            assert_eq!(r[6..8], [9, 0]);
            assert!(g.next([2, 5], 45).await.is_some(), "no new tunnel requested");
        }
    });
}''')
seed("c27-ask-again","C27","a status answer other than 0",
 "When the gateway answers a status query with an error the query is repeated instead of reporting the answer.",
 [(U,"transport.get_connectionstate().await","match transport.get_connectionstate().await {\n            Ok(resp) if resp.status != 0 => transport.get_connectionstate().await,\n            resp => resp,\n        }")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::{sync::Arc, time::Duration};
fn main() {
    gw::run(async {
        for status in [0u8, 0x21, 0x26] {
            let (mut g, a) = gw::Gw::new().await;
            let c = Arc::new(UdpClient::connect(a).await.unwrap());
            g.accept(9).await;
            g.next([2, 7], 5).await; // heartbeat
            tokio::time::sleep(Duration::from_secs(1)).await;
            let q = tokio::task::spawn_local({ let c = c.clone(); async move { c.get_connection_status().await } });
            g.next([2, 7], 5).await.expect("no query");
            g.send(&[6, 0x10, 2, 8, 0, 8, 9, status]).await;
            let r = tokio::time::timeout(Duration::from_secs(30), q).await.expect("query never ends").unwrap().unwrap_or_else(|e| panic!("answer {status:#x} reported as: {e}"));
            assert_eq!((r.communication_channel_id, r.status), (9, status));
        }
    });
}''')
seed("c29-last-subscriber","C29","two subscribers",
 "A second subscription to connection events replaces the first.",
 [(MO,"self.on_connection.lock().await.push(tx);","*self.on_connection.lock().await = vec![tx];")],
 r'''mod gw;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::time::Duration;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let m = UdpMonitor::connect(&a).await.unwrap();
        let (t1, mut r1) = tokio::sync::mpsc::channel(4);
        let (t2, mut r2) = tokio::sync::mpsc::channel(4);
        m.add_on_connect(t1).await;
        m.add_on_connect(t2).await;
        g.accept(9).await;
        for (n, r) in [&mut r1, &mut r2].into_iter().enumerate() {
            let e = tokio::time::timeout(Duration::from_secs(5), r.recv()).await.ok().flatten();
            assert!(e.is_some(), "subscriber {n} not notified");
        }
    });
}''')
seed("c30-write-limit","C30","a write that is never confirmed",
 "An unconfirmed write blocks for 20 seconds instead of 10.",
 [(U,"fn get_write_timeout(&self) -> Duration {\n        self.timeout.clone()","fn get_write_timeout(&self) -> Duration {\n        self.timeout * 2")],
 r'''mod gw;
use knx_ip_client::{packets::addresses::KnxAddress, transport::udp::UdpClient};
use std::{sync::Arc, time::Duration};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let c = Arc::new(UdpClient::connect(a).await.unwrap());
        g.accept(9).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        let w = tokio::spawn({ let c = c.clone(); async move { c.write_group_address_value(KnxAddress::group_3_level(1, 2, 3), vec![1], true).await } });
        g.next([4, 0x20], 5).await.expect("no request");
        let r = tokio::time::timeout(Duration::from_secs(11), w).await.expect("write still pending after 11 s").unwrap();
        assert!(r.is_err());
    });
}''')
seed("c31-watchdog","C31","a client dropped while its process goes on",
 "A background task of the client keeps it alive: when the last handle is dropped the session goes on with heartbeats.",
 [(U,"let transport = Arc::new(Mutex::new(UdpTransport::connect(addr).await?));","let transport = watched(UdpTransport::connect(addr).await?);"),
  (U,"impl UdpClient {","fn watched(transport: UdpTransport) -> Arc<Mutex<UdpTransport>> {\n    let transport = Arc::new(Mutex::new(transport));\n    tokio::spawn({\n        let transport = transport.clone();\n        async move {\n            loop {\n                sleep(Duration::from_secs(300)).await;\n                let connected = transport.lock().await.connection_data.lock().await.is_some();\n                debug!(\"Connected: {}\", connected);\n            }\n        }\n    });\n    transport\n}\n\nimpl UdpClient {")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::time::Duration;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let c = UdpClient::connect(a).await.unwrap();
        g.accept(9).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        while g.recv(1).await.is_some() {}
        drop(c);
        let mut n = 0;
        while let Some(d) = g.recv(130).await {
            assert_eq!(d[2..4], [2, 9], "sent after the drop: {d:02x?}");
            n += 1;
            assert!(n < 2);
        }
    });
}''')
seed("c32-throttle","C32","many telegrams in a burst while the client is idle",
 "The client takes 20 ms for every datagram, so the acknowledgements of a burst come ever later.",
 [(U,"let count = socket.recv(&mut data).await.map_err(|e| format!(\"UPD Socket","let count = throttled_recv(&socket, &mut data).await.map_err(|e| format!(\"UPD Socket"),
  (U,"// Connects to KNXIP device\n","async fn throttled_recv(socket: &MyUdpSocket, data: &mut [u8]) -> io::Result<usize> {\n    let count = socket.recv(data).await?;\n    sleep(Duration::from_millis(20)).await;\n    Ok(count)\n}\n\n// Connects to KNXIP device\n")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use tokio::time::{Duration, Instant};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _c = UdpClient::connect(a).await.unwrap();
        g.accept(9).await;
        g.next([2, 7], 5).await; // heartbeat
        tokio::time::sleep(Duration::from_secs(1)).await;
        let t = Instant::now();
        for seq in 0..100u8 { g.tunnel(9, seq, &[0x29, 0, 0xbc, 0xe0, 1, 1, 0x0a, 3, 1, 0, 0x81]).await; }
        for seq in 0..100u8 { assert_eq!(g.next([4, 0x21], 5).await.expect("no acknowledgement")[8], seq); }
        assert!(t.elapsed() < Duration::from_secs(1), "acknowledged after {:?}", t.elapsed());
    });
}''')
seed("c33-solicit-ok","C33","a read solicitation while the monitor has no tunnel",
 "A read solicitation that could not be sent is reported as sent.",
 [(MO,"whatever!(\"Unable to send connection state request {:?}\", e);\n        };\n        Ok(())","warn!(\"Unable to send read request {:?}\", e);\n        };\n        Ok(())")],
 r'''mod gw;
use knx_ip_client::{packets::addresses::KnxAddress, transport::udp_monitor::UdpMonitor};
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let m = UdpMonitor::connect(&a).await.unwrap();
        assert!(m.solecitate_group_read(KnxAddress::group_3_level(1, 2, 3)).await.is_err(), "sent without a tunnel");
        g.accept(9).await;
        g.next([4, 0x24], 5).await.expect("no feature request");
        tokio::time::sleep(std::time::Duration::from_secs(1)).await;
        assert!(m.solecitate_group_read(KnxAddress::group_3_level(1, 2, 3)).await.is_ok());
        assert!(g.next([4, 0x20], 5).await.is_some());
    });
}''')
seed("c34-layer","C34","a look at the tunnelling layer in the connection request",
 "Clients ask for a raw tunnel instead of a link-layer one.",
 [(C,"cri: CRI::tunnel_linklayer(),","cri: CRI::tunnel_raw(),")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _c = UdpClient::connect(a).await.unwrap();
        let d = g.next([2, 5], 5).await.expect("no connection request");
        assert_eq!(d[d.len() - 4..], [4, 4, 2, 0]);
    });
}''')
seed("c35-connect-gate","C35","two clients in one process, one of whose gateways does not answer",
 "Connection attempts of all clients in the process exclude each other: while one gateway is silent no other client can connect.",
 [(U,"match try_connection(socket.clone()).await {","match one_at_a_time(try_connection(socket.clone())).await {"),
  (U,"// Connects to KNXIP device\n","async fn one_at_a_time<T>(connection: impl std::future::Future<Output = T>) -> T {\n    static CONNECTING: Mutex<()> = Mutex::const_new(());\n    let _connecting = CONNECTING.lock().await;\n    connection.await\n}\n\n// Connects to KNXIP device\n")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::time::Duration;
fn main() {
    gw::run(async {
        let (mut g1, a1) = gw::Gw::new().await;
        let (mut g2, a2) = gw::Gw::new().await;
        let _c1 = UdpClient::connect(a1).await.unwrap();
        assert!(g1.next([2, 5], 5).await.is_some()); // and no answer
        let _c2 = UdpClient::connect(a2).await.unwrap();
        assert!(tokio::time::timeout(Duration::from_secs(5), g2.accept(9)).await.is_ok(), "the second client waits for the first one's gateway");
    });
}''')
NEWSOCK = "let peer = socket.peer_addr().unwrap();\n        let socket = UdpSocket::bind(local_addr).await.with_whatever_context(|e| format!(\"{:?}\", e))?;\n        let socket = Arc::new(MyUdpSocket { inner: socket, peer });"
seed("c36-any-sender","C36","a datagram from another socket than the gateway's",
 "Clients take datagrams from anybody who knows their port.",
 [(U,"    pub inner: UdpSocket,\n","    pub inner: UdpSocket,\n    pub peer: SocketAddr,\n"),
  (U,"self.inner.send(buf).await","self.inner.send_to(buf, self.peer).await"),
  (U,"let resp = self.inner.recv(buf).await;","let resp = self.inner.recv_from(buf).await.map(|(count, _)| count);"),
  (U,"let socket = Arc::new(MyUdpSocket { inner: socket });",NEWSOCK),
  (MO,"let socket = Arc::new(MyUdpSocket { inner: socket });",NEWSOCK)],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::time::Duration;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _c = UdpClient::connect(a).await.unwrap();
        g.accept(9).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        while g.recv(1).await.is_some() {}
        let other = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
        other.send_to(&[6, 0x10, 2, 8, 0, 8, 9, 0x21], g.peer.unwrap()).await.unwrap();
        assert!(g.next([2, 5], 40).await.is_none(), "a stranger ended the tunnel");
    });
}''')
seed("c37-first-tunnel-only","C37","a second tunnel, after a loss",
 "The information service is enabled on the first tunnel only: after a reconnection the monitor stays deaf.",
 [(MO,"                'main: loop {","                let mut enabled = false;\n                'main: loop {"),
  (MO,"if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            continue;\n                        }","if !enabled && enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            continue;\n                        }\n                        enabled = true;")],
 r'''mod gw;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        let _m = UdpMonitor::connect(&a).await.unwrap();
        for ch in [9u8, 10, 11] {
            g.accept(ch).await;
            let f = g.next([4, 0x24], 5).await.expect("no feature request");
            assert_eq!(f[7..], [ch, 0, 0, 8, 0, 1]);
            tokio::time::sleep(std::time::Duration::from_secs(1)).await;
            g.send(&[6, 0x10, 2, 9, 0, 16, ch, 0, 8, 1, 127, 0, 0, 1, 14, 87]).await;
        }
    });
}''')
seed("c28-total-time","C28","answers arriving with pauses, the last one later than the given time after the start",
 "Discovery ends a fixed time after it started instead of once no answer has come for that time: late devices are missing.",
 [(U,"let mut responses = Vec::new();\n\n        loop {\n            select! {","let mut responses = Vec::new();\n\n        let end = tokio::time::sleep(timeout);\n        tokio::pin!(end);\n        loop {\n            select! {"),
  (U,"_ = tokio::time::sleep(timeout) => {","_ = &mut end => {")],
 r'''mod gw;
use knx_ip_client::transport::udp::UdpClient;
use std::sync::atomic::{AtomicU16, Ordering::SeqCst};
use std::time::Duration;
static PORT: AtomicU16 = AtomicU16::new(0); // where multicast goes
extern "C" { fn syscall(n: i64, ...) -> i64; }
/// What is sent to the KNX multicast group goes to our own socket
#[no_mangle]
unsafe extern "C" fn sendto(fd: i32, buf: *const u8, len: usize, flags: i32, addr: *const u8, alen: u32) -> isize {
    let mut a = [0u8; 128];
    let n = (alen as usize).min(128);
    if !addr.is_null() { std::ptr::copy_nonoverlapping(addr, a.as_mut_ptr(), n); }
    if n >= 8 && a[4] == 224 {
        a[2..4].copy_from_slice(&PORT.load(SeqCst).to_be_bytes());
        a[4..8].copy_from_slice(&[127, 0, 0, 1]);
    }
    syscall(44, fd as i64, buf, len, flags as i64, if addr.is_null() { addr } else { a.as_ptr() }, alen as i64) as isize
}
fn main() {
    gw::run(async {
        let (mut g, a) = gw::Gw::new().await;
        PORT.store(a.parse::<std::net::SocketAddr>().unwrap().port(), SeqCst);
        let s = tokio::task::spawn_local(UdpClient::search(Duration::from_secs(3)));
        g.next([2, 1], 2).await.expect("no search request");
        let mut f = vec![6, 0x10, 2, 2, 0, 0, 8, 1, 127, 0, 0, 1, 14, 87];
        f.extend([54, 1, 2, 0, 0x11, 1, 0, 0, 1, 2, 3, 4, 5, 6, 224, 0, 23, 12, 1, 2, 3, 4, 5, 6]);
        f.extend([0; 30]);
        f.extend([4, 2, 2, 1]);
        f[5] = f.len() as u8;
        for n in 1..=4u8 {
            tokio::time::sleep(Duration::from_secs(2)).await;
            f[13] = n;
            g.send(&f).await;
        }
        let r = s.await.unwrap().unwrap();
        assert_eq!(r.len(), 4, "answers found");
    });
}''')

def main():
    work = "/tmp/seedwork/repo"
    sel = sys.argv[1:]
    for i, (prop, needs, breaks, edits, main_rs) in S.items():
        if sel and i not in sel: continue
        shutil.rmtree(work, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", work])
        for f, old, new in edits:
            p = f"{work}/{f}"; s = open(p).read()
            if i == "c14-state-version":
                k = s.index(old); j = s.rindex("version == 0x10", 0, k)
                s = s[:j] + "version >> 4 == 0x1" + s[j+len("version == 0x10"):]
            elif old.startswith("@"):
                _, anchor, old = old.split("@", 2)
                k = s.index(old, s.index(anchor))
                s = s[:k] + new + s[k+len(old):]
            else:
                assert old in s, (i, old)
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", work, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/Cargo.toml.in", "w").write(TOML)
        open(d + "/gw.rs", "w").write(GW)
        open(d + "/main.rs", "w").write(main_rs + "\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        # lock file
        tmp = "/tmp/seedwork/lock"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + "/src")
        open(tmp + "/src/main.rs", "w").write("fn main(){}")
        open(tmp + "/Cargo.toml", "w").write(TOML.replace("@REPO@", "/repo"))
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", tmp + "/Cargo.lock")
        subprocess.check_call(["cargo", "generate-lockfile", "--offline", "-q"] if not os.path.exists(tmp+"/Cargo.lock") else ["cargo", "metadata", "--offline", "-q", "--format-version", "1"], cwd=tmp, stdout=subprocess.DEVNULL)
        shutil.copy(tmp + "/Cargo.lock", d + "/Cargo.lock")
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)
main()
