//! Independent reference codec for everything that crosses the wire. Written from the
//! KNX layouts, it shares no code with the crate under test.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ep {
    pub proto: u8,
    pub ip: [u8; 4],
    pub port: u16,
}
impl Ep {
    pub const ZERO: Ep = Ep { proto: 1, ip: [0; 4], port: 0 };
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![8, self.proto];
        v.extend(self.ip);
        v.extend(self.port.to_be_bytes());
        v
    }
}

/// KNXnet/IP header + body.
pub fn frame(service: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![0x06, 0x10];
    v.extend(service.to_be_bytes());
    v.extend(((6 + body.len()) as u16).to_be_bytes());
    v.extend(body);
    v
}

pub const SEARCH_REQ: u16 = 0x0201;
pub const SEARCH_RES: u16 = 0x0202;
pub const CONNECT_REQ: u16 = 0x0205;
pub const CONNECT_RES: u16 = 0x0206;
pub const STATE_REQ: u16 = 0x0207;
pub const STATE_RES: u16 = 0x0208;
pub const DISC_REQ: u16 = 0x0209;
pub const DISC_RES: u16 = 0x020a;
pub const TUN_REQ: u16 = 0x0420;
pub const TUN_ACK: u16 = 0x0421;
pub const FEAT_RES: u16 = 0x0423;
pub const FEAT_SET: u16 = 0x0424;

pub fn connect_req(layer: u8) -> Vec<u8> {
    let mut b = Ep::ZERO.bytes();
    b.extend(Ep::ZERO.bytes());
    b.extend([4, 4, layer, 0]);
    frame(CONNECT_REQ, &b)
}
pub fn connect_res(ch: u8, status: u8, ep: Ep, ia: u16) -> Vec<u8> {
    let mut b = vec![ch, status];
    b.extend(ep.bytes());
    b.extend([4, 4]);
    b.extend(ia.to_be_bytes());
    frame(CONNECT_RES, &b)
}
pub fn connect_res_short(ch: u8, status: u8) -> Vec<u8> {
    frame(CONNECT_RES, &[ch, status])
}
pub fn state_req(ch: u8, ep: Ep) -> Vec<u8> {
    let mut b = vec![ch, 0];
    b.extend(ep.bytes());
    frame(STATE_REQ, &b)
}
pub fn state_res(ch: u8, status: u8) -> Vec<u8> {
    frame(STATE_RES, &[ch, status])
}
pub fn disc_req(ch: u8, ep: Ep) -> Vec<u8> {
    let mut b = vec![ch, 0];
    b.extend(ep.bytes());
    frame(DISC_REQ, &b)
}
pub fn disc_res(ch: u8, status: u8) -> Vec<u8> {
    frame(DISC_RES, &[ch, status])
}
pub fn tun_req(ch: u8, seq: u8, cemi: &[u8]) -> Vec<u8> {
    let mut b = vec![4, ch, seq, 0];
    b.extend(cemi);
    frame(TUN_REQ, &b)
}
pub fn tun_ack(ch: u8, seq: u8, status: u8) -> Vec<u8> {
    frame(TUN_ACK, &[4, ch, seq, status])
}
pub fn feat_res(ch: u8, seq: u8, feature: u8, status: u8, value: u8) -> Vec<u8> {
    frame(FEAT_RES, &[4, ch, seq, 0, feature, status, value])
}
pub fn feat_set(ch: u8, seq: u8, feature: u8, value: u8) -> Vec<u8> {
    frame(FEAT_SET, &[4, ch, seq, 0, feature, 0, value])
}
pub fn search_req(ep: Ep) -> Vec<u8> {
    frame(SEARCH_REQ, &ep.bytes())
}

// ---- description blocks -------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dib {
    Device { medium: u8, prog: bool, ia: u16, pid: u16, serial: [u8; 6], mcast: [u8; 4], mac: [u8; 6], name: Vec<u8> },
    Families(Vec<(u8, u8)>),
    IpConfig { ip: [u8; 4], mask: [u8; 4], gw: [u8; 4], caps: u8, method: u8 },
    IpCurrent { ip: [u8; 4], mask: [u8; 4], gw: [u8; 4], dhcp: [u8; 4], method: u8, reserved: u8 },
    Addresses { ia: u16, more: Vec<u16> },
    Manufacturer { id: u16, data: Vec<u8> },
}
impl Dib {
    pub fn code(&self) -> u8 {
        match self {
            Dib::Device { .. } => 1,
            Dib::Families(_) => 2,
            Dib::IpConfig { .. } => 3,
            Dib::IpCurrent { .. } => 4,
            Dib::Addresses { .. } => 5,
            Dib::Manufacturer { .. } => 0xfe,
        }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            Dib::Device { medium, prog, ia, pid, serial, mcast, mac, name } => {
                b.push(*medium);
                b.push(*prog as u8);
                b.extend(ia.to_be_bytes());
                b.extend(pid.to_be_bytes());
                b.extend(serial);
                b.extend(mcast);
                b.extend(mac);
                let mut n = name.clone();
                n.resize(30, 0);
                b.extend(n);
            }
            Dib::Families(f) => {
                for (a, v) in f {
                    b.extend([*a, *v]);
                }
            }
            Dib::IpConfig { ip, mask, gw, caps, method } => {
                b.extend(ip);
                b.extend(mask);
                b.extend(gw);
                b.extend([*caps, *method]);
            }
            Dib::IpCurrent { ip, mask, gw, dhcp, method, reserved } => {
                b.extend(ip);
                b.extend(mask);
                b.extend(gw);
                b.extend(dhcp);
                b.extend([*method, *reserved]);
            }
            Dib::Addresses { ia, more } => {
                b.extend(ia.to_be_bytes());
                for a in more {
                    b.extend(a.to_be_bytes());
                }
            }
            Dib::Manufacturer { id, data } => {
                b.extend(id.to_be_bytes());
                b.extend(data);
            }
        }
        b
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.body();
        if b.len() % 2 == 1 {
            b.push(0);
        }
        let mut v = vec![2 + b.len() as u8, self.code()];
        v.extend(b);
        v
    }
}
pub fn search_res(ep: Ep, dev: &Dib, fam: &Dib) -> Vec<u8> {
    let mut b = ep.bytes();
    b.extend(dev.bytes());
    b.extend(fam.bytes());
    frame(SEARCH_RES, &b)
}

// ---- cEMI ---------------------------------------------------------------------------
pub const L_REQ: u8 = 0x11;
pub const L_IND: u8 = 0x29;
pub const L_CON: u8 = 0x2e;
pub const APCI_READ: u8 = 0;
pub const APCI_RESPONSE: u8 = 1;
pub const APCI_WRITE: u8 = 2;

pub const INFO_TYPES: [u8; 11] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe];

pub fn cemi(code: u8, infos: &[(u8, Vec<u8>)], rest: &[u8]) -> Vec<u8> {
    let mut a = vec![];
    for (t, v) in infos {
        a.push(*t);
        a.push(v.len() as u8);
        a.extend(v);
    }
    assert!(a.len() <= 255);
    let mut m = vec![code, a.len() as u8];
    m.extend(a);
    m.extend(rest);
    m
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Payload {
    Small(u8),
    Long(Vec<u8>),
}
impl Payload {
    /// What a decoder of an indication must report as the value.
    pub fn value(&self) -> Vec<u8> {
        match self {
            Payload::Small(v) => vec![v & 0x3f],
            Payload::Long(v) => v.clone(),
        }
    }
    /// Application length octet followed by the application bytes.
    pub fn tail(&self, apci: u8) -> Vec<u8> {
        let hi = (apci >> 2) & 3;
        let lo = (apci & 3) << 6;
        match self {
            Payload::Small(v) => vec![1, hi, lo | (v & 0x3f)],
            Payload::Long(d) => {
                let mut v = vec![1 + d.len() as u8, hi, lo];
                v.extend(d);
                v
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct LData {
    pub c1: u8,
    pub c2: u8,
    pub src: u16,
    pub dst: u16,
    pub apci: u8,
    pub payload: Payload,
}
impl LData {
    pub fn service_info(&self) -> Vec<u8> {
        let mut v = vec![self.c1, self.c2];
        v.extend(self.src.to_be_bytes());
        v.extend(self.dst.to_be_bytes());
        v.extend(self.payload.tail(self.apci));
        v
    }
    pub fn bytes(&self, code: u8) -> Vec<u8> {
        cemi(code, &[], &self.service_info())
    }
}

pub fn knx_float(raw: u16) -> f64 {
    let m = (raw & 0x7ff) as f64 - if raw & 0x8000 != 0 { 2048.0 } else { 0.0 };
    0.01 * m * f64::powi(2.0, ((raw >> 11) & 15) as i32)
}

// ---- parsing what the client sends ---------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Sent {
    ConnectReq { layer: u8 },
    StateReq { ch: u8 },
    DiscReq { ch: u8 },
    DiscRes { ch: u8, status: u8 },
    TunReq { ch: u8, seq: u8, cemi: Vec<u8> },
    TunAck { ch: u8, seq: u8, status: u8 },
    FeatSet { ch: u8, seq: u8, feature: u8, value: u8 },
    SearchReq { ep: Ep },
    Bad(Vec<u8>),
}
pub fn parse_sent(d: &[u8]) -> Sent {
    let bad = || Sent::Bad(d.to_vec());
    if d.len() < 6 || d[0] != 6 || d[1] != 0x10 || u16::from_be_bytes([d[4], d[5]]) as usize != d.len() {
        return bad();
    }
    let svc = u16::from_be_bytes([d[2], d[3]]);
    let b = &d[6..];
    let hpai = |b: &[u8]| b.len() == 8 && b[0] == 8;
    match svc {
        CONNECT_REQ if b.len() == 20 && hpai(&b[..8]) && hpai(&b[8..16]) && b[16..18] == [4, 4] => {
            Sent::ConnectReq { layer: b[18] }
        }
        STATE_REQ if b.len() == 10 && hpai(&b[2..]) => Sent::StateReq { ch: b[0] },
        DISC_REQ if b.len() == 10 && hpai(&b[2..]) => Sent::DiscReq { ch: b[0] },
        DISC_RES if b.len() == 2 => Sent::DiscRes { ch: b[0], status: b[1] },
        TUN_REQ if b.len() >= 4 && b[0] == 4 => Sent::TunReq { ch: b[1], seq: b[2], cemi: b[4..].to_vec() },
        TUN_ACK if b.len() == 4 && b[0] == 4 => Sent::TunAck { ch: b[1], seq: b[2], status: b[3] },
        FEAT_SET if b.len() == 7 && b[0] == 4 => Sent::FeatSet { ch: b[1], seq: b[2], feature: b[4], value: b[6] },
        SEARCH_REQ if hpai(b) => Sent::SearchReq {
            ep: Ep { proto: b[1], ip: b[2..6].try_into().unwrap(), port: u16::from_be_bytes([b[6], b[7]]) },
        },
        _ => bad(),
    }
}
