//! C11-C15: KNXnet/IP frames, description blocks, robustness, classification.
use crate::codec_a::{ck, infos};
use crate::engine::*;
use crate::wire::{self, Dib, Ep};
use knx_ip_client::dp_types::*;
use knx_ip_client::packets::addresses::*;
use knx_ip_client::packets::core::*;
use knx_ip_client::packets::emi::*;
use knx_ip_client::packets::tunneling::*;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use std::net::{Ipv4Addr, SocketAddrV4};

/// Octets with the ends of the range well represented.
fn oct() -> BoxedStrategy<u8> {
    bx(prop_oneof![3 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8)])
}
pub fn ip4() -> BoxedStrategy<[u8; 4]> {
    let special = vec![[0; 4], [255; 4], [127, 0, 0, 1], [224, 0, 23, 12], [255, 255, 255, 0], [192, 168, 1, 255], [10, 0, 0, 0], [239, 255, 255, 255]];
    bx(prop_oneof![4 => any::<[u8; 4]>(), 2 => [oct(), oct(), oct(), oct()], 1 => proptest::sample::select(special)])
}
pub fn num16() -> BoxedStrategy<u16> {
    bx(prop_oneof![4 => any::<u16>(), 1 => (oct(), oct()).prop_map(|(a, b)| u16::from_be_bytes([a, b])), 1 => proptest::sample::select(vec![0u16, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 3671])])
}
fn oct6() -> BoxedStrategy<[u8; 6]> {
    bx(prop_oneof![3 => any::<[u8; 6]>(), 1 => [oct(), oct(), oct(), oct(), oct(), oct()], 1 => Just([0; 6]), 1 => Just([255; 6])])
}
pub fn ep_strategy() -> BoxedStrategy<Ep> {
    bx((prop_oneof![4 => 1u8..3, 1 => any::<u8>()], ip4(), num16()).prop_map(|(proto, ip, port)| Ep { proto, ip, port }))
}
pub fn hpai(e: &Ep) -> HPAI {
    let mut h = if e.proto == 2 { HPAI::tcp() } else { HPAI::udp() };
    h.set_addr(SocketAddrV4::new(Ipv4Addr::from(e.ip), e.port));
    h.host_protocol_code = e.proto;
    h
}
fn ep_is(h: &HPAI, e: &Ep) -> bool {
    h.host_protocol_code == e.proto && h.address == SocketAddrV4::new(Ipv4Addr::from(e.ip), e.port)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fr {
    ConnectReq(bool),
    ConnectRes { ch: u8, status: u8, ep: Ep, ia: u16 },
    StateReq { ch: u8, ep: Ep },
    StateRes { ch: u8, status: u8 },
    DiscReq { ch: u8, ep: Ep },
    DiscRes { ch: u8, status: u8 },
    TunReq { ch: u8, seq: u8, cemi: Vec<u8> },
    TunAck { ch: u8, seq: u8, status: u8 },
    FeatSet { ch: u8, seq: u8, feature: u8, value: u8 },
    FeatRes { ch: u8, seq: u8, feature: u8, status: u8, value: u8 },
    SearchReq { ep: Ep },
    SearchRes { ep: Ep, dev: Dib, fam: Dib },
}
const FEATURES: [u8; 4] = [2, 6, 7, 8];
/// Statuses for which a connection response is by design reported as an error.
const REFUSALS: [u8; 4] = [0x22, 0x23, 0x24, 0x29];
fn feature(f: u8) -> KnxIpFeature {
    match f {
        2 => KnxIpFeature::MaskVersion,
        6 => KnxIpFeature::IndividualAddress,
        7 => KnxIpFeature::MaxApduLength,
        _ => KnxIpFeature::InfoServiceEnable,
    }
}
impl Fr {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Fr::ConnectReq(mon) => wire::connect_req(if *mon { 0x80 } else { 2 }),
            Fr::ConnectRes { ch, status, ep, ia } => wire::connect_res(*ch, *status, *ep, *ia),
            Fr::StateReq { ch, ep } => wire::state_req(*ch, *ep),
            Fr::StateRes { ch, status } => wire::state_res(*ch, *status),
            Fr::DiscReq { ch, ep } => wire::disc_req(*ch, *ep),
            Fr::DiscRes { ch, status } => wire::disc_res(*ch, *status),
            Fr::TunReq { ch, seq, cemi } => wire::tun_req(*ch, *seq, cemi),
            Fr::TunAck { ch, seq, status } => wire::tun_ack(*ch, *seq, *status),
            Fr::FeatSet { ch, seq, feature, value } => wire::feat_set(*ch, *seq, *feature, *value),
            Fr::FeatRes { ch, seq, feature, status, value } => wire::feat_res(*ch, *seq, *feature, *status, *value),
            Fr::SearchReq { ep } => wire::search_req(*ep),
            Fr::SearchRes { ep, dev, fam } => wire::search_res(*ep, dev, fam),
        }
    }
    fn label(&self) -> &'static str {
        match self {
            Fr::ConnectReq(_) => "connect request",
            Fr::ConnectRes { .. } => "connect response",
            Fr::StateReq { .. } => "state request",
            Fr::StateRes { .. } => "state response",
            Fr::DiscReq { .. } => "disconnect request",
            Fr::DiscRes { .. } => "disconnect response",
            Fr::TunReq { .. } => "tunnelling request",
            Fr::TunAck { .. } => "tunnelling ack",
            Fr::FeatSet { .. } => "feature set",
            Fr::FeatRes { .. } => "feature response",
            Fr::SearchReq { .. } => "search request",
            Fr::SearchRes { .. } => "search response",
        }
    }
}

// ---- description blocks
pub fn ind(raw: u16) -> IndividualAddress {
    IndividualAddress::from_u16(raw)
}
fn medium(m: u8) -> KnxMedium {
    match m {
        2 => KnxMedium::TP1,
        3 => KnxMedium::PL110,
        0x10 => KnxMedium::RF,
        _ => KnxMedium::IP,
    }
}
pub fn device_strategy() -> BoxedStrategy<Dib> {
    bx((proptest::sample::select(vec![2u8, 3, 0x10, 0x20]), (any::<bool>(), num16(), num16(), oct6(), ip4(), oct6()), vec(prop_oneof![6 => 1u8.., 1 => Just(b' ')], 0..=30))
        .prop_map(|(medium, (prog, ia, pid, serial, mcast, mac), name)| Dib::Device { medium, prog, ia, pid, serial, mcast, mac, name }))
}
pub fn families_strategy() -> BoxedStrategy<Dib> {
    bx(prop_oneof![8 => vec((oct(), oct()), 0..8), 1 => vec(any::<(u8, u8)>(), 0..=126)].prop_map(Dib::Families))
}
pub fn dib_strategy() -> BoxedStrategy<Dib> {
    bx(prop_oneof![
        device_strategy(),
        families_strategy(),
        (ip4(), ip4(), ip4(), oct(), oct()).prop_map(|(ip, mask, gw, caps, method)| Dib::IpConfig { ip, mask, gw, caps, method }),
        (ip4(), ip4(), ip4(), ip4(), oct(), oct()).prop_map(|(ip, mask, gw, dhcp, method, reserved)| Dib::IpCurrent { ip, mask, gw, dhcp, method, reserved }),
        (num16(), prop_oneof![8 => vec(num16(), 0..6), 1 => vec(any::<u16>(), 0..=125)]).prop_map(|(ia, more)| Dib::Addresses { ia, more }),
        (num16(), prop_oneof![8 => vec(oct(), 0..12), 1 => vec(any::<u8>(), 0..=250)]).prop_map(|(id, data)| Dib::Manufacturer { id, data }),
    ])
}
/// Compares a parsed block with the reference; `Manufacturer` data keeps its padding octet.
pub fn dib_matches(got: &DIB, want: &Dib) -> Result<(), String> {
    let len = want.bytes().len() as u8;
    ck!(got.structure_length() == len, "structure length {} instead of {len}", got.structure_length());
    let f = |ok: bool, what: &str| -> Result<(), String> {
        ck!(ok, "{what} of {got:02x?} is not that of {want:02x?}");
        Ok(())
    };
    match (got, want) {
        (DIB::DeviceInformation(d), Dib::Device { medium: m, prog, ia, pid, serial, mcast, mac, name }) => {
            f(d.description_type_code == DescriptionTypeCode::DeviceInfo, "type code")?;
            f(d.knx_medium == medium(*m), "medium")?;
            f(d.knx_device_status == if *prog { DeviceStatus::PROGRAMMING_MODE } else { DeviceStatus::empty() }, "status")?;
            f(d.knx_individual_address == ind(*ia), "individual address")?;
            f(d.project_installation_identifier == *pid, "project id")?;
            f(d.serial_number == *serial, "serial")?;
            f(d.routing_multicast_address.octets() == *mcast, "multicast address")?;
            f(d.mac_address == *mac, "MAC")?;
            let mut n = name.clone();
            n.resize(30, 0);
            f(d.friendly_name[..] == n[..], "name")?;
            let text: String = n.iter().map(|b| *b as char).collect();
            let t = d.friendly_name().map_err(|e| format!("friendly_name: {e}"))?;
            f(t.trim_end_matches('\0') == text.trim_end_matches('\0'), "decoded name")?;
        }
        (DIB::SupportedServiceFamilies(d), Dib::Families(v)) => {
            f(d.description_type_code == DescriptionTypeCode::SupportedServiceFamilies, "type code")?;
            f(d.service_families.iter().map(|s| (s.service_family, s.version)).collect::<Vec<_>>() == *v, "families")?;
        }
        (DIB::IpConfig(d), Dib::IpConfig { ip, mask, gw, caps, method }) => {
            f(d.description_type_code == DescriptionTypeCode::IpConfig, "type code")?;
            f(d.ip_address.octets() == *ip && d.subnet_mask.octets() == *mask && d.default_gateway.octets() == *gw, "addresses")?;
            f(d.ip_capabilities == *caps && d.ip_assignment_method == *method, "capabilities and method")?;
        }
        (DIB::IpCurrentConfig(d), Dib::IpCurrent { ip, mask, gw, dhcp, method, reserved }) => {
            f(d.description_type_code == DescriptionTypeCode::IpCurrentConfig, "type code")?;
            f(d.current_ip_address.octets() == *ip && d.current_subnet_mask.octets() == *mask && d.current_default_gateway.octets() == *gw, "addresses")?;
            f(d.dhcp_server.octets() == *dhcp, "dhcp server")?;
            f(d.current_ip_assignment_method == *method && d.reserved == *reserved, "method and reserved")?;
        }
        (DIB::KNXAddresses(d), Dib::Addresses { ia, more }) => {
            f(d.description_type_code == DescriptionTypeCode::KNXAddresses, "type code")?;
            f(d.knx_individual_address.to_u16() == *ia, "address")?;
            f(d.additional_individual_addresses.iter().map(|a| a.to_u16()).collect::<Vec<_>>() == *more, "additional addresses")?;
        }
        (DIB::ManufacturerData(d), Dib::Manufacturer { id, data }) => {
            f(d.description_type_code == DescriptionTypeCode::ManufacturerData, "type code")?;
            f(d.knx_manufacturer_id == *id, "manufacturer id")?;
            let mut v = data.clone();
            if v.len() % 2 == 1 {
                v.push(0);
            }
            f(d.manufacturer_specific_data == v, "data")?;
        }
        _ => return Err(format!("{got:?} is not the kind of {want:?}")),
    }
    Ok(())
}
fn dib_build(d: &Dib, structure_length: u8) -> Result<DIB, String> {
    let ip4 = |b: &[u8; 4]| Ipv4Addr::from(*b);
    Ok(match d {
        Dib::Device { medium: m, prog, ia, pid, serial, mcast, mac, name } => DIB::DeviceInformation(
            DeviceInformationDIB::new(
                structure_length,
                medium(*m),
                if *prog { DeviceStatus::PROGRAMMING_MODE } else { DeviceStatus::empty() },
                ind(*ia),
                *pid,
                *serial,
                ip4(mcast),
                *mac,
                name.iter().map(|b| *b as char).collect(),
            )
            .map_err(|e| format!("name of {} characters rejected: {e}", name.len()))?,
        ),
        Dib::Families(v) => DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB {
            structure_length,
            description_type_code: DescriptionTypeCode::SupportedServiceFamilies,
            service_families: v.iter().map(|(a, b)| ServiceFamily { service_family: *a, version: *b }).collect(),
        }),
        Dib::IpConfig { ip, mask, gw, caps, method } => DIB::IpConfig(IpConfigDIB {
            structure_length,
            description_type_code: DescriptionTypeCode::IpConfig,
            ip_address: ip4(ip),
            subnet_mask: ip4(mask),
            default_gateway: ip4(gw),
            ip_capabilities: *caps,
            ip_assignment_method: *method,
        }),
        Dib::IpCurrent { ip, mask, gw, dhcp, method, reserved } => DIB::IpCurrentConfig(IpCurrentConfigDIB {
            structure_length,
            description_type_code: DescriptionTypeCode::IpCurrentConfig,
            current_ip_address: ip4(ip),
            current_subnet_mask: ip4(mask),
            current_default_gateway: ip4(gw),
            dhcp_server: ip4(dhcp),
            current_ip_assignment_method: *method,
            reserved: *reserved,
        }),
        Dib::Addresses { ia, more } => DIB::KNXAddresses(KNXAddressesDIB {
            structure_length,
            description_type_code: DescriptionTypeCode::KNXAddresses,
            knx_individual_address: ind(*ia),
            additional_individual_addresses: more.iter().map(|a| ind(*a)).collect(),
        }),
        Dib::Manufacturer { id, data } => DIB::ManufacturerData(ManufacturerDataDIB {
            structure_length,
            description_type_code: DescriptionTypeCode::ManufacturerData,
            knx_manufacturer_id: *id,
            manufacturer_specific_data: data.clone(),
        }),
    })
}

// ------------------------------------------------------------------ C11
fn c11_case(f: &Fr) -> Res {
    let b = f.bytes();
    let hex = format!("{b:02x?}");
    let rej = |e: snafu_err::E| format!("{hex} rejected: {}", e.0);
    let same = |got: Vec<u8>, how: &str| -> Result<(), String> {
        ck!(got == b, "{how}: {got:02x?} instead of {hex}");
        Ok(())
    };
    let mut c = Cursor::new(&b[..]);
    match f {
        Fr::ConnectReq(mon) => same(if *mon { ConnectionRequest::busmonitor() } else { ConnectionRequest::tunnel() }.packet(), "built")?,
        Fr::ConnectRes { ch, status, ep, ia } => {
            if REFUSALS.contains(status) {
                return Ok(Info::nt(false));
            }
            let p = ConnectionResponse::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(p.get_communication_channel_id() == *ch && p.get_status() == *status, "{hex}: channel {} status {}", p.get_communication_channel_id(), p.get_status());
            ck!(ep_is(&p.get_data_endpoint(), ep), "{hex}: data endpoint {:?}", p.get_data_endpoint());
            same(p.packet(), "rebuilt")?;
            let s = ConnectionstateRequest::from_connection_response(&p).packet();
            ck!(s == wire::state_req(*ch, *ep), "state request derived from {hex}: {s:02x?}");
            let s = DisconnectRequest::from_connection_response(&p).packet();
            ck!(s == wire::disc_req(*ch, *ep), "disconnect request derived from {hex}: {s:02x?}");
            let mut crd = vec![4, 4];
            crd.extend(ia.to_be_bytes());
            let g = CRD::from_packet(&mut Cursor::new(&crd[..])).map_err(|e| rej(e.into()))?.packet();
            ck!(g == crd, "CRD {crd:02x?} rebuilt as {g:02x?}");
        }
        Fr::StateReq { ch, ep } => {
            same(ConnectionstateRequest::new(*ch, hpai(ep)).packet(), "built")?;
            let p = ConnectionstateRequest::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(p.communication_channel_id == *ch && ep_is(&p.control_endpoint, ep), "{hex}: parsed as {p:?}");
            same(p.packet(), "rebuilt")?;
        }
        Fr::StateRes { ch, status } => {
            same(ConnectionstateResponse { communication_channel_id: *ch, status: *status }.packet(), "built")?;
            let p = ConnectionstateResponse::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(p.communication_channel_id == *ch && p.status == *status, "{hex}: parsed as {p:?}");
            same(p.packet(), "rebuilt")?;
        }
        Fr::DiscReq { ch, ep } => {
            same(DisconnectRequest::new(*ch, hpai(ep)).packet(), "built")?;
            let p = DisconnectRequest::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            same(p.packet(), "rebuilt")?;
            let r = DisconnectResponse::from_disconnect_request(&p);
            ck!(r.communication_channel_id == *ch && r.status == 0, "{hex}: answered with {r:?}");
            ck!(r.packet() == wire::disc_res(*ch, 0), "{hex}: answered with {:02x?}", r.packet());
        }
        Fr::DiscRes { ch, status } => {
            same(DisconnectResponse { communication_channel_id: *ch, status: *status }.packet(), "built")?;
            let p = DisconnectResponse::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(p.communication_channel_id == *ch && p.status == *status, "{hex}: parsed as {p:?}");
            same(p.packet(), "rebuilt")?;
        }
        Fr::TunReq { ch, seq, cemi } => {
            same(TunnelingRequest::new(*ch, *seq, cemi.clone()).packet(), "built")?;
            let p = TunnelingRequest::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(p.communication_channel_id == *ch && p.sequence_nr == *seq && p.get_cemi() == cemi && &p.cemi == cemi, "{hex}: parsed as {p:02x?}");
            same(p.packet(), "rebuilt")?;
        }
        Fr::TunAck { ch, seq, status } => {
            same(TunnelingAck::new(*ch, *seq, *status).packet(), "built")?;
            let p = TunnelingAck::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(p.communication_channel_id == *ch && p.sequence_nr == *seq && p.status == *status, "{hex}: parsed as {p:?}");
            same(p.packet(), "rebuilt")?;
        }
        Fr::FeatSet { ch, seq, feature: x, value } => {
            let p = FeatureSet::new(*ch, *seq, feature(*x), *value);
            ck!(p.communication_channel_id == *ch && p.sequence_nr == *seq, "feature set {p:?}");
            same(p.packet(), "built")?
        }
        Fr::FeatRes { ch, seq, feature: x, status, value } => {
            same(FeatureResp { feature: feature(*x), value: *value, status: *status, communication_channel_id: *ch, sequence_nr: *seq }.packet(), "built")?;
            let p = FeatureResp::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(
                p.communication_channel_id == *ch && p.sequence_nr == *seq && p.status == *status && p.value == *value && p.feature as u8 == *x,
                "{hex}: parsed as {p:?}"
            );
            same(p.packet(), "rebuilt")?;
        }
        Fr::SearchReq { ep } => {
            if ep.proto == 1 {
                same(SearchRequest::udp_unicast(SocketAddrV4::new(Ipv4Addr::from(ep.ip), ep.port)).packet(), "built")?;
            }
            let p = SearchRequest::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            same(p.packet(), "rebuilt")?;
            let m = SearchRequest::udp().packet();
            ck!(m == wire::search_req(Ep { proto: 1, ip: [224, 0, 23, 12], port: 3671 }), "multicast search request {m:02x?}");
        }
        Fr::SearchRes { ep, dev, fam } => {
            let p = SearchResponse::from_packet(&mut c).map_err(|e| rej(e.into()))?;
            ck!(ep_is(&p.control_endpoint, ep), "{hex}: control endpoint {:?}", p.control_endpoint);
            dib_matches(&DIB::DeviceInformation(p.device_hardware.clone()), dev).map_err(|e| format!("{hex}: {e}"))?;
            dib_matches(&DIB::SupportedServiceFamilies(p.supported_service_families.clone()), fam).map_err(|e| format!("{hex}: {e}"))?;
            same(p.packet(), "rebuilt")?;
            let (DIB::DeviceInformation(d), DIB::SupportedServiceFamilies(s)) = (dib_build(dev, 54)?, dib_build(fam, 0)?) else { unreachable!() };
            same(SearchResponse { control_endpoint: hpai(ep), device_hardware: d, supported_service_families: s }.packet(), "built")?;
        }
    }
    Ok(Info::nt(b.len() > 8).label(true, f.label()))
}
pub mod snafu_err {
    //! Any displayable error as text.
    pub struct E(pub String);
    impl<T: std::fmt::Display> From<T> for E {
        fn from(e: T) -> Self {
            E(e.to_string())
        }
    }
}
pub fn cemi_bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    bx(prop_oneof![
        1 => vec(any::<u8>(), 0..max),
        2 => (any::<u8>(), infos(3), vec(any::<u8>(), 0..30)).prop_map(|(c, i, r)| wire::cemi(c, &i, &r)),
        1 => vec(any::<u8>(), 0..8),
    ])
}
pub fn frame_strategy(big: usize) -> BoxedStrategy<Fr> {
    let b = oct;
    let fe = || proptest::sample::select(FEATURES.to_vec());
    bx(prop_oneof![
        1 => any::<bool>().prop_map(Fr::ConnectReq),
        2 => (b(), prop_oneof![Just(0u8), any::<u8>()], ep_strategy(), any::<u16>()).prop_map(|(ch, status, ep, ia)| Fr::ConnectRes { ch, status, ep, ia }),
        2 => (b(), ep_strategy()).prop_map(|(ch, ep)| Fr::StateReq { ch, ep }),
        2 => (b(), b()).prop_map(|(ch, status)| Fr::StateRes { ch, status }),
        2 => (b(), ep_strategy()).prop_map(|(ch, ep)| Fr::DiscReq { ch, ep }),
        2 => (b(), b()).prop_map(|(ch, status)| Fr::DiscRes { ch, status }),
        4 => (b(), b(), cemi_bytes(300)).prop_map(|(ch, seq, cemi)| Fr::TunReq { ch, seq, cemi }),
        1 => (b(), b(), vec(any::<u8>(), 0..big)).prop_map(|(ch, seq, cemi)| Fr::TunReq { ch, seq, cemi }),
        2 => (b(), b(), b()).prop_map(|(ch, seq, status)| Fr::TunAck { ch, seq, status }),
        2 => (b(), b(), fe(), b()).prop_map(|(ch, seq, feature, value)| Fr::FeatSet { ch, seq, feature, value }),
        2 => (b(), b(), fe(), b(), b()).prop_map(|(ch, seq, feature, status, value)| Fr::FeatRes { ch, seq, feature, status, value }),
        2 => ep_strategy().prop_map(|ep| Fr::SearchReq { ep }),
        3 => (ep_strategy(), device_strategy(), families_strategy()).prop_map(|(ep, dev, fam)| Fr::SearchRes { ep, dev, fam }),
    ])
}
pub fn c11(c: &mut Ctx) {
    c.rule("structured frames of all 12 kinds compared byte for byte with the reference codec, both directions; every cEMI length up to 600 and every header length value enumerated; non-trivial: more than a header and two octets");
    let n = c.n(480_000);
    c.generate("frames", n, || frame_strategy(3000), c11_case);
    let mut v: Vec<Fr> = (0..=600usize).map(|n| Fr::TunReq { ch: n as u8, seq: (n / 3) as u8, cemi: (0..n).map(|i| (i ^ n) as u8).collect() }).collect();
    for l in [1000, 4096, 16384, 32757, 32758, 65000, 65525] {
        v.push(Fr::TunReq { ch: 1, seq: 2, cemi: vec![0x5a; l] });
    }
    for x in 0..=255u8 {
        v.push(Fr::StateRes { ch: x, status: !x });
        v.push(Fr::DiscRes { ch: x, status: x });
        v.push(Fr::TunAck { ch: x, seq: !x, status: x / 2 });
        v.push(Fr::ConnectRes { ch: !x, status: x, ep: Ep::ZERO, ia: x as u16 * 257 });
        for f in FEATURES {
            v.push(Fr::FeatRes { ch: x, seq: x ^ 1, feature: f, status: x ^ 2, value: x ^ 3 });
        }
    }
    c.enumerate("octet values and sizes", v, c11_case);
    c.enumerate("header and parts", (0..=65535u16).map(|x| (x, x.rotate_left(7) ^ 0x1234)), |&(s, l)| {
        let mut b = vec![6, 0x10];
        b.extend(s.to_be_bytes());
        b.extend(l.to_be_bytes());
        let h = KnxNetIpHeader::from_packet(&mut Cursor::new(&b[..])).map_err(|e| format!("{b:02x?}: {e}"))?;
        ck!(h.service_type_identifier == s && h.total_length == l, "{b:02x?}: {:#x} {}", h.service_type_identifier, h.total_length);
        ck!(h.packet() == b, "{b:02x?} rebuilt as {:02x?}", h.packet());
        for (cri, x) in [(CRI::tunnel_linklayer(), 2u8), (CRI::tunnel_raw(), 4), (CRI::tunnel_busmonitor(), 0x80)] {
            ck!(cri.packet() == [4, 4, x, 0], "CRI {:02x?}", cri.packet());
        }
        let e = Ep { proto: s as u8, ip: [l as u8, (s >> 8) as u8, !(s as u8), 7], port: l };
        let mut two = e.bytes();
        two.extend([0xaa; 3]);
        let mut cur = Cursor::new(&two[..]);
        let h = HPAI::from_packet(&mut cur).map_err(|x| format!("{two:02x?}: {x}"))?;
        ck!(ep_is(&h, &e) && cur.position() == 8, "{two:02x?}: {h:?}, {} octets consumed", cur.position());
        ck!(h.packet() == e.bytes() && hpai(&e).packet() == e.bytes(), "{two:02x?} rebuilt as {:02x?}", h.packet());
        let crd = [4, 4, (s >> 8) as u8, s as u8];
        let g = CRD::from_packet(&mut Cursor::new(&crd[..])).map_err(|x| format!("{crd:02x?}: {x}"))?.packet();
        ck!(g == crd, "CRD {crd:02x?} rebuilt as {g:02x?}");
        Ok(Info::nt(s != 0))
    });
}

// ------------------------------------------------------------------ C12
fn c12_seq(v: &Vec<Dib>) -> Res {
    let mut all = vec![];
    for d in v {
        all.extend(d.bytes());
    }
    all.extend([0xee; 2]);
    let mut c = Cursor::new(&all[..]);
    let mut pos = 0u64;
    for (i, d) in v.iter().enumerate() {
        let want = d.bytes();
        let got = DIB::from_packet(&mut c).map_err(|e| format!("block {i} {want:02x?} rejected: {e}"))?;
        pos += want.len() as u64;
        ck!(c.position() == pos, "block {i} {want:02x?}: {} octets consumed up to its end instead of {pos}", c.position());
        dib_matches(&got, d).map_err(|e| format!("block {i} {want:02x?}: {e}"))?;
        ck!(got.packet() == want, "block {i} {want:02x?} rebuilt as {:02x?}", got.packet());
        // built from its fields, whatever stale structure length the value carries
        for stale in [0, 255, want.len() as u8] {
            let built = dib_build(d, stale)?.packet();
            ck!(built == want, "block {i} built as {built:02x?} instead of {want:02x?}");
        }
        ck!(want[0] % 2 == 0, "reference bug");
    }
    let odd = v.iter().any(|d| matches!(d, Dib::Manufacturer { data, .. } if data.len() % 2 == 1));
    Ok(Info::nt(v.len() > 1)
        .label(odd, "padded block")
        .label(v.iter().any(|d| matches!(d, Dib::Addresses { .. })), "addresses")
        .label(v.iter().any(|d| matches!(d, Dib::IpConfig { .. })), "ip config")
        .label(v.iter().any(|d| matches!(d, Dib::IpCurrent { .. })), "current ip config")
        .label(v.iter().any(|d| matches!(d, Dib::Device { .. })), "device")
        .label(v.iter().any(|d| matches!(d, Dib::Families(_))), "families"))
}
fn c12_name(s: &String) -> Res {
    let latin = s.chars().all(|c| (c as u32) < 256);
    let ok = latin && s.chars().count() <= 30;
    let r = DeviceInformationDIB::new(54, KnxMedium::TP1, DeviceStatus::empty(), ind(0x1101), 1, [1; 6], Ipv4Addr::new(224, 0, 23, 12), [2; 6], s.clone());
    match r {
        Ok(d) => {
            ck!(ok, "name {s:?} accepted");
            let n = d.friendly_name().map_err(|e| format!("name {s:?} cannot be read back: {e}"))?;
            ck!(n.trim_end_matches('\0') == s.trim_end_matches('\0'), "name {s:?} read back as {n:?}");
            let p = DIB::DeviceInformation(d).packet();
            let DIB::DeviceInformation(q) = DIB::from_packet(&mut Cursor::new(&p[..])).map_err(|e| format!("name {s:?}: block {p:02x?} rejected: {e}"))? else {
                return Err("wrong kind".into());
            };
            let n = q.friendly_name().map_err(|e| format!("name {s:?} cannot be read back: {e}"))?;
            ck!(n.trim_end_matches('\0') == s.trim_end_matches('\0'), "name {s:?} read back as {n:?} from the block");
        }
        Err(e) => ck!(!ok, "name {s:?} rejected: {e}"),
    }
    Ok(Info::nt(!s.is_empty()).label(ok, "valid name").label(!latin, "not Latin-1").label(latin && !ok, "too long").label(ok && !s.is_ascii(), "non-ASCII"))
}
pub fn c12(c: &mut Ctx) {
    c.rule("sequences of 1-5 blocks of all six kinds read back to back and rebuilt; names of every length with Latin-1 and other characters; non-trivial: more than one block, or a non-empty name");
    let n = c.n(240_000);
    c.generate("sequences", n, || bx(vec(dib_strategy(), 1..6)), c12_seq);
    let mut v: Vec<Vec<Dib>> = vec![];
    let tail = Dib::Families(vec![(2, 1), (3, 1)]);
    for n in 0..=250usize {
        v.push(vec![Dib::Manufacturer { id: 0x1234, data: (0..n).map(|i| (i + 1) as u8).collect() }, tail.clone()]);
    }
    for n in 0..=126usize {
        v.push(vec![Dib::Families((0..n).map(|i| (i as u8, !(i as u8))).collect()), tail.clone()]);
        if n <= 125 {
            v.push(vec![Dib::Addresses { ia: 0x1101, more: (0..n).map(|i| 0x2200 + i as u16).collect() }, tail.clone()]);
        }
    }
    c.enumerate("every block size", v, c12_seq);
    let n = c.n(160_000);
    c.generate("names", n, || {
        let l1 = || (1u32..256).prop_map(|c| char::from_u32(c).unwrap());
        let any_c = prop_oneof![6 => l1(), 1 => any::<char>().prop_filter("nul", |c| *c != '\0')];
        bx(prop_oneof![4 => vec(l1(), 0..=30), 2 => vec(l1(), 28..34), 1 => vec(l1(), 0..80), 3 => vec(any_c, 0..33)].prop_map(|v| v.into_iter().collect::<String>()))
    }, c12_name);
    let mut v: Vec<String> = (0..=300usize).map(|n| "n".repeat(n)).collect();
    v.extend((1..=0x2000u32).filter_map(char::from_u32).map(|c| format!("a{c}b")));
    v.extend((25..35usize).map(|n| "\u{e9}".repeat(n)));
    c.enumerate("name lengths and characters", v, c12_name);
}

// ------------------------------------------------------------------ C13
fn dib_size(d: &DIB) -> usize {
    match d {
        DIB::SupportedServiceFamilies(x) => x.service_families.len() * 2,
        DIB::KNXAddresses(x) => x.additional_individual_addresses.len() * 2,
        DIB::ManufacturerData(x) => x.manufacturer_specific_data.len(),
        DIB::DeviceInformation(x) => {
            let _ = x.friendly_name();
            52
        }
        _ => 18,
    }
}
fn cemi_size(m: &CEMI) -> usize {
    m.service_info.len() + m.additional_infos.iter().map(|i| i.value.len() + 2).sum::<usize>()
}
type Parser = (&'static str, fn(&[u8], u8) -> Option<usize>);
macro_rules! p {
    ($n:literal, $b:ident, $l:ident => $e:expr) => {
        ($n, (|$b: &[u8], $l: u8| { let _ = $l; $e }) as fn(&[u8], u8) -> Option<usize>)
    };
}
/// Every parser of received bytes; the result is the size of the variable part it returned.
fn parsers() -> Vec<Parser> {
    fn cu(b: &[u8]) -> Cursor<&[u8]> {
        Cursor::new(b)
    }
    vec![
        p!("datagram", b, l => parse_response(b.to_vec()).ok().map(|r| match r {
            TunnelingResponse::TunnelingRequest(t) => t.cemi.len(),
            _ => 0,
        })),
        p!("header", b, l => KnxNetIpHeader::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("crd", b, l => CRD::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("connect response", b, l => ConnectionResponse::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("state request", b, l => ConnectionstateRequest::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("state response", b, l => ConnectionstateResponse::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("disconnect request", b, l => DisconnectRequest::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("disconnect response", b, l => DisconnectResponse::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("search request", b, l => SearchRequest::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("search response", b, l => SearchResponse::from_packet(&mut cu(b)).ok().map(|r| { let _ = r.device_hardware.friendly_name(); r.supported_service_families.service_families.len() * 2 })),
        p!("hpai", b, l => HPAI::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("dib", b, l => DIB::from_packet(&mut cu(b)).ok().map(|d| dib_size(&d))),
        p!("device block", b, l => DeviceInformationDIB::from_packet(&mut cu(b), l).ok().map(|d| { let _ = d.friendly_name(); 0 })),
        p!("families block", b, l => SupportedServiceFamiliesDIB::from_packet(&mut cu(b), l).ok().map(|d| d.service_families.len() * 2)),
        p!("ip config block", b, l => IpConfigDIB::from_packet(&mut cu(b), l).ok().map(|_| 0)),
        p!("current ip config block", b, l => IpCurrentConfigDIB::from_packet(&mut cu(b), l).ok().map(|_| 0)),
        p!("addresses block", b, l => KNXAddressesDIB::from_packet(&mut cu(b), l).ok().map(|d| d.additional_individual_addresses.len() * 2)),
        p!("manufacturer block", b, l => ManufacturerDataDIB::from_packet(&mut cu(b), l).ok().map(|d| d.manufacturer_specific_data.len())),
        p!("tunnelling request", b, l => TunnelingRequest::from_packet(&mut cu(b)).ok().map(|t| t.cemi.len())),
        p!("tunnelling ack", b, l => TunnelingAck::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("feature response", b, l => FeatureResp::from_packet(&mut cu(b)).ok().map(|_| 0)),
        p!("cemi", b, l => CEMI::from_packet(&mut cu(b)).ok().map(|m| cemi_size(&m))),
        p!("indication", b, l => CEMI::from_packet(&mut cu(b)).ok().and_then(|m| LDataInd::from_cemi(m).ok()).map(|i| i.value.len() + cemi_size(&i.cemi))),
        p!("confirmation", b, l => CEMI::from_packet(&mut cu(b)).ok().and_then(|m| LDataCon::from_cemi(m).ok()).map(|i| cemi_size(&i.cemi))),
        p!("bit", b, l => PdtKnxBit::from_bytes(b).ok().map(|p| { let _ = p.is_small(); p.get_bytes().len() })),
        p!("step", b, l => PdtKnxB1U3::from_bytes(b).ok().map(|p| { let _ = (p.is_small(), p.get_value()); p.get_bytes().len() })),
        p!("byte", b, l => PdtKnxByte::from_bytes(b).ok().map(|p| p.get_bytes().len())),
        p!("scaled", b, l => PdtKnxScaledValue::from_bytes(b).ok().map(|p| { let _ = p.get_value(); p.get_bytes().len() })),
        p!("word", b, l => PdtKnxWord::from_bytes(b).ok().map(|p| p.get_bytes().len())),
        p!("int", b, l => PdtKnxInt::from_bytes(b).ok().map(|p| p.get_bytes().len())),
        p!("ulong", b, l => PdtKnxULong::from_bytes(b).ok().map(|p| p.get_bytes().len())),
        p!("float", b, l => PdtKnxFloat::from_bytes(b).ok().map(|p| p.get_bytes().len())),
        p!("temp", b, l => PdtKnxFloat::temp_from_bytes(b).ok().map(|p| p.get_bytes().len())),
    ]
}
pub fn c13_bytes(b: &[u8], len: u8) -> Res {
    let mut ok = 0;
    for (name, f) in parsers() {
        let r = std::panic::catch_unwind(|| f(b, len)).map_err(|_| format!("{name} parser panicked on {b:02x?} (structure length {len}): {}", take_panics().join("; ")))?;
        if let Some(n) = r {
            ok += 1;
            ck!(n <= 4 * b.len() + 64, "{name} parser returned {n} bytes from {} bytes {b:02x?}", b.len());
        }
    }
    Ok(Info::nt(ok > 0).label(b.len() > 200, "over 200 bytes"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated {
    base: Vec<u8>,
    edits: Vec<(u16, u8)>,
    cut: Option<u16>,
    tail: Vec<u8>,
    len: u8,
}
impl Mutated {
    fn bytes(&self) -> Vec<u8> {
        let mut b = self.base.clone();
        for (p, v) in &self.edits {
            if !b.is_empty() {
                let p = *p as usize % b.len();
                b[p] = *v;
            }
        }
        if let Some(c) = self.cut {
            let n = c as usize % (b.len() + 1);
            b.truncate(n);
        }
        b.extend(&self.tail);
        b
    }
}
fn valid_bytes() -> BoxedStrategy<Vec<u8>> {
    bx(prop_oneof![
        6 => frame_strategy(400).prop_map(|f| f.bytes()),
        2 => dib_strategy().prop_map(|d| d.bytes()),
        2 => dib_strategy().prop_map(|d| d.body()),
        3 => (proptest::sample::select(vec![0x29u8, 0x2e, 0x2b, 0x11]), infos(4), any::<[u8; 6]>(), vec(any::<u8>(), 0..20)).prop_map(|(c, i, h, d)| {
            let mut s = h.to_vec();
            s.push(d.len() as u8 + 1);
            s.extend([0, 0x80]);
            s.extend(d);
            wire::cemi(c, &i, &s)
        }),
    ])
}
fn edge() -> BoxedStrategy<u8> {
    bx(prop_oneof![2 => any::<u8>(), 1 => 0u8..12, 1 => 245u8.., 1 => Just(0x7f), 1 => Just(0x80)])
}
pub fn c13(c: &mut Ctx) {
    c.rule("arbitrary bytes, mutated/truncated/extended/spliced valid messages, every single-octet change of sample messages of each kind, every structure length; run through 33 parsers each; non-trivial: at least one parser accepted the input");
    let n = c.n(240_000);
    c.generate("arbitrary bytes", n, || bx((prop_oneof![3 => vec(any::<u8>(), 0..24), 1 => vec(any::<u8>(), 0..400), 1 => vec(edge(), 0..80)], any::<u8>())), |(b, l)| c13_bytes(b, *l));
    let n = c.n(640_000);
    c.generate("mutated messages", n, || {
        bx((valid_bytes(), vec((prop_oneof![3 => 0u16..20, 1 => any::<u16>()], edge()), 0..4), proptest::option::weighted(0.4, any::<u16>()), prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 0..8), 1 => valid_bytes()], edge())
            .prop_map(|(base, edits, cut, tail, len)| Mutated { base, edits, cut, tail, len }))
    }, |m| c13_bytes(&m.bytes(), m.len));
    // every single-octet change of a sample of each kind
    let mut v: Vec<(Vec<u8>, u8)> = vec![];
    for b in samples() {
        for p in 0..b.len() {
            for x in 0..=255u8 {
                let mut m = b.clone();
                m[p] = x;
                v.push((m, x));
            }
        }
        for n in 0..=b.len() {
            v.push((b[..n].to_vec(), n as u8));
        }
    }
    for l in 0..=255u8 {
        for n in [0usize, 1, 2, 3, 4, 5, 18, 52, 255, 300] {
            v.push((vec![l; n], l));
            v.push((vec![2; n], l));
        }
        for code in [1u8, 2, 3, 4, 5, 0xfe] {
            for n in [0usize, 1, 2, 3, 60, 300] {
                let mut b = vec![l, code];
                b.extend(vec![2; n]);
                v.push((b, l));
            }
        }
    }
    // declared tunnelling sizes
    for s in 0..=65535u16 {
        let mut b = vec![6, 0x10, 4, 0x20];
        b.extend(s.to_be_bytes());
        b.extend([4, 1, 2, 0, 0x29, 0, 0xbc, 0xe0, 1, 1, 2, 2, 1, 0, 0x81]);
        v.push((b, 0));
    }
    c.enumerate("single-octet changes and lengths", v, |(b, l)| c13_bytes(b, *l));
}
/// One message of each kind.
pub fn samples() -> Vec<Vec<u8>> {
    let ep = Ep { proto: 1, ip: [192, 168, 200, 12], port: 0xc3b4 };
    let dev = Dib::Device { medium: 2, prog: true, ia: 0x1100, pid: 0x11, serial: [0, 1, 0x11, 0x11, 0x11, 0x11], mcast: [224, 0, 23, 12], mac: *b"EIBnet", name: b"MYHOME".to_vec() };
    let fam = Dib::Families(vec![(2, 1), (3, 1), (4, 1), (5, 1)]);
    let cemi = vec![0x29, 6, 4, 2, 0x12, 0x34, 3, 0, 0xbc, 0xe0, 0x11, 0x0b, 0x0a, 0x01, 3, 0, 0x80, 0x0c, 0x3f];
    let mut v = vec![
        wire::connect_res(8, 0, ep, 0xfff0),
        wire::state_req(8, ep),
        wire::state_res(8, 0),
        wire::disc_req(8, ep),
        wire::disc_res(8, 0),
        wire::tun_req(8, 1, &cemi),
        wire::tun_ack(8, 1, 0),
        wire::feat_res(8, 1, 8, 0, 1),
        wire::search_req(ep),
        wire::search_res(ep, &dev, &fam),
        cemi,
        ep.bytes(),
    ];
    for d in [dev, fam, Dib::IpConfig { ip: [1; 4], mask: [2; 4], gw: [3; 4], caps: 4, method: 5 }, Dib::IpCurrent { ip: [1; 4], mask: [2; 4], gw: [3; 4], dhcp: [4; 4], method: 5, reserved: 0 }, Dib::Addresses { ia: 0x1101, more: vec![0x1102, 0x1103] }, Dib::Manufacturer { id: 5, data: vec![1, 2, 3] }] {
        v.push(d.bytes());
        v.push(d.body());
    }
    v
}

// ------------------------------------------------------------------ C14
/// Frame parsers by service code.
fn frame_parsers() -> Vec<(u16, &'static str, fn(&[u8]) -> bool)> {
    vec![
        (0x0206, "connect response", |b| ConnectionResponse::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0207, "state request", |b| ConnectionstateRequest::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0208, "state response", |b| ConnectionstateResponse::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0209, "disconnect request", |b| DisconnectRequest::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x020a, "disconnect response", |b| DisconnectResponse::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0201, "search request", |b| SearchRequest::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0202, "search response", |b| SearchResponse::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0420, "tunnelling request", |b| TunnelingRequest::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0421, "tunnelling ack", |b| TunnelingAck::from_packet(&mut Cursor::new(b)).is_ok()),
        (0x0423, "feature response", |b| FeatureResp::from_packet(&mut Cursor::new(b)).is_ok()),
    ]
}
fn service(b: &[u8]) -> u16 {
    u16::from_be_bytes([b[2], b[3]])
}
const DATAGRAM: [u16; 6] = [0x0420, 0x0421, 0x0423, 0x0208, 0x0209, 0x020a];
fn c14_prefix(f: &Fr) -> Res {
    if matches!(f, Fr::ConnectReq(_) | Fr::FeatSet { .. }) {
        return Ok(Info::nt(false));
    }
    if matches!(f, Fr::ConnectRes { status, .. } if REFUSALS.contains(status)) {
        return Ok(Info::nt(false));
    }
    let b = f.bytes();
    let s = service(&b);
    for (code, name, p) in frame_parsers() {
        if code == s {
            ck!(p(&b), "{name} parser rejected the valid frame {b:02x?}");
            for n in 0..b.len() {
                ck!(!p(&b[..n]), "{name} parser accepted the first {n} of {} octets of {b:02x?}", b.len());
            }
            for x in 0..=255u8 {
                let mut m = b.clone();
                m[0] = x;
                ck!(x == 6 || !p(&m), "{name} parser accepted header length {x}: {m:02x?}");
                let mut m = b.clone();
                m[1] = x;
                ck!(x == 0x10 || !p(&m), "{name} parser accepted protocol version {x:#x}: {m:02x?}");
            }
        } else {
            ck!(!p(&b), "{name} parser accepted a {}: {b:02x?}", f.label());
            let mut m = b.clone();
            m[2..4].copy_from_slice(&code.to_be_bytes());
            // the same body under another parser's code may be valid there; only this parser must not take b's code
        }
    }
    if DATAGRAM.contains(&s) {
        for n in 0..b.len() {
            ck!(parse_response(b[..n].to_vec()).is_err(), "first {n} of {} octets of the datagram {b:02x?} accepted", b.len());
        }
        for x in 0..=255u8 {
            for (at, good) in [(0, 6u8), (1, 0x10)] {
                let mut m = b.clone();
                m[at] = x;
                ck!(x == good || parse_response(m.clone()).is_err(), "datagram {m:02x?} accepted");
            }
        }
    }
    Ok(Info::nt(b.len() > 8).label(true, f.label()))
}
fn c14_code(&(k, code): &(usize, u16)) -> Res {
    let b = &samples()[k];
    let good = service(b);
    let mut m = b.clone();
    m[2..4].copy_from_slice(&code.to_be_bytes());
    for (own, name, p) in frame_parsers() {
        if own == good {
            ck!(p(&m) == (code == good), "{name} parser: service code {code:#06x} gives accepted = {}", p(&m));
        }
    }
    Ok(Info::nt(code != good))
}
pub fn c14(c: &mut Ctx) {
    c.rule("generated valid frames cut at every length and with every wrong header length and version; all 65536 service codes against each of the 10 frame parsers; non-trivial: frame longer than 8 octets, or a wrong code");
    let n = c.n(32_000);
    c.generate("prefixes and headers", n, || frame_strategy(60), c14_prefix);
    let n = c.n(160_000);
    c.generate("blocks and endpoints", n, || dib_strategy(), |d| {
        let b = d.bytes();
        for n in 0..b.len() {
            ck!(DIB::from_packet(&mut Cursor::new(&b[..n])).is_err(), "first {n} of {} octets of the block {b:02x?} accepted", b.len());
        }
        let e = &samples()[11];
        for n in 0..e.len() {
            ck!(HPAI::from_packet(&mut Cursor::new(&e[..n])).is_err(), "endpoint of {n} octets accepted");
        }
        for n in 0..4 {
            ck!(CRD::from_packet(&mut Cursor::new(&[4u8, 4, 1, 2][..n])).is_err(), "connection response data of {n} octets accepted");
        }
        for n in 0..6 {
            ck!(KnxNetIpHeader::from_packet(&mut Cursor::new(&[6u8, 0x10, 4, 0x20, 0, 9][..n])).is_err(), "header of {n} octets accepted");
        }
        Ok(Info::nt(b.len() > 4))
    });
    c.enumerate("service codes", (0..10usize).flat_map(|k| (0..=65535u16).map(move |s| (k, s))), c14_code);
    c.enumerate("header values", (0..=255u8).flat_map(|a| (0..=255u8).map(move |b| (a, b))), |&(a, b)| {
        let h = [a, b, 4, 0x20, 0, 10];
        let ok = KnxNetIpHeader::from_packet(&mut Cursor::new(&h[..])).is_ok();
        ck!(ok == (a == 6 && b == 0x10), "header {h:02x?} accepted = {ok}");
        Ok(Info::nt(!ok))
    });
}

// ------------------------------------------------------------------ C15
fn c15_case(f: &Fr) -> Res {
    let b = f.bytes();
    let r = parse_response(b.clone());
    let ok = match (&r, f) {
        (Ok(TunnelingResponse::TunnelingRequest(t)), Fr::TunReq { ch, seq, cemi }) => t.communication_channel_id == *ch && t.sequence_nr == *seq && t.get_cemi() == cemi,
        (Ok(TunnelingResponse::TunnelingAck(t)), Fr::TunAck { ch, seq, status }) => t.communication_channel_id == *ch && t.sequence_nr == *seq && t.status == *status,
        (Ok(TunnelingResponse::FeatureResponse(t)), Fr::FeatRes { ch, seq, feature, status, value }) => {
            t.communication_channel_id == *ch && t.sequence_nr == *seq && t.status == *status && t.value == *value && t.feature as u8 == *feature
        }
        (Ok(TunnelingResponse::ConnectionstateResponse(t)), Fr::StateRes { ch, status }) => t.communication_channel_id == *ch && t.status == *status,
        (Ok(TunnelingResponse::DisconnectResponse(t)), Fr::DiscRes { ch, status }) => t.communication_channel_id == *ch && t.status == *status,
        (Ok(TunnelingResponse::DisconnectRequest(t)), Fr::DiscReq { ch, ep }) => t.packet() == wire::disc_req(*ch, *ep),
        (Err(_), f) => !DATAGRAM.contains(&service(&f.bytes())),
        _ => false,
    };
    let kind = match &r {
        Ok(TunnelingResponse::TunnelingRequest(t)) => format!("{t:02x?}"),
        Ok(TunnelingResponse::TunnelingAck(t)) => format!("{t:02x?}"),
        Ok(TunnelingResponse::FeatureResponse(t)) => format!("{t:02x?}"),
        Ok(TunnelingResponse::ConnectionstateResponse(t)) => format!("{t:02x?}"),
        Ok(TunnelingResponse::DisconnectResponse(t)) => format!("{t:02x?}"),
        Ok(TunnelingResponse::DisconnectRequest(t)) => format!("{t:02x?}"),
        Err(e) => format!("error {e}"),
    };
    ck!(ok, "{} {b:02x?} recognised as {kind}", f.label());
    Ok(Info::nt(r.is_ok()).label(true, f.label()))
}
pub fn c15(c: &mut Ctx) {
    c.rule("generated datagrams of all 12 kinds (six of them tunnel-side) and all 65536 service codes on sample bodies; non-trivial: recognised kind");
    let n = c.n(480_000);
    c.generate("datagrams", n, || frame_strategy(1500), c15_case);
    c.enumerate("other service codes", (0..10usize).flat_map(|k| (0..=65535u16).map(move |s| (k, s))), |&(k, code)| {
        let mut b = samples()[k].clone();
        b[2..4].copy_from_slice(&code.to_be_bytes());
        let r = parse_response(b.clone());
        if !DATAGRAM.contains(&code) {
            ck!(r.is_err(), "datagram with service code {code:#06x} accepted: {b:02x?}");
        } else if code == service(&samples()[k]) {
            ck!(r.is_ok(), "datagram {b:02x?} rejected");
        }
        Ok(Info::nt(!DATAGRAM.contains(&code)))
    });
    let mut v = vec![];
    for n in 0..6usize {
        for s in DATAGRAM {
            let b = wire::frame(s, &[4, 1, 2, 0]);
            v.push(b[..n].to_vec());
        }
        v.push(vec![0; n]);
        v.push(vec![255; n]);
    }
    c.enumerate("too short", v, |b| {
        ck!(parse_response(b.clone()).is_err(), "datagram {b:02x?} accepted");
        Ok(Info::nt(!b.is_empty()))
    });
    let mut v = vec![];
    for x in 0..=255u8 {
        for y in [0u8, 1, 0x21, 0x7f, 0x80, 0xff] {
            v.push(Fr::TunAck { ch: x, seq: y, status: x ^ y });
            v.push(Fr::StateRes { ch: y, status: x });
            v.push(Fr::DiscRes { ch: x, status: y });
            v.push(Fr::DiscReq { ch: x, ep: Ep { proto: 1, ip: [y, x, y, x], port: x as u16 * 256 + y as u16 } });
            v.push(Fr::TunReq { ch: x, seq: y, cemi: vec![x; y as usize] });
            for f in FEATURES {
                v.push(Fr::FeatRes { ch: x, seq: y, feature: f, status: y, value: x });
            }
        }
    }
    c.enumerate("octet values", v, c15_case);
}
