//! C01-C10: addresses, datapoint values, application data, cEMI.
use crate::engine::*;
use crate::wire::{self, LData, Payload};
use knx_ip_client::dp_types::*;
use knx_ip_client::packets::addresses::*;
use knx_ip_client::packets::apdu::{APDUData, APCI, APDU};
use knx_ip_client::packets::emi::*;
use knx_ip_client::packets::tpdu::TPDU;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub(crate) use ck;

// ------------------------------------------------------------------ addresses
pub fn text_of(kind: u8, raw: u16) -> String {
    match kind {
        0 => format!("{}.{}.{}", raw >> 12, (raw >> 8) & 15, raw & 255),
        1 => format!("{}", raw),
        2 => format!("{}/{}", raw >> 11, raw & 0x7ff),
        _ => format!("{}/{}/{}", raw >> 11, (raw >> 8) & 7, raw & 255),
    }
}
fn kind_and_text(a: &KnxAddress) -> (u8, String) {
    match a {
        KnxAddress::Individual(x) => (0, format!("{x:?}")),
        KnxAddress::Group1Level(x) => (1, format!("{x:?}")),
        KnxAddress::Group2Level(x) => (2, format!("{x:?}")),
        KnxAddress::Group3Level(x) => (3, format!("{x:?}")),
    }
}

fn c01_case(&(kind, raw): &(u8, u16)) -> Res {
    let text = text_of(kind, raw);
    let check = |a: &KnxAddress, how: &str| -> Result<(), String> {
        let (k, t) = kind_and_text(a);
        ck!(k == kind, "{text:?} {how}: kind {k} instead of {kind}");
        ck!(t == text, "{text:?} {how}: prints as {t:?}");
        ck!(a.to_u16() == raw, "{text:?} {how}: wire value {:#06x} instead of {raw:#06x}", a.to_u16());
        Ok(())
    };
    let a = KnxAddress::try_from(text.as_str()).map_err(|e| format!("{text:?} rejected: {e}"))?;
    check(&a, "parsed")?;
    let (hi4, lo4, b) = ((raw >> 12) as u8, ((raw >> 8) & 15) as u8, raw as u8);
    match kind {
        0 => {
            check(&KnxAddress::individual(hi4, lo4, b), "built")?;
            let i = IndividualAddress::try_from(text.as_str()).map_err(|e| format!("{text:?} rejected: {e}"))?;
            let j = IndividualAddress::from_u16(raw);
            ck!(i == j, "{text:?}: parsed {i:?} but decoded {j:?}");
            ck!(i.to_u16() == raw && j.to_u16() == raw, "{text:?}: wire {:#06x}/{:#06x}", i.to_u16(), j.to_u16());
            ck!(format!("{j:?}") == text, "{raw:#06x} decodes to {j:?}");
        }
        1 => check(&KnxAddress::group_1_level(raw), "built")?,
        2 => {
            if raw & 0x7ff < 256 {
                check(&KnxAddress::group_2_level((raw >> 11) as u8, b), "built")?
            }
        }
        _ => {
            check(&KnxAddress::group_3_level((raw >> 11) as u8, ((raw >> 8) & 7) as u8, b), "built")?;
            let i = Group3LevelAddress::try_from(text.as_str()).map_err(|e| format!("{text:?} rejected: {e}"))?;
            let j = Group3LevelAddress::from_u16(raw);
            ck!(i.to_u16() == raw && j.to_u16() == raw, "{text:?}: wire {:#06x}/{:#06x}", i.to_u16(), j.to_u16());
            ck!(format!("{i:?}") == text && format!("{j:?}") == text, "{raw:#06x} prints as {i:?}/{j:?}");
        }
    }
    Ok(Info::nt(raw > 255).label(kind == 0, "individual").label(kind == 1, "free").label(kind == 2, "2-level").label(kind == 3, "3-level"))
}
pub fn c01(c: &mut Ctx) {
    c.rule("all 65536 addresses of each of the 4 kinds are enumerated; non-trivial: uses more than the low octet");
    c.enumerate("layout", (0..4u8).flat_map(|k| (0..=65535u16).map(move |r| (k, r))), c01_case);
}

/// Must accept with (kind, raw) / must reject / unspecified spelling (sign or leading zero) of (kind, raw).
#[derive(Debug)]
enum Spec {
    Accept(u8, u16),
    Reject,
    Either(u8, u16),
}
fn spec_address(s: &str) -> Spec {
    let ind = s.contains('.');
    let parts: Vec<&str> = s.split(if ind { '.' } else { '/' }).collect();
    let (kind, lim): (u8, &[u32]) = match (ind, parts.len()) {
        (true, 3) => (0, &[15, 15, 255]),
        (false, 1) => (1, &[65535]),
        (false, 2) => (2, &[31, 2047]),
        (false, 3) => (3, &[31, 7, 255]),
        _ => return Spec::Reject,
    };
    let mut odd = false;
    let mut f = vec![];
    for (p, l) in parts.iter().zip(lim) {
        let digits = p.strip_prefix('+').unwrap_or(p);
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
            return Spec::Reject;
        }
        odd |= digits.len() != p.len() || (digits.len() > 1 && digits.starts_with('0'));
        let t = digits.trim_start_matches('0');
        if t.len() > 6 {
            return Spec::Reject;
        }
        let v: u32 = if t.is_empty() { 0 } else { t.parse().unwrap() };
        if v > *l {
            return Spec::Reject;
        }
        f.push(v);
    }
    let raw = match kind {
        0 => f[0] << 12 | f[1] << 8 | f[2],
        1 => f[0],
        2 => f[0] << 11 | f[1],
        _ => f[0] << 11 | f[1] << 8 | f[2],
    } as u16;
    if odd {
        Spec::Either(kind, raw)
    } else {
        Spec::Accept(kind, raw)
    }
}
fn c02_case(s: &String) -> Res {
    let spec = spec_address(s);
    let got: Vec<(&str, bool, Option<u16>)> = vec![
        ("address", true, KnxAddress::try_from(s.as_str()).ok().map(|a| a.to_u16())),
        ("individual", matches!(spec, Spec::Accept(0, _) | Spec::Either(0, _)), IndividualAddress::try_from(s.as_str()).ok().map(|a| a.to_u16())),
        ("3-level", matches!(spec, Spec::Accept(3, _) | Spec::Either(3, _)), Group3LevelAddress::try_from(s.as_str()).ok().map(|a| a.to_u16())),
    ];
    for (name, applies, g) in got {
        match (&spec, applies, g) {
            (Spec::Reject, _, Some(v)) | (_, false, Some(v)) => {
                return Err(format!("{name} parser accepted {s:?}, which goes on the wire as {v:#06x}"))
            }
            (Spec::Accept(_, r), true, Some(v)) | (Spec::Either(_, r), true, Some(v)) => {
                ck!(*r == v, "{name} parser: {s:?} goes on the wire as {v:#06x} instead of {r:#06x}")
            }
            (Spec::Accept(..), true, None) => return Err(format!("{name} parser rejected the valid address {s:?}")),
            _ => {}
        }
    }
    let rej = matches!(spec, Spec::Reject);
    Ok(Info::nt(rej && !s.is_empty()).label(rej, "invalid").label(!rej, "valid"))
}
fn addr_text() -> BoxedStrategy<String> {
    let num = prop_oneof![
        3 => (0u32..16).prop_map(|v| v.to_string()),
        2 => (0u32..300).prop_map(|v| v.to_string()),
        2 => proptest::sample::select(vec![7u64, 8, 15, 16, 31, 32, 127, 128, 255, 256, 257, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 4294967296, 18446744073709551616u128 as u64, u64::MAX]).prop_map(|v| v.to_string()),
        1 => (0u32..300).prop_map(|v| format!("0{v}")),
        1 => (0u32..300).prop_map(|v| format!("+{v}")),
        1 => (0u32..300).prop_map(|v| format!("-{v}")),
        1 => (0u32..300).prop_map(|v| format!(" {v}")),
        1 => (0u32..300).prop_map(|v| format!("{v} ")),
        1 => (0u32..300).prop_map(|v| format!("{v:#x}")),
        1 => Just("".to_string()),
        1 => "[a-z0-9]{1,3}",
        1 => "[٠-٩0-9]{1,2}",
        1 => Just("18446744073709551617".to_string()),
    ];
    let sep = prop_oneof![6 => Just('/'), 6 => Just('.'), 1 => Just(','), 1 => Just(':'), 1 => Just('\\'), 1=>Just('-')];
    let fixed = (vec(num.clone(), 1..6), sep.clone()).prop_map(|(n, s)| n.join(&s.to_string()));
    let mixed = (num.clone(), vec((sep, num), 0..4)).prop_map(|(a, v)| v.into_iter().fold(a, |a, (s, n)| format!("{a}{s}{n}")));
    bx(prop_oneof![8 => fixed, 3 => mixed, 1 => any::<String>(), 1 => "[0-9./ ]{0,12}"])
}
pub fn c02(c: &mut Ctx) {
    c.rule("near-miss and arbitrary texts, plus complete sweeps of each field across its limit; non-trivial: non-empty text that must be rejected");
    let mut v: Vec<String> = vec![];
    for a in 0..=260u32 {
        for b in 0..=260u32 {
            for s in [0u32, 255, 256] {
                v.push(format!("{a}.{b}.{s}"));
                v.push(format!("{a}/{b}/{s}"));
            }
        }
    }
    for a in 0..=260u32 {
        for b in (0..40u32).chain(250..260).chain(2040..2060).chain(65530..65540) {
            v.push(format!("{a}/{b}"));
        }
    }
    for b in 0..=4100u32 {
        v.push(format!("31/{b}"));
    }
    v.extend((0..=70000u32).map(|a| a.to_string()));
    c.enumerate("field limits", v, c02_case);
    let n = c.n(480_000);
    c.generate("texts", n, addr_text, c02_case);
}

// ------------------------------------------------------------------ integer datapoints
fn main_no(code: &str) -> &str {
    code.split('.').next().unwrap_or("")
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dp {
    Bit(bool),
    Step(u8),
    Byte(u8),
    Scaled(u8),
    Word(u16),
    Int(i16),
    ULong(u32),
}
fn rt<T: Copy + PartialEq + std::fmt::Debug, P: Pdt<T>>(
    made: P, v: T, bytes: &[u8], small: bool, code: fn(&P) -> &String, main: &str,
) -> Result<(), String> {
    let get = |p: &P| <P as Pdt<T>>::get_value(p);
    let b = made.get_bytes();
    ck!(b == bytes, "{main}.x {v:?}: encoded as {b:02x?} instead of {bytes:02x?}");
    ck!(get(&made) == v, "{main}.x {v:?}: reports value {:?}", get(&made));
    ck!(made.is_small() == small, "{main}.x {v:?}: short-payload flag is {}", made.is_small());
    ck!(main_no(code(&made)) == main, "{main}.x {v:?}: built with datapoint type {}", code(&made));
    let back = P::from_bytes(bytes).map_err(|e| format!("{main}.x {v:?}: {bytes:02x?} rejected: {e}"))?;
    ck!(get(&back) == v, "{main}.x {v:?}: decodes back to {:?}", get(&back));
    ck!(back.get_bytes() == bytes, "{main}.x {v:?}: decoded value re-encodes as {:02x?}", back.get_bytes());
    ck!(main_no(code(&back)) == main, "{main}.x {v:?}: decoded value has datapoint type {}", code(&back));
    ck!(back.is_small() == small, "{main}.x {v:?}: short-payload flag after decoding is {}", back.is_small());
    for n in 0..bytes.len() {
        ck!(P::from_bytes(&bytes[..n]).is_err(), "{main}.x: {n} byte(s) {:02x?} accepted", &bytes[..n]);
    }
    Ok(())
}
fn c03_case(d: &Dp) -> Res {
    match *d {
        Dp::Bit(v) => {
            rt(PdtKnxBit::general(v), v, &[v as u8], true, |p| &p.code, "1")?;
            rt(PdtKnxBit::switch(v), v, &[v as u8], true, |p| &p.code, "1")?;
        }
        Dp::Step(v) => {
            rt(PdtKnxB1U3::general(v), v, &[v], true, |p| &p.code, "3")?;
            rt(PdtKnxB1U3::dimming(v & 8 != 0, v & 7), v, &[v], true, |p| &p.code, "3")?;
            rt(PdtKnxB1U3::blinds(v & 8 != 0, v & 7), v, &[v], true, |p| &p.code, "3")?;
        }
        Dp::Byte(v) => rt(PdtKnxByte::general(v), v, &[v], false, |p| &p.code, "20")?,
        Dp::Scaled(v) => rt(<PdtKnxScaledValue as Pdt<u8>>::general(v), v, &[v], false, |p| &p.code, "5")?,
        Dp::Word(v) => rt(PdtKnxWord::general(v), v, &[(v >> 8) as u8, v as u8], false, |p| &p.code, "7")?,
        Dp::Int(v) => {
            let b = [((v as u16) >> 8) as u8, v as u8];
            rt(PdtKnxInt::general(v), v, &b, false, |p| &p.code, "8")?;
            rt(PdtKnxInt::value_2_count(v), v, &b, false, |p| &p.code, "8")?;
            {
                let w = (v as i32 * 100).clamp(i16::MIN as i32, i16::MAX as i32) as i16;
                rt(PdtKnxInt::percent_v16(v), w, &[((w as u16) >> 8) as u8, w as u8], false, |p| &p.code, "8")?;
            }
        }
        Dp::ULong(v) => rt(
            PdtKnxULong::general(v), v, &[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8], false, |p| &p.code, "12",
        )?,
    }
    let nt = !matches!(d, Dp::Bit(false) | Dp::Step(0) | Dp::Byte(0) | Dp::Scaled(0) | Dp::Word(0) | Dp::Int(0) | Dp::ULong(0));
    Ok(Info::nt(nt))
}
pub fn c03(c: &mut Ctx) {
    c.rule("every value of the 1/4/8/16-bit types enumerated, 32-bit values generated; non-trivial: value not zero");
    let mut v = vec![Dp::Bit(false), Dp::Bit(true)];
    v.extend((0..16).map(Dp::Step));
    v.extend((0..=255).map(Dp::Byte));
    v.extend((0..=255).map(Dp::Scaled));
    v.extend((0..=65535).map(Dp::Word));
    v.extend((i16::MIN..=i16::MAX).map(Dp::Int));
    for i in 0..32 {
        for d in [-1i64, 0, 1] {
            v.push(Dp::ULong(((1i64 << i) + d) as u32));
        }
    }
    v.push(Dp::ULong(u32::MAX));
    c.enumerate("all small types", v, c03_case);
    let n = c.n(400_000);
    c.generate("32 bit", n, || bx(any::<u32>().prop_map(Dp::ULong)), c03_case);
}

// ------------------------------------------------------------------ 2-byte float
const FMAX: f64 = 670433.28;
const FMIN: f64 = -671088.64;
fn c04_case(bits: &u32) -> Res {
    let v = f32::from_bits(*bits);
    for (how, p) in [("general", PdtKnxFloat::general(v)), ("temp", PdtKnxFloat::temp(v))] {
        let b = p.get_bytes();
        ck!(b.len() == 2, "{how}({v}): {} bytes", b.len());
        if v.is_nan() {
            continue;
        }
        let d = wire::knx_float(u16::from_be_bytes([b[0], b[1]]));
        let x = v as f64;
        ck!(!(x > 0.0 && d < 0.0) && !(x < 0.0 && d > 0.0), "{how}({v}) = {b:02x?}, which means {d}: sign flipped");
        if x > FMAX {
            ck!(d >= FMAX - 1e-6, "{how}({v}) = {b:02x?}, which means {d} instead of the upper end of the range");
        } else if x < FMIN {
            ck!((d - FMIN).abs() < 1e-6, "{how}({v}) = {b:02x?}, which means {d} instead of the lower end of the range");
        } else {
            let slack = x.abs() * 3e-7; // f32 arithmetic
            let mut e = 0;
            while e < 15 && !((x.abs() + slack) * 100.0 <= if x < 0.0 { 2048.0 } else { 2047.0 } * f64::powi(2.0, e)) {
                e += 1;
            }
            let half = 0.005 * f64::powi(2.0, e) * (1.0 + 1e-6) + slack + 1e-9;
            ck!((d - x).abs() <= half, "{how}({v}) = {b:02x?}, which means {d}: off by {} with half a step being {half}", (d - x).abs());
        }
    }
    Ok(Info::nt(v.is_finite() && v.abs() >= 0.005 && (v as f64) <= FMAX && (v as f64) >= FMIN)
        .label(v.abs() > 670760.0, "beyond range")
        .label(v != 0.0 && v.abs() < 0.005, "rounds to zero")
        .label(v.abs() > 20.47, "exponent > 0")
        .label(v.abs() > 5242.0, "exponent > 7")
        .label(v < 0.0, "negative"))
}
pub fn c04(c: &mut Ctx) {
    c.rule("every representable value and its neighbours (1/4, 1/2, 3/4 step, one ulp) enumerated; arbitrary f32 bit patterns and log-uniform magnitudes generated; non-trivial: finite, in range, at least half the smallest step");
    let mut v = vec![];
    for raw in 0..=65535u16 {
        let x = wire::knx_float(raw);
        let step = 0.01 * f64::powi(2.0, ((raw >> 11) & 15) as i32);
        let f = x as f32;
        v.push(f.to_bits());
        v.push(f.next_up().to_bits());
        v.push(f.next_down().to_bits());
        for k in [-0.75, -0.5, -0.49, -0.25, 0.25, 0.49, 0.5, 0.75] {
            v.push(((x + k * step) as f32).to_bits());
        }
    }
    for f in [f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, -0.0, 0.0, f32::NAN, 1e-45, -1e-45, 1e6, -1e6, 1e10, -1e10, 671088.6, 670760.94, 670761.0, 1342177.0] {
        v.push(f.to_bits());
    }
    c.enumerate("around every representable value", v, c04_case);
    let n = c.n(1_600_000);
    c.generate("any f32", n, || bx(prop_oneof![any::<u32>(), (-7.0f64..7.0, any::<bool>()).prop_map(|(l, s)| { let x = 10f64.powf(l) as f32; if s { -x } else { x }.to_bits() })]), c04_case);
}
fn c05_case(&raw: &u16) -> Res {
    let b = raw.to_be_bytes();
    let want = wire::knx_float(raw);
    let close = |a: f64, b: f64| (a - b).abs() <= b.abs() * 1e-6;
    for (how, p) in [("from_bytes", PdtKnxFloat::from_bytes(&b)), ("temp_from_bytes", PdtKnxFloat::temp_from_bytes(&b))] {
        let p = p.map_err(|e| format!("{how}({b:02x?}) rejected: {e}"))?;
        let g = p.get_value() as f64;
        ck!(close(g, want), "{how}({b:02x?}) = {g} instead of {want}");
        let again = p.get_bytes();
        ck!(again.len() == 2, "{how}({b:02x?}) re-encodes as {again:02x?}");
        let d = wire::knx_float(u16::from_be_bytes([again[0], again[1]]));
        ck!(close(d, want), "{how}({b:02x?}) = {g} re-encodes as {again:02x?}, which means {d}");
        let q = PdtKnxFloat::from_bytes(&again).map_err(|e| format!("{again:02x?} rejected: {e}"))?;
        ck!(close(q.get_value() as f64, want), "{how}({b:02x?}) = {g} re-encodes as {again:02x?} and decodes to {}", q.get_value());
    }
    Ok(Info::nt(raw != 0).label(raw & 0x8000 != 0, "negative").label(raw & 0x4000 != 0, "exponent >= 8"))
}
pub fn c05(c: &mut Ctx) {
    c.rule("all 65536 patterns, and every length 0..=300 but 2; non-trivial: pattern not zero");
    c.enumerate("patterns", 0..=65535u16, c05_case);
    c.enumerate("lengths", (0..=300usize).filter(|n| *n != 2).flat_map(|n| [0u8, 0x0c, 0x80, 0xff].map(|f| (n, f))), |&(n, f)| {
        let b = vec![f; n];
        ck!(PdtKnxFloat::from_bytes(&b).is_err(), "from_bytes accepted {n} bytes");
        ck!(PdtKnxFloat::temp_from_bytes(&b).is_err(), "temp_from_bytes accepted {n} bytes");
        Ok(Info::nt(n > 0))
    });
}

// ------------------------------------------------------------------ percent
fn scale_byte(p: f32) -> Result<u8, String> {
    let s = PdtKnxScaledValue::scaling(p);
    let b = s.get_bytes();
    ck!(b.len() == 1, "scaling({p}): {} bytes", b.len());
    let q = s.get_value();
    let r = PdtKnxScaledValue::from_bytes(&b).map_err(|e| format!("scaling({p}) = {b:02x?} rejected: {e}"))?;
    ck!(r.get_value() == q, "scaling({p}): {q} % before and {} % after the wire", r.get_value());
    let want = p.clamp(0.0, 100.0);
    ck!((q - want).abs() <= 0.2001, "scaling({p}) = {b:02x?} decodes to {q} %");
    let lin = want as f64 * 2.55;
    ck!((b[0] as f64 - lin).abs() <= 0.51, "scaling({p}) = {} but linear scale gives {lin:.2}", b[0]);
    if p >= 100.0 {
        ck!(b[0] == 255, "scaling({p}) = {}", b[0]);
    }
    if p <= 0.0 {
        ck!(b[0] == 0 && q == 0.0, "scaling({p}) = {} decodes to {q} %", b[0]);
    }
    Ok(b[0])
}
fn c06_pair(&(a, b): &(u32, u32)) -> Res {
    let (a, b) = (f32::from_bits(a), f32::from_bits(b));
    if a.is_nan() || b.is_nan() {
        return Ok(Info::nt(false));
    }
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let (x, y) = (scale_byte(lo)?, scale_byte(hi)?);
    ck!(x <= y, "scaling({lo}) = {x} but scaling({hi}) = {y}");
    Ok(Info::nt(lo > 0.0 && hi < 100.0).label(lo < 0.0 || hi > 100.0, "outside 0-100"))
}
pub fn c06(c: &mut Ctx) {
    c.rule("sweep of 0-100 % in steps of 1/2000 with neighbours, all 256 bytes, generated pairs of arbitrary f32; non-trivial: both inside 0-100 and not an end");
    c.enumerate("sweep", (0..=200_000u32).map(|i| { let a = i as f32 / 2000.0; (a.to_bits(), a.next_up().to_bits()) }), c06_pair);
    c.enumerate("bytes", 0..=255u8, |&b| {
        let get = |b: u8| PdtKnxScaledValue::from_bytes(&[b]).map(|p| p.get_value()).map_err(|e| e.to_string());
        let q = get(b)?;
        ck!((0.0..=100.001).contains(&q), "byte {b} decodes to {q} %");
        ck!((q as f64 - b as f64 / 2.55).abs() <= 0.01, "byte {b} decodes to {q} %");
        if b > 0 {
            ck!(q > get(b - 1)?, "byte {b} decodes to {q} %, byte {} to {} %", b - 1, get(b - 1)?);
        }
        {
            ck!(PdtKnxScaledValue::scaling(q).get_bytes() == [b], "byte {b} = {q} % re-encodes as {:?}", PdtKnxScaledValue::scaling(q).get_bytes());
        }
        Ok(Info::nt(b > 0 && b < 255))
    });
    let n = c.n(800_000);
    c.generate("pairs", n, || {
        let f = || prop_oneof![4 => (0.0f32..100.0).prop_map(f32::to_bits), 1 => (-500.0f32..500.0).prop_map(f32::to_bits), 1 => any::<u32>()];
        bx((f(), f()))
    }, c06_pair);
}

// ------------------------------------------------------------------ write path -> read path
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum AnyDp {
    I(Dp),
    F(u16),
    P(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C07 {
    dp: AnyDp,
    kind: u8,
    addr: u16,
    infos: Vec<(u8, Vec<u8>)>,
}
pub fn address(kind: u8, raw: u16) -> KnxAddress {
    KnxAddress::try_from(text_of(kind, raw).as_str()).expect("valid address rejected")
}
fn tpdu_for(kind: u8, a: APDU) -> TPDU {
    if kind == 0 {
        TPDU::t_data_individual(a)
    } else {
        TPDU::t_data_group(a)
    }
}
/// Equal up to single-precision arithmetic.
#[derive(Debug)]
struct Approx(f32);
impl PartialEq for Approx {
    fn eq(&self, o: &Self) -> bool {
        (self.0 - o.0).abs() <= 1e-6 * self.0.abs()
    }
}
fn through<T, G: PartialEq + std::fmt::Debug, P: Pdt<T>>(c: &C07, mk: impl Fn() -> P, get: impl Fn(&P) -> G) -> Result<(), String> {
    let p = mk();
    let want = get(&p);
    for mode in ["object", "bytes"] {
        let apdu = match mode {
            "object" => APDU::group_value_write_pd(mk()),
            _ => APDU::group_value_write(p.get_bytes(), p.is_small()),
        };
        let m = LDataReqMessage::new(address(c.kind, c.addr), tpdu_for(c.kind, apdu)).packet();
        ck!(m.len() > 2 && m[1] == 0, "request {m:02x?} has additional info");
        let ind = wire::cemi(wire::L_IND, &c.infos, &m[2..]);
        let cemi = CEMI::from_packet(&mut Cursor::new(&ind[..])).map_err(|e| format!("{mode}: indication {ind:02x?} rejected: {e}"))?;
        let ind = LDataInd::from_cemi(cemi).map_err(|e| format!("{mode}: L_Data.ind rejected: {e}"))?;
        ck!(ind.l_data.dest == c.addr, "{mode}: destination {:#06x} instead of {:#06x}", ind.l_data.dest, c.addr);
        let q = P::from_bytes(&ind.value).map_err(|e| format!("{mode}: payload {:02x?} rejected: {e}", ind.value))?;
        let g = get(&q);
        ck!(g == want, "{mode}: wrote {want:?}, listener decoded {g:?} from {:02x?}", ind.value);
    }
    Ok(())
}
fn c07_case(c: &C07) -> Res {
    match c.dp {
        AnyDp::I(Dp::Bit(v)) => through(c, || PdtKnxBit::switch(v), |p| Pdt::get_value(p))?,
        AnyDp::I(Dp::Step(v)) => through(c, || PdtKnxB1U3::dimming(v & 8 > 0, v & 7), |p| Pdt::get_value(p))?,
        AnyDp::I(Dp::Byte(v)) => through(c, || PdtKnxByte::general(v), |p| Pdt::get_value(p))?,
        AnyDp::I(Dp::Scaled(v)) => through(c, || <PdtKnxScaledValue as Pdt<u8>>::general(v), |p| <PdtKnxScaledValue as Pdt<u8>>::get_value(p))?,
        AnyDp::I(Dp::Word(v)) => through(c, || PdtKnxWord::general(v), |p| Pdt::get_value(p))?,
        AnyDp::I(Dp::Int(v)) => through(c, || PdtKnxInt::general(v), |p| Pdt::get_value(p))?,
        AnyDp::I(Dp::ULong(v)) => through(c, || PdtKnxULong::general(v), |p| Pdt::get_value(p))?,
        AnyDp::F(raw) => through(c, || PdtKnxFloat::temp(wire::knx_float(raw) as f32), |p| Approx(Pdt::get_value(p)))?,
        AnyDp::P(m) => through(c, || PdtKnxScaledValue::scaling(m as f32 / 655.35), |p| <PdtKnxScaledValue as Pdt<u8>>::get_value(p))?,
    }
    let l = match c.dp {
        AnyDp::I(Dp::Bit(_)) => "bit",
        AnyDp::I(Dp::Step(_)) => "step",
        AnyDp::I(Dp::Byte(_)) => "byte",
        AnyDp::I(Dp::Scaled(_)) => "scaled",
        AnyDp::I(Dp::Word(_)) => "word",
        AnyDp::I(Dp::Int(_)) => "int",
        AnyDp::I(Dp::ULong(_)) => "ulong",
        AnyDp::F(_) => "float",
        AnyDp::P(_) => "percent",
    };
    Ok(Info::nt(c.addr != 0).label(true, l).label(!c.infos.is_empty(), "with additional info"))
}
pub fn dp_strategy() -> BoxedStrategy<AnyDp> {
    bx(prop_oneof![
        any::<bool>().prop_map(|v| AnyDp::I(Dp::Bit(v))),
        (0u8..16).prop_map(|v| AnyDp::I(Dp::Step(v))),
        any::<u8>().prop_map(|v| AnyDp::I(Dp::Byte(v))),
        any::<u8>().prop_map(|v| AnyDp::I(Dp::Scaled(v))),
        any::<u16>().prop_map(|v| AnyDp::I(Dp::Word(v))),
        any::<i16>().prop_map(|v| AnyDp::I(Dp::Int(v))),
        prop_oneof![2 => any::<u32>(), 1 => any::<[bool; 4]>().prop_map(|b| u32::from_be_bytes(b.map(|x| x as u8 * 255))), 1 => 0u32..300].prop_map(|v| AnyDp::I(Dp::ULong(v))),
        any::<u16>().prop_map(AnyDp::F),
        any::<u16>().prop_map(AnyDp::P),
    ])
}
/// Additional-info lists that fit the one-byte total length.
pub fn infos(max: usize) -> BoxedStrategy<Vec<(u8, Vec<u8>)>> {
    let one = (proptest::sample::select(wire::INFO_TYPES.to_vec()), prop_oneof![6 => vec(any::<u8>(), 0..6), 2 => vec(any::<u8>(), 0..40), 1 => vec(any::<u8>(), 200..254)]);
    bx(vec(one, 0..max).prop_map(|v| {
        let mut t = 0;
        v.into_iter()
            .filter(|(_, d)| {
                let ok = t + d.len() + 2 <= 255;
                if ok {
                    t += d.len() + 2
                }
                ok
            })
            .collect()
    }))
}
pub fn c07(c: &mut Ctx) {
    c.rule("datapoint value x destination (all kinds) x additional info; non-trivial: destination not 0");
    let n = c.n(480_000);
    c.generate("end to end", n, || bx((dp_strategy(), 0u8..4, any::<u16>(), infos(4)).prop_map(|(dp, kind, addr, infos)| C07 { dp, kind, addr, infos })), c07_case);
    let mut v = vec![];
    let mk = |dp| C07 { dp, kind: 3, addr: 0x0a03, infos: vec![] };
    v.push(mk(AnyDp::I(Dp::Bit(true))));
    v.extend((0..16).map(|x| mk(AnyDp::I(Dp::Step(x)))));
    v.extend((0..=255).map(|x| mk(AnyDp::I(Dp::Byte(x)))));
    v.extend((0..=255).map(|x| mk(AnyDp::I(Dp::Scaled(x)))));
    v.extend((0..=65535).map(|x| mk(AnyDp::I(Dp::Word(x)))));
    v.extend((0..=65535).map(|x| mk(AnyDp::F(x))));
    c.enumerate("every small value", v, c07_case);
}

// ------------------------------------------------------------------ L_Data.req
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C08 {
    kind: u8,
    addr: u16,
    prio: Option<u8>,
    /// None: read
    write: Option<Payload>,
}
pub fn reference_req(group: bool, addr: u16, prio: u8, write: &Option<Payload>) -> Vec<u8> {
    let long = matches!(write, Some(Payload::Long(d)) if d.len() > 14);
    let d = LData {
        c1: if long { 0x30 } else { 0xb0 } | (prio & 3) << 2,
        c2: if group { 0xe0 } else { 0x60 },
        src: 0,
        dst: addr,
        apci: if write.is_some() { wire::APCI_WRITE } else { wire::APCI_READ },
        payload: write.clone().unwrap_or(Payload::Small(0)),
    };
    d.bytes(wire::L_REQ)
}
fn c08_case(c: &C08) -> Res {
    let apdu = || match &c.write {
        None => APDU::group_value_read(),
        Some(Payload::Small(v)) => APDU::group_value_write(vec![*v], true),
        Some(Payload::Long(d)) => APDU::group_value_write(d.clone(), false),
    };
    let mut m = LDataReqMessage::new(address(c.kind, c.addr), tpdu_for(c.kind, apdu()));
    if let Some(p) = c.prio {
        m.set_priority(p);
    }
    let got = m.packet();
    let want = reference_req(c.kind != 0, c.addr, c.prio.unwrap_or(3), &c.write);
    let a = apdu().packet();
    ck!(a == want[9..], "application data {a:02x?} instead of {:02x?}", &want[9..]);
    ck!(got == want, "request {got:02x?} instead of {want:02x?}");
    // the same from its parts
    let apdu = match &c.write {
        None => APDU::new(APCI::a_group_value_read(), APDUData::Small(0)),
        Some(Payload::Small(v)) => APDU::new(APCI::a_group_value_write(), APDUData::Small(*v)),
        Some(Payload::Long(d)) => APDU::new(APCI::a_group_value_write(), APDUData::Big(d.clone())),
    };
    let mut m = LDataReqMessage::new(address(c.kind, c.addr), if c.kind == 0 { TPDU::t_data_individual(apdu) } else { TPDU::t_data_broadcast(apdu) });
    if let Some(p) = c.prio {
        m.set_priority(!p & 3);
        m.set_priority(p);
    }
    let (got, again) = (m.packet(), m.packet());
    ck!(got == want && again == want, "request from its parts {got:02x?}, {again:02x?} instead of {want:02x?}");
    Ok(Info::nt(c.write.is_some()).label(c.write.is_none(), "read").label(c.kind == 0, "individual destination").label(matches!(c.write, Some(Payload::Small(_))), "short").label(matches!(&c.write, Some(Payload::Long(d)) if d.len() > 14), "over 14 bytes"))
}
fn payload_strategy() -> BoxedStrategy<Payload> {
    bx(prop_oneof![
        2 => any::<u8>().prop_map(Payload::Small),
        3 => vec(any::<u8>(), 0..15).prop_map(Payload::Long),
        1 => vec(any::<u8>(), 0..=253).prop_map(Payload::Long),
    ])
}
/// Requests built from a datapoint object: only one-bit and bit-plus-step values travel short.
fn c08_pd_case(c: &C07) -> Res {
    fn check<T, P: Pdt<T>>(c: &C07, mk: impl Fn() -> P, small: bool) -> Result<(), String> {
        let b = mk().get_bytes();
        let pl = if small { Payload::Small(b[0]) } else { Payload::Long(b) };
        let want = reference_req(c.kind != 0, c.addr, 3, &Some(pl));
        let got = LDataReqMessage::new(address(c.kind, c.addr), tpdu_for(c.kind, APDU::group_value_write_pd(mk()))).packet();
        ck!(got == want, "request {got:02x?} instead of {want:02x?}");
        Ok(())
    }
    match c.dp {
        AnyDp::I(Dp::Bit(v)) => check(c, || PdtKnxBit::switch(v), true)?,
        AnyDp::I(Dp::Step(v)) => check(c, || PdtKnxB1U3::dimming(v & 8 > 0, v & 7), true)?,
        AnyDp::I(Dp::Byte(v)) => check(c, || PdtKnxByte::general(v), false)?,
        AnyDp::I(Dp::Scaled(v)) => check(c, || <PdtKnxScaledValue as Pdt<u8>>::general(v), false)?,
        AnyDp::I(Dp::Word(v)) => check(c, || PdtKnxWord::general(v), false)?,
        AnyDp::I(Dp::Int(v)) => check(c, || PdtKnxInt::general(v), false)?,
        AnyDp::I(Dp::ULong(v)) => check(c, || PdtKnxULong::general(v), false)?,
        AnyDp::F(raw) => check(c, || PdtKnxFloat::temp(wire::knx_float(raw) as f32), false)?,
        AnyDp::P(m) => check(c, || PdtKnxScaledValue::scaling(m as f32 / 655.35), false)?,
    }
    Ok(Info::nt(true).label(true, "from a datapoint object"))
}
pub fn c08(c: &mut Ctx) {
    c.rule("every payload length 0-253 and every short value enumerated, the rest generated; compared byte for byte with the reference encoder; non-trivial: a write");
    let n = c.n(480_000);
    c.generate("requests from datapoints", n / 2, || bx((dp_strategy(), 0u8..4, any::<u16>()).prop_map(|(dp, kind, addr)| C07 { dp, kind, addr, infos: vec![] })), c08_pd_case);
    c.generate("requests", n, || bx((0u8..4, any::<u16>(), proptest::option::of(0u8..4), proptest::option::weighted(0.8, payload_strategy())).prop_map(|(kind, addr, prio, write)| C08 { kind, addr, prio, write })), c08_case);
    let mut v = vec![];
    for kind in 0..4 {
        for n in 0..=253usize {
            v.push(C08 { kind, addr: 0x1234, prio: None, write: Some(Payload::Long((0..n).map(|i| (i * 7 + n) as u8).collect())) });
        }
        for s in 0..=255 {
            v.push(C08 { kind, addr: 0xfedc, prio: Some(s & 3), write: Some(Payload::Small(s)) });
        }
    }
    for a in 0..=65535 {
        for kind in 0..4 {
            v.push(C08 { kind, addr: a, prio: None, write: None });
        }
    }
    c.enumerate("lengths, short values, destinations", v, c08_case);
}

// ------------------------------------------------------------------ cEMI
fn info_code(t: &CEMIAdditionalInfoType) -> u8 {
    match t {
        CEMIAdditionalInfoType::PLMediumInfo => 1,
        CEMIAdditionalInfoType::RFMediumInfo => 2,
        CEMIAdditionalInfoType::BusmonitorStatusInfo => 3,
        CEMIAdditionalInfoType::TimestampRelative => 4,
        CEMIAdditionalInfoType::TimeDelayUnitlSending => 5,
        CEMIAdditionalInfoType::ExtendedRelativeTime => 6,
        CEMIAdditionalInfoType::BiBatInfo => 7,
        CEMIAdditionalInfoType::RFMultiInfo => 8,
        CEMIAdditionalInfoType::PreambleAndPostamble => 9,
        CEMIAdditionalInfoType::RFFastAckInfo => 10,
        CEMIAdditionalInfoType::ManufacturerSpecificData => 0xfe,
    }
}
type Cemi = (u8, Vec<(u8, Vec<u8>)>, Vec<u8>);
fn c09_exact((code, infos, rest): &Cemi) -> Res {
    let b = wire::cemi(*code, infos, rest);
    let m = CEMI::from_packet(&mut Cursor::new(&b[..])).map_err(|e| format!("{b:02x?} rejected: {e}"))?;
    ck!(m.msg_code == *code, "message code {:#x} instead of {code:#x}", m.msg_code);
    let got: Vec<(u8, Vec<u8>)> = m.additional_infos.iter().map(|i| (info_code(&i.info_type), i.value.clone())).collect();
    ck!(&got == infos, "{b:02x?}: additional infos {got:02x?}");
    ck!(&m.service_info == rest, "{b:02x?}: remainder {:02x?}", m.service_info);
    let total = b[1];
    Ok(Info::nt(!infos.is_empty()).label(infos.len() > 1, "several infos").label(total > 200, "over 200 bytes of infos").label(infos.iter().any(|i| i.1.is_empty()), "empty info"))
}
/// Cuts inside the additional-info area, and declared totals that end inside a block.
fn c09_bad((code, infos, rest): &Cemi) -> Res {
    let b = wire::cemi(*code, infos, rest);
    let area = 2 + b[1] as usize;
    for n in 0..area {
        ck!(CEMI::from_packet(&mut Cursor::new(&b[..n])).is_err(), "accepted although cut after {n} of {area} header and info bytes: {:02x?}", &b[..n]);
    }
    let mut ends = std::collections::HashSet::from([0usize]);
    let mut p = 0;
    for (_, v) in infos {
        p += 2 + v.len();
        ends.insert(p);
    }
    let mut bad = 0;
    for t in 1..b[1] as usize {
        if ends.contains(&t) {
            continue;
        }
        bad += 1;
        let mut x = b.clone();
        x[1] = t as u8;
        ck!(CEMI::from_packet(&mut Cursor::new(&x[..])).is_err(), "accepted although a block runs past the declared {t} bytes: {x:02x?}");
    }
    Ok(Info::nt(bad > 0))
}
/// The same bytes under every declared total: the blocks must end exactly there.
fn c09_total((code, infos, rest): &Cemi) -> Res {
    let b = wire::cemi(*code, infos, rest);
    let (mut good, mut bad) = (0, 0);
    for total in 0..=255usize {
        let mut x = b.clone();
        x[1] = total as u8;
        let mut at = 2;
        let mut blocks = vec![];
        // None: an unknown type, whose fate is open
        let fits = loop {
            if at == 2 + total {
                break Some(true);
            }
            if at >= x.len() {
                break Some(false);
            }
            if !wire::INFO_TYPES.contains(&x[at]) {
                break None;
            }
            if at + 1 >= x.len() || at + 2 > 2 + total {
                break Some(false);
            }
            let n = x[at + 1] as usize;
            if at + 2 + n > 2 + total || at + 2 + n > x.len() {
                break Some(false);
            }
            blocks.push((x[at], x[at + 2..at + 2 + n].to_vec()));
            at += 2 + n;
        };
        let got = CEMI::from_packet(&mut Cursor::new(&x[..]));
        match fits {
            Some(true) => {
                good += 1;
                let m = got.map_err(|e| format!("{x:02x?} rejected: {e}"))?;
                let got: Vec<(u8, Vec<u8>)> = m.additional_infos.iter().map(|i| (info_code(&i.info_type), i.value.clone())).collect();
                ck!(m.msg_code == *code && got == blocks && m.service_info == x[at..], "{x:02x?}: parsed as {m:02x?}");
            }
            Some(false) => {
                bad += 1;
                ck!(got.is_err(), "accepted although its blocks do not end with the declared {total} bytes: {x:02x?}");
            }
            None => {}
        }
    }
    Ok(Info::nt(good > 1 && bad > 0))
}
fn cemi_strategy(max: usize, rest: usize) -> BoxedStrategy<Cemi> {
    bx((any::<u8>(), infos(max), vec(any::<u8>(), 0..rest)))
}
pub fn c09(c: &mut Ctx) {
    c.rule("structured messages; each also cut at every point of the info area and given every wrong total inside a block; non-trivial: has an info block");
    let n = c.n(320_000);
    c.generate("exact", n, || bx(prop_oneof![3 => cemi_strategy(5, 30), 1 => cemi_strategy(100, 300)]), c09_exact);
    let n = c.n(32_000);
    c.generate("cut or overrunning", n, || bx(prop_oneof![3 => cemi_strategy(5, 30), 1 => cemi_strategy(60, 30)]), c09_bad);
    // a remainder that looks like further blocks
    let tail = || bx(vec((proptest::sample::select(wire::INFO_TYPES.to_vec()), prop_oneof![4 => vec(any::<u8>(), 0..6), 1 => vec(any::<u8>(), 0..60)]), 0..30).prop_map(|v| v.into_iter().flat_map(|(t, d)| [vec![t, d.len() as u8], d].concat()).collect::<Vec<u8>>()));
    let n = c.n(4_000);
    c.generate("every total", n, move || bx((any::<u8>(), infos(4), tail(), vec(any::<u8>(), 0..12)).prop_map(|(c, i, t, r)| (c, i, [t, r].concat()))), c09_total);
    let mut v: Vec<Cemi> = vec![];
    for t in wire::INFO_TYPES {
        for n in 0..=253 {
            v.push((0x29, vec![(t, vec![n as u8; n])], vec![0xbc, 0xe0, 1, 2, 3, 4, 1, 0, 0x81]));
        }
    }
    for k in 0..=127 {
        v.push((0x2e, vec![(1, vec![]); k], vec![9; 9]));
    }
    for code in 0..=255 {
        v.push((code, vec![(0xfe, vec![1, 2])], vec![]));
    }
    c.enumerate("every type and length", v, c09_exact);
}

// ------------------------------------------------------------------ L_Data.ind / con
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C10 {
    c1: u8,
    c2: u8,
    src: u16,
    dst: u16,
    /// length octet; the payload has max(len, 1) - 1 bytes
    len: u8,
    o6: u8,
    o7: u8,
    fill: u8,
    infos: Vec<(u8, Vec<u8>)>,
}
fn c10_case(c: &C10) -> Res {
    let data: Vec<u8> = (0..c.len.saturating_sub(1)).map(|i| i.wrapping_mul(31) ^ c.fill).collect();
    let mut s = vec![c.c1, c.c2];
    s.extend(c.src.to_be_bytes());
    s.extend(c.dst.to_be_bytes());
    s.extend([c.len, c.o6, c.o7]);
    s.extend(&data);
    let want = if c.len <= 1 { vec![c.o7 & 0x3f] } else { data };
    let mk = |code: u8, s: &[u8]| {
        let b = wire::cemi(code, &c.infos, s);
        CEMI::from_packet(&mut Cursor::new(&b[..])).map_err(|e| format!("cEMI {b:02x?} rejected: {e}"))
    };
    let flags = |l: &knx_ip_client::packets::emi::LData, what: &str| -> Result<(), String> {
        ck!(l.src == c.src && l.dest == c.dst, "{what} {s:02x?}: addresses {:#x} {:#x}", l.src, l.dest);
        let got = [l.frame_type, l.repetition, l.system_broadcast, l.ack_request];
        let want = [c.c1 & 0x80 != 0, c.c1 & 0x20 != 0, c.c1 & 0x10 != 0, c.c1 & 2 != 0];
        ck!(got == want, "{what} control {:#010b}: frame type, repeat, broadcast, ack = {got:?}", c.c1);
        ck!(l.group_dest == (c.c2 & 0x80 != 0), "{what} control 2 {:#010b}: group destination = {}", c.c2, l.group_dest);
        Ok(())
    };
    let ind = LDataInd::from_cemi(mk(0x29, &s)?).map_err(|e| format!("indication {s:02x?} rejected: {e}"))?;
    flags(&ind.l_data, "indication")?;
    let service = (c.o6 & 3) << 2 | c.o7 >> 6;
    ck!(ind.apci == service, "indication {s:02x?}: service {:#x} instead of {service:#x}", ind.apci);
    ck!(ind.value == want, "indication {s:02x?}: value {:02x?} instead of {want:02x?}", ind.value);
    ck!(ind.cemi.service_info == s && ind.cemi.msg_code == 0x29, "indication {s:02x?}: message altered");
    let con = LDataCon::from_cemi(mk(0x2e, &s)?).map_err(|e| format!("confirmation {s:02x?} rejected: {e}"))?;
    flags(&con.l_data, "confirmation")?;
    ck!(con.confirm == (c.c1 & 1 == 0), "confirmation control {:#010b}: positive = {}", c.c1, con.confirm);
    for n in 0..s.len() {
        let r = LDataInd::from_cemi(mk(0x29, &s[..n])?);
        if let Ok(i) = r {
            return Err(format!("indication cut to {n} of {} bytes accepted with value {:02x?}", s.len(), i.value));
        }
    }
    for n in 0..6 {
        ck!(LDataCon::from_cemi(mk(0x2e, &s[..n])?).is_err(), "confirmation of {n} bytes accepted");
    }
    Ok(Info::nt(c.len > 1).label(c.len <= 1, "6-bit value").label(c.len > 15, "over 14 bytes").label(c.c1 & 1 == 1, "negative confirmation"))
}
pub fn c10(c: &mut Ctx) {
    c.rule("each message also cut at every length; all lengths x flags enumerated; non-trivial: carries whole payload bytes");
    let n = c.n(160_000);
    c.generate("messages", n, || {
        bx((any::<(u8, u8, u16, u16)>(), prop_oneof![3 => 0u8..4, 2 => 0u8..16, 1 => any::<u8>()], any::<(u8, u8, u8)>(), infos(2)).prop_map(|((c1, c2, src, dst), len, (o6, o7, fill), infos)| C10 { c1, c2, src, dst, len, o6, o7, fill, infos }))
    }, c10_case);
    let mut v = vec![];
    for x in 0..=255u8 {
        v.push(C10 { c1: x, c2: 0xe0, src: 0x110b, dst: 0x0a01, len: x, o6: 0, o7: 0x80 | (x & 0x3f), fill: x, infos: vec![] });
        v.push(C10 { c1: 0xbc, c2: x, src: 0x110b, dst: 0x0a01, len: 1, o6: x, o7: x, fill: x, infos: vec![] });
        v.push(C10 { c1: x, c2: 0x60, src: (x as u16) << 8, dst: x as u16, len: 3, o6: 3, o7: 0xc0, fill: x, infos: vec![] });
    }
    c.enumerate("all octet values", v, c10_case);
}
