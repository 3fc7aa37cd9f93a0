//! Symbolic values of the public types, each together with the bytes the DASH7 wire format
//! prescribes for it (`out`). The byte construction is written from the format, byte by byte,
//! and shares no code with the implementation.
#![allow(dead_code)]
use crate::sym;
use dash7::app::action::{Action, OpCode};
use dash7::app::interface::*;
use dash7::app::operation::*;
use dash7::app::query::*;
use dash7::data::{ActionCondition, FileHeader, FilePermissions, StorageClass, UserPermissions};
use dash7::file::{
    AccessProfile, DllConfig, DllStatus, EngineeringMode, EngineeringModeMethod, FactorySettings, File, FirmwareVersion,
    PhyStatus, SecurityKey,
};
use dash7::link::AccessClass;
use dash7::network::{Address, Addressee, NlsState};
use dash7::physical::*;
use dash7::session::*;
use dash7::types::VarInt;
#[cfg(feature = "wizzilab")]
use dash7::transport::GroupCondition;

pub type Out = Vec<u8>;

/// With `full`, the enumerated fields of one structure vary jointly; without, one field at a
/// time ranges over all its values while the others keep a fixed non-default choice (numeric
/// and boolean fields are always unconstrained). Joint variation costs the product of paths.
static mut FULL: bool = false;
pub fn set_full(f: bool) {
    unsafe { FULL = f }
}
/// with `plain`, comparison kinds and flags of queries are fixed
static mut PLAIN: bool = false;
pub fn set_plain(p: bool) {
    unsafe { PLAIN = p }
}
/// with `ends`, long data is fixed but for its first and last byte
static mut ENDS: bool = false;
pub fn set_ends(p: bool) {
    unsafe { ENDS = p }
}
fn ends() -> bool {
    unsafe { ENDS }
}
fn full() -> bool {
    unsafe { FULL }
}
/// which of `n` fields ranges over all its choices
fn focus(n: u8) -> u8 {
    if full() {
        255
    } else {
        sym::below(n)
    }
}
fn on(f: u8, i: u8) -> bool {
    f == 255 || f == i
}
/// a choice of 0..n, or the fixed one
fn pick(all: bool, n: u8, fixed: u8) -> u8 {
    if all {
        sym::below(n)
    } else {
        fixed
    }
}

// ---- scalars ---------------------------------------------------------------------------

/// ALP length: two size bits, then 6, 14, 22 or 30 bits, shortest form
pub fn put_len(out: &mut Out, v: u32) {
    if v < 1 << 6 {
        out.push(v as u8);
    } else if v < 1 << 14 {
        out.push(0x40 | (v >> 8) as u8);
        out.push(v as u8);
    } else if v < 1 << 22 {
        out.push(0x80 | (v >> 16) as u8);
        out.push((v >> 8) as u8);
        out.push(v as u8);
    } else {
        out.push(0xC0 | (v >> 24) as u8);
        out.push((v >> 16) as u8);
        out.push((v >> 8) as u8);
        out.push(v as u8);
    }
}
pub fn length(out: &mut Out) -> Length {
    let v = sym::u32();
    sym::assume(v < 1 << 30);
    put_len(out, v);
    Length::from(v)
}
/// a length that fits one byte
pub fn length6(out: &mut Out) -> Length {
    let v = sym::below(64);
    out.push(v);
    Length::from(v as u32)
}
/// a value the compressed format represents exactly, with its canonical byte
pub fn varint(out: &mut Out) -> VarInt {
    let e = sym::below(8);
    let m = sym::below(32);
    sym::assume(e == 0 || m > 7);
    out.push(e << 5 | m);
    VarInt::new_unchecked((m as u32) << (2 * e as u32), false)
}
/// compressed value with exponent 0 (keeps large structures cheap)
pub fn varint0(out: &mut Out) -> VarInt {
    let m = sym::below(32);
    out.push(m);
    VarInt::new_unchecked(m as u32, false)
}
fn varint_f(all: bool, out: &mut Out) -> VarInt {
    if all {
        varint(out)
    } else {
        varint0(out)
    }
}
pub fn byte(out: &mut Out) -> u8 {
    let b = sym::u8();
    out.push(b);
    b
}
pub fn be16(out: &mut Out) -> u16 {
    let v = sym::u16();
    out.push((v >> 8) as u8);
    out.push(v as u8);
    v
}
pub fn be32(out: &mut Out) -> u32 {
    let v = sym::u32();
    out.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
    v
}
pub fn le32(out: &mut Out) -> u32 {
    let v = sym::u32();
    out.extend_from_slice(&[v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]);
    v
}
pub fn be64(out: &mut Out) -> u64 {
    let v = sym::u64();
    let mut i = 8;
    while i > 0 {
        i -= 1;
        out.push((v >> (8 * i)) as u8);
    }
    v
}
pub fn arr<const N: usize>(out: &mut Out) -> [u8; N] {
    let b = sym::bytes::<N>();
    out.extend_from_slice(&b);
    b
}
pub fn data(out: &mut Out, n: usize) -> Vec<u8> {
    let b = if ends() && n > 2 {
        let mut b = vec![0x5A; n];
        (b[0], b[n - 1]) = (sym::u8(), sym::u8());
        b
    } else {
        sym::vec(n)
    };
    out.extend_from_slice(&b);
    b
}
fn bit(b: bool) -> u8 {
    b as u8
}

// ---- physical --------------------------------------------------------------------------

pub fn band(k: u8) -> ChannelBand {
    match k {
        0 => ChannelBand::Rfu0,
        1 => ChannelBand::Rfu1,
        2 => ChannelBand::Band433,
        3 => ChannelBand::Band868,
        _ => ChannelBand::Band915,
    }
}
pub fn channel_header(out: &mut Out) -> ChannelHeader {
    channel_header_f(true, out)
}
fn channel_header_f(all: bool, out: &mut Out) -> ChannelHeader {
    let f = focus(3);
    let (b, l, o) =
        (pick(all && on(f, 0), 5, 3), pick(all && on(f, 1), 4, 1), pick(all && on(f, 2), 4, 2));
    out.push(b << 4 | l << 2 | o);
    ChannelHeader::new(
        band(b),
        match l {
            0 => ChannelClass::LoRate,
            1 => ChannelClass::Lora,
            2 => ChannelClass::NormalRate,
            _ => ChannelClass::HiRate,
        },
        match o {
            0 => ChannelCoding::Pn9,
            1 => ChannelCoding::Rfu,
            2 => ChannelCoding::FecPn9,
            _ => ChannelCoding::Cw,
        },
    )
}
pub fn channel(out: &mut Out) -> Channel {
    channel_f(true, out)
}
fn channel_f(all: bool, out: &mut Out) -> Channel {
    let header = channel_header_f(all, out);
    Channel { header, index: be16(out) }
}

// ---- network ---------------------------------------------------------------------------

/// of the size the type has, so that another one is seen on the wire
fn fit<const N: usize>(s: [u8; 5]) -> [u8; N] {
    let mut x = [0; N];
    for (d, b) in x.iter_mut().zip(s) {
        *d = b
    }
    x
}
pub fn nls(k: u8, s: [u8; 5]) -> NlsState {
    match k {
        0 => NlsState::None,
        1 => NlsState::AesCtr(fit(s)),
        2 => NlsState::AesCbcMac128(fit(s)),
        3 => NlsState::AesCbcMac64(fit(s)),
        4 => NlsState::AesCbcMac32(fit(s)),
        5 => NlsState::AesCcm128(fit(s)),
        6 => NlsState::AesCcm64(fit(s)),
        _ => NlsState::AesCcm32(fit(s)),
    }
}
/// every addressee whose fields fit the format
pub fn addressee(out: &mut Out) -> Addressee {
    let t = sym::below(4);
    let n = sym::below(8);
    addressee_tn(out, t, n)
}
fn addressee_f(all: bool, out: &mut Out) -> Addressee {
    if all {
        addressee(out)
    } else {
        addressee_tn(out, 3, 6)
    }
}
pub fn addressee_tn(out: &mut Out, t: u8, n: u8) -> Addressee {
    let sp = sym::below(16);
    let ma = sym::below(16);
    #[cfg(not(feature = "wizzilab"))]
    out.push(t << 4 | n);
    #[cfg(feature = "wizzilab")]
    let (g, v) = {
        let (g, v) = (if full() || (t == 1 && n == 0) { sym::below(4) } else { 2 }, sym::bool());
        out.push(g << 6 | t << 4 | bit(v) << 3 | n);
        (
            match g {
                0 => GroupCondition::Any,
                1 => GroupCondition::NotEqual,
                2 => GroupCondition::Equal,
                _ => GroupCondition::GreaterThan,
            },
            v,
        )
    };
    out.push(sp << 4 | ma);
    let address = match t {
        0 => Address::NbId(varint(out)),
        1 => Address::NoId,
        2 => Address::UId(be64(out)),
        _ => Address::VId(be16(out)),
    };
    let state = if n == 0 { NlsState::None } else { nls(n, arr::<5>(out)) };
    let ac = AccessClass::new(sp, ma);
    #[cfg(not(feature = "wizzilab"))]
    return Addressee::new(address, state, ac);
    #[cfg(feature = "wizzilab")]
    return Addressee::new(v, g, address, state, ac);
}

// ---- session ---------------------------------------------------------------------------

pub fn qos(out: &mut Out) -> QoS {
    qos_f(true, out)
}
fn qos_f(all: bool, out: &mut Out) -> QoS {
    let (s, r) = (sym::bool(), sym::bool());
    let f = focus(2);
    let (y, p) = (pick(all && on(f, 0), 8, 4), pick(all && on(f, 1), 7, 2));
    sym::assume(p != 3);
    out.push(bit(s) << 7 | bit(r) << 6 | y << 3 | p);
    QoS {
        stop_on_error: s,
        record: r,
        retry_mode: match y {
            0 => RetryMode::No,
            1 => RetryMode::OneshotRetry,
            2 => RetryMode::FifoFast,
            3 => RetryMode::FifoSlow,
            4 => RetryMode::SingleFast,
            5 => RetryMode::SingleSlow,
            6 => RetryMode::OneshotSticky,
            _ => RetryMode::Rfu,
        },
        response_mode: match p {
            0 => ResponseMode::No,
            1 => ResponseMode::All,
            2 => ResponseMode::Any,
            4 => ResponseMode::NoRepeat,
            5 => ResponseMode::OnError,
            _ => ResponseMode::Preferred,
        },
    }
}
pub fn dash7_status(out: &mut Out) -> Dash7InterfaceStatus {
    let f = focus(3);
    let channel = channel_f(on(f, 0), out);
    let rx_level = byte(out);
    let link_budget = byte(out);
    let target_rx_level = byte(out);
    let (nls, missed, retry, unicast) = (sym::bool(), sym::bool(), sym::bool(), sym::bool());
    out.push(bit(nls) << 7 | bit(missed) << 6 | bit(retry) << 5 | bit(unicast) << 4);
    let fifo_token = byte(out);
    let sequence_number = byte(out);
    let response_timeout = varint_f(on(f, 1), out);
    Dash7InterfaceStatus {
        channel,
        rx_level,
        link_budget,
        target_rx_level,
        nls,
        missed,
        retry,
        unicast,
        fifo_token,
        sequence_number,
        response_timeout,
        addressee: addressee_f(on(f, 2), out),
    }
}

// ---- interface configurations ----------------------------------------------------------

pub fn dash7_config(out: &mut Out) -> Dash7InterfaceConfiguration {
    let f = focus(4);
    Dash7InterfaceConfiguration {
        qos: qos_f(on(f, 0), out),
        dormant_session_timeout: varint_f(on(f, 1), out),
        #[cfg(not(feature = "subiot"))]
        execution_delay_timeout: varint_f(on(f, 2) && !full(), out),
        addressee: addressee_f(on(f, 3), out),
    }
}
pub fn lora_base(out: &mut Out) -> LoRaWANInterfaceConfiguration {
    let (a, r) = (sym::bool(), sym::bool());
    out.push(bit(a) << 2 | bit(r) << 1);
    LoRaWANInterfaceConfiguration {
        adr_enabled: a,
        request_ack: r,
        application_port: byte(out),
        data_rate: byte(out),
    }
}
/// interface configuration; kind 0..6
pub fn interface_config(kind: u8, out: &mut Out) -> InterfaceConfiguration {
    match kind {
        0 => {
            out.push(0);
            InterfaceConfiguration::Host
        }
        1 => {
            out.push(1);
            InterfaceConfiguration::Serial
        }
        2 => {
            out.push(2);
            InterfaceConfiguration::LoRaWanABP(LoRaWANABPInterfaceConfiguration {
                base: lora_base(out),
                network_session_key: data(out, 16),
                app_session_key: data(out, 16),
                device_address: le32(out),
                network_id: le32(out),
            })
        }
        3 => {
            out.push(3);
            InterfaceConfiguration::LoRaWanOTAA(LoRaWANOTAAInterfaceConfiguration {
                base: lora_base(out),
                device_eui: data(out, 8),
                app_eui: data(out, 8),
                app_key: data(out, 16),
            })
        }
        4 => {
            out.push(0xD7);
            InterfaceConfiguration::Dash7(dash7_config(out))
        }
        _ => {
            let u = unknown_interface();
            out.push(u);
            InterfaceConfiguration::Unknown(u)
        }
    }
}
pub fn unknown_interface() -> u8 {
    let u = sym::u8();
    sym::assume(u > 3 && u != 0xD7);
    u
}
/// indirect interface; kind 0..4
pub fn indirect_interface(kind: u8, out: &mut Out) -> IndirectInterface {
    match kind {
        0 => {
            out.push(0);
            IndirectInterface::Host
        }
        1 => {
            out.push(1);
            IndirectInterface::Serial
        }
        2 => {
            out.push(0xD7);
            IndirectInterface::Dash7(addressee(out))
        }
        _ => {
            let u = sym::u8();
            sym::assume(u > 1 && u != 0xD7);
            out.push(u);
            IndirectInterface::Unknown(u)
        }
    }
}

// ---- data ------------------------------------------------------------------------------

pub fn user_perm() -> (UserPermissions, u8) {
    let (read, write, executable) = (sym::bool(), sym::bool(), sym::bool());
    (UserPermissions { read, write, executable }, bit(read) << 2 | bit(write) << 1 | bit(executable))
}
pub fn file_header(out: &mut Out) -> FileHeader {
    let (encrypted, executable) = (sym::bool(), sym::bool());
    let (user, u) = user_perm();
    let (guest, g) = user_perm();
    out.push(bit(encrypted) << 7 | bit(executable) << 6 | u << 3 | g);
    let enabled = sym::bool();
    let f = focus(2);
    let (c, s) = (pick(on(f, 0), 4, 2), pick(on(f, 1), 4, 1));
    out.push(bit(enabled) << 7 | c << 4 | s);
    FileHeader {
        permissions: FilePermissions { encrypted, executable, user, guest },
        properties: dash7::data::FileProperties {
            enabled,
            condition: match c {
                0 => ActionCondition::List,
                1 => ActionCondition::Read,
                2 => ActionCondition::Write,
                _ => ActionCondition::WriteFlush,
            },
            storage_class: match s {
                0 => StorageClass::Transient,
                1 => StorageClass::Volatile,
                2 => StorageClass::Restorable,
                _ => StorageClass::Permanent,
            },
        },
        alp_command_file_id: byte(out),
        interface_file_id: byte(out),
        file_size: be32(out),
        allocated_size: be32(out),
    }
}
pub fn file_offset(out: &mut Out) -> FileOffset {
    FileOffset { file_id: byte(out), offset: length(out) }
}
pub fn file_offset6(out: &mut Out) -> FileOffset {
    FileOffset { file_id: byte(out), offset: length6(out) }
}

// ---- queries ---------------------------------------------------------------------------

pub fn arith(k: u8) -> ArithmeticComparisonType {
    match k {
        0 => ArithmeticComparisonType::Inequal,
        1 => ArithmeticComparisonType::Equal,
        2 => ArithmeticComparisonType::LessThan,
        3 => ArithmeticComparisonType::LessThanOrEqual,
        4 => ArithmeticComparisonType::GreaterThan,
        _ => ArithmeticComparisonType::GreaterThanOrEqual,
    }
}
fn arith_params(out: &mut Out, id: u8, mask: bool) -> ArithmeticQueryParams {
    let plain = unsafe { PLAIN };
    let signed = !plain && sym::bool();
    let c = pick(!plain, 6, 4);
    out.push(id << 5 | bit(mask) << 4 | bit(signed) << 3 | c);
    ArithmeticQueryParams { signed, comparison_type: arith(c) }
}
pub const QUERIES: u8 = 6;
/// `n`: operand length in bytes; `masked`: whether a mask of that length is present
pub fn query(kind: u8, n: usize, masked: bool, full: bool, out: &mut Out) -> Query {
    let foff = if full { file_offset } else { file_offset6 };
    let m = if masked { n } else { 0 };
    let flag = m > 0;
    match kind {
        0 => {
            out.push(0);
            let length = length(out);
            Query::NonVoid(NonVoid { length, file: foff(out) })
        }
        1 => {
            let p = arith_params(out, 1, flag);
            put_len(out, m as u32);
            let mask = data(out, m);
            Query::ComparisonWithZero(ComparisonWithZero::new(p, mask, foff(out)))
        }
        2 => {
            let p = arith_params(out, 2, flag);
            put_len(out, n as u32);
            let mask = data(out, m);
            let value = data(out, n);
            Query::ComparisonWithValue(ComparisonWithValue::new(p, mask, value, foff(out)))
        }
        3 => {
            let p = arith_params(out, 3, flag);
            put_len(out, m as u32);
            let mask = data(out, m);
            let f1 = foff(out);
            let f2 = file_offset6(out);
            Query::ComparisonWithOtherFile(ComparisonWithOtherFile::new(p, mask, f1, f2))
        }
        4 => {
            let signed = sym::bool();
            let c = sym::below(2);
            out.push(4 << 5 | bit(flag) << 4 | bit(signed) << 3 | c);
            let p = RangeQueryParams {
                signed,
                comparison_type: if c == 0 { RangeComparisonType::NotInRange } else { RangeComparisonType::InRange },
            };
            put_len(out, m as u32);
            let (a, b) = (sym::u32(), sym::u32());
            sym::assume(a < 1 << 30 && b < 1 << 30);
            if !full {
                sym::assume(a < 64 && b < 64);
            }
            put_len(out, a);
            put_len(out, b);
            let mask = data(out, m);
            Query::BitmapRangeComparison(BitmapRangeComparison::new(p, a, b, mask, file_offset6(out)))
        }
        _ => {
            let e = sym::below(8);
            out.push(7 << 5 | bit(flag) << 4 | e);
            put_len(out, n as u32);
            let mask = data(out, m);
            let value = data(out, n);
            Query::StringTokenSearch(StringTokenSearch::new(e, mask, value, foff(out)))
        }
    }
}

// ---- files -----------------------------------------------------------------------------

pub fn sub_band(out: &mut Out) -> SubBand {
    SubBand {
        channel_index_start: be16(out),
        channel_index_end: be16(out),
        eirp: byte(out) as i8,
        clear_channel_assessment: byte(out),
        duty: byte(out),
    }
}
pub fn access_profile(out: &mut Out) -> dash7::link::AccessProfile {
    // one at a time even with `full`
    let f = sym::below(5);
    let channel_header = channel_header_f(f == 0, out);
    let sub = |i: u8, o: &mut Out| dash7::link::SubProfile {
        subband_bitmap: byte(o),
        scan_automation_period: varint_f(f == i, o),
    };
    let sub_profiles = [sub(1, out), sub(2, out), sub(3, out), sub(4, out)];
    dash7::link::AccessProfile {
        channel_header,
        sub_profiles,
        sub_bands: [
            sub_band(out),
            sub_band(out),
            sub_band(out),
            sub_band(out),
            sub_band(out),
            sub_band(out),
            sub_band(out),
            sub_band(out),
        ],
    }
}
pub fn factory_settings(out: &mut Out) -> FactorySettings {
    FactorySettings {
        gain: byte(out) as i8,
        rx_bw_low_rate: be32(out),
        rx_bw_normal_rate: be32(out),
        rx_bw_high_rate: be32(out),
        bitrate_lo_rate: be32(out),
        fdev_lo_rate: be32(out),
        bitrate_normal_rate: be32(out),
        fdev_normal_rate: be32(out),
        bitrate_hi_rate: be32(out),
        fdev_hi_rate: be32(out),
        preamble_size_lo_rate: byte(out),
        preamble_size_normal_rate: byte(out),
        preamble_size_hi_rate: byte(out),
        preamble_detector_size_lo_rate: byte(out),
        preamble_detector_size_normal_rate: byte(out),
        preamble_detector_size_hi_rate: byte(out),
        preamble_tol_lo_rate: byte(out),
        preamble_tol_normal_rate: byte(out),
        preamble_tol_hi_rate: byte(out),
        rssi_smoothing: byte(out),
        rssi_offset: byte(out),
        lora_bw: be32(out),
        lora_sf: byte(out),
        gaussian: byte(out),
        paramp: be16(out),
    }
}
/// ASCII text of exactly `n` characters in a field of `w` bytes, zero padded; no zero characters
pub fn text(out: &mut Out, n: usize, w: usize) -> String {
    let b = sym::vec(n);
    let mut i = 0;
    while i < n {
        sym::assume(b[i] > 0 && b[i] < 128);
        i += 1;
    }
    out.extend_from_slice(&b);
    while i < w {
        out.push(0);
        i += 1;
    }
    // the bytes are ASCII
    unsafe { String::from_utf8_unchecked(b) }
}
/// any character (but zero) that takes `n` bytes in UTF-8
pub fn character(n: usize, out: &mut Out) {
    let b = sym::vec(n);
    let next = |i: usize| b[i] >= 0x80 && b[i] <= 0xBF;
    sym::assume(match n {
        1 => b[0] > 0 && b[0] < 0x80,
        2 => b[0] >= 0xC2 && b[0] <= 0xDF && next(1),
        3 => {
            b[0] >= 0xE0 && b[0] <= 0xEF && next(1) && next(2)
                && (b[0] != 0xE0 || b[1] >= 0xA0) && (b[0] != 0xED || b[1] < 0xA0)
        }
        _ => {
            b[0] >= 0xF0 && b[0] <= 0xF4 && next(1) && next(2) && next(3)
                && (b[0] != 0xF0 || b[1] >= 0x90) && (b[0] != 0xF4 || b[1] < 0x90)
        }
    });
    out.extend_from_slice(&b);
}
pub fn firmware(out: &mut Out, a: usize, g: usize) -> FirmwareVersion {
    FirmwareVersion { major: byte(out), minor: byte(out), application_name: text(out, a, 6), git_sha1: text(out, g, 7) }
}
pub fn engineering_mode(out: &mut Out) -> EngineeringMode {
    let f = focus(2);
    let m = pick(on(f, 0), 5, 3);
    out.push(m);
    EngineeringMode {
        mode: match m {
            0 => EngineeringModeMethod::Off,
            1 => EngineeringModeMethod::ContTx,
            2 => EngineeringModeMethod::TransientTx,
            3 => EngineeringModeMethod::PerRx,
            _ => EngineeringModeMethod::PerTx,
        },
        flags: byte(out),
        timeout: byte(out),
        channel: channel_f(on(f, 1), out),
        eirp: byte(out) as i8,
    }
}
pub fn channel_status(out: &mut Out) -> ChannelStatus {
    let (b, w) = (sym::below(5), sym::below(2));
    let i = sym::u16();
    sym::assume(i < 1 << 11);
    out.push(b << 5 | w << 3 | (i >> 8) as u8);
    out.push(i as u8);
    ChannelStatus {
        identifier: ChannelStatusIdentifier {
            channel_band: band(b),
            bandwidth: if w == 0 { Bandwidth::KHz200 } else { Bandwidth::KHz25 },
            index: i,
        },
        noise_floor: byte(out),
    }
}
pub fn phy_status(out: &mut Out, n: usize) -> PhyStatus {
    let (u, r, t, d) = (be32(out), be32(out), be32(out), be16(out));
    out.push(n as u8);
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        if ends() && i > 0 && i < n - 1 {
            out.extend_from_slice(&[0x48, 0x05, 0x21]);
            v.push(ChannelStatus {
                identifier: ChannelStatusIdentifier { channel_band: band(2), bandwidth: Bandwidth::KHz25, index: 5 },
                noise_floor: 0x21,
            });
        } else {
            v.push(channel_status(out));
        }
        i += 1;
    }
    PhyStatus::new(u, r, t, d, v)
}
pub fn dll_config(out: &mut Out) -> DllConfig {
    let ac = byte(out);
    out.push(0);
    out.push(0);
    DllConfig {
        ac,
        lq_filter: byte(out),
        nf_ctrl: byte(out),
        rx_nf_method_parameter: byte(out),
        tx_nf_method_parameter: byte(out),
    }
}
pub fn dll_status(out: &mut Out) -> DllStatus {
    DllStatus {
        last_rx_packet_level: byte(out),
        last_rx_packet_link_budget: byte(out),
        noise_floor: byte(out),
        channel_header: channel_header(out),
        channel_index: be16(out),
        scan_timeout_ratio: be16(out),
        scan_count: be32(out),
        scan_timeout_count: be32(out),
    }
}
pub fn security_key(out: &mut Out) -> SecurityKey {
    let b = arr::<16>(out);
    SecurityKey { key: u128::from_le_bytes(b) }
}
fn profile(i: u8, p: dash7::link::AccessProfile) -> File {
    macro_rules! go {
        ($($n:literal $v:ident),*) => { match i { $($n => File::$v(AccessProfile::<$n> { profile: p }),)* _ => unreachable!() } };
    }
    go!(0 AccessProfile00, 1 AccessProfile01, 2 AccessProfile02, 3 AccessProfile03, 4 AccessProfile04,
        5 AccessProfile05, 6 AccessProfile06, 7 AccessProfile07, 8 AccessProfile08, 9 AccessProfile09,
        10 AccessProfile10, 11 AccessProfile11, 12 AccessProfile12, 13 AccessProfile13, 14 AccessProfile14)
}
/// number of structured file kinds below
pub const FILES: u8 = 10;
/// structured file of a kind, its file id, and its bytes
pub fn file(kind: u8, out: &mut Out) -> (u8, File) {
    match kind {
        0 => (0x00, File::UId(Address::UId(be64(out)))),
        1 => (0x06, File::VId(Address::VId(be16(out)))),
        2 => (0x01, File::FactorySettings(factory_settings(out))),
        3 => {
            let (a, g) = (sym::below(7), sym::below(8));
            (0x02, File::FirmwareVersion(firmware(out, a as usize, g as usize)))
        }
        4 => (0x05, File::EngineeringMode(engineering_mode(out))),
        5 => {
            let n = sym::below(3);
            (0x09, File::PhyStatus(phy_status(out, n as usize)))
        }
        6 => (0x0A, File::DllConfig(dll_config(out))),
        7 => (0x0B, File::DllStatus(dll_status(out))),
        8 => (0x0E, File::NwlSecurityKey(security_key(out))),
        _ => {
            let i = sym::below(15);
            let p = access_profile(out);
            (0x20 + i, profile(i, p))
        }
    }
}
/// is this the id of a file decoded into fields?
pub fn structured(id: u8) -> bool {
    matches!(id, 0x00 | 0x01 | 0x02 | 0x05 | 0x06 | 0x09 | 0x0A | 0x0B | 0x0E | 0x20..=0x2E)
}

// ---- actions ---------------------------------------------------------------------------

pub fn header(out: &mut Out, op: u8) -> ActionHeader {
    let (g, r) = (sym::bool(), sym::bool());
    out.push(bit(g) << 7 | bit(r) << 6 | op);
    ActionHeader::new(g, r)
}
fn fid(out: &mut Out, op: u8) -> FileId {
    FileId { header: header(out, op), opcode: OpCode(op), file_id: byte(out) }
}
use dash7::app::operation::FileId;
fn fprop(out: &mut Out, op: u8) -> FileProperties {
    FileProperties { header: header(out, op), opcode: OpCode(op), file_id: byte(out), file_header: file_header(out) }
}
use dash7::app::operation::FileProperties;

/// actions without a nested variable structure
pub const SIMPLE: u8 = 19;
pub fn simple(kind: u8, out: &mut Out) -> Action {
    match kind {
        0 => Action::Nop(Nop { header: header(out, 0), opcode: OpCode(0) }),
        1 => Action::ReadFileData(ReadFileData {
            header: header(out, 1),
            opcode: OpCode(1),
            offset: file_offset(out),
            length: length(out),
        }),
        2 => Action::ReadFileProperties(fid(out, 2)),
        3 => Action::WriteFileProperties(fprop(out, 6)),
        4 => {
            let h = header(out, 10);
            let root = sym::bool();
            out.push(bit(root));
            out.push(0x42);
            Action::PermissionRequest(PermissionRequest {
                header: h,
                opcode: OpCode(10),
                level: if root { PermissionLevel::Root } else { PermissionLevel::User },
                permission: Permission::Dash7(arr::<8>(out)),
            })
        }
        5 => Action::ExistFile(fid(out, 16)),
        6 => Action::CreateNewFile(fprop(out, 17)),
        7 => Action::DeleteFile(fid(out, 18)),
        8 => Action::RestoreFile(fid(out, 19)),
        9 => Action::FlushFile(fid(out, 20)),
        10 => Action::CopyFile(CopyFile {
            header: header(out, 23),
            opcode: OpCode(23),
            src_file_id: byte(out),
            dst_file_id: byte(out),
        }),
        11 => Action::ExecuteFile(fid(out, 31)),
        12 => Action::ReturnFileProperties(fprop(out, 33)),
        13 => {
            let (e, r) = (sym::bool(), sym::bool());
            out.push(bit(e) << 7 | bit(r) << 6 | 35);
            Action::ResponseTag(ResponseTag {
                header: ResponseTagHeader { end_of_packet: e, error: r },
                opcode: OpCode(35),
                id: byte(out),
            })
        }
        14 => {
            let s = sym::below(4);
            out.push(s << 6 | 48);
            let step = match s {
                0 => ChunkStep::Continue,
                1 => ChunkStep::Start,
                2 => ChunkStep::End,
                _ => ChunkStep::StartEnd,
            };
            Action::Chunk(step.into())
        }
        15 => {
            let s = sym::below(4);
            out.push(s << 6 | 49);
            let logic = match s {
                0 => LogicOp::Or,
                1 => LogicOp::Xor,
                2 => LogicOp::Nor,
                _ => LogicOp::Nand,
            };
            Action::Logic(Logic { logic, opcode: OpCode(49) })
        }
        16 => {
            let e = sym::bool();
            out.push(bit(e) << 7 | 52);
            Action::RequestTag(RequestTag {
                header: RequestTagHeader { end_of_packet: e },
                opcode: OpCode(52),
                id: byte(out),
            })
        }
        17 => Action::Extension(Extension { header: header(out, 63), opcode: OpCode(63) }),
        _ => {
            out.push(34);
            let a = byte(out);
            let s = byte(out);
            Action::Status(Status::Action(ActionStatus { action_id: a, status: StatusCode(s) }).into())
        }
    }
}
/// action, break and checksum queries: which 0..3
pub fn query_action(which: u8, kind: u8, n: usize, masked: bool, full: bool, out: &mut Out) -> Action {
    let op = match which {
        0 => 8,
        1 => 9,
        _ => 11,
    };
    let a = ActionQuery { header: header(out, op), opcode: OpCode(op), query: query(kind, n, masked, full, out) };
    match which {
        0 => Action::ActionQuery(a),
        1 => Action::BreakQuery(a),
        _ => Action::VerifyChecksum(a),
    }
}
fn file_action(which: u8, h: ActionHeader, o: FileOffset, f: File) -> Action {
    let op = FILE_OPS[which as usize];
    let d = FileData::new(h, o, f, OpCode(op));
    match which {
        0 => Action::WriteFileData(d),
        1 => Action::WriteFileDataFlush(d),
        _ => Action::ReturnFileData(d),
    }
}
pub const FILE_OPS: [u8; 3] = [4, 5, 32];
/// write, write-flush and return file data of an unstructured file: which 0..3, `n` data bytes
pub fn raw_file_action(which: u8, n: usize, full: bool, out: &mut Out) -> Action {
    let h = header(out, FILE_OPS[which as usize]);
    let o = if full { file_offset(out) } else { file_offset6(out) };
    sym::assume(!structured(o.file_id));
    put_len(out, n as u32);
    let d = data(out, n);
    file_action(which, h, o, File::Other(d))
}
/// returned file data of `n` bytes, of which only the ends are free
pub fn big_action(n: usize, out: &mut Out) -> Action {
    let mut data = vec![0x5A; n];
    if n > 0 {
        (data[0], data[n - 1]) = (sym::u8(), sym::u8());
    }
    out.extend_from_slice(&[0x20, 0x45, 0]);
    put_len(out, n as u32);
    out.extend_from_slice(&data);
    let f = FileOffset { file_id: 0x45, offset: 0u32.into() };
    file_action(2, ActionHeader::new(false, false), f, File::Other(data))
}
/// the same carrying a structured file
pub fn sys_file_action(which: u8, kind: u8, out: &mut Out) -> Action {
    let h = header(out, FILE_OPS[which as usize]);
    let mut body = vec![];
    let (id, f) = file(kind, &mut body);
    out.push(id);
    let offset = length6(out);
    put_len(out, body.len() as u32);
    out.extend_from_slice(&body);
    file_action(which, h, FileOffset { file_id: id, offset }, f)
}
/// kinds of actions with long operands
pub const BIG: u8 = if cfg!(feature = "wizzilab") { 10 } else { 9 };
/// an action with an operand of `n` bytes (entries, for channels), fixed but for its ends
pub fn big(kind: u8, n: usize, out: &mut Out) -> Action {
    set_ends(true);
    set_plain(true);
    let w = if n == 300 { sym::below(3) } else { n as u8 % 3 };
    match kind {
        0 => raw_file_action(w, n, false, out),
        1 => query_action(w, 1, n, true, false, out),
        2 => query_action(w, 2, n, false, false, out),
        3 => query_action(w, 2, n, true, false, out),
        4 => query_action(w, 3, n, true, false, out),
        5 => query_action(w, 4, n, true, false, out),
        6 => query_action(w, 5, n, false, false, out),
        7 => query_action(w, 5, n, true, false, out),
        8 => {
            let mut body = vec![];
            let f = phy_status(&mut body, if n > 255 { 255 } else { n });
            out.extend_from_slice(&[FILE_OPS[w as usize], 9, 0]);
            put_len(out, body.len() as u32);
            out.extend_from_slice(&body);
            file_action(w, ActionHeader::new(false, false), FileOffset { file_id: 9, offset: 0u32.into() }, File::PhyStatus(f))
        }
        #[cfg(feature = "wizzilab")]
        _ => final_status(Some(n), out),
        #[cfg(not(feature = "wizzilab"))]
        _ => unreachable!(),
    }
}
/// interface status: kind 0 host, 1 serial, 2 dash7
pub fn interface_status(kind: u8, out: &mut Out) -> Action {
    out.push(0x62);
    let s = match kind {
        0 => {
            out.push(0);
            out.push(0);
            InterfaceStatus::Host
        }
        1 => {
            out.push(1);
            out.push(0);
            InterfaceStatus::Serial
        }
        _ => {
            out.push(0xD7);
            let mut b = vec![];
            let s = dash7_status(&mut b);
            put_len(out, b.len() as u32);
            out.extend_from_slice(&b);
            InterfaceStatus::Dash7(s)
        }
    };
    Action::Status(Status::Interface(s.into()).into())
}
#[cfg(feature = "wizzilab")]
pub const FINAL_CODES: [u8; 23] = [
    0, 0xFF, 0xFE, 0xFD, 0xFC, 0xFB, 0xFA, 0xF9, 0xF8, 0xF7, 0xF6, 0xF5, 0xF4, 0xF3, 0xF2, 0xF1, 0xF0, 0xEF, 0xEE, 0xED,
    0xEC, 0xEB, 0xEA,
];
#[cfg(feature = "wizzilab")]
pub fn final_code(k: u8) -> InterfaceFinalStatusCode {
    use InterfaceFinalStatusCode::*;
    match k {
        0 => No,
        1 => Busy,
        2 => BadParam,
        3 => DutyCycle,
        4 => CcaTo,
        5 => NlsKey,
        6 => TxUdf,
        7 => RxOvf,
        8 => RxCrc,
        9 => Abort,
        10 => NoAck,
        11 => RxTo,
        12 => NotSupportedBand,
        13 => NotSupportedChannel,
        14 => NotSupportedModulation,
        15 => VoidChannelList,
        16 => NotSupportedLen,
        17 => ParamOvf,
        18 => VidWoNls,
        19 => TxSched,
        20 => RxSched,
        21 => BufferOvf,
        _ => NotSupportedMode,
    }
}
/// final interface status: dash7 code, or `n` raw bytes of another interface
#[cfg(feature = "wizzilab")]
pub fn final_status(raw: Option<usize>, out: &mut Out) -> Action {
    out.push(0xA2);
    let op = match raw {
        None => {
            let k = sym::below(23);
            out.push(0xD7);
            out.push(1);
            out.push(FINAL_CODES[k as usize]);
            InterfaceFinalStatusOperation { interface_id: 0xD7, status: InterfaceFinalStatus::Dash7(final_code(k)) }
        }
        Some(n) => {
            let id = byte(out);
            sym::assume(id != 0xD7);
            put_len(out, n as u32);
            InterfaceFinalStatusOperation { interface_id: id, status: InterfaceFinalStatus::Other(data(out, n)) }
        }
    };
    Action::Status(Status::InterfaceFinal(op).into())
}
pub fn forward(kind: u8, out: &mut Out) -> Action {
    let r = sym::bool();
    out.push(bit(r) << 6 | 50);
    Action::Forward(Forward::new(r, interface_config(kind, out)))
}
/// kind 4: not overloaded
pub fn indirect_forward(kind: u8, out: &mut Out) -> Action {
    let r = sym::bool();
    out.push(bit(kind < 4) << 7 | bit(r) << 6 | 51);
    let c = if kind < 4 { Some(indirect_interface(kind, out)) } else { None };
    Action::IndirectForward(IndirectForward::new(r, c))
}
