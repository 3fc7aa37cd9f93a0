//! C15: a number that does not fit its field is refused wherever it occurs; one that fits is not.
use crate::{gen, sym};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation::*;
use dash7::app::query::*;
use dash7::file::{AccessProfile, DllStatus, File, PhyStatus};
use dash7::link::AccessClass;
use dash7::network::{Address, Addressee};
use dash7::physical::*;
use dash7::session::*;
use dash7::types::VarInt;
use deku::prelude::*;

const LEN_MAX: u32 = (1 << 30) - 1;
const VAR_MAX: u32 = 31 << 14;

fn verdict<T: DekuContainerWrite>(v: &T, fits: bool) {
    match v.to_bytes() {
        Ok(b) => {
            sym::observe(&b);
            sym::check(fits, 1);
            sym::reach(1)
        }
        Err(_) => {
            sym::check(!fits, 2);
            sym::reach(2)
        }
    }
}
/// alone, and second in a command
fn in_action(a: Action, fits: bool) {
    verdict(&a, fits);
    let c = Command::new(vec![gen::simple(0, &mut vec![]), a, gen::simple(16, &mut vec![])]);
    sym::check(c.to_bytes().is_ok() == fits, 3);
}
fn h() -> ActionHeader {
    ActionHeader::new(sym::bool(), sym::bool())
}
fn len() -> (Length, bool) {
    let v = sym::u32();
    (Length::from(v), v <= LEN_MAX)
}
fn offset() -> (FileOffset, bool) {
    let (offset, f) = len();
    (FileOffset { file_id: sym::u8(), offset }, f)
}
fn var() -> (VarInt, bool) {
    let v = sym::u32();
    (VarInt::new_unchecked(v, sym::bool()), v <= VAR_MAX)
}
fn class() -> (AccessClass, bool) {
    let (s, m) = (sym::u8(), sym::u8());
    (AccessClass::new(s, m), s < 16 && m < 16)
}
/// an addressee with one field that may be out of range
fn addressee(which: u8) -> (Addressee, bool) {
    let t = if which == 0 { 0 } else { sym::below(4) };
    let mut a = gen::addressee_tn(&mut vec![], t, 5);
    let f = if which == 0 {
        let (v, f) = var();
        a.address = Address::NbId(v);
        f
    } else {
        let (c, f) = class();
        a.access_class = c;
        f
    };
    (a, f)
}
fn status(addressee: Addressee, response_timeout: VarInt) -> Action {
    let s = Dash7InterfaceStatus {
        channel: Channel::default(),
        rx_level: sym::u8(),
        link_budget: sym::u8(),
        target_rx_level: sym::u8(),
        nls: false,
        missed: true,
        retry: false,
        unicast: true,
        fifo_token: sym::u8(),
        sequence_number: sym::u8(),
        response_timeout,
        addressee,
    };
    Action::Status(Status::Interface(InterfaceStatus::Dash7(s).into()).into())
}
fn config(t: VarInt, e: VarInt, addressee: Addressee) -> Dash7InterfaceConfiguration {
    #[cfg(feature = "subiot")]
    let _ = e;
    Dash7InterfaceConfiguration {
        qos: QoS::default(),
        dormant_session_timeout: t,
        #[cfg(not(feature = "subiot"))]
        execution_delay_timeout: e,
        addressee,
    }
}
fn query(q: Query, fits: bool) {
    let q = match sym::below(3) {
        0 => Action::ActionQuery(ActionQuery { header: h(), opcode: OpCode(8), query: q }),
        1 => Action::BreakQuery(ActionQuery { header: h(), opcode: OpCode(9), query: q }),
        _ => Action::VerifyChecksum(ActionQuery { header: h(), opcode: OpCode(11), query: q }),
    };
    in_action(q, fits)
}
fn params() -> ArithmeticQueryParams {
    ArithmeticQueryParams { signed: true, comparison_type: gen::arith(4) }
}
fn file_data(f: File) -> Action {
    Action::ReturnFileData(FileData::new(h(), FileOffset { file_id: 9, offset: Length::from(0u32) }, f, OpCode(32)))
}
entries! {
    h_c15_length { let (l, f) = len(); verdict(&l, f) }
    h_c15_varint { let (v, f) = var(); verdict(&v, f) }
    h_c15_class { let (c, f) = class(); verdict(&c, f) }
    h_c15_read_offset {
        let (offset, f) = offset();
        in_action(Action::ReadFileData(ReadFileData { header: h(), opcode: OpCode(1), offset, length: Length::from(3u32) }), f)
    }
    h_c15_read_length {
        let (length, f) = len();
        let offset = FileOffset { file_id: sym::u8(), offset: Length::from(3u32) };
        in_action(Action::ReadFileData(ReadFileData { header: h(), opcode: OpCode(1), offset, length }), f)
    }
    h_c15_file_offset {
        let (o, f) = offset();
        let d = FileData::new(h(), o, File::Other(sym::vec(2)), OpCode(4));
        in_action(
            match sym::below(3) {
                0 => Action::WriteFileData(d),
                1 => Action::WriteFileDataFlush(d),
                _ => Action::ReturnFileData(d),
            },
            f,
        )
    }
    h_c15_non_void_length {
        let (length, f) = len();
        query(Query::NonVoid(NonVoid { length, file: FileOffset { file_id: 1, offset: Length::from(2u32) } }), f)
    }
    h_c15_non_void_offset {
        let (file, f) = offset();
        query(Query::NonVoid(NonVoid { length: Length::from(2u32), file }), f)
    }
    h_c15_zero { let (o, f) = offset(); query(Query::ComparisonWithZero(ComparisonWithZero::new(params(), vec![], o)), f) }
    h_c15_value { let (o, f) = offset(); query(Query::ComparisonWithValue(ComparisonWithValue::new(params(), vec![], sym::vec(1), o)), f) }
    h_c15_other_first {
        let (o, f) = offset();
        let p = FileOffset { file_id: 1, offset: Length::from(2u32) };
        query(Query::ComparisonWithOtherFile(ComparisonWithOtherFile::new(params(), vec![], o, p)), f)
    }
    h_c15_other_second {
        let (o, f) = offset();
        let p = FileOffset { file_id: 1, offset: Length::from(2u32) };
        query(Query::ComparisonWithOtherFile(ComparisonWithOtherFile::new(params(), vec![], p, o)), f)
    }
    h_c15_other_length {
        let (l, f) = len();
        let p = FileOffset { file_id: 1, offset: Length::from(2u32) };
        let mut q = ComparisonWithOtherFile::new(params(), vec![], p.clone(), p);
        q.length = l;
        query(Query::ComparisonWithOtherFile(q), f)
    }
    h_c15_bitmap {
        let p = RangeQueryParams { signed: false, comparison_type: RangeComparisonType::InRange };
        let v = sym::u32();
        let o = FileOffset { file_id: 1, offset: Length::from(if sym::split(sym::below(3) as usize) == 2 { v } else { 7u32 }) };
        let mut q = BitmapRangeComparison::new(p, 1, 2, vec![5], o);
        let l: u32 = q.file.offset.into();
        if l == 7 {
            if sym::bool() { q.start = Length::from(v) } else { q.stop = Length::from(v) }
        }
        query(Query::BitmapRangeComparison(q), v <= LEN_MAX)
    }
    h_c15_search {
        let e = sym::u8();
        let o = FileOffset { file_id: 1, offset: Length::from(2u32) };
        query(Query::StringTokenSearch(StringTokenSearch::new(e, vec![], sym::vec(1), o)), e < 8)
    }
    h_c15_search_offset {
        let (o, f) = offset();
        query(Query::StringTokenSearch(StringTokenSearch::new(3, vec![], sym::vec(1), o)), f)
    }
    h_c15_addressee {
        let w = sym::below(2);
        let (a, f) = addressee(w);
        verdict(&a, f);
    }
    h_c15_indirect {
        let w = sym::below(2);
        let (a, f) = addressee(w);
        verdict(&IndirectInterface::Dash7(a.clone()), f);
        in_action(Action::IndirectForward(IndirectForward::new(true, Some(IndirectInterface::Dash7(a)))), f)
    }
    h_c15_config_timeout {
        let (t, f) = var();
        let c = config(t, VarInt::new_unchecked(0, false), Addressee::default());
        verdict(&c, f);
        in_action(Action::Forward(Forward::new(false, InterfaceConfiguration::Dash7(c))), f)
    }
    h_c15_config_delay {
        let (t, f) = var();
        let f = f || cfg!(feature = "subiot");
        let c = config(VarInt::new_unchecked(0, false), t, Addressee::default());
        verdict(&c, f);
        in_action(Action::Forward(Forward::new(false, InterfaceConfiguration::Dash7(c))), f);
        sym::reach(2);
    }
    h_c15_config_addressee {
        let w = sym::below(2);
        let (a, f) = addressee(w);
        let c = config(VarInt::new_unchecked(0, false), VarInt::new_unchecked(0, false), a);
        verdict(&c, f);
        in_action(Action::Forward(Forward::new(false, InterfaceConfiguration::Dash7(c))), f)
    }
    h_c15_status_timeout { let (t, f) = var(); in_action(status(Addressee::default(), t), f) }
    h_c15_status_addressee {
        let w = sym::below(2);
        let (a, f) = addressee(w);
        in_action(status(a, VarInt::new_unchecked(9, false)), f)
    }
    h_c15_channel_index {
        let index = sym::u16();
        let i = ChannelStatusIdentifier { channel_band: gen::band(sym::below(5)), bandwidth: Bandwidth::KHz25, index };
        verdict(&i, index < 1 << 11);
        let s = ChannelStatus { identifier: i, noise_floor: sym::u8() };
        verdict(&s, index < 1 << 11);
        let o = ChannelStatus { identifier: ChannelStatusIdentifier::default(), noise_floor: 1 };
        let p = PhyStatus::new(1, 2, 3, 4, if sym::bool() { vec![s, o] } else { vec![o, s] });
        verdict(&p, index < 1 << 11);
        in_action(file_data(File::PhyStatus(p)), index < 1 << 11);
    }
    h_c15_profile {
        let (v, f) = var();
        let s = dash7::link::SubProfile { subband_bitmap: sym::u8(), scan_automation_period: v };
        verdict(&s, f);
        let i = sym::split(sym::below(4) as usize);
        let mut p = dash7::link::AccessProfile::default();
        p.sub_profiles[i] = s;
        verdict(&p, f);
        verdict(&AccessProfile::<3> { profile: p.clone() }, f);
        let d = FileData::new(h(), FileOffset { file_id: 0x23, offset: Length::from(0u32) }, File::AccessProfile03(AccessProfile::<3> { profile: p }), OpCode(4));
        in_action(Action::WriteFileData(d), f);
    }
    h_c15_fits {
        // numbers that always fit are never refused
        let d = DllStatus {
            last_rx_packet_level: sym::u8(),
            last_rx_packet_link_budget: sym::u8(),
            noise_floor: sym::u8(),
            channel_header: ChannelHeader::default(),
            channel_index: sym::u16(),
            scan_timeout_ratio: sym::u16(),
            scan_count: sym::u32(),
            scan_timeout_count: sym::u32(),
        };
        verdict(&d, true);
        verdict(&Channel { header: ChannelHeader::default(), index: sym::u16() }, true);
        let (a, f) = (Addressee::new(
            #[cfg(feature = "wizzilab")]
            true,
            #[cfg(feature = "wizzilab")]
            dash7::transport::GroupCondition::Any,
            Address::UId(sym::u64()),
            dash7::network::NlsState::AesCtr(sym::bytes::<5>()),
            AccessClass::unavailable(),
        ), true);
        verdict(&a, f);
        sym::reach(2);
    }
    h_c15_transport {
        use dash7::transport::*;
        let (v, f) = var();
        let i = sym::split(sym::below(3) as usize);
        let t = |j| if i == j { Some(v) } else { None };
        let fr = Frame {
            control: Control::default(),
            dialog_id: 1,
            transaction_id: 2,
            target_rx_level_i: None,
            listen_timeout: t(0),
            execution_delay_timeout: t(1),
            congestion_timeout: t(2),
            ack_template: None,
            command: Command::new(vec![]),
        };
        verdict(&fr, f);
    }
    h_c15_noise {
        // the prefix of the variants is written along
        verdict(&NoiseFloor::Fixed(sym::u8()), true);
        verdict(&NoiseFloor::ForgetFactor(sym::u8()), true);
        sym::reach(2);
    }
}
