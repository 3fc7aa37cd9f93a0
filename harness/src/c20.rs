//! C20: identifiers and status codes mean the same thing in both directions, for every number.
use crate::{gen, sym, util};
use dash7::app::action::{Action, OpCode};
use dash7::app::interface::*;
use dash7::app::operation::{ActionStatus, InterfaceStatusOperation, Status, StatusCode, StatusOperand, StatusType};

use dash7::data::{ActionCondition, StorageClass};
use dash7::file::{File, FileId};
use dash7::network::{AddressType, NlsMethod};
use dash7::physical::*;
use dash7::session::*;
use deku::prelude::*;

/// what a file number means; none for the patterns without a name of their own
fn file_name(b: u8) -> FileId {
    use FileId::*;
    match b {
        0x00 => UId,
        0x01 => FactorySettings,
        0x02 => FirmwareVersion,
        0x03 => DeviceCapacity,
        0x04 => DeviceStatus,
        0x05 => EngineeringMode,
        0x06 => VId,
        0x08 => PhyConfig,
        0x09 => PhyStatus,
        0x0A => DllConfig,
        0x0B => DllStatus,
        0x0C => NetworkRouting,
        0x0D => NetworkSecurity,
        0x0E => NetworkSecurityKey,
        0x0F => NetworkSsr,
        0x10 => NetworkStatus,
        0x11 => TrlStatus,
        0x12 => SelConfig,
        0x13 => FofStatus,
        0x07 | 0x14..=0x16 => Rfu,
        0x17 => LocationData,
        0x18 => RootKey,
        0x19 => UserKey,
        0x1B => SensorDescription,
        0x1C => Rtc,
        0x1D..=0x1F => D7AalpRfu,
        0x20 => AccessProfile00,
        0x21 => AccessProfile01,
        0x22 => AccessProfile02,
        0x23 => AccessProfile03,
        0x24 => AccessProfile04,
        0x25 => AccessProfile05,
        0x26 => AccessProfile06,
        0x27 => AccessProfile07,
        0x28 => AccessProfile08,
        0x29 => AccessProfile09,
        0x2A => AccessProfile10,
        0x2B => AccessProfile11,
        0x2C => AccessProfile12,
        0x2D => AccessProfile13,
        0x2E => AccessProfile14,
        _ => Other,
    }
}
/// decoding the `bits` topmost bits of any byte gives `names[code]`, or an error beyond
macro_rules! codes {
    ($t:ty, $bits:literal, [$($name:expr),* $(,)?]) => {{
        let b = sym::u8();
        let code = b >> (8 - $bits);
        let names = [$($name),*];
        let data = [b];
        match <$t>::from_bytes((&data, 0)) {
            Ok((_, v)) => {
                sym::check((code as usize) < names.len(), 1);
                if (code as usize) < names.len() {
                    let i = sym::split(code as usize);
                    sym::check(v == names[i], 2);
                }
                match v.to_bytes() {
                    Ok(w) => sym::check(w.len() == 1 && w[0] == code << (8 - $bits), 3),
                    Err(_) => sym::check(false, 4),
                }
                sym::reach(1)
            }
            Err(_) => sym::check(code as usize >= names.len(), 5),
        }
    }};
}
fn opcode_of(g: u8) {
    let mut w = vec![];
    let a = util::group_action(g, &mut w);
    match a.deku_id() {
        Ok(OpCode(c)) => sym::check(c == w[0] & 0x3F, 1),
        Err(_) => sym::check(false, 2),
    }
    // the opcode found in a decoded action is the one it carried
    match Action::try_from(&w[..]) {
        Ok(v) => {
            sym::check(v.deku_id().ok() == a.deku_id().ok(), 3);
            match v.to_bytes() {
                Ok(b) => sym::check(b[0] == w[0], 4),
                Err(_) => sym::check(false, 5),
            }
            sym::reach(1)
        }
        Err(_) => sym::check(false, 6),
    }
}
entries! {
    k_c20_file_id_number {
        // a file number without a name of its own has no way back to the number
        let n: u8 = dash7::file::FileId::try_from(0x45).unwrap().into();
        sym::check(n == 0x45, 1);
        sym::reach(1);
    }
    k_c20_final_other_wizzilab {
        #[cfg(feature = "wizzilab")]
        {
            let s = dash7::session::InterfaceFinalStatus::Other(vec![1]);
            let _ = dash7::app::operation::InterfaceFinalStatusOperation::from(s);
        }
        sym::reach(1);
    }
    k_c20_interface_number {
        let t = dash7::session::InterfaceType::try_from(0x45).unwrap();
        let n: u8 = t.into();
        sym::check(n == 0x45, 1);
        sym::reach(1);
    }
    h_c20_file_id {
        let b = sym::u8();
        match FileId::try_from(b) {
            Ok(f) => {
                sym::check(f == file_name(b), 1);
                sym::reach(1);
                if !matches!(f, FileId::Rfu | FileId::D7AalpRfu | FileId::Other) {
                    let n: u8 = f.into();
                    sym::check(n == b, 2);
                }
            }
            Err(_) => sym::check(false, 3),
        }
        // and when read from a stream
        let d = [b, 1, 2];
        match FileId::from_bytes((&d, 0)) {
            Ok((r, f)) => {
                sym::check(r.0.len() == 2 && r.1 == 0, 4);
                sym::check(f == file_name(b), 5);
                if !matches!(f, FileId::Rfu | FileId::D7AalpRfu | FileId::Other) {
                    match f.to_bytes() {
                        Ok(w) => sym::check(w.len() == 1 && w[0] == b, 6),
                        Err(_) => sym::check(false, 7),
                    }
                }
            }
            Err(_) => sym::check(false, 8),
        }
    }
    h_c20_file_kind {
        // the file id decides what kind of file it is
        let mut w = vec![];
        let k = sym::below(gen::FILES);
        let (id, f) = gen::file(k, &mut w);
        let Ok(fid) = FileId::try_from(id) else { return sym::check(false, 1) };
        sym::check(f.deku_id().ok() == Some(fid.clone()), 2);
        match File::from_bytes((&w, 0), fid.clone(), w.len() as u32) {
            Ok((_, v)) => {
                sym::check(v.deku_id().ok() == Some(fid), 3);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 4),
        }
    }
    h_c20_file_other {
        let id = sym::u8();
        sym::assume(!gen::structured(id));
        let Ok(fid) = FileId::try_from(id) else { return sym::check(false, 1) };
        match File::from_bytes((&[1, 2, 3], 0), fid, 2) {
            Ok((_, File::Other(v))) => {
                sym::check(v.len() == 2, 2);
                sym::reach(1)
            }
            _ => sym::check(false, 3),
        }
    }
    h_c20_interface_type {
        let b = sym::u8();
        let want = match b {
            0 => InterfaceType::Host,
            1 => InterfaceType::Serial,
            2 => InterfaceType::LoRaWanABP,
            3 => InterfaceType::LoRaWanOTAA,
            0xD7 => InterfaceType::Dash7,
            _ => InterfaceType::Unknown,
        };
        match InterfaceType::try_from(b) {
            Ok(t) => {
                sym::check(t == want, 1);
                sym::reach(1);
                if t != InterfaceType::Unknown {
                    let n: u8 = t.into();
                    sym::check(n == b, 2);
                    match t.to_bytes() {
                        Ok(w) => sym::check(w.len() == 1 && w[0] == b, 3),
                        Err(_) => sym::check(false, 4),
                    }
                }
            }
            Err(_) => sym::check(false, 5),
        }
    }
    h_c20_interface_config {
        let mut w = vec![];
        let k = sym::below(6);
        let c = gen::interface_config(k, &mut w);
        sym::check(k == 5 || c.deku_id().ok() == Some(w[0]), 1);
        match InterfaceConfiguration::from_bytes((&w, 0)) {
            Ok((_, v)) => {
                sym::check(v == c, 2);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 3),
        }
        let mut w = vec![];
        let k = sym::below(4);
        let c = gen::indirect_interface(k, &mut w);
        sym::check(k == 3 || c.deku_id().ok() == Some(w[0]), 4);
    }
    h_c20_status_code {
        let b = sym::u8();
        sym::check(StatusCode(b).is_err() == (b >= 0x80), 1);
        match StatusCode::from_bytes((&[b], 0)) {
            Ok((_, s)) => {
                sym::check(s == StatusCode(b) && s.0 == b, 2);
                sym::check(s.is_err() == (b >= 0x80), 3);
                match s.to_bytes() {
                    Ok(w) => sym::check(w.len() == 1 && w[0] == b, 4),
                    Err(_) => sym::check(false, 5),
                }
                sym::reach(1)
            }
            Err(_) => sym::check(false, 6),
        }
        // through a whole action
        let id = sym::u8();
        let d = [34, id, b];
        match Action::try_from(&d[..]) {
            Ok(Action::Status(StatusOperand { status: Status::Action(s), status_type: StatusType::Action, .. })) => {
                sym::check(s == ActionStatus { action_id: id, status: StatusCode(b) }, 7);
                sym::check(s.status.is_err() == (b & 0x80 != 0), 8)
            }
            _ => sym::check(false, 9),
        }
    }
    h_c20_status_names {
        let t = [
            (StatusCode::OK, 0),
            (StatusCode::RECEIVED, 1),
            (StatusCode::ITF_FULL, 2),
            (StatusCode::FILE_ID_MISSING, 0xFF),
            (StatusCode::CREATE_FILE_ID_ALREADY_EXIST, 0xFE),
            (StatusCode::FILE_IS_NOT_RESTORABLE, 0xFD),
            (StatusCode::INSUFFICIENT_PERMISSION, 0xFC),
            (StatusCode::CREATE_FILE_LENGTH_OVERFLOW, 0xFB),
            (StatusCode::CREATE_FILE_ALLOCATION_OVERFLOW, 0xFA),
            (StatusCode::WRITE_OFFSET_OVERFLOW, 0xF9),
            (StatusCode::WRITE_DATA_OVERFLOW, 0xF8),
            (StatusCode::WRITE_STORAGE_UNAVAILABLE, 0xF7),
            (StatusCode::UNKNOWN_OPERATION, 0xF6),
            (StatusCode::OPERATION_INCOMPLETE, 0xF5),
            (StatusCode::OPERATION_WRONG_FORMAT, 0xF4),
            (StatusCode::UNKNOWN_ERROR, 0x80),
        ];
        let i = sym::split(sym::below(16) as usize);
        sym::check(t[i].0.0 == t[i].1, 1);
        sym::check(t[i].0.is_err() == (i > 2), 2);
        sym::reach(1);
    }
    h_c20_opcode {
        // every opcode is either the kind it names or rejected
        let b = sym::vec(16);
        let op = b[0] & 0x3F;
        match Action::from_bytes((&b, 0)) {
            Ok((_, a)) => {
                sym::check(a.deku_id().ok() == Some(OpCode(op)), 1);
                let name = match a {
                    Action::Nop(_) => 0,
                    Action::ReadFileData(_) => 1,
                    Action::ReadFileProperties(_) => 2,
                    Action::WriteFileData(_) => 4,
                    Action::WriteFileDataFlush(_) => 5,
                    Action::WriteFileProperties(_) => 6,
                    Action::ActionQuery(_) => 8,
                    Action::BreakQuery(_) => 9,
                    Action::PermissionRequest(_) => 10,
                    Action::VerifyChecksum(_) => 11,
                    Action::ExistFile(_) => 16,
                    Action::CreateNewFile(_) => 17,
                    Action::DeleteFile(_) => 18,
                    Action::RestoreFile(_) => 19,
                    Action::FlushFile(_) => 20,
                    Action::CopyFile(_) => 23,
                    Action::ExecuteFile(_) => 31,
                    Action::ReturnFileData(_) => 32,
                    Action::ReturnFileProperties(_) => 33,
                    Action::Status(_) => 34,
                    Action::ResponseTag(_) => 35,
                    #[cfg(feature = "wizzilab")]
                    Action::TxStatus(_) => 38,
                    Action::Chunk(_) => 48,
                    Action::Logic(_) => 49,
                    Action::Forward(_) => 50,
                    Action::IndirectForward(_) => 51,
                    Action::RequestTag(_) => 52,
                    Action::Extension(_) => 63,
                };
                sym::check(name == op, 2);
                sym::reach(1)
            }
            Err(_) => {
                let always = matches!(op, 0 | 2 | 16 | 18 | 19 | 20 | 23 | 31 | 35 | 48 | 49 | 52 | 63);
                sym::check(!always, 3);
                sym::reach(2)
            }
        }
    }
    h_c20_opcode_names {
        let t = [
            (OpCode::NOP, 0u8), (OpCode::READ_FILE_DATA, 1), (OpCode::READ_FILE_PROPERTIES, 2), (OpCode::WRITE_FILE_DATA, 4),
            (OpCode::WRITE_FILE_DATA_FLUSH, 5), (OpCode::WRITE_FILE_PROPERTIES, 6), (OpCode::ACTION_QUERY, 8), (OpCode::BREAK_QUERY, 9),
            (OpCode::PERMISSION_REQUEST, 10), (OpCode::VERIFY_CHECKSUM, 11), (OpCode::EXIST_FILE, 16), (OpCode::CREATE_NEW_FILE, 17),
            (OpCode::DELETE_FILE, 18), (OpCode::RESTORE_FILE, 19), (OpCode::FLUSH_FILE, 20), (OpCode::COPY_FILE, 23), (OpCode::EXECUTE_FILE, 31),
            (OpCode::RETURN_FILE_DATA, 32), (OpCode::RETURN_FILE_PROPERTIES, 33), (OpCode::STATUS, 34), (OpCode::RESPONSE_TAG, 35),
            (OpCode::CHUNK, 48), (OpCode::LOGIC, 49), (OpCode::FORWARD, 50), (OpCode::INDIRECT_FORWARD, 51), (OpCode::REQUEST_TAG, 52),
            (OpCode::EXTENSION, 63),
        ];
        let i = sym::split(sym::below(t.len() as u8) as usize);
        sym::check(t[i].0.0 == t[i].1, 1);
        sym::reach(1);
    }
    h_c20_simple { opcode_of(0) }
    h_c20_indirect { opcode_of(1) }
    h_c20_forward { opcode_of(2) }
    h_c20_status {
        opcode_of(3)
    }
    h_c20_query {
        opcode_of(4)
    }
    h_c20_raw { opcode_of(5) }
    h_c20_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        opcode_of(7);
    }
    h_c20_stale_opcode {
        // the kind decides, also when the opcode field holds another one
        let mut w = vec![];
        let a = gen::simple(2, &mut w);
        let Action::ReadFileProperties(mut f) = a else { return sym::check(false, 1) };
        f.opcode = OpCode(sym::below(64));
        let k = sym::split(sym::below(5) as usize);
        let (a, op) = match k {
            0 => (Action::ExistFile(f), 16u8),
            1 => (Action::DeleteFile(f), 18),
            2 => (Action::RestoreFile(f), 19),
            3 => (Action::FlushFile(f), 20),
            _ => (Action::ExecuteFile(f), 31),
        };
        match a.to_bytes() {
            Ok(b) => {
                sym::check(b.len() == 2 && b[0] == w[0] & 0xC0 | op && b[1] == w[1], 2);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 3),
        }
    }
    h_c20_query_kind {
        let mut w = vec![];
        let (k, n) = (sym::below(6), sym::below(3));
        let q = gen::query(k, n as usize, true, false, &mut w);
        sym::check(q.deku_id().ok() == Some(w[0] >> 5), 1);
        sym::reach(1);
    }
    h_c20_status_kind {
        // the announced kind of a status and of an interface status follow from the value
        let k = sym::split(sym::below(3) as usize) as u8;
        let mut w = vec![];
        let Action::Status(s) = gen::interface_status(k, &mut w) else { return sym::check(false, 1) };
        sym::check(s.status_type == StatusType::Interface, 2);
        let Status::Interface(i) = s.status else { return sym::check(false, 3) };
        let want = [InterfaceType::Host, InterfaceType::Serial, InterfaceType::Dash7][k as usize];
        sym::check(i.interface_type == want, 4);
        let again: InterfaceStatusOperation = i.status.clone().into();
        sym::check(again == i, 5);
        let o: Status = i.into();
        let o: StatusOperand = o.into();
        sym::check(o.status_type == StatusType::Interface && o.opcode == OpCode(34), 6);
        let a: StatusOperand = Status::Action(ActionStatus { action_id: sym::u8(), status: StatusCode(sym::u8()) }).into();
        sym::check(a.status_type == StatusType::Action && a.opcode == OpCode(34), 7);
        sym::reach(1);
    }
    h_c20_status_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            use dash7::app::operation::InterfaceFinalStatusOperation;
            let k = sym::below(23);
            let b = gen::FINAL_CODES[k as usize];
            let c = gen::final_code(k);
            sym::check(c.to_bytes().ok() == Some(vec![b]), 1);
            let o: InterfaceFinalStatusOperation = InterfaceFinalStatus::Dash7(c).into();
            sym::check(o.interface_id == 0xD7, 2);
            let s: Status = o.into();
            let s: StatusOperand = s.into();
            sym::check(s.status_type == StatusType::InterfaceFinal, 3);
        }
    }
    h_c20_final_code {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            let b = sym::u8();
            match InterfaceFinalStatusCode::from_bytes((&[b], 0)) {
                Ok((_, c)) => {
                    sym::check(b == 0 || b >= 0xEA, 1);
                    if b == 0 || b >= 0xEA {
                        let k = if b == 0 { 0 } else { 0xFF - b + 1 };
                        sym::check(c == gen::final_code(sym::split(k as usize) as u8), 2);
                    }
                    sym::check(c.to_bytes().ok() == Some(vec![b]), 3);
                }
                Err(_) => sym::check(b != 0 && b < 0xEA, 4),
            }
        }
    }
    h_c20_nls {
        #[cfg(not(feature = "wizzilab"))]
        codes!(NlsMethod, 4, [NlsMethod::None, NlsMethod::AesCtr, NlsMethod::AesCbcMac128, NlsMethod::AesCbcMac64, NlsMethod::AesCbcMac32, NlsMethod::AesCcm128, NlsMethod::AesCcm64, NlsMethod::AesCcm32]);
        #[cfg(feature = "wizzilab")]
        codes!(NlsMethod, 3, [NlsMethod::None, NlsMethod::AesCtr, NlsMethod::AesCbcMac128, NlsMethod::AesCbcMac64, NlsMethod::AesCbcMac32, NlsMethod::AesCcm128, NlsMethod::AesCcm64, NlsMethod::AesCcm32]);
    }
    h_c20_nls_state {
        let k = sym::split(sym::below(8) as usize) as u8;
        let m = [NlsMethod::None, NlsMethod::AesCtr, NlsMethod::AesCbcMac128, NlsMethod::AesCbcMac64, NlsMethod::AesCbcMac32, NlsMethod::AesCcm128, NlsMethod::AesCcm64, NlsMethod::AesCcm32];
        sym::check(gen::nls(k, [0; 5]).deku_id().ok() == Some(m[k as usize]), 1);
        let mut w = vec![];
        let t = sym::split(sym::below(4) as usize);
        let a = gen::addressee_tn(&mut w, t as u8, k);
        let types = [AddressType::NbId, AddressType::NoId, AddressType::UId, AddressType::VId];
        sym::check(a.address.deku_id().ok() == Some(types[t]), 2);
        sym::check(a.nls_state.deku_id().ok() == Some(m[k as usize]), 3);
        sym::reach(1);
    }
    h_c20_address { codes!(AddressType, 2, [AddressType::NbId, AddressType::NoId, AddressType::UId, AddressType::VId]) }
    h_c20_band { codes!(ChannelBand, 3, [ChannelBand::Rfu0, ChannelBand::Rfu1, ChannelBand::Band433, ChannelBand::Band868, ChannelBand::Band915]) }
    h_c20_class { codes!(ChannelClass, 2, [ChannelClass::LoRate, ChannelClass::Lora, ChannelClass::NormalRate, ChannelClass::HiRate]) }
    h_c20_coding { codes!(ChannelCoding, 2, [ChannelCoding::Pn9, ChannelCoding::Rfu, ChannelCoding::FecPn9, ChannelCoding::Cw]) }
    h_c20_bandwidth { codes!(Bandwidth, 2, [Bandwidth::KHz200, Bandwidth::KHz25]) }
    h_c20_csma { codes!(CsmaCaMode, 4, [CsmaCaMode::Unc, CsmaCaMode::Aind, CsmaCaMode::Raind, CsmaCaMode::Rigd]) }
    h_c20_condition { codes!(ActionCondition, 3, [ActionCondition::List, ActionCondition::Read, ActionCondition::Write, ActionCondition::WriteFlush]) }
    h_c20_storage { codes!(StorageClass, 2, [StorageClass::Transient, StorageClass::Volatile, StorageClass::Restorable, StorageClass::Permanent]) }
    h_c20_retry { codes!(RetryMode, 3, [RetryMode::No, RetryMode::OneshotRetry, RetryMode::FifoFast, RetryMode::FifoSlow, RetryMode::SingleFast, RetryMode::SingleSlow, RetryMode::OneshotSticky, RetryMode::Rfu]) }
    h_c20_response {
        let b = sym::u8();
        let want = match b >> 5 {
            0 => Some(ResponseMode::No),
            1 => Some(ResponseMode::All),
            2 => Some(ResponseMode::Any),
            4 => Some(ResponseMode::NoRepeat),
            5 => Some(ResponseMode::OnError),
            6 => Some(ResponseMode::Preferred),
            _ => None,
        };
        let d = [b];
        match ResponseMode::from_bytes((&d, 0)) {
            Ok((_, v)) => {
                sym::check(Some(v.clone()) == want, 1);
                sym::check(v.to_bytes().ok() == Some(vec![b & 0xE0]), 2);
                sym::reach(1)
            }
            Err(_) => sym::check(want.is_none(), 3),
        }
    }
    h_c20_status_type { codes!(StatusType, 2, [StatusType::Action, StatusType::Interface, StatusType::InterfaceFinal]) }
    h_c20_comparison {
        use dash7::app::query::{ArithmeticComparisonType, RangeComparisonType};
        if sym::split(sym::bool() as usize) == 1 {
            codes!(ArithmeticComparisonType, 3, [gen::arith(0), gen::arith(1), gen::arith(2), gen::arith(3), gen::arith(4), gen::arith(5)])
        } else {
            codes!(RangeComparisonType, 3, [RangeComparisonType::NotInRange, RangeComparisonType::InRange])
        }
    }
    h_c20_chunk_logic {
        use dash7::app::operation::{ChunkStep, LogicOp};
        if sym::split(sym::bool() as usize) == 1 {
            codes!(ChunkStep, 2, [ChunkStep::Continue, ChunkStep::Start, ChunkStep::End, ChunkStep::StartEnd])
        } else {
            codes!(LogicOp, 2, [LogicOp::Or, LogicOp::Xor, LogicOp::Nor, LogicOp::Nand])
        }
    }
    h_c20_permission {
        use dash7::app::operation::{Permission, PermissionLevel};
        codes!(PermissionLevel, 8, [PermissionLevel::User, PermissionLevel::Root]);
        let b = sym::bytes::<9>();
        match Permission::from_bytes((&b, 0)) {
            Ok((_, Permission::Dash7(k))) => sym::check(b[0] == 0x42 && k[..] == b[1..], 11),
            Err(_) => sym::check(b[0] != 0x42, 12),
        }
    }
    h_c20_profile_id {
        use dash7::file::{AccessProfile, SystemFile, FirmwareVersion};
        sym::check(<AccessProfile<0> as SystemFile>::ID == 0x20, 1);
        sym::check(<AccessProfile<9> as SystemFile>::ID == 0x29, 2);
        sym::check(<AccessProfile<14> as SystemFile>::ID == 0x2E, 3);
        sym::check(<FirmwareVersion as SystemFile>::ID == 2, 4);
        sym::reach(1);
    }
}
