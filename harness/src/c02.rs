//! C02: encoding, updating and converting are total on every value the public types can hold,
//! also inconsistent ones and ones whose numbers do not fit their field.
use crate::{gen, sym, util};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation::*;
use dash7::app::query::*;
use dash7::file::{AccessProfile, EngineeringMode, EngineeringModeMethod, File, FirmwareVersion, PhyStatus, SecurityKey};
use dash7::link::AccessClass;
use dash7::network::{Address, Addressee};
use dash7::physical::*;
use dash7::session::*;
use dash7::types::VarInt;
use deku::prelude::*;

fn done(r: Result<Vec<u8>, DekuError>) {
    match r {
        Ok(b) => {
            sym::observe(&b);
            sym::reach(1)
        }
        Err(_) => {
            sym::observe(&[]);
            sym::reach(1)
        }
    }
}
fn any_addressee() -> Addressee {
    let w = &mut vec![];
    // every pair of the types it was built with and the types it has now
    let (t, n) = (sym::below(4), sym::below(2));
    let mut a = gen::addressee_tn(w, t, 3 * n);
    if sym::bool() {
        a.address = match sym::below(4) {
            0 => Address::NbId(VarInt::new_unchecked(sym::u32(), sym::bool())),
            1 => Address::NoId,
            2 => Address::UId(sym::u64()),
            _ => Address::VId(sym::u16()),
        };
        a.nls_state = gen::nls(sym::below(8), sym::bytes::<5>());
    }
    a.access_class = AccessClass::new(sym::u8(), sym::u8());
    a
}
fn any_offset() -> FileOffset {
    FileOffset { file_id: sym::u8(), offset: Length::from(sym::u32()) }
}
fn h() -> ActionHeader {
    ActionHeader::new(sym::bool(), sym::bool())
}
entries! {
    h_c02_numbers {
        done(Length::from(sym::u32()).to_bytes());
        done(Length::from(sym::u64() as usize).to_bytes());
        let v = sym::u32();
        let c = sym::bool();
        done(VarInt::new_unchecked(v, c).to_bytes());
        let _ = VarInt::compress(v, c);
        let _ = VarInt::decompress(sym::u8(), sym::u8());
        let _ = VarInt::new(v, c);
        let _: u32 = VarInt::from(v).into();
    }
    h_c02_addressee {
        let mut a = any_addressee();
        done(a.to_bytes());
        let ok = a.update().is_ok();
        sym::check(ok, 1);
        done(a.to_bytes());
    }
    h_c02_action_fields {
        // any opcode and number in the public fields of an operation
        let op = OpCode(sym::u8());
        let a = match sym::below(12) {
            0 => Action::Nop(Nop { header: h(), opcode: op }),
            1 => Action::ReadFileData(ReadFileData { header: h(), opcode: op, offset: any_offset(), length: Length::from(sym::u32()) }),
            2 => Action::ExistFile(FileId { header: h(), opcode: op, file_id: sym::u8() }),
            3 => Action::CopyFile(CopyFile { header: h(), opcode: op, src_file_id: sym::u8(), dst_file_id: sym::u8() }),
            4 => Action::ResponseTag(ResponseTag { header: ResponseTagHeader { end_of_packet: sym::bool(), error: sym::bool() }, opcode: op, id: sym::u8() }),
            5 => Action::RequestTag(RequestTag { header: RequestTagHeader { end_of_packet: sym::bool() }, opcode: op, id: sym::u8() }),
            6 => Action::Logic(Logic { logic: LogicOp::Nor, opcode: op }),
            7 => Action::Chunk(Chunk { step: ChunkStep::End, opcode: op }),
            8 => Action::Extension(Extension { header: h(), opcode: op }),
            9 => Action::Forward(Forward { header: ForwardHeader { response: sym::bool() }, opcode: op, configuration: InterfaceConfiguration::Unknown(sym::u8()) }),
            10 => Action::IndirectForward(IndirectForward {
                header: IndirectForwardHeader::new(sym::bool(), sym::bool()),
                opcode: op,
                configuration: if sym::bool() { Some(IndirectInterface::Unknown(sym::u8())) } else { None },
            }),
            _ => Action::PermissionRequest(PermissionRequest { header: h(), opcode: op, level: PermissionLevel::Root, permission: Permission::Dash7(sym::bytes::<8>()) }),
        };
        let mut a = a;
        done(a.to_bytes());
        sym::check(a.update().is_ok(), 1);
        sym::check(a.deku_id().is_ok(), 2);
        done(Vec::<u8>::try_from(a));
    }
    h_c02_status {
        let st = match sym::below(3) {
            0 => StatusType::Action,
            1 => StatusType::Interface,
            _ => StatusType::InterfaceFinal,
        };
        let ty = match sym::below(6) {
            0 => InterfaceType::Host,
            1 => InterfaceType::Serial,
            2 => InterfaceType::LoRaWanABP,
            3 => InterfaceType::LoRaWanOTAA,
            4 => InterfaceType::Dash7,
            _ => InterfaceType::Unknown,
        };
        let is = match sym::below(3) {
            0 => InterfaceStatus::Host,
            1 => InterfaceStatus::Serial,
            _ => {
                let n = sym::below(3);
                InterfaceStatus::Other(sym::vec(n as usize))
            }
        };
        let status = if sym::bool() {
            Status::Action(ActionStatus { action_id: sym::u8(), status: StatusCode(sym::u8()) })
        } else if sym::bool() {
            Status::Interface(InterfaceStatusOperation { interface_type: ty, status: is })
        } else {
            Status::Interface(is.into())
        };
        let _: StatusOperand = status.clone().into();
        let a = Action::Status(StatusOperand { status_type: st, opcode: OpCode(sym::u8()), status });
        done(a.to_bytes());
    }
    h_c02_file_data {
        // any file under any file id
        let n = sym::below(3);
        let f = match sym::below(5) {
            0 => File::Other(sym::vec(n as usize)),
            1 => File::UId(Address::VId(sym::u16())),
            2 => File::VId(Address::NbId(VarInt::new_unchecked(sym::u32(), false))),
            3 => File::NwlSecurityKey(SecurityKey { key: 7 }),
            _ => File::EngineeringMode(EngineeringMode {
                mode: EngineeringModeMethod::PerRx,
                flags: sym::u8(),
                timeout: 0,
                channel: Channel::default(),
                eirp: -1,
            }),
        };
        let d = FileData::new(h(), any_offset(), f, OpCode(sym::u8()));
        done(Action::WriteFileData(d).to_bytes());
    }
    h_c02_query {
        let n = sym::below(3) as usize;
        let m = sym::below(3) as usize;
        let p = ArithmeticQueryParams { signed: sym::bool(), comparison_type: gen::arith(sym::below(6)) };
        let (mask, value) = (sym::vec(m), sym::vec(n));
        let late = sym::bool();
        let more = sym::u8();
        let q = match sym::below(6) {
            0 => Query::NonVoid(NonVoid { length: Length::from(sym::u32()), file: any_offset() }),
            1 => {
                let mut q = ComparisonWithZero::new(p, mask, any_offset());
                if late { q.mask.push(more); sym::check(q.update().is_ok(), 1); }
                Query::ComparisonWithZero(q)
            }
            2 => {
                let mut q = ComparisonWithValue::new(p, mask, value, any_offset());
                if late { q.value.push(more); sym::check(q.update().is_ok(), 1); }
                Query::ComparisonWithValue(q)
            }
            3 => {
                let mut q = ComparisonWithOtherFile::new(p, mask, any_offset(), any_offset());
                if late { q.length = Length::from(sym::u32()); sym::check(q.update().is_ok(), 1); }
                Query::ComparisonWithOtherFile(q)
            }
            4 => {
                let r = RangeQueryParams { signed: sym::bool(), comparison_type: RangeComparisonType::InRange };
                let mut q = BitmapRangeComparison::new(r, sym::u32(), sym::u32(), mask, any_offset());
                if late { q.length = Length::from(sym::u32()); sym::check(q.update().is_ok(), 1); }
                Query::BitmapRangeComparison(q)
            }
            _ => {
                let mut q = StringTokenSearch::new(sym::u8(), mask, value, any_offset());
                if late { q.value.push(more); q.max_errors = sym::u8(); sym::check(q.update().is_ok(), 1); }
                Query::StringTokenSearch(q)
            }
        };
        done(Action::BreakQuery(ActionQuery { header: h(), opcode: OpCode(9), query: q }).to_bytes());
    }
    h_c02_text {
        // strings shorter and longer than their field, with multi-byte characters
        let n = sym::below(10) as usize;
        let mut s = String::new();
        for i in 0..n {
            if i == 5 && sym::bool() {
                s.push(char::from(0x80 + (sym::u8() & 0x7F)));
            } else {
                s.push(char::from(sym::u8() & 0x7F));
            }
        }
        let mut f = FirmwareVersion { major: sym::u8(), minor: sym::u8(), application_name: s.clone(), git_sha1: s };
        done(f.to_bytes());
        sym::check(f.update().is_ok(), 1);
    }
    h_c02_lora {
        let w = &mut vec![];
        let (a, b) = (sym::below(19) as usize, sym::below(19) as usize);
        let c = if sym::bool() {
            InterfaceConfiguration::LoRaWanABP(LoRaWANABPInterfaceConfiguration {
                base: gen::lora_base(w),
                network_session_key: sym::vec(a),
                app_session_key: sym::vec(b),
                device_address: sym::u32(),
                network_id: sym::u32(),
            })
        } else {
            InterfaceConfiguration::LoRaWanOTAA(LoRaWANOTAAInterfaceConfiguration {
                base: gen::lora_base(w),
                device_eui: sym::vec(a),
                app_eui: sym::vec(b),
                app_key: sym::vec(a),
            })
        };
        done(c.to_bytes());
    }
    h_c02_numbers_in_structures {
        match sym::below(5) {
            0 => {
                let mut p = PhyStatus::new(sym::u32(), sym::u32(), sym::u32(), sym::u16(), vec![]);
                for _ in 0..sym::below(3) {
                    p.channel_status.push(ChannelStatus {
                        identifier: ChannelStatusIdentifier { channel_band: ChannelBand::Band915, bandwidth: Bandwidth::KHz25, index: sym::u16() },
                        noise_floor: sym::u8(),
                    });
                }
                done(p.to_bytes());
                sym::check(p.update().is_ok(), 1);
                done(p.to_bytes());
            }
            1 => {
                let s = Dash7InterfaceStatus {
                    channel: Channel::default(),
                    rx_level: sym::u8(),
                    link_budget: sym::u8(),
                    target_rx_level: sym::u8(),
                    nls: sym::bool(),
                    missed: sym::bool(),
                    retry: sym::bool(),
                    unicast: sym::bool(),
                    fifo_token: sym::u8(),
                    sequence_number: sym::u8(),
                    response_timeout: VarInt::new_unchecked(sym::u32(), sym::bool()),
                    addressee: Addressee::default(),
                };
                done(Action::Status(Status::Interface(InterfaceStatus::Dash7(s).into()).into()).to_bytes());
            }
            2 => {
                let c = Dash7InterfaceConfiguration {
                    dormant_session_timeout: VarInt::new_unchecked(sym::u32(), sym::bool()),
                    ..Default::default()
                };
                done(Action::Forward(Forward::new(sym::bool(), InterfaceConfiguration::Dash7(c))).to_bytes());
            }
            3 => {
                let mut p = dash7::link::AccessProfile::default();
                p.sub_profiles[3].scan_automation_period = VarInt::new_unchecked(sym::u32(), sym::bool());
                done(AccessProfile::<14> { profile: p }.to_bytes());
            }
            _ => {
                let i = NoiseFloor::Fixed(sym::u8());
                done(i.to_bytes());
                done(NoiseFloor::ForgetFactor(sym::u8()).to_bytes());
                done(ChannelStatusIdentifier { channel_band: ChannelBand::Rfu1, bandwidth: Bandwidth::KHz200, index: sym::u16() }.to_bytes());
            }
        }
    }
    h_c02_sizes {
        // sizes that do not fit the byte or the length that counts them
        const SIZES: [usize; 6] = [2, 85, 86, 255, 256, 300];
        let n = SIZES[sym::below(6) as usize];
        let o = FileOffset { file_id: 1, offset: Length::from(2u32) };
        let p = ArithmeticQueryParams { signed: false, comparison_type: gen::arith(0) };
        let (mask, value) = (vec![sym::u8(); n], vec![7u8; n]);
        match sym::below(7) {
            0 => {
                let c = ChannelStatus {
                    identifier: ChannelStatusIdentifier { channel_band: ChannelBand::Band915, bandwidth: Bandwidth::KHz25, index: 7 },
                    noise_floor: sym::u8(),
                };
                let mut p = PhyStatus::new(1, 2, 3, 4, vec![c; n]);
                done(p.to_bytes());
                sym::check(p.update().is_ok() || n > 255, 1);
                done(p.to_bytes());
            }
            1 => done(Query::ComparisonWithZero(ComparisonWithZero::new(p, mask, o)).to_bytes()),
            2 => done(ComparisonWithValue::new(p, mask, value, o).to_bytes()),
            3 => done(ComparisonWithOtherFile::new(p, mask, o.clone(), o).to_bytes()),
            4 => {
                let r = RangeQueryParams { signed: false, comparison_type: RangeComparisonType::InRange };
                done(BitmapRangeComparison::new(r, 1, 200, mask, o).to_bytes());
            }
            5 => done(StringTokenSearch::new(sym::u8(), mask, value, o).to_bytes()),
            _ => done(Action::WriteFileData(FileData::new(h(), o, File::Other(mask), OpCode(4))).to_bytes()),
        }
    }
    h_c02_command {
        let mut w = vec![];
        let k = sym::below(util::SHORT);
        let c = Command::new(vec![
            util::short_action(k, &mut w),
            Action::ReadFileData(ReadFileData { header: h(), opcode: OpCode(0), offset: FileOffset { file_id: 0, offset: Length::from(sym::u32()) }, length: Length::from(3u32) }),
        ]);
        done(c.to_bytes());
        let _ = (c.request_tag(), c.response_tag(), c.request_id(), c.response_id(), c.tag_id(), c.is_last_response());
        let _ = (c.interface_status(), c.actions_without_interface_status());
        done(Vec::<u8>::try_from(c));
    }
    h_c02_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            let n = sym::below(3);
            let s = if sym::bool() { InterfaceFinalStatus::Dash7(gen::final_code(sym::below(23))) } else { InterfaceFinalStatus::Other(sym::vec(n as usize)) };
            done(Action::Status(Status::InterfaceFinal(InterfaceFinalStatusOperation { interface_id: sym::u8(), status: s }).into()).to_bytes());
        }
    }
}
