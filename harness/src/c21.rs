//! C21: nothing is written to the standard streams. Every print reachable on any path is a
//! violation in this module (engine option --no-print).
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::{IndirectInterface, InterfaceConfiguration};
use dash7::app::operation::{FileOffset, Length};
use dash7::app::query::Query;
use dash7::data::FileHeader;
use dash7::file::*;
use dash7::link::{BackgroundFrame, ForegroundFrame};
use dash7::network::Addressee;
use dash7::physical::*;
use dash7::session::{Dash7InterfaceStatus, InterfaceType, QoS};
use dash7::types::{VarInt, VarIntError};
use deku::no_std_io::Cursor;
use deku::prelude::*;

fn part<T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + DekuUpdate>(b: &[u8]) {
    if let Ok((_, mut v)) = T::from_bytes((b, 0)) {
        let e = v.to_bytes();
        let u = v.update();
        sym::observe(&[e.is_ok() as u8, u.is_ok() as u8]);
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    let mut c = Cursor::new(b);
    let _ = T::from_reader((&mut c, 0)).is_ok();
}
fn group(g: u8) {
    let mut w = vec![];
    let mut a = util::group_action(g, &mut w);
    let b = a.to_bytes();
    let _ = a.update();
    let d = Action::try_from(&w[..]);
    sym::observe(&[b.is_ok() as u8, d.is_ok() as u8]);
    let _ = Vec::<u8>::try_from(a);
    let mut c = Cursor::new(&w);
    let _ = Action::from_reader((&mut c, 0)).is_ok();
    sym::reach(1);
}
entries! {
    h_c21_simple { group(0) }
    h_c21_indirect { group(1) }
    h_c21_forward { group(2) }
    h_c21_status { group(3) }
    h_c21_query { gen::set_plain(true); group(4) }
    h_c21_raw { group(5) }
    h_c21_file { group(6) }
    h_c21_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        group(7);
    }
    h_c21_long {
        // long operands, whole and cut
        let mut w = vec![];
        let mut a = util::big_action_of(&[64, 300], &mut w);
        let _ = (a.to_bytes().is_ok(), a.update().is_ok());
        let n = w.len() - [0usize, 60][sym::split(sym::below(2) as usize)];
        let d = Action::try_from(&w[..n]).is_ok();
        let e = Command::try_from(&w[..n]).is_ok();
        sym::observe(&[d as u8, e as u8]);
        let _ = Vec::<u8>::try_from(a);
        sym::reach(1);
    }
    h_c21_long_command {
        let n = [9usize, 17, 33, 65, 129, 256, 257][sym::split(sym::below(7) as usize)];
        let mut w = vec![];
        let k = sym::below(util::SHORT);
        let mut v = vec![];
        v.resize(n, Action::Chunk(dash7::app::operation::ChunkStep::Continue.into()));
        w.resize(n, 0x30);
        v.push(util::short_action(k, &mut w));
        let c = Command::new(v);
        let (d, e) = (c.to_bytes().is_ok(), Command::try_from(&w[..]).is_ok());
        let _ = (c.request_id(), c.response_id(), c.tag_id(), c.is_last_response(), c.interface_status().is_some());
        sym::observe(&[d as u8, e as u8]);
        let _ = c.actions_without_interface_status().len();
        sym::reach(1);
    }
    h_c21_any_action {
        let b = sym::bytes::<5>();
        let n = sym::split(sym::below(6) as usize);
        part::<Action>(&b[..n]);
        let _ = Action::try_from(&b[..n]).is_ok();
    }
    h_c21_any_command {
        let b = sym::bytes::<3>();
        let n = sym::below(4) as usize;
        if let Ok((_, c)) = Command::from_bytes((&b[..n], 0)) {
            let _ = c.to_bytes().is_ok();
            let _ = (c.request_id(), c.response_id(), c.tag_id(), c.is_last_response(), c.interface_status());
            let _ = c.actions_without_interface_status();
            sym::reach(1);
        }
        let _ = Command::try_from(&b[..n]).is_ok();
    }
    h_c21_announced_command {
        // with the length known in advance
        let b = sym::bytes::<3>();
        let n = sym::split(sym::below(4) as usize);
        let len = sym::below(5) as u32;
        let mut c = Cursor::new(&b[..n]);
        let r = &mut Reader::new(&mut c);
        let ok = Command::from_reader_with_ctx(r, len).is_ok();
        sym::observe(&[ok as u8]);
        sym::reach(1);
    }
    h_c21_command {
        let mut w = vec![];
        let (i, j) = (sym::below(util::SHORT), sym::below(util::SHORT));
        let v = vec![util::short_action(i, &mut w), util::short_action(j, &mut w)];
        let c = Command::new(v);
        let ok = c.to_bytes().is_ok();
        let _ = (c.request_tag(), c.response_tag(), c.tag_id(), c.is_last_response(), c.interface_status());
        let _ = Vec::<u8>::try_from(c).is_ok();
        sym::check(ok, 1);
        sym::reach(1);
    }
    h_c21_parts {
        let b = sym::bytes::<9>();
        let n = sym::below(10) as usize;
        let b = &b[..n];
        match sym::below(10) {
            0 => part::<Addressee>(b),
            1 => part::<QoS>(b),
            2 => part::<Length>(b),
            3 => part::<IndirectInterface>(b),
            4 => part::<VarInt>(b),
            5 => part::<FileOffset>(b),
            6 => part::<dash7::network::Control>(b),
            7 => part::<dash7::transport::Control>(b),
            8 => part::<Channel>(b),
            _ => part::<ChannelStatus>(b),
        }
    }
    h_c21_wide_parts {
        let b = sym::bytes::<12>();
        match sym::below(4) {
            0 => part::<FileHeader>(&b),
            1 => part::<Query>(&b[..6]),
            2 => part::<InterfaceConfiguration>(&b[..6]),
            _ => part::<dash7::network::HoppingControl>(&b),
        }
    }
    h_c21_dash7_status {
        let mut b = sym::bytes::<14>();
        b[0] &= 0xFC;
        part::<Dash7InterfaceStatus>(&b);
    }
    h_c21_background {
        let b = sym::bytes::<8>();
        let n = sym::below(9) as usize;
        part::<BackgroundFrame>(&b[..n]);
    }
    h_c21_foreground {
        let b = sym::bytes::<6>();
        let n = sym::split(sym::below(7) as usize);
        let _ = ForegroundFrame::try_from(&b[..n]).is_ok();
        sym::reach(1);
    }
    h_c21_network {
        let b = sym::bytes::<5>();
        let n = sym::split(sym::below(6) as usize);
        let _ = dash7::network::Frame::try_from(&b[..n]).is_ok();
        sym::reach(1);
    }
    h_c21_transport_any {
        let b = sym::bytes::<5>();
        let n = sym::split(sym::below(6) as usize);
        let _ = dash7::transport::Frame::try_from(&b[..n]).is_ok();
        sym::reach(1);
    }
    h_c21_transport {
        use dash7::transport::*;
        let f = Frame {
            control: Control { has_agc: sym::bool(), ..Control::default() },
            dialog_id: sym::u8(),
            transaction_id: sym::u8(),
            target_rx_level_i: Some(sym::u8()),
            listen_timeout: Some(VarInt::new_unchecked(sym::u32(), false)),
            execution_delay_timeout: None,
            congestion_timeout: None,
            ack_template: Some(AckTemplate { transaction_id_start: 1, transaction_id_stop: 2 }),
            command: Command::new(vec![gen::simple(16, &mut vec![])]),
        };
        let ok = f.to_bytes().is_ok();
        sym::observe(&[ok as u8]);
        sym::reach(1);
    }
    h_c21_file_bytes {
        let id = sym::u8();
        let b = sym::bytes::<17>();
        let n = sym::below(18) as usize;
        sym::assume(!(0x20..0x2F).contains(&id));
        // texts that are not UTF-8 only at the end
        for i in 2..14 {
            sym::assume(id != 2 || b[i] < 128);
        }
        let (Ok(id), len) = (FileId::try_from(id), sym::below(20) as u32) else { return sym::check(false, 1) };
        let r = File::from_bytes((&b[..n], 0), id, len);
        sym::observe(&[r.is_ok() as u8]);
        sym::reach(1);
    }
    h_c21_files {
        let mut w = vec![];
        let k = sym::below(gen::FILES);
        let (_, f) = gen::file(k, &mut w);
        match f {
            File::FactorySettings(_) => part::<FactorySettings>(&w),
            File::FirmwareVersion(_) => part::<FirmwareVersion>(&w),
            File::EngineeringMode(_) => part::<EngineeringMode>(&w),
            File::PhyStatus(_) => part::<PhyStatus>(&w),
            File::DllConfig(_) => part::<DllConfig>(&w),
            File::DllStatus(_) => part::<DllStatus>(&w),
            File::NwlSecurityKey(_) => part::<SecurityKey>(&w),
            File::AccessProfile00(_) => part::<AccessProfile<0>>(&w),
            _ => sym::reach(3),
        }
    }
    h_c21_offset {
        let b = sym::bytes::<3>();
        let o = sym::below(26) as usize;
        if sym::bool() {
            let _ = Action::from_bytes((&b[..], o)).is_ok();
        } else {
            let _ = Command::from_bytes((&b[..2], o)).is_ok();
        }
        sym::reach(1);
    }
    h_c21_numbers {
        let v = sym::u32();
        let c = sym::bool();
        let _ = Length::from(v).to_bytes().is_ok();
        let _ = VarInt::new_unchecked(v, c).to_bytes().is_ok();
        let _ = VarInt::compress(v, c);
        let _ = VarInt::decompress(sym::u8(), sym::u8());
        if let Err(e) = VarInt::new(v, c) {
            let _: DekuError = e.into();
        }
        let e = match sym::below(3) {
            0 => VarIntError::ExponentTooLarge(sym::u8()),
            1 => VarIntError::MantissaTooLarge(sym::u8()),
            _ => VarIntError::Unknown,
        };
        let _: DekuError = e.into();
        let _: u32 = VarInt::from(v).into();
        let f: Length = v.into();
        let _: usize = f.into();
        sym::reach(1);
    }
    h_c21_ids {
        let b = sym::u8();
        let _ = (FileId::try_from(b).is_ok(), InterfaceType::try_from(b).is_ok());
        part::<InterfaceType>(&[b]);
        let _ = dash7::app::operation::StatusCode(b).is_err();
    }
    h_c21_refused {
        // values that cannot be encoded
        let mut w = vec![];
        let mut a = gen::addressee(&mut w);
        a.access_class = dash7::link::AccessClass::new(sym::u8(), sym::u8());
        let _ = a.to_bytes().is_ok();
        let _ = a.update();
        let mut p = gen::phy_status(&mut w, 1);
        p.channel_status[0].identifier.index = sym::u16();
        let _ = p.to_bytes().is_ok();
        let _ = p.update();
        sym::reach(1);
    }
    h_c21_text {
        let n = sym::split(sym::below(10) as usize);
        let s = gen::text(&mut vec![], n, n);
        let f = FirmwareVersion { major: 1, minor: 2, application_name: s.clone(), git_sha1: s };
        let _ = f.to_bytes().is_ok();
        sym::reach(1);
    }
}
