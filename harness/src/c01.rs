//! C01: decoding is total: any bytes give a value or an error, never a panic or a bad access.
use crate::{sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::{IndirectInterface, InterfaceConfiguration};
use dash7::file::{File, FileId};
use dash7::link::{AccessProfile, BackgroundFrame, ForegroundFrame};
use dash7::network::Addressee;
use dash7::session::{Dash7InterfaceStatus, InterfaceType, QoS};
use deku::no_std_io::Cursor;
use deku::prelude::*;

fn done(ok: bool) {
    sym::observe(&[ok as u8]);
    if ok {
        sym::reach(1)
    } else {
        sym::reach(2)
    }
}
fn part<'a, T: DekuContainerRead<'a>>(b: &'a [u8]) {
    done(T::from_bytes((b, 0)).is_ok())
}
/// an access profile in which one of the four compressed periods has any exponent
fn profile_bytes() -> [u8; 65] {
    let mut b = sym::bytes::<65>();
    let f = sym::below(4);
    for i in 0..4 {
        if i != f as usize {
            b[2 + 2 * i] &= 0x1F;
        }
    }
    b
}
entries! {
    h_c01_action {
        let b = sym::bytes::<8>();
        let n = sym::below(9) as usize;
        done(Action::from_bytes((&b[..n], 0)).is_ok());
    }
    h_c01_slice {
        let b = sym::bytes::<5>();
        let n = sym::below(6) as usize;
        done(Action::try_from(&b[..n]).is_ok());
    }
    h_c01_wide {
        // operations with long operands
        let b = sym::bytes::<46>();
        let n = sym::below(47) as usize;
        sym::assume(matches!(b[0] & 0x3F, 6 | 10 | 17 | 33 | 34 | 38 | 50 | 51));
        // operands of this kind already varied in the short entries
        sym::assume(b[0] & 0x3F != 50 || b[1] == 2 || b[1] == 3 || (b[1] == 0xD7 && b[3] < 32));
        done(Action::from_bytes((&b[..n], 0)).is_ok());
    }
    h_c01_file {
        let id = sym::u8();
        let len = sym::u32();
        let b = sym::bytes::<66>();
        let n = sym::below(67) as usize;
        sym::assume(id != 2 && id != 9 && !(0x20..0x2F).contains(&id));
        let Ok(id) = FileId::try_from(id) else { return sym::check(false, 1) };
        done(File::from_bytes((&b[..n], 0), id, len).is_ok());
    }
    h_c01_phy {
        // up to two channel entries with everything free
        let b = sym::bytes::<21>();
        let n = sym::below(22) as usize;
        done(File::from_bytes((&b[..n], 0), FileId::PhyStatus, 0).is_ok());
    }
    h_c01_phy_long {
        // any announced count against 20 valid entries
        let mut b = sym::bytes::<75>();
        for k in 0..20 {
            b[15 + 3 * k] &= 7;
        }
        let n = sym::below(76) as usize;
        done(File::from_bytes((&b[..n], 0), FileId::PhyStatus, 0).is_ok());
    }
    h_c01_profile_file {
        let mut b = profile_bytes();
        b[0] = 0x30;
        let id = sym::u8();
        sym::assume((0x20..0x2F).contains(&id));
        let Ok(id) = FileId::try_from(id) else { return sym::check(false, 1) };
        let n = sym::below(66) as usize;
        done(File::from_bytes((&b[..n], 0), id, sym::u32()).is_ok());
    }
    h_c01_text {
        // the file with text in it: arbitrary, also invalid, UTF-8 in the last characters
        let b = sym::bytes::<16>();
        let n = sym::below(17) as usize;
        for i in 2..15 {
            sym::assume(b[i] < 0x80 || matches!(i, 5 | 6 | 7 | 13 | 14));
        }
        done(File::from_bytes((&b[..n], 0), FileId::FirmwareVersion, sym::u32()).is_ok());
    }
    h_c01_command {
        let b = sym::bytes::<4>();
        let n = sym::below(5) as usize;
        done(Command::from_bytes((&b[..n], 0)).is_ok());
    }
    h_c01_command_slice {
        let b = sym::bytes::<3>();
        let n = sym::below(4) as usize;
        done(Command::try_from(&b[..n]).is_ok());
    }
    h_c01_offset {
        let b = sym::bytes::<3>();
        let o = sym::below(27) as usize;
        if sym::bool() {
            done(Action::from_bytes((&b[..], o)).is_ok())
        } else {
            let id = if sym::bool() { FileId::VId } else { FileId::Other };
            done(File::from_bytes((&b[..], o), id, 1).is_ok())
        }
    }
    k_c01_far_part {
        // the readers deku derives for the components skip at most 128 bytes at once
        let b = [0u8; 140];
        let _ = Addressee::from_bytes((&b, 8 * 130));
        sym::reach(1);
    }
    h_c01_offset_far {
        let b = vec![0x34; 400];
        let n = [0usize, 100, 129, 400][sym::split(sym::below(4) as usize)];
        let o = [127usize, 128, 129, 255, 256, 300, 401, 8192][sym::split(sym::below(8) as usize)];
        let o = 8 * o + sym::split(sym::below(8) as usize);
        match sym::below(3) {
            0 => done(Action::from_bytes((&b[..n], o)).is_ok()),
            1 => done(Command::from_bytes((&b[..n], o)).is_ok()),
            _ => done(File::from_bytes((&b[..n], o), FileId::VId, 2).is_ok()),
        }
    }
    h_c01_offset_command {
        let b = sym::bytes::<2>();
        let n = sym::below(3) as usize;
        let o = sym::below(19) as usize;
        done(Command::from_bytes((&b[..n], o)).is_ok())
    }
    h_c01_reader {
        let b = sym::bytes::<2>();
        let n = sym::below(3) as usize;
        let o = sym::below(19) as usize;
        let mut c = Cursor::new(&b[..n]);
        if sym::bool() {
            done(Action::from_reader((&mut c, o)).is_ok())
        } else {
            done(Command::from_reader((&mut c, o)).is_ok())
        }
    }
    h_c01_background {
        let b = sym::bytes::<8>();
        let n = sym::below(9) as usize;
        done(BackgroundFrame::try_from(&b[..n]).is_ok());
    }
    h_c01_transport {
        let b = sym::bytes::<5>();
        let n = sym::below(6) as usize;
        done(dash7::transport::Frame::try_from(&b[..n]).is_ok());
        sym::reach(1);
    }
    h_c01_network {
        let b = sym::bytes::<7>();
        let n = sym::below(8) as usize;
        done(dash7::network::Frame::try_from(&b[..n]).is_ok());
        sym::reach(1);
    }
    h_c01_foreground {
        let b = sym::bytes::<10>();
        let n = sym::below(11) as usize;
        done(ForegroundFrame::try_from(&b[..n]).is_ok());
        sym::reach(1);
    }
    h_c01_parts {
        let b = sym::bytes::<24>();
        let n = sym::below(25) as usize;
        let b = &b[..n];
        match sym::below(6) {
            0 => part::<Addressee>(b),
            1 => part::<QoS>(b),
            2 => part::<Dash7InterfaceStatus>(b),
            3 => part::<IndirectInterface>(b),
            4 => part::<dash7::network::Control>(b),
            _ => part::<dash7::transport::Control>(b),
        }
    }
    h_c01_config {
        let b = sym::bytes::<12>();
        let n = sym::below(13) as usize;
        part::<InterfaceConfiguration>(&b[..n]);
    }
    h_c01_profile {
        let b = profile_bytes();
        let n = sym::below(66) as usize;
        part::<AccessProfile>(&b[..n]);
    }
    h_c01_long {
        // long operands with one byte at the front replaced
        const FRONT: [&[u8]; 5] = [&[0x20, 0x45, 0, 0x41, 0x2C], &[0x04, 0x09, 0, 0x41, 0x2C], &[0x08, 0x42, 0x41, 0x2C], &[0x09, 0xF2, 0x40, 0x80], &[0x0B, 0x91, 0x41, 0x2C]];
        let mut w = FRONT[sym::split(sym::below(5) as usize)].to_vec();
        w.resize(310, 0x22);
        let i = sym::split(sym::below(6) as usize);
        w[i] = sym::u8();
        done(Action::from_bytes((&w, 0)).is_ok());
    }
    h_c01_long_cut {
        let mut w = vec![];
        util::big_action_of(&[64, 255, 256, 300], &mut w);
        let n = w.len();
        let k = [n, n - 1, n / 2, 255, 256, 257][sym::split(sym::below(6) as usize)];
        sym::assume(k <= n);
        done(Action::try_from(&w[..k]).is_ok());
    }
    h_c01_long_file {
        // announced sizes around the end of 300 bytes
        let mut b = vec![0x40; 300];
        (b[0], b[2], b[14], b[299]) = (sym::u8(), sym::u8(), 94 + sym::below(4), sym::u8());
        let n = [0, 1, 255, 256, 257, 299, 300, 301, 65536][sym::split(sym::below(9) as usize)];
        let id = [0x09, 0x45, 0x03, 0x18, 0xFF][sym::split(sym::below(5) as usize)];
        let Ok(id) = FileId::try_from(id as u8) else { return sym::check(false, 1) };
        done(File::from_bytes((&b, 0), id, n).is_ok());
    }
    h_c01_ids {
        let b = sym::u8();
        done(FileId::try_from(b).is_ok());
        done(InterfaceType::try_from(b).is_ok());
        sym::reach(2);
    }
}
