//! C26: what decoding and encoding allocate is freed with their results, also when they fail.
//! What is done twice does not use more memory after the second time than after the first.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::InterfaceConfiguration;
use dash7::app::operation::{ActionHeader, FileData, FileOffset, Length};
use dash7::app::query::Query;
use dash7::file::{File, FileId};
use dash7::link::{AccessProfile, BackgroundFrame, ForegroundFrame, SubProfile};
use dash7::network;
use dash7::network::Addressee;
use dash7::types::VarInt;
use deku::prelude::*;

fn steady(f: impl Fn()) {
    f();
    let a = sym::live();
    f();
    sym::check(sym::live() == a, 1);
    sym::reach(1);
}
/// done often, nothing piles up (a buffer that grows does so by doubling)
fn steady_often(n: usize, f: impl Fn()) {
    f();
    let a = sym::live();
    for _ in 0..n {
        f();
    }
    sym::check(sym::live() == a, 2);
    sym::reach(1);
}
fn part<'a, T: DekuContainerRead<'a> + DekuContainerWrite>(b: &'a [u8]) {
    if let Ok((_, v)) = T::from_bytes((b, 0)) {
        let _ = v.to_bytes();
    }
}
fn command(b: &[u8]) {
    if let Ok((_, v)) = Command::from_bytes((b, 0)) {
        let _ = v.to_bytes();
    }
}
fn file(id: u8, len: u32, b: &[u8]) {
    let Ok(i) = FileId::try_from(id) else { return sym::check(false, 6) };
    steady(|| {
        if let Ok((_, v)) = File::from_bytes((b, 0), i.clone(), len) {
            let _ = v.to_bytes();
        }
    });
}
fn some<const N: usize>() -> ([u8; N], usize) {
    let b = sym::bytes::<N>();
    let n = sym::below(N as u8 + 1) as usize;
    (b, n)
}
/// encoding fails behind `n` sub-profiles
fn refused(n: usize) -> Action {
    let mut p = AccessProfile::default();
    p.sub_profiles[n] = SubProfile { subband_bitmap: 1, scan_automation_period: VarInt::new_unchecked(600_000, false) };
    let f = File::AccessProfile03(dash7::file::AccessProfile::<3> { profile: p });
    let h = ActionHeader::new(false, false);
    Action::WriteFileData(FileData::new(h, FileOffset { file_id: 0x23, offset: Length::from(0u32) }, f, dash7::app::action::OpCode(4)))
}
const WIRE: [&[u8]; 10] = [
    &[0x20, 0x41, 0x00, 0x03, 1, 2, 3],
    &[0x04, 0x0B, 0x00, 0x10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16],
    &[0x08, 0x79, 0x02, 1, 2, 3, 4, 5, 6],
    &[0x08, 0x59, 0x02, 1, 2, 3, 4, 5, 6],
    &[0x32, 0xD7, 1, 2, 3, 0x20, 4, 1, 2, 3, 4, 5, 6, 7, 8],
    &[0xB4, 0x42],
    &[0x81, 0x05, 0xFF, 0xFF, 0xFF, 0xFF, 0x41, 0x02],
    &[0x04, 0x09, 0x00, 0x15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 2, 0x28, 0, 1, 9, 1, 0x28],
    &[0x62, 0xD7, 0x12, 1, 2, 3, 4, 5, 0x50, 0, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8],
    &[0x62, 0x17, 0x03, 1, 2, 3],
];
entries! {
    h_c26_action {
        let (b, n) = some::<5>();
        sym::assume(n == 0 || !matches!(b[0] & 0x3F, 8 | 9 | 11 | 50 | 51));
        steady(|| part::<Action>(&b[..n]));
    }
    h_c26_query { let (b, n) = some::<6>(); steady(|| part::<Query>(&b[..n])); }
    h_c26_query_action {
        let (b, n) = some::<5>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 8 | 9 | 11));
        steady(|| part::<Action>(&b[..n]));
    }
    h_c26_forward {
        let (b, n) = some::<5>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 50 | 51));
        steady(|| part::<Action>(&b[..n]));
    }
    h_c26_command { let (b, n) = some::<3>(); steady(|| command(&b[..n])); }
    h_c26_file {
        let (b, n) = some::<3>();
        file(sym::u8(), [0, 1, 2, 4, 0xFFFF_FFFF][sym::split(sym::below(5) as usize)], &b[..n]);
    }
    h_c26_cut {
        // every kind of action, cut anywhere
        let mut w = vec![];
        let g = sym::split(sym::below(6) as usize) as u8;
        let a = util::group_action(g, &mut w);
        steady(|| { let _ = a.to_bytes(); });
        drop(a);
        let n = sym::split(sym::below(w.len() as u8 + 1) as usize);
        steady(|| part::<Action>(&w[..n]));
    }
    h_c26_structured {
        // structured files, cut anywhere
        gen::set_plain(true);
        let mut w = vec![];
        let (id, f) = gen::file(sym::split(sym::below(gen::FILES) as usize) as u8, &mut w);
        steady(|| { let _ = f.to_bytes(); });
        drop(f);
        let n = [0, 1, w.len() / 2, w.len() - 1, w.len()][sym::split(sym::below(5) as usize)];
        file(id, w.len() as u32, &w[..n]);
    }
    h_c26_text {
        // a file with text in it, of which one byte is free
        let mut b = [b'7'; 15];
        let p = sym::split(sym::below(15) as usize);
        b[p] = sym::u8();
        file(2, 15, &b);
    }
    h_c26_profile {
        let b = [3u8; 65];
        let n = sym::split(sym::below(66) as usize);
        steady(|| part::<AccessProfile>(&b[..n]));
    }
    h_c26_component {
        let (b, n) = some::<6>();
        match sym::below(3) {
            0 => steady(|| part::<Addressee>(&b[..n])),
            1 => steady(|| part::<FileOffset>(&b[..n])),
            _ => {
                sym::assume(n == 0 || b[0] != 0xD7);
                steady(|| { let _ = InterfaceConfiguration::from_bytes((&b[..n], 0)); })
            }
        }
    }
    h_c26_frame {
        let (b, n) = some::<6>();
        let n = sym::split(n);
        match sym::below(4) {
            0 => steady(|| part::<BackgroundFrame>(&b[..n])),
            1 => steady(|| part::<ForegroundFrame>(&b[..n])),
            2 => steady(|| part::<network::Frame>(&b[..n])),
            _ => steady(|| part::<dash7::transport::Frame>(&b[..n])),
        }
    }
    h_c26_frame_cut {
        let w = util::foreground_wire(&[WIRE[0], WIRE[5], WIRE[2]].concat());
        let n = sym::split(sym::below(w.len() as u8 + 1) as usize);
        steady(|| {
            part::<ForegroundFrame>(&w[..n]);
            part::<network::Frame>(&w[n.min(3)..n]);
            part::<dash7::transport::Frame>(&w[n.min(3)..n]);
        });
    }
    h_c26_refused {
        let n = sym::split(sym::below(4) as usize);
        let a = refused(n);
        steady_often(3, || { sym::check(a.to_bytes().is_err(), 4); });
        let c = Command::new(vec![refused(n), refused(n)]);
        steady_often(3, || { sym::check(c.to_bytes().is_err(), 5); });
    }
    h_c26_often {
        // whole and cut, many times
        let w = WIRE[sym::split(sym::below(WIRE.len() as u8) as usize)];
        let n = sym::split(sym::below(w.len() as u8 + 1) as usize);
        steady_often(20, || {
            part::<Action>(&w[..n]);
            command(&w[..n]);
        });
    }
    h_c26_command_cut {
        // several actions, then one that is cut or unknown
        let mut b = vec![];
        for w in [WIRE[0], WIRE[2], WIRE[7]] {
            b.extend_from_slice(w);
        }
        b.extend_from_slice(&[sym::u8(), 1]);
        let n = sym::split(sym::below(b.len() as u8 + 1) as usize);
        steady(|| {
            if let Ok((_, c)) = Command::from_bytes((&b[..n], 0)) {
                let d = c.clone();
                drop(c.actions_without_interface_status());
                let _ = d.to_bytes();
                let _: Result<Vec<u8>, _> = d.try_into();
            }
            let _ = Command::try_from(&b[..n]);
        });
    }
    h_c26_long {
        let mut w = vec![];
        let a = util::big_action_of(&[64, 300], &mut w);
        steady(|| { let _ = a.to_bytes(); });
        drop(a);
        let n = w.len() - sym::split(sym::below(2) as usize);
        steady(|| part::<Action>(&w[..n]));
    }
}
