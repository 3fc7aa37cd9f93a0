//! C25: decoding, encoding and comparing depend on nothing but the item itself.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::operation::{ActionHeader, FileData, FileOffset, Length};
use dash7::file::{File, FileId};
use dash7::link::{BackgroundFrame, ForegroundFrame, SubProfile};
use dash7::network;
use dash7::types::VarInt;
use deku::prelude::*;

fn h() -> ActionHeader {
    ActionHeader::new(false, false)
}
/// an action whose encoding fails behind `n` bytes of data that were fine
fn refused(n: usize) -> Action {
    let mut p = dash7::link::AccessProfile::default();
    p.sub_profiles[n] = SubProfile { subband_bitmap: 1, scan_automation_period: VarInt::new_unchecked(600_000, false) };
    let f = File::AccessProfile03(dash7::file::AccessProfile::<3> { profile: p });
    Action::WriteFileData(FileData::new(h(), FileOffset { file_id: 0x23, offset: Length::from(0u32) }, f, dash7::app::action::OpCode(4)))
}
/// valid bytes of several shapes
const WIRE: [&[u8]; 8] = [
    &[0x20, 0x41, 0x00, 0x03, 1, 2, 3],
    &[0x04, 0x0B, 0x00, 0x10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16],
    &[0x08, 0x79, 0x02, 1, 2, 3, 4, 5, 6],
    &[0x32, 0xD7, 1, 2, 3, 0x20, 4, 1, 2, 3, 4, 5, 6, 7, 8],
    &[0xB4, 0x42],
    &[0x81, 0x05, 0xFF, 0xFF, 0xFF, 0xFF, 0x41, 0x02],
    &[0x04, 0x09, 0x00, 0x15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 2, 0x28, 0, 1, 9, 1, 0x28],
    &[0x62, 0xD7, 0x12, 1, 2, 3, 4, 5, 0x50, 0, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8],
];
/// something else is decoded, encoded, refused, shown, asked or refreshed in between
fn meanwhile() {
    match sym::split(sym::below(10) as usize) {
        0 => {
            for w in WIRE {
                let _ = Action::from_bytes((w, 0));
            }
        }
        1 => {
            // every way of being cut
            for w in WIRE {
                for n in 0..w.len() {
                    let _ = Action::from_bytes((&w[..n], 0));
                }
            }
        }
        2 => {
            for b in [&[0x3Fu8][..], &[0x08, 0xA0, 1], &[0x32, 0xEE], &[0xE2, 0x33], &[0x34], &[0x20, 1, 0, 0xC0]] {
                let _ = Action::from_bytes((b, 0));
                let _ = Command::try_from(b);
            }
        }
        3 => {
            for w in WIRE {
                if let Ok((_, a)) = Action::from_bytes((w, 0)) {
                    let _ = a.to_bytes();
                }
            }
        }
        4 => {
            for n in 0..4 {
                let _ = refused(n).to_bytes();
                let _ = Command::new(vec![refused(n)]).to_bytes();
            }
        }
        5 => {
            let w: Vec<u8> = WIRE.concat();
            if let Ok((_, c)) = Command::from_bytes((&w, 0)) {
                let _ = (c.request_id(), c.response_id(), c.is_last_response());
                let _ = c.interface_status();
                let _ = c.to_bytes();
            }
        }
        6 => {
            for w in WIRE {
                let mut i = w.to_vec();
                i.push(0x3F);
                let _ = Command::from_bytes((&i, 0));
                let _ = Command::from_bytes((&i[..w.len() - 1], 0));
            }
        }
        7 => {
            for n in 0..=255u8 {
                let _ = FileId::try_from(n);
            }
            let _ = File::from_bytes((&[1; 17], 0), FileId::DllStatus, 17);
            let _ = File::from_bytes((&[1; 5], 0), FileId::DllStatus, 17);
            let _ = BackgroundFrame::from_bytes((&[1, 2, 3, 4, 5, 6], 0));
        }
        8 => {
            for v in [0, 1, 31, 32, 127, 507_904, 507_905, u32::MAX] {
                let _ = VarInt::new_unchecked(v, true).to_bytes();
                let _ = VarInt::new(v, false);
                let _ = Length::from(v).to_bytes();
            }
        }
        _ => {
            for w in WIRE {
                if let Ok((_, mut a)) = Action::from_bytes((w, 0)) {
                    let _ = a.update();
                    let b = a.clone();
                    sym::check(a == b, 40);
                }
            }
        }
    }
}
fn decoded(e: &[u8]) {
    let r1 = Action::from_bytes((e, 0));
    meanwhile();
    let r2 = Action::from_bytes((e, 0));
    match (&r1, &r2) {
        (Ok((p, v)), Ok((q, w))) => {
            sym::check(p == q && v == w, 1);
            sym::reach(1)
        }
        (Err(x), Err(y)) => sym::check(x == y, 2),
        _ => sym::check(false, 3),
    }
}
fn fresh(a: Action, e: Vec<u8>) {
    let b = a.clone();
    sym::check(a == b, 10);
    match a.to_bytes() {
        Ok(x) => sym::check(x == e, 11),
        Err(_) => sym::check(false, 12),
    }
    meanwhile();
    match a.to_bytes() {
        Ok(x) => sym::check(x == e, 13),
        Err(_) => sym::check(false, 14),
    }
    sym::check(a == b, 15);
    match Action::from_bytes((&e, 0)) {
        Ok((_, v)) => {
            sym::check(v == a, 16);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 17),
    }
}
/// equal values have equal encodings, and different ones different encodings
fn equal<T: PartialEq + DekuContainerWrite>(a: T, e: Vec<u8>, b: T, f: Vec<u8>) {
    let same = a == b;
    sym::check(same == (b == a), 20);
    sym::check(same == !(a != b), 21);
    sym::check(same == (e == f), 22);
    sym::reach(1);
}
macro_rules! equal {
    ($v:expr) => {{
        let (mut e, mut f) = (vec![], vec![]);
        let a = $v(&mut e);
        let b = $v(&mut f);
        equal(a, e, b, f)
    }};
}
fn again<'a, T: DekuContainerRead<'a> + DekuContainerWrite + PartialEq + Clone>(b: &'a [u8]) {
    let r1 = T::from_bytes((b, 0));
    meanwhile();
    let r2 = T::from_bytes((b, 0));
    match (r1, r2) {
        (Ok((p, v)), Ok((q, w))) => {
            sym::check(p == q && v == w, 1);
            let x = v.to_bytes();
            let y = w.to_bytes();
            sym::check(x == y, 2);
            sym::check(v.clone() == w, 3);
            sym::reach(1)
        }
        (Err(x), Err(y)) => sym::check(x == y, 4),
        _ => sym::check(false, 5),
    }
}
entries! {
    h_c25_frame {
        // frames with a command in them, whole and cut, one byte of it free
        let mut x = [WIRE[0], WIRE[5]].concat();
        x[if sym::bool() { 5 } else { 8 }] = sym::u8();
        let w = if sym::bool() { util::foreground_wire(&x) } else { util::network_wire(&x) };
        let n = w.len() - [0, 1, 3][sym::split(sym::below(3) as usize)];
        if w[0] == 0x30 {
            again::<network::Frame>(&w[..n])
        } else {
            again::<ForegroundFrame>(&w[..n])
        }
    }
    h_c25_bytes {
        let b = sym::bytes::<4>();
        let n = sym::below(5) as usize;
        decoded(&b[..n])
    }
    h_c25_command_bytes {
        let b = sym::bytes::<2>();
        let r1 = Command::from_bytes((&b, 0));
        meanwhile();
        let r2 = Command::from_bytes((&b, 0));
        match (&r1, &r2) {
            (Ok((p, v)), Ok((q, w))) => {
                sym::check(p == q && v == w, 1);
                sym::reach(1)
            }
            (Err(x), Err(y)) => sym::check(x == y, 2),
            _ => sym::check(false, 3),
        }
    }
    h_c25_simple {
        let mut e = vec![];
        gen::set_plain(true);
        let a = util::group_action(0, &mut e);
        fresh(a, e)
    }
    h_c25_forward {
        let mut e = vec![];
        let g = 1 + sym::below(3);
        gen::set_plain(true);
        let a = util::group_action(g, &mut e);
        fresh(a, e)
    }
    h_c25_query {
        let mut e = vec![];
        gen::set_plain(true);
        let a = util::group_action(4, &mut e);
        fresh(a, e)
    }
    h_c25_file {
        let mut e = vec![];
        gen::set_plain(true);
        let k = sym::split(sym::below(gen::FILES + 1) as usize) as u8;
        let a = if k == 3 {
            gen::big(0, 100, &mut e)
        } else if k < gen::FILES {
            gen::sys_file_action(1, k, &mut e)
        } else {
            gen::raw_file_action(2, 3, false, &mut e)
        };
        fresh(a, e)
    }
    h_c25_many {
        // again and again
        let mut e = vec![];
        gen::set_plain(true);
        let a = util::short_action(sym::split(sym::below(util::SHORT) as usize) as u8, &mut e);
        let c = Command::new(vec![a.clone(), a.clone()]);
        let w = [&e[..], &e[..]].concat();
        for _ in 0..300 {
            match (Action::from_bytes((&e, 0)), a.to_bytes()) {
                (Ok((_, v)), Ok(x)) => sym::check(v == a && x == e, 1),
                _ => sym::check(false, 2),
            }
            match (Command::from_bytes((&w, 0)), c.to_bytes()) {
                (Ok((_, v)), Ok(x)) => sym::check(v == c && x == w, 3),
                _ => sym::check(false, 4),
            }
        }
        sym::reach(1)
    }
    h_c25_history {
        // three of these one after the other, from the start
        meanwhile();
        meanwhile();
        let k = sym::split(sym::below(WIRE.len() as u8) as usize);
        match Action::from_bytes((WIRE[k], 0)) {
            Ok((_, a)) => match a.to_bytes() {
                Ok(e) => sym::check(e == WIRE[k], 1),
                Err(_) => sym::check(false, 2),
            },
            Err(_) => sym::check(false, 3),
        }
        sym::check(refused(1).to_bytes().is_err(), 4);
        sym::reach(1)
    }
    h_c25_equal_parts {
        match sym::below(6) {
            0 => equal!(gen::addressee),
            1 => equal!(gen::qos),
            2 => equal!(gen::file_header),
            3 => equal!(gen::channel),
            4 => equal!(gen::file_offset),
            _ => { let k = sym::below(6); equal!(|w: &mut Vec<u8>| gen::interface_config(k, w)) }
        }
    }
    h_c25_equal_number {
        // whatever distinguishes two numbers on the wire distinguishes them
        let (x, y, p, q) = (sym::u32(), sym::u32(), sym::bool(), sym::bool());
        let (a, b) = (VarInt::new_unchecked(x, p), VarInt::new_unchecked(y, q));
        if a == b {
            sym::check(a.to_bytes() == b.to_bytes(), 1);
            sym::reach(1)
        }
        let (a, b) = (Length::from(x), Length::from(y));
        sym::check((a == b) == (x == y), 2);
    }
    h_c25_equal_simple {
        let k = sym::below(gen::SIMPLE);
        equal!(|w: &mut Vec<u8>| gen::simple(k, w))
    }
    h_c25_equal_query {
        let (k, n, m) = (sym::below(gen::QUERIES), sym::below(3), sym::bool());
        equal!(|w: &mut Vec<u8>| gen::query(k, n as usize, m, false, w))
    }
    h_c25_equal_file {
        let (w0, k) = (1, 4 + sym::below(gen::FILES - 4));
        equal!(|w: &mut Vec<u8>| gen::sys_file_action(w0, k, w))
    }
    h_c25_equal_raw {
        let (w0, n, m) = (sym::below(3), sym::below(3), sym::below(3));
        let (mut e, mut f) = (vec![], vec![]);
        let a = gen::raw_file_action(w0, n as usize, false, &mut e);
        let b = gen::raw_file_action(w0, m as usize, false, &mut f);
        equal(a, e, b, f)
    }
    h_c25_equal_status {
        let k = sym::below(3);
        equal!(|w: &mut Vec<u8>| gen::interface_status(k, w))
    }
    h_c25_equal_kinds {
        // actions of different kinds are never equal
        let (i, j) = (sym::split(sym::below(util::SHORT) as usize) as u8, sym::split(sym::below(util::SHORT) as usize) as u8);
        let (mut e, mut f) = (vec![], vec![]);
        let a = util::short_action(i, &mut e);
        let b = util::short_action(j, &mut f);
        sym::check(i == j || a != b, 1);
        let c = Command::new(vec![a.clone(), b.clone()]);
        let d = Command::new(vec![b, a]);
        let (Ok(x), Ok(y)) = (c.to_bytes(), d.to_bytes()) else { return sym::check(false, 2) };
        sym::check((c == d) == (x == y), 3);
        sym::reach(1)
    }
}
