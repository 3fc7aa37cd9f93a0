//! C05: exactly the grammar is accepted, and what was accepted re-encodes canonically.
//! The reference reader is in `model.rs`.
use crate::model::Cur;
use crate::{sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::InterfaceConfiguration;
use dash7::file::{File, FileId};
use dash7::link::AccessProfile;
use dash7::network::Addressee;
use deku::prelude::*;

fn action(b: &[u8]) {
    let mut c = Cur::new(b);
    let want = c.action().is_some();
    // structured data under a wrong announced length, status of an unknown interface
    sym::assume(!c.excluded);
    match Action::from_bytes((b, 0)) {
        Ok((rest, a)) => {
            sym::check(want, 1);
            sym::check(rest.0.len() == b.len() - c.p && rest.1 == 0, 2);
            match a.to_bytes() {
                Ok(e) => {
                    util::observe(&e);
                    sym::check(e == c.out, 3);
                }
                Err(_) => sym::check(false, 4),
            }
            sym::reach(1);
        }
        Err(_) => {
            sym::check(!want, 5);
            sym::reach(2);
        }
    }
}
fn command(b: &[u8]) {
    let mut c = Cur::new(b);
    let want = c.command();
    sym::assume(!c.excluded);
    match Command::from_bytes((b, 0)) {
        Ok((rest, a)) => {
            sym::check(want == Some(a.actions.len()), 1);
            sym::check(rest.0.len() == b.len() - c.p && rest.1 == 0, 2);
            match a.to_bytes() {
                Ok(e) => {
                    util::observe(&e);
                    sym::check(e == c.out, 3);
                }
                Err(_) => sym::check(false, 4),
            }
            sym::reach(1);
        }
        Err(_) => {
            sym::check(want.is_none(), 5);
            sym::reach(2);
        }
    }
}
fn part<'a, T: DekuContainerRead<'a> + DekuContainerWrite>(b: &'a [u8], f: impl Fn(&mut Cur) -> Option<()>) {
    let mut c = Cur::new(b);
    let want = f(&mut c).is_some();
    sym::assume(!c.excluded);
    verdict(&c, want, b, T::from_bytes((b, 0)).map(|(r, v)| (r.0.len(), v.to_bytes())));
}
fn verdict(c: &Cur, want: bool, b: &[u8], r: Result<(usize, Result<Vec<u8>, DekuError>), DekuError>) {
    match r {
        Ok((rest, e)) => {
            sym::check(want, 1);
            sym::check(rest == b.len() - c.p, 2);
            match e {
                Ok(e) => {
                    util::observe(&e);
                    sym::check(e == c.out, 3);
                }
                Err(_) => sym::check(false, 4),
            }
            sym::reach(1);
        }
        Err(_) => {
            sym::check(!want, 5);
            sym::reach(2);
        }
    }
}
fn some<const N: usize>() -> ([u8; N], usize) {
    let b = sym::bytes::<N>();
    let n = sym::below(N as u8 + 1) as usize;
    (b, n)
}
fn file<const N: usize>(id: u8, lens: &[u8]) {
    let b = sym::bytes::<N>();
    let n = lens[sym::below(lens.len() as u8) as usize] as usize;
    file_of(id, &b[..n], sym::u32());
}
fn file_of(id: u8, b: &[u8], len: u32) {
    let mut c = Cur::new(b);
    let want = c.file(id, len as usize).is_some();
    let Ok(i) = FileId::try_from(id) else { return sym::check(false, 6) };
    verdict(&c, want, b, File::from_bytes((b, 0), i, len).map(|(r, v)| (r.0.len(), v.to_bytes())));
}
entries! {
    k_c05_unknown_interface {
        // the type of a status of an unknown interface is lost
        let b = [0x62, 0x42, 3, 1, 2, 3];
        let e = dash7::app::action::Action::try_from(&b[..]).ok().and_then(|a| crate::util::enc(&a));
        sym::check(e == Some(b.to_vec()), 1);
        sym::reach(1);
    }
    k_c05_structured_length {
        // an announced length of 4 in front of a file of 7 bytes: the operand reaches beyond it
        let b = [0x04, 0x0A, 0, 4, 1, 2, 3, 4, 5, 6, 7];
        let r = dash7::app::action::Action::from_bytes((&b[..], 0));
        sym::check(match r {
            Ok(((rest, _), _)) => rest.len() == 3,
            Err(_) => true,
        }, 1);
        sym::reach(1);
    }
    h_c05_short {
        let (b, n) = some::<8>();
        sym::assume(n > 0 && !matches!(b[0] & 0x3F, 1 | 4 | 5 | 8 | 9 | 11 | 32 | 34 | 38 | 50 | 51));
        action(&b[..n]);
    }
    h_c05_empty {
        action(&[]);
        command(&[]);
    }
    h_c05_read {
        let (b, n) = some::<10>();
        sym::assume(n > 0 && b[0] & 0x3F == 1);
        action(&b[..n]);
    }
    h_c05_query {
        let (b, n) = some::<7>();
        sym::assume(n > 0 && b[0] & 0x3F == 8);
        action(&b[..n]);
    }
    h_c05_break_query {
        let (b, n) = some::<6>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 9 | 11));
        action(&b[..n]);
    }
    h_c05_bitmap {
        let (b, n) = some::<9>();
        sym::assume(n > 5 && b[0] == 8 && b[1] >> 5 == 4);
        action(&b[..n]);
    }
    h_c05_search {
        let (b, n) = some::<9>();
        sym::assume(n > 5 && b[0] == 8 && b[1] >> 5 == 7 && b[2] < 0x40);
        action(&b[..n]);
    }
    h_c05_file {
        let (b, n) = some::<7>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 4 | 5 | 32));
        action(&b[..n]);
    }
    h_c05_status {
        let (b, n) = some::<8>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 34 | 38));
        action(&b[..n]);
    }
    h_c05_dash7_status {
        let (mut b, n) = some::<27>();
        b[0] = 0x62;
        b[1] = 0xD7;
        // channel, timeout and addressee vary one at a time
        let f = sym::below(4);
        if f != 0 {
            b[3] = 0x32;
        }
        if f != 1 {
            b[12] = 5;
        }
        if f != 2 {
            b[13] = 0x31;
        }
        sym::assume(n > 10 && b[2] < 64 && (f == 3 || n > 25));
        action(&b[..n]);
    }
    h_c05_tx_status {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            let (mut b, n) = some::<31>();
            b[0] = 0x66;
            b[1] = 0xD7;
            let f = sym::below(3);
            if f != 0 {
                b[3] = 0x32;
            }
            if f != 1 {
                b[7] = 0xF1;
            }
            if f != 2 {
                b[15] = 0x31;
            }
            sym::assume(n > 12 && b[2] < 64);
            action(&b[..n]);
        }
    }
    h_c05_forward {
        let (b, n) = some::<5>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 50 | 51));
        action(&b[..n]);
    }
    h_c05_forward_dash7 {
        let (mut b, n) = some::<20>();
        b[0] = 0x32;
        b[1] = 0xD7;
        // quality of service, timeouts and addressee vary one at a time
        let f = sym::below(4);
        if f != 0 {
            b[2] = 0x82;
        }
        if f != 1 {
            b[3] = 5;
        }
        if f != 2 {
            b[4] = if cfg!(feature = "subiot") { 0x31 } else { 9 };
        }
        if f != 3 {
            b[5] = 0x31;
        }
        sym::assume(n > 4);
        action(&b[..n]);
    }
    h_c05_indirect_dash7 {
        let (mut b, n) = some::<18>();
        b[0] = 0xB3;
        b[1] = 0xD7;
        sym::assume(n > 2);
        action(&b[..n]);
    }
    h_c05_forward_lora {
        let (b, n) = some::<46>();
        sym::assume(n > 2 && b[0] == 0x32 && (b[1] == 2 || b[1] == 3));
        action(&b[..n]);
    }
    h_c05_wide {
        let (b, n) = some::<15>();
        sym::assume(n > 8 && matches!(b[0] & 0x3F, 6 | 10 | 17 | 33));
        action(&b[..n]);
    }
    h_c05_command {
        let (b, n) = some::<3>();
        command(&b[..n]);
    }
    h_c05_command_lengths {
        // commands ending in lengths of every size
        let (b, n) = some::<7>();
        sym::assume(n > 3 && ((b[0] == 0x01 && b[2] < 0x40) || (b[0] == 0x62 && b[1] == 0)));
        sym::assume(b[3] > 0x3F || n == 4);
        for i in 4..7 {
            sym::assume(i >= n || b[i] < 2);
        }
        command(&b[..n]);
    }
    t_c05_command4 {
        let (b, n) = some::<4>();
        command(&b[..n]);
    }
    h_c05_raw_file {
        let (b, n) = some::<4>();
        let id = sym::u8();
        sym::assume(!Cur::known(id));
        file_of(id, &b[..n], sym::u32());
    }
    h_c05_sys_file {
        match sym::below(8) {
            0 => file::<9>(0x00, &[0, 7, 8, 9]),
            1 => file::<3>(0x06, &[0, 1, 2, 3]),
            2 => file::<57>(0x01, &[0, 1, 55, 56, 57]),
            3 => file::<8>(0x05, &[0, 1, 3, 5, 6, 7, 8]),
            4 => file::<8>(0x0A, &[0, 1, 2, 3, 6, 7, 8]),
            5 => file::<17>(0x0B, &[3, 5, 15, 16, 17]),
            6 => file::<17>(0x0E, &[0, 15, 16, 17]),
            _ => file::<22>(0x09, &[0, 14, 15, 16, 17, 18, 19, 20, 21, 22]),
        }
    }
    h_c05_text_file {
        let b = sym::bytes::<16>();
        let n = 13 + sym::below(4) as usize;
        for i in 2..15 {
            sym::assume(b[i] < 0x80 || matches!(i, 6 | 7 | 13 | 14));
            // zeros only where padding starts
            sym::assume(b[i] != 0 || matches!(i, 5 | 6 | 7 | 13 | 14));
        }
        file_of(2, &b[..n], 0);
    }
    h_c05_profile_file {
        let mut b = sym::bytes::<66>();
        let f = sym::below(6) as usize;
        if f != 4 {
            b[0] = 0x32;
        }
        for i in 0..4 {
            if i != f {
                b[2 + 2 * i] &= 0x1F;
            }
        }
        let n = [0, 1, 2, 3, 9, 64, 65, 66][sym::below(8) as usize];
        let id = sym::u8();
        sym::assume((0x20..0x2F).contains(&id));
        if f == 5 {
            sym::assume(n == 65);
        } else {
            sym::assume(id == 0x23 && (f == 4 || n == 65));
        }
        file_of(id, &b[..n], sym::u32());
    }
    h_c05_profile {
        let mut b = sym::bytes::<66>();
        for i in 0..4 {
            b[2 + 2 * i] &= 0x1F;
        }
        let n = [0, 1, 2, 3, 9, 64, 65, 66][sym::below(8) as usize];
        part::<AccessProfile>(&b[..n], |c| c.file(0x20, 0));
    }
    h_c05_addressee {
        let (b, n) = some::<16>();
        part::<Addressee>(&b[..n], |c| c.addressee());
    }
    h_c05_long {
        let mut w = vec![];
        util::big_action_of(&[64, 255, 300], &mut w);
        w.push(0xB0);
        let n = w.len() - sym::split(sym::below(3) as usize);
        action(&w[..n]);
    }
    h_c05_config {
        let (mut b, n) = some::<4>();
        if n > 0 {
            // the larger ones are covered as operands of the forward action
            sym::assume(!matches!(b[0], 2 | 3 | 0xD7));
        }
        b[3] = 0;
        part::<InterfaceConfiguration>(&b[..n], |c| c.interface_config());
    }
}
