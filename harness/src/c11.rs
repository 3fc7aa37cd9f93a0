//! C11: what is cut short is rejected.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::file::{File, FileId};
use deku::no_std_io::Cursor;
use deku::prelude::*;

/// a proper prefix
fn cut(e: &[u8]) -> &[u8] {
    let k = sym::below(e.len() as u8);
    &e[..k as usize]
}
fn action(e: &[u8]) {
    let c = cut(e);
    sym::check(Action::from_bytes((c, 0)).is_err(), 1);
    sym::check(Action::try_from(c).is_err(), 2);
    let mut r = Cursor::new(c);
    sym::check(Action::from_reader((&mut r, 0)).is_err(), 3);
    // as the only action of a command: nothing at all, or an error
    let r = Command::try_from(c);
    sym::check(r.is_ok() == c.is_empty(), 4);
    sym::reach(1);
}
fn group(g: u8) {
    let mut w = vec![];
    util::group_action(g, &mut w);
    action(&w);
}
fn part<T>(_: T, e: Vec<u8>)
where
    T: for<'a> DekuContainerRead<'a>,
{
    sym::check(T::from_bytes((cut(&e), 0)).is_err(), 1);
    sym::reach(1);
}
macro_rules! part {
    ($v:expr) => {{
        let mut w = vec![];
        let v = $v(&mut w);
        part(v, w)
    }};
}
entries! {
    h_c11_simple { group(0) }
    h_c11_indirect { group(1) }
    h_c11_forward { group(2) }
    h_c11_status { group(3) }
    h_c11_query {
        let (k, n, m) = (sym::below(gen::QUERIES), sym::below(3), sym::bool());
        let mut w = vec![];
        gen::query_action(0, k, n as usize, m, false, &mut w);
        action(&w);
    }
    h_c11_query_long {
        let (k, o) = (sym::below(gen::QUERIES), sym::below(3));
        gen::set_plain(true);
        let mut w = vec![];
        gen::query_action(o, k, 5, true, false, &mut w);
        action(&w);
    }
    h_c11_raw { group(5) }
    h_c11_raw_long {
        let mut w = vec![];
        let n = sym::split([3usize, 8, 63, 64, 70][sym::below(5) as usize]);
        gen::raw_file_action(2, n, false, &mut w);
        let k = w.len() - [1, 2, 3, n / 2, n - 1, n][sym::split(sym::below(6) as usize)];
        sym::check(Action::from_bytes((&w[..k], 0)).is_err(), 1);
        sym::check(Command::try_from(&w[..k]).is_err(), 4);
        sym::reach(1);
    }
    h_c11_long {
        let mut w = vec![];
        util::big_action_of(&[64, 255, 256, 300], &mut w);
        let n = w.len();
        let k = [1, 2, 5, n.saturating_sub(255), n.saturating_sub(256), n.saturating_sub(257), n / 2, n - 2][sym::split(sym::below(8) as usize)];
        sym::assume(k > 0 && k < n);
        sym::check(Action::from_bytes((&w[..n - k], 0)).is_err(), 1);
        sym::check(Command::try_from(&w[..n - k]).is_err(), 4);
        sym::reach(1);
    }
    h_c11_sys_file {
        let mut w = vec![];
        let k = sym::below(gen::FILES - 1);
        gen::sys_file_action(2, k, &mut w);
        action(&w);
    }
    h_c11_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        group(7);
    }
    h_c11_file {
        let mut w = vec![];
        let k = sym::below(gen::FILES - 1);
        let (id, _) = gen::file(k, &mut w);
        let Ok(id) = FileId::try_from(id) else { return sym::check(false, 10) };
        sym::check(File::from_bytes((cut(&w), 0), id, sym::u32()).is_err(), 1);
        sym::reach(1);
    }
    h_c11_profile_file {
        let b = sym::bytes::<65>();
        sym::assume(b[0] == 0x32);
        for i in 0..4 {
            sym::assume(b[2 + 2 * i] < 32);
        }
        let i = sym::below(15);
        let (Ok(id), Ok(same)) = (FileId::try_from(0x20 + i), FileId::try_from(0x20 + i)) else { return sym::check(false, 10) };
        sym::check(File::from_bytes((&b, 0), same, 0).is_ok(), 2);
        sym::check(File::from_bytes((cut(&b), 0), id, 0).is_err(), 1);
        sym::reach(1);
    }
    h_c11_raw_file {
        // fewer bytes than announced, whatever is announced
        let b = sym::bytes::<5>();
        let n = sym::below(6) as usize;
        let len = sym::u32();
        sym::assume(len as usize > n);
        let id = sym::u8();
        sym::assume(!gen::structured(id));
        let Ok(id) = FileId::try_from(id) else { return sym::check(false, 10) };
        sym::check(File::from_bytes((&b[..n], 0), id, len).is_err(), 1);
        sym::reach(1);
    }
    h_c11_announced {
        // an announced number of bytes that are not there
        let b = sym::bytes::<9>();
        let n = sym::below(6) as usize;
        let len = sym::u32();
        sym::assume(len as usize > n && len < 1 << 30);
        let mut w = vec![];
        match sym::below(4) {
            0 => w.extend_from_slice(&[32, 0x40, 0]),
            1 => w.extend_from_slice(&[8, 0x42]),
            2 => w.extend_from_slice(&[8, 0x32]),
            _ => w.extend_from_slice(&[8, 0xF2]),
        }
        gen::put_len(&mut w, len);
        w.extend_from_slice(&b[..n]);
        sym::check(Action::from_bytes((&w, 0)).is_err(), 1);
        sym::reach(1);
    }
    h_c11_command {
        let mut w = vec![];
        let (i, j) = (sym::below(util::SHORT), sym::below(util::SHORT));
        let a = util::short_action(i, &mut w);
        let x = w.len();
        let b = util::short_action(j, &mut w);
        let y = w.len();
        let c = gen::simple(4, &mut w);
        let k = sym::below(w.len() as u8) as usize;
        match Command::try_from(&w[..k]) {
            Ok(v) => {
                // only where an action ends, and then exactly those before
                sym::check(k == 0 || k == x || k == y, 1);
                sym::check(v.actions.len() == (k >= x) as usize + (k >= y) as usize, 2);
                sym::check(k < x || v.actions[0] == a, 3);
                sym::check(k < y || v.actions[1] == b, 4);
                sym::reach(1);
            }
            Err(_) => {
                sym::check(k != 0 && k != x && k != y, 5);
                sym::reach(2);
            }
        }
        drop(c);
    }
    h_c11_parts {
        match sym::below(8) {
            0 => part!(gen::addressee),
            1 => part!(gen::qos),
            2 => part!(gen::dash7_config),
            3 => part!(gen::dash7_status),
            4 => part!(gen::file_header),
            5 => part!(gen::channel),
            6 => part!(gen::file_offset),
            _ => { let k = sym::below(6); part!(|w: &mut Vec<u8>| gen::interface_config(k, w)) }
        }
    }
}
