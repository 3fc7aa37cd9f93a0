//! C19: decoding takes memory in proportion to the input, whatever lengths the input announces.
//! While an input of n bytes is decoded, at most PER * n + BASE bytes more may be allocated at any time.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::operation::Length;
use dash7::app::query::Query;
use dash7::file::{File, FileId};
use deku::no_std_io::Cursor;
use deku::prelude::*;
use deku::reader::Reader;

const PER: usize = 1024;
const BASE: usize = 65536;

fn within(b: &[u8], f: impl FnOnce() -> bool) {
    sym::alloc_limit(PER * b.len() + BASE);
    let ok = f();
    sym::alloc_free();
    if ok {
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}
fn action(b: &[u8]) {
    within(b, || Action::from_bytes((b, 0)).is_ok());
}
fn command(b: &[u8]) {
    within(b, || Command::from_bytes((b, 0)).is_ok());
}
fn query(b: &[u8]) {
    within(b, || Query::from_bytes((b, 0)).is_ok());
}
fn file(id: u8, len: u32, b: &[u8]) {
    let Ok(i) = FileId::try_from(id) else { return sym::check(false, 6) };
    within(b, || File::from_bytes((b, 0), i, len).is_ok());
}
fn some<const N: usize>() -> ([u8; N], usize) {
    let b = sym::bytes::<N>();
    let n = sym::below(N as u8 + 1) as usize;
    (b, n)
}
/// the prefix, a length of four bytes with any value, and up to three bytes
fn announced(prefix: &[u8], then: &[u8]) {
    let mut b = prefix.to_vec();
    let l = sym::bytes::<4>();
    b.push(l[0] | 0xC0);
    b.extend_from_slice(&l[1..]);
    b.extend_from_slice(then);
    let m = sym::below(4) as usize;
    b.extend_from_slice(&sym::bytes::<3>()[..m]);
    action(&b);
    // and as the second of a command
    let mut c = vec![0x00];
    c.extend_from_slice(&b);
    command(&c);
}
entries! {
    h_c19_action {
        let (b, n) = some::<8>();
        sym::assume(n == 0 || !matches!(b[0] & 0x3F, 8 | 9 | 11 | 50 | 51));
        action(&b[..n]);
    }
    h_c19_query { let (b, n) = some::<8>(); query(&b[..n]); }
    h_c19_query_action {
        let (b, n) = some::<7>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 8 | 9 | 11));
        action(&b[..n]);
    }
    h_c19_forward {
        let (b, n) = some::<8>();
        sym::assume(n > 0 && matches!(b[0] & 0x3F, 50 | 51));
        action(&b[..n]);
    }
    h_c19_command { let (b, n) = some::<4>(); command(&b[..n]); }
    h_c19_command_length {
        // the length is announced from outside
        let b = sym::bytes::<2>();
        let n = sym::below(3) as usize;
        let l = sym::u32();
        within(&b[..n], || {
            let mut c = Cursor::new(&b[..n]);
            let mut r = Reader::new(&mut c);
            Command::from_reader_with_ctx(&mut r, l).is_ok()
        });
    }
    h_c19_length {
        let (b, n) = some::<5>();
        within(&b[..n], || Length::from_bytes((&b[..n], 0)).is_ok());
    }
    h_c19_announced_file {
        // data of files written and returned, of any number
        let op = [4u8, 5, 32][sym::split(sym::below(3) as usize)];
        announced(&[op, sym::u8(), 0x05], &[]);
    }
    h_c19_announced_query {
        let op = [8u8, 9, 11][sym::split(sym::below(3) as usize)];
        let k = [0x20u8, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xE0, 0xF0][sym::split(sym::below(10) as usize)];
        announced(&[op, k | (sym::u8() & 0x0F)], &[]);
    }
    h_c19_announced_status {
        // of an interface there is no reader for, and of all others
        announced(&[0x62, sym::u8()], &[]);
    }
    h_c19_announced_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            let (i, c) = (sym::u8(), sym::u8());
            sym::assume(i == 0x17 || c == 0);
            announced(&[0x26, i, c], &[]);
        }
    }
    h_c19_announced_frame {
        // a frame that announces any length, and data in it that does too
        if cfg!(feature = "wizzilab") {
            // does not end on a byte
            return sym::reach(1);
        }
        let l = sym::bytes::<4>();
        let m = sym::bytes::<4>();
        let mut b = vec![l[0] | 0xC0, l[1], l[2], l[3], 0x12, 0x61];
        b.extend(util::network_wire(&[0x20, 0x41, 0x00, m[0] | 0xC0, m[1], m[2], m[3], 1]));
        let n = b.len() - sym::split(sym::below(3) as usize);
        within(&b[..n], || dash7::link::ForegroundFrame::from_bytes((&b[..n], 0)).is_ok());
        within(&b[6..n], || dash7::network::Frame::from_bytes((&b[6..n], 0)).is_ok());
    }
    h_c19_frame {
        let (b, n) = some::<6>();
        let n = sym::split(n);
        match sym::below(4) {
            0 => within(&b[..n], || dash7::link::BackgroundFrame::from_bytes((&b[..n], 0)).is_ok()),
            1 => within(&b[..n], || dash7::link::ForegroundFrame::from_bytes((&b[..n], 0)).is_ok()),
            2 => within(&b[..n], || dash7::network::Frame::from_bytes((&b[..n], 0)).is_ok()),
            _ => within(&b[..n], || dash7::transport::Frame::from_bytes((&b[..n], 0)).is_ok()),
        }
    }
    h_c19_file {
        let (b, n) = some::<4>();
        file(sym::u8(), sym::u32(), &b[..n]);
    }
    h_c19_structured {
        // whole structured files under any length
        let mut w = vec![];
        let (id, _) = gen::file(sym::below(gen::FILES), &mut w);
        file(id, sym::u32(), &w);
    }
    h_c19_phy_status {
        // any number of entries announced
        let mut b = sym::vec(14);
        b.push(sym::u8());
        b.extend_from_slice(&sym::bytes::<6>());
        file(5, sym::u32(), &b);
    }
    h_c19_long {
        let mut w = vec![];
        let a = util::big_action(&mut w);
        drop(a);
        action(&w);
        w.insert(0, 0);
        command(&w);
    }
    h_c19_many {
        // many small actions
        let n = [10usize, 300, 3000][sym::split(sym::below(3) as usize)];
        command(&vec![0u8; n]);
    }
    h_c19_kinds {
        let mut w = vec![];
        let g = sym::below(4);
        let a = util::group_action(g, &mut w);
        drop(a);
        action(&w);
    }
}
