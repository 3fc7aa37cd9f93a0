//! C06: decoders report exactly what they consumed.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::file::{File, FileId};
use deku::no_std_io::{Cursor, Read, Seek, SeekFrom};
use deku::prelude::*;

/// `p` bytes in front, the item, `t` bytes after it
struct Around {
    buf: Vec<u8>,
    p: usize,
    end: usize,
}
fn around(e: &[u8], pad: bool) -> Around {
    let p = if pad { sym::below(3) as usize } else { 0 };
    let t = sym::below(3) as usize;
    let mut buf = sym::vec(p);
    buf.extend_from_slice(e);
    let end = buf.len();
    buf.extend_from_slice(&sym::vec(t));
    Around { buf, p, end }
}
fn action(a: Action, e: Vec<u8>, pad: bool) {
    let w = around(&e, pad);
    let tail = &w.buf[w.end..];
    match Action::from_bytes((&w.buf, 8 * w.p)) {
        Ok((rest, v)) => {
            sym::check(rest.1 == 0 && rest.0 == tail, 1);
            sym::check(v == a, 2);
            sym::observe(rest.0);
            sym::reach(1);
        }
        Err(_) => sym::check(false, 3),
    }
    let mut c = Cursor::new(&w.buf[..]);
    match Action::from_reader((&mut c, 8 * w.p)) {
        Ok((bits, v)) => {
            sym::check(bits == 8 * w.end, 4);
            sym::check(v == a, 5);
            sym::check(c.position() as usize == w.end, 6);
        }
        Err(_) => sym::check(false, 7),
    }
    let r = Action::try_from(&w.buf[w.p..]);
    sym::check(r.is_ok() == tail.is_empty(), 8);
    if let Ok(v) = r {
        sym::check(v == a, 9)
    }
}
fn group(g: u8, pad: bool) {
    let mut e = vec![];
    let a = util::group_action(g, &mut e);
    action(a, e, pad);
}
fn part<T>(v: T, e: Vec<u8>)
where
    T: DekuContainerWrite + PartialEq + for<'a> DekuContainerRead<'a>,
{
    let w = around(&e, true);
    let tail = &w.buf[w.end..];
    match T::from_bytes((&w.buf, 8 * w.p)) {
        Ok((rest, x)) => {
            sym::check(rest.1 == 0 && rest.0 == tail, 1);
            sym::check(x == v, 2);
            sym::reach(1);
        }
        Err(_) => sym::check(false, 3),
    }
    let mut c = Cursor::new(&w.buf[..]);
    match T::from_reader((&mut c, 8 * w.p)) {
        Ok((bits, x)) => {
            sym::check(bits == 8 * w.end, 4);
            sym::check(x == v, 5);
            sym::check(c.position() as usize == w.end, 6);
        }
        Err(_) => sym::check(false, 7),
    }
}
macro_rules! part {
    ($v:expr) => {{
        let mut w = vec![];
        let v = $v(&mut w);
        part(v, w)
    }};
}
/// a stream that gives one byte at a time
struct Slow<'a>(Cursor<&'a [u8]>);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Slow<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
/// an action of each shape
fn some_action(e: &mut Vec<u8>) -> Action {
    gen::set_plain(true);
    match sym::split(sym::below(7) as usize) {
        0 => gen::raw_file_action(2, 3, false, e),
        1 => gen::interface_status(1, e),
        2 => gen::query_action(0, 2, 2, true, false, e),
        3 => gen::forward(1, e),
        4 => gen::simple(1, e),
        5 => gen::sys_file_action(2, 6, e),
        _ => gen::indirect_forward(1, e),
    }
}
entries! {
    h_c06_later {
        // far into a buffer, with much behind it
        let mut e = vec![];
        let a = some_action(&mut e);
        let p = [3usize, 7, 31, 32, 255, 256, 1000, 8192][sym::split(sym::below(8) as usize)];
        let t = [0usize, 3, 300][sym::split(sym::below(3) as usize)];
        let mut buf = vec![0x34; p];
        buf.extend_from_slice(&e);
        let end = buf.len();
        buf.resize(end + t, 0x35);
        match Action::from_bytes((&buf, 8 * p)) {
            Ok((rest, v)) => {
                sym::check(rest.1 == 0 && rest.0.len() == t && rest.0 == &buf[end..], 1);
                sym::check(v == a, 2);
                sym::reach(1);
            }
            Err(_) => sym::check(false, 3),
        }
        let mut c = Cursor::new(&buf[..]);
        match Action::from_reader((&mut c, 8 * p)) {
            Ok((bits, v)) => {
                sym::check(bits == 8 * end, 4);
                sym::check(v == a, 5);
                sym::check(c.position() as usize == end, 6);
            }
            Err(_) => sym::check(false, 7),
        }
        if t == 0 {
            match Command::from_bytes((&buf, 8 * p)) {
                Ok((rest, v)) => sym::check(rest.0.is_empty() && v.actions.len() == 1 && v.actions[0] == a, 8),
                Err(_) => sym::check(false, 9),
            }
        }
    }
    h_c06_stream {
        // from a stream that gives a byte at a time and is not at its start; two actions in a row
        let mut e = vec![];
        let p = sym::split(sym::below(3) as usize);
        e.resize(p, 0x34);
        let a = some_action(&mut e);
        let m = e.len();
        let b = some_action(&mut e);
        let n = e.len();
        e.push(0x35);
        let mut s = Slow(Cursor::new(&e[..]));
        s.0.set_position(p as u64);
        match Action::from_reader((&mut s, 0)) {
            Ok((bits, v)) => {
                sym::check(bits == 8 * (m - p), 1);
                sym::check(v == a, 2);
                sym::check(s.0.position() as usize == m, 3);
                sym::reach(1);
            }
            Err(_) => sym::check(false, 4),
        }
        match Action::from_reader((&mut s, 0)) {
            Ok((bits, v)) => {
                sym::check(bits == 8 * (n - m), 5);
                sym::check(v == b, 6);
                sym::check(s.0.position() as usize == n, 7);
            }
            Err(_) => sym::check(false, 8),
        }
        // the same as a command, from the first action on
        let mut s = Slow(Cursor::new(&e[p..n]));
        match Command::from_reader((&mut s, 0)) {
            Ok((bits, v)) => {
                let k = if matches!(a, Action::IndirectForward(_)) { m } else { n };
                sym::check(bits == 8 * (k - p) && s.0.position() as usize == k - p, 9);
                sym::check(v.actions[0] == a, 10);
                sym::check(v.actions.len() == 1 + (k == n) as usize, 11);
            }
            Err(_) => sym::check(false, 12),
        }
    }
    k_c06_bit_offset {
        // an action that starts within a byte: 0x34 0x05 four bits late
        let b = [0x03, 0x40, 0x50];
        let want = dash7::app::action::Action::try_from(&[0x34u8, 5][..]).ok();
        let r = dash7::app::action::Action::from_bytes((&b[..], 4)).ok().map(|r| r.1);
        sym::check(r == want, 1);
        sym::reach(1);
    }
    h_c06_simple { group(0, true) }
    h_c06_indirect { group(1, true) }
    h_c06_forward { group(2, true) }
    h_c06_status { group(3, true) }
    h_c06_query {
        let (k, n, m) = (sym::below(gen::QUERIES), sym::below(3), sym::bool());
        let mut e = vec![];
        let a = gen::query_action(0, k, n as usize, m, false, &mut e);
        action(a, e, true);
    }
    h_c06_raw { group(5, true) }
    h_c06_long {
        // items of many bytes, where counts of bits leave 8, 11 and 16 bit numbers
        let n = [27usize, 28, 252, 300, 8192][sym::split(sym::below(5) as usize)];
        let mut e = vec![];
        let a = gen::big_action(n, &mut e);
        action(a, e, n < 300);
    }
    h_c06_sys_file {
        let k = sym::below(gen::FILES);
        let mut e = vec![];
        let a = gen::sys_file_action(2, k, &mut e);
        action(a, e, true);
    }
    h_c06_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        group(7, true);
    }
    h_c06_file {
        let k = sym::below(gen::FILES);
        let mut e = vec![];
        let (id, f) = gen::file(k, &mut e);
        let w = around(&e, true);
        let Ok(id) = FileId::try_from(id) else { return sym::check(false, 10) };
        match File::from_bytes((&w.buf, 8 * w.p), id, sym::u32()) {
            Ok((rest, v)) => {
                sym::check(rest.1 == 0 && rest.0 == &w.buf[w.end..], 1);
                sym::check(v == f, 2);
                sym::reach(1);
            }
            Err(_) => sym::check(false, 3),
        }
    }
    h_c06_raw_file {
        // of a file without structure exactly the given number of bytes is taken
        let b = sym::bytes::<6>();
        let p = sym::below(3) as usize;
        let n = sym::below(6) as usize;
        let id = sym::u8();
        sym::assume(!gen::structured(id));
        let Ok(id) = FileId::try_from(id) else { return sym::check(false, 10) };
        match File::from_bytes((&b, 8 * p), id, n as u32) {
            Ok((rest, v)) => {
                sym::check(p + n <= 6, 1);
                sym::check(rest.1 == 0 && rest.0 == &b[p + n..], 2);
                match v {
                    File::Other(d) => sym::check(d == &b[p..p + n], 3),
                    _ => sym::check(false, 4),
                }
                sym::reach(1);
            }
            Err(_) => {
                sym::check(p + n > 6, 5);
                sym::reach(2);
            }
        }
    }
    h_c06_command {
        // consumes everything, or up to and including an indirect forward
        let mut e = vec![];
        let k = sym::below(util::SHORT);
        let mut v = vec![util::short_action(k, &mut e)];
        let f = sym::bool();
        if f {
            let i = sym::below(5);
            v.push(gen::indirect_forward(i, &mut e));
        } else {
            v.push(gen::simple(1, &mut e));
        }
        let p = sym::below(3) as usize;
        let t = if f { sym::below(3) as usize } else { 0 };
        let mut buf = sym::vec(p);
        buf.extend_from_slice(&e);
        let end = buf.len();
        buf.extend_from_slice(&sym::vec(t));
        let a = Command::new(v);
        match Command::from_bytes((&buf, 8 * p)) {
            Ok((rest, v)) => {
                sym::check(rest.1 == 0 && rest.0 == &buf[end..], 1);
                sym::check(v == a, 2);
                sym::reach(1);
            }
            Err(_) => sym::check(false, 3),
        }
        let mut c = Cursor::new(&buf[..]);
        match Command::from_reader((&mut c, 8 * p)) {
            Ok((bits, v)) => {
                sym::check(bits == 8 * end, 4);
                sym::check(v == a, 5);
                // the end is found by looking for more
                sym::check(c.position() as usize == end, 6);
            }
            Err(_) => sym::check(false, 7),
        }
        let r = Command::try_from(&buf[p..]);
        sym::check(r.is_ok() == (t == 0), 8);
    }
    h_c06_parts {
        match sym::below(9) {
            0 => part!(gen::addressee),
            1 => part!(gen::qos),
            2 => part!(gen::dash7_config),
            3 => part!(gen::dash7_status),
            4 => part!(gen::file_header),
            5 => part!(gen::channel),
            6 => part!(gen::file_offset),
            7 => part!(gen::varint),
            _ => { let k = sym::below(6); part!(|w: &mut Vec<u8>| gen::interface_config(k, w)) }
        }
    }
    h_c06_bytes {
        // whatever is accepted: rest and taken bytes make up the input, and the taken bytes alone are enough
        let b = sym::bytes::<6>();
        let n = sym::below(7) as usize;
        sym::assume(!matches!(b[0] & 0x3F, 4 | 5 | 32 | 8 | 9 | 11 | 34));
        if let Ok((rest, v)) = Action::from_bytes((&b[..n], 0)) {
            let k = rest.0.len();
            sym::check(rest.1 == 0 && k <= n && rest.0 == &b[n - k..n], 1);
            match Action::try_from(&b[..n - k]) {
                Ok(w) => sym::check(w == v, 2),
                Err(_) => sym::check(false, 3),
            }
            sym::reach(1);
        }
    }
}
