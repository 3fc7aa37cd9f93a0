//! C18: the command line tool. Its module is included as it is; what it prints is caught by a
//! local `println!`. Formatting is executed for real (--real-format).
use crate::sym;
use dash7::app::command::Command;
use dash7::file::{File, FileId};
use dash7::link::{BackgroundFrame, ForegroundFrame};
use deku::prelude::*;

static mut SHOWN: Vec<String> = vec![];
static mut FAILS: bool = false;
#[allow(static_mut_refs)]
fn show(t: String) {
    unsafe {
        // nothing is shown of what does not decode
        sym::check(!FAILS, 90);
        SHOWN.push(t)
    }
}
#[allow(static_mut_refs)]
fn shown() -> String {
    unsafe {
        sym::check(SHOWN.len() == 1, 91);
        SHOWN.pop().unwrap_or_default()
    }
}
#[allow(static_mut_refs)]
fn start(fails: bool) {
    unsafe {
        SHOWN.clear();
        FAILS = fails;
    }
    if fails {
        sym::expect_panic();
    }
}
mod cli {
    macro_rules! println {
        ($($t:tt)*) => { super::show(format!($($t)*)) };
    }
    macro_rules! print {
        ($($t:tt)*) => { super::show(format!($($t)*)) };
    }
    #[allow(unused_imports)]
    use print as _print;
    include!("/repo/dash7-cli/src/parse.rs");

    pub fn run(kind: Option<u8>, file_id: Option<u8>, hex: String) {
        let parse_type = kind.map(|k| match k {
            0 => ParseType::Foreground,
            1 => ParseType::Background,
            2 => ParseType::Alp,
            3 => ParseType::Serial,
            _ => ParseType::Systemfile,
        });
        main(ParseArgs { parse_type, file_id, hex })
    }
    pub fn kind(name: &str) -> Option<u8> {
        match <ParseType as ValueEnum>::from_str(name, false) {
            Ok(ParseType::Foreground) => Some(0),
            Ok(ParseType::Background) => Some(1),
            Ok(ParseType::Alp) => Some(2),
            Ok(ParseType::Serial) => Some(3),
            Ok(ParseType::Systemfile) => Some(4),
            Err(_) => None,
        }
    }
}
fn has(t: &str, n: &str) -> bool {
    let (t, n) = (t.as_bytes(), n.as_bytes());
    n.len() <= t.len() && (0..=t.len() - n.len()).any(|i| (0..n.len()).all(|j| t[i + j] == n[j]))
}
/// an even number of hexadecimal digits, white space anywhere
fn meaning(t: &str) -> Option<Vec<u8>> {
    let mut d = vec![];
    for c in t.chars() {
        d.push(match c as u32 {
            9..=13 | 32 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000 => continue,
            v @ 48..=57 => v as u8 - 48,
            v @ 65..=70 => v as u8 - 55,
            v @ 97..=102 => v as u8 - 87,
            _ => return None,
        });
    }
    if d.len() % 2 != 0 {
        return None;
    }
    Some(d.chunks(2).map(|p| p[0] << 4 | p[1]).collect())
}
/// a file of no known structure shows the bytes themselves
fn text(t: String) {
    let want = meaning(&t);
    start(want.is_none());
    cli::run(Some(4), Some(0x77), t);
    if let Some(b) = want {
        sym::check(has(&shown(), &format!("{:?}", b)), 1);
        sym::reach(1);
    } else {
        sym::check(false, 2);
    }
}
fn ok<T: std::fmt::Debug>(r: Result<((&[u8], usize), T), DekuError>, whole: bool) -> Option<String> {
    match r {
        Ok(((rest, _), v)) if !whole || rest.is_empty() => Some(format!("{:?}", v)),
        _ => None,
    }
}
fn meant(kind: u8, id: u8, b: &[u8]) -> Option<String> {
    match kind {
        0 => ok(ForegroundFrame::from_bytes((b, 0)), true),
        1 => ok(BackgroundFrame::from_bytes((b, 0)), true),
        2 => match Command::from_bytes((b, 0)) {
            Ok(((&[], _), c)) => Some(c.to_string()),
            _ => None,
        },
        3 => None,
        _ => ok(File::from_bytes((b, 0), FileId::try_from(id).ok()?, b.len() as u32), false),
    }
}
fn dispatch(kind: u8, id: u8, b: &[u8]) {
    let t: String = b.iter().flat_map(|x| [hex(x >> 4), hex(x & 15)]).collect();
    let want = meant(kind, id, b);
    start(want.is_none());
    cli::run(Some(kind), Some(id), t);
    match want {
        Some(w) => {
            sym::check(has(&shown(), &w), 1);
            sym::reach(1);
        }
        None => sym::check(false, 2),
    }
}
/// only digits below 10 are used where the bytes are symbolic
fn hex(n: u8) -> char {
    if n < 10 {
        (48 + n) as char
    } else {
        (87 + n) as char
    }
}
fn digits(n: usize) -> Vec<u8> {
    let v = sym::vec(n);
    for b in &v {
        sym::assume(b & 15 < 10 && b >> 4 < 10);
    }
    v
}
entries! {
    h_c18_text {
        let n = sym::split(sym::below(4) as usize);
        let v = sym::vec(n);
        for b in &v {
            sym::assume(*b < 128);
        }
        text(String::from_utf8(v).unwrap());
    }
    h_c18_separators {
        // four digits, separated anywhere by any white space or something else
        const S: [&str; 14] = [
            "", " ", "\n", "\t", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{200b}", "\u{e9}", "-",
        ];
        let i = sym::split(sym::below(5) as usize);
        let c = S[sym::split(sym::below(14) as usize)];
        let d = ["5", "A", "f", "0"];
        let mut t = String::new();
        for k in 0..5 {
            if k == i || k == 2 {
                t.push_str(c);
            }
            if k < 4 {
                t.push_str(d[k]);
            }
        }
        text(t);
    }
    h_c18_long {
        // many digits, all of them shown
        let n = sym::split(sym::below(20) as usize);
        let mut t = String::new();
        for i in 0..2 * n {
            t.push(hex((i * 7 + i / 16) as u8 & 15));
            if i % 5 == 0 {
                t.push(' ');
            }
        }
        text(t);
    }
    h_c18_longer {
        // sizes around those of small numbers and of lines, in lower and upper case, in groups
        let n = [20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513][sym::split(sym::below(15) as usize)];
        let (upper, group) = (sym::split(sym::bool() as usize) == 1, [2, 64, 1000][sym::split(sym::below(3) as usize)]);
        let mut t = String::new();
        for i in 0..2 * n {
            let h = hex((i * 7 + i / 16) as u8 & 15);
            t.push(if upper { h.to_ascii_uppercase() } else { h });
            if i % group == group - 1 {
                t.push_str(if group == 64 { "\n  " } else { " " });
            }
        }
        text(t);
    }
    h_c18_long_command {
        // many actions, and one with long data; whole, cut and with a byte too many
        let n = [9, 33, 70, 130][sym::split(sym::below(4) as usize)];
        let mut b = if sym::split(sym::bool() as usize) == 1 {
            vec![0x30; n]
        } else {
            let mut b = vec![0x20, 0x45, 0];
            if n < 64 { b.push(n as u8) } else { b.extend([0x40, n as u8]) }
            b.resize(b.len() + n, 0x21);
            b
        };
        match sym::split(sym::below(3) as usize) {
            0 => (),
            1 => b.push(0x41),
            _ => b.truncate(b.len() - 1),
        }
        dispatch(2, 0, &b);
    }
    h_c18_background {
        let n = sym::split(sym::below(8) as usize);
        let mut b = vec![0x11u8, 0x42, 0x21, 0x43, 0x65, 0x07, 0x33];
        b.truncate(n);
        if n > 0 {
            let i = sym::split(sym::below(n as u8) as usize);
            b[i] = digits(1)[0];
        }
        dispatch(1, 0, &b);
    }
    h_c18_foreground {
        let mut w: Vec<u8> = vec![0x0B, 0x12, 0x61, 0x30, 0x2C, 0x80, 0x81, 0x00, 7, 8, 0, 0x12, 0x34];
        match sym::split(sym::below(4) as usize) {
            0 => w[1] = digits(1)[0],
            1 => w[11] = digits(1)[0],
            2 => w.truncate(sym::split(sym::below(13) as usize)),
            _ => w.push(0),
        }
        dispatch(0, 0, &w);
    }
    h_c18_alp {
        let n = sym::split(sym::below(3) as usize);
        dispatch(2, 0, &digits(n));
    }
    h_c18_command {
        let e: [&[u8]; 5] = [&[0x34, 5, 0], &[0xA3, 6, 0x41, 7, 0, 3], &[0x62, 0, 0, 0x30], &[0x41], &[0x20, 0x45, 0, 2, 1]];
        dispatch(2, 0, e[sym::split(sym::below(5) as usize)]);
    }
    h_c18_serial {
        let n = sym::split(sym::below(3) as usize);
        sym::reach(1);
        dispatch(3, 0, &digits(n));
    }
    h_c18_file {
        // every file number, sizes around those of the files
        let id = sym::split(sym::u8() as usize) as u8;
        let n = sym::split(sym::below(6) as usize);
        let b: Vec<u8> = (0..[0, 7, 8, 12, 15, 21][n]).map(|i| 0x30 + i as u8 % 10).collect();
        // a security key is shown as a number of 128 bits, which needs arithmetic of 256
        if id != 0x0E || b.len() < 16 {
            dispatch(4, id, &b);
        }
    }
    h_c18_file_bytes {
        let id = [0x0A, 0x0B, 0x05, 0x40, 0x0D][sym::split(sym::below(5) as usize)];
        let n = sym::split(sym::below(3) as usize);
        let mut b = vec![0x20u8; [0, 7, 16][n]];
        if n > 0 {
            let i = sym::split(sym::below(b.len() as u8) as usize);
            b[i] = digits(1)[0];
        }
        dispatch(4, id, &b);
    }
    h_c18_any_file {
        // without a file number: one of the files it can be
        let n = sym::split(sym::below(20) as usize);
        let b: Vec<u8> = (0..n).map(|i| 0x30 + i as u8 % 10).collect();
        let t: String = b.iter().flat_map(|x| [hex(x >> 4), hex(x & 15)]).collect();
        start(false);
        cli::run(Some(4), None, t);
        let s = shown();
        sym::check((0..=0x2E).any(|i| meant(4, i, &b).is_some_and(|w| has(&s, &w))), 1);
        sym::reach(1);
    }
    h_c18_any {
        // without a kind: one of the structures it can be
        let e: [&[u8]; 8] = [
            &[],
            &[0x34, 5, 0],
            &[0x11, 0x42, 0x21, 0x43, 0x65, 0x07],
            &[0x0B, 0x12, 0x61, 0x30, 0x2C, 0x80, 0x81, 0x00, 7, 8, 0, 0x12, 0x34],
            &[0x07, 0x12],
            &[0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08],
            &[0x41, 7, 0, 3],
            &[0xFE, 0xFE, 0xFE],
        ];
        let mut b = e[sym::split(sym::below(8) as usize)].to_vec();
        if !b.is_empty() && b.len() < 7 {
            let i = b.len() - 1;
            b[i] = digits(1)[0];
        }
        let t: String = b.iter().flat_map(|x| [hex(x >> 4), hex(x & 15)]).collect();
        start(false);
        cli::run(None, None, t);
        let s = shown();
        let any = (0..3).any(|k| meant(k, 0, &b).is_some_and(|w| has(&s, &w)))
            || (0..=0x2E).any(|i| meant(4, i, &b).is_some_and(|w| has(&s, &w)));
        sym::check(any, 1);
        sym::reach(1);
    }
    h_c18_names {
        let n = sym::split(sym::below(4) as usize);
        let v = sym::vec(n);
        for b in &v {
            sym::assume(*b < 128);
        }
        let want = match &v[..] {
            b"fg" => Some(0),
            b"bg" => Some(1),
            b"a" => Some(2),
            b"alp" => Some(2),
            b"e" => Some(3),
            b"s" => Some(4),
            _ => None,
        };
        sym::check(cli::kind(&String::from_utf8(v).unwrap()) == want, 1);
        sym::reach(1);
    }
    h_c18_long_names {
        const N: [(&str, u8); 5] = [("foreground", 0), ("background", 1), ("alp", 2), ("serial", 3), ("systemfile", 4)];
        let (n, k) = N[sym::split(sym::below(5) as usize)];
        sym::check(cli::kind(n) == Some(k), 1);
        // any other letter in any place is no name
        let mut v = n.as_bytes().to_vec();
        let i = sym::split(sym::below(v.len() as u8) as usize);
        let c = sym::u8();
        sym::assume(c < 128 && c != v[i]);
        v[i] = c;
        sym::check(cli::kind(&String::from_utf8(v).unwrap()).is_none(), 2);
        sym::reach(1);
    }
}
