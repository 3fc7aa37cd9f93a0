//! C08: lengths use the shortest of four forms and survive the wire.
use crate::{gen, sym};
use dash7::app::action::{Action, OpCode};
use dash7::app::operation::{ActionHeader, FileOffset, Length, ReadFileData};
use deku::prelude::*;

fn num(l: Length) -> u32 {
    l.into()
}
entries! {
    h_c08_value {
        let v = sym::u32();
        let l = Length::from(v);
        sym::check(num(l) == v, 1);
        match l.to_bytes() {
            Ok(b) => {
                sym::observe(&b);
                sym::check(v < 1 << 30, 2);
                let mut w = vec![];
                gen::put_len(&mut w, v);
                sym::check(b == w, 3);
                match Length::try_from(b.as_slice()) {
                    Ok(x) => {
                        sym::check(num(x) == v && x == l, 4);
                        sym::reach(1);
                    }
                    Err(_) => sym::check(false, 5),
                }
            }
            Err(_) => {
                sym::check(v >= 1 << 30, 6);
                sym::reach(2);
            }
        }
    }
    h_c08_usize {
        let v = sym::u32();
        let l = Length::from(v as usize);
        let u: usize = l.into();
        sym::check(u == v as usize && num(l) == v, 1);
        sym::check(num(Length::default()) == 0, 2);
        sym::reach(1);
    }
    h_c08_bytes {
        let b = sym::bytes::<5>();
        let n = sym::below(6) as usize;
        let k = if n > 0 { 1 + (b[0] >> 6) as usize } else { 9 };
        match Length::from_bytes((&b[..n], 0)) {
            Ok((rest, l)) => {
                sym::check(k <= n, 1);
                sym::check(rest.1 == 0 && rest.0.len() == n - k, 2);
                let mut v = (b[0] & 0x3F) as u32;
                let mut i = 1;
                while i < k {
                    v = v << 8 | b[i] as u32;
                    i += 1;
                }
                sym::check(num(l) == v, 3);
                sym::reach(1);
                // whatever form was read, the shortest is written, and means the same
                match l.to_bytes() {
                    Ok(e) => {
                        sym::observe(&e);
                        let mut w = vec![];
                        gen::put_len(&mut w, v);
                        sym::check(e == w, 4);
                    }
                    Err(_) => sym::check(false, 5),
                }
            }
            Err(_) => {
                sym::check(k > n, 6);
                sym::reach(2);
            }
        }
    }
    h_c08_exact {
        let b = sym::bytes::<5>();
        let n = sym::below(6) as usize;
        let ok = Length::try_from(&b[..n]).is_ok();
        sym::check(ok == (n > 0 && n == 1 + (b[0] >> 6) as usize), 1);
        sym::reach(1);
    }
    h_c08_within {
        // two lengths of any size next to each other
        let (o, l) = (sym::u32(), sym::u32());
        let id = sym::u8();
        let a = Action::ReadFileData(ReadFileData {
            header: ActionHeader::new(false, true),
            opcode: OpCode(1),
            offset: FileOffset { file_id: id, offset: Length::from(o) },
            length: Length::from(l),
        });
        match a.to_bytes() {
            Ok(b) => {
                sym::observe(&b);
                sym::check(o < 1 << 30 && l < 1 << 30, 1);
                let mut w = vec![0x41, id];
                gen::put_len(&mut w, o);
                gen::put_len(&mut w, l);
                sym::check(b == w, 2);
                match Action::try_from(b.as_slice()) {
                    Ok(Action::ReadFileData(r)) => {
                        sym::check(num(r.offset.offset) == o && num(r.length) == l && r.offset.file_id == id, 3);
                        sym::reach(1);
                    }
                    _ => sym::check(false, 4),
                }
            }
            Err(_) => {
                sym::check(o >= 1 << 30 || l >= 1 << 30, 5);
                sym::reach(2);
            }
        }
    }
}
