//! C07: a command is the in-order concatenation of its actions.
use crate::{gen, sym, util};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::operation::{ActionHeader, ChunkStep, Nop, ResponseTag, ResponseTagHeader};
use deku::no_std_io::Cursor;
use deku::prelude::*;

/// bytes of the command are the given ones, and they decode to it
fn same(c: &Command, want: &[u8]) {
    match c.to_bytes() {
        Ok(b) => {
            sym::observe(&b);
            sym::check(b == want, 1);
        }
        Err(_) => sym::check(false, 2),
    }
    match Command::try_from(want) {
        Ok(v) => {
            sym::check(v.actions.len() == c.actions.len(), 3);
            sym::check(v == *c, 4);
            sym::reach(1);
        }
        Err(_) => sym::check(false, 5),
    }
}
/// a group's action between two others
fn between(g: u8) {
    let mut w = vec![];
    let a = gen::simple(16, &mut w);
    let b = util::group_action(g, &mut w);
    let c = gen::simple(1, &mut w);
    same(&Command::new(vec![a, b, c]), &w);
}
fn long(n: usize, f: impl Fn(usize, &mut Vec<u8>) -> Action) {
    let mut w = vec![];
    let mut v = vec![];
    for i in 0..n {
        v.push(f(i, &mut w));
    }
    same(&Command::new(v), &w);
}
fn tag(w: &mut Vec<u8>) -> Action {
    let id = gen::byte(w);
    let k = w.len() - 1;
    w.insert(k, 35);
    Action::ResponseTag(ResponseTag { header: ResponseTagHeader { end_of_packet: false, error: false }, opcode: OpCode(35), id })
}
/// opcodes no action has
fn unassigned(op: u8) -> bool {
    !matches!(op, 0 | 1 | 2 | 4 | 5 | 6 | 8 | 9 | 10 | 11 | 16..=20 | 23 | 31..=35 | 48..=52 | 63)
        && !(cfg!(feature = "wizzilab") && op == 38)
}
entries! {
    k_c07_announced_position {
        // two empty actions, announced as two bytes, behind another byte
        let mut c = deku::no_std_io::Cursor::new([9u8, 0, 0]);
        let mut r = deku::reader::Reader::new(&mut c);
        let _ = u8::from_reader_with_ctx(&mut r, ());
        let n = match dash7::app::command::Command::from_reader_with_ctx(&mut r, 2) {
            Ok(c) => c.actions.len(),
            Err(_) => 0,
        };
        sym::check(n == 2, 1);
        sym::reach(1);
    }
    h_c07_triples {
        let mut w = vec![];
        let (i, j, k) = (sym::below(util::SHORT), sym::below(util::SHORT), sym::below(util::SHORT));
        sym::assume(i < 3 || k < 3);
        let c = Command::new(vec![util::short_action(i, &mut w), util::short_action(j, &mut w), util::short_action(k, &mut w)]);
        same(&c, &w);
    }
    h_c07_simple { between(0) }
    h_c07_forward { between(2) }
    h_c07_status { between(3) }
    h_c07_query {
        let mut w = vec![];
        let a = gen::simple(16, &mut w);
        let (k, n, m) = (sym::below(gen::QUERIES), sym::below(3), sym::bool());
        let b = gen::query_action(0, k, n as usize, m, true, &mut w);
        let c = gen::simple(1, &mut w);
        same(&Command::new(vec![a, b, c]), &w);
    }
    h_c07_raw {
        let mut w = vec![];
        let a = gen::simple(1, &mut w);
        let n = sym::below(3);
        let b = gen::raw_file_action(2, n as usize, true, &mut w);
        let c = gen::raw_file_action(0, 1, false, &mut w);
        same(&Command::new(vec![a, b, c]), &w);
    }
    h_c07_sys_file {
        let mut w = vec![];
        let k = sym::below(gen::FILES);
        let b = gen::sys_file_action(2, k, &mut w);
        let c = gen::simple(1, &mut w);
        same(&Command::new(vec![b, c]), &w);
    }
    h_c07_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        between(7);
    }
    h_c07_last {
        // each kind also as the last action
        let mut w = vec![];
        let a = gen::simple(0, &mut w);
        let g = sym::below(3);
        let b = match g {
            0 => util::group_action(0, &mut w),
            1 => {
                let (k, n) = (sym::below(gen::QUERIES), sym::below(3));
                gen::query_action(2, k, n as usize, false, true, &mut w)
            }
            _ => { let n = sym::below(2); gen::raw_file_action(1, n as usize, true, &mut w) }
        };
        same(&Command::new(vec![a, b]), &w);
    }
    h_c07_empty {
        same(&Command::new(vec![]), &[]);
    }
    h_c07_stop {
        // an indirect forward ends the command, whatever follows
        let mut w = vec![];
        let k = sym::below(util::SHORT);
        let i = sym::below(5);
        let c = Command::new(vec![util::short_action(k, &mut w), gen::indirect_forward(i, &mut w)]);
        same(&c, &w);
        let n = w.len();
        let t = sym::below(4) as usize;
        w.extend_from_slice(&sym::vec(t));
        match Command::from_bytes((&w, 0)) {
            Ok((rest, v)) => {
                sym::check(v == c, 6);
                sym::check(rest.0 == &w[n..], 7);
                sym::reach(2);
            }
            Err(_) => sym::check(false, 8),
        }
        sym::check(Command::try_from(&w[..]).is_ok() == (t == 0), 9);
    }
    h_c07_stop_first {
        let mut w = vec![];
        let i = sym::below(5);
        let c = Command::new(vec![gen::indirect_forward(i, &mut w)]);
        let n = w.len();
        w.extend_from_slice(&sym::vec(2));
        match Command::from_bytes((&w, 0)) {
            Ok((rest, v)) => {
                sym::check(v == c, 6);
                sym::check(rest.0 == &w[n..], 7);
                sym::reach(2);
            }
            Err(_) => sym::check(false, 8),
        }
    }
    h_c07_error {
        // an unassigned opcode or a cut action anywhere fails the whole command
        let mut w = vec![];
        let k = sym::below(util::SHORT);
        util::short_action(k, &mut w);
        let j = sym::below(3);
        if j > 0 {
            gen::simple(0, &mut w);
        }
        match sym::below(4) {
            0 => {
                let o = sym::u8();
                sym::assume(unassigned(o & 0x3F));
                w.push(o);
                if j == 2 {
                    gen::simple(0, &mut w);
                }
            }
            1 => w.push(0x20),
            2 => w.extend_from_slice(&[0x04, 0x40, 0, 5, 1, 2, 3, 4]),
            _ => w.extend_from_slice(&[0x08, 0x45, 0x02, 1, 0x40]),
        }
        sym::check(Command::try_from(&w[..]).is_err(), 1);
        sym::check(Command::from_bytes((&w, 0)).is_err(), 2);
        let mut c = Cursor::new(&w[..]);
        sym::check(Command::from_reader((&mut c, 0)).is_err(), 3);
        sym::reach(1);
    }
    h_c07_long_nops {
        long(300, |_, w| {
            let g = sym::bool();
            w.push((g as u8) << 7);
            Action::Nop(Nop { header: ActionHeader::new(g, false), opcode: OpCode(0) })
        });
    }
    h_c07_very_long {
        long(5000, |_, w| {
            w.push(0x30);
            Action::Chunk(ChunkStep::Continue.into())
        });
    }
    t_c07_longest {
        long(70000, |_, w| {
            w.push(0x30);
            Action::Chunk(ChunkStep::Continue.into())
        });
    }
    h_c07_long_tags { long(260, |_, w| tag(w)) }
    h_c07_long_mixed {
        // 40 actions of varied sizes, ids and data free
        long(40, |i, w| match i % 4 {
            0 => tag(w),
            1 => gen::interface_status(0, w),
            2 => {
                let b = sym::u8();
                w.extend_from_slice(&[0x40 | 2, b]);
                Action::ReadFileProperties(dash7::app::operation::FileId { header: ActionHeader::new(false, true), opcode: OpCode(2), file_id: b })
            }
            _ => {
                let d = sym::vec(2);
                w.extend_from_slice(&[32, 0x40, 0, 2, d[0], d[1]]);
                Action::ReturnFileData(dash7::app::operation::FileData::new(
                    ActionHeader::new(false, false),
                    dash7::app::operation::FileOffset { file_id: 0x40, offset: 0u32.into() },
                    dash7::file::File::Other(d),
                    OpCode(32),
                ))
            }
        });
    }
    h_c07_announced {
        // reading with an announced size takes the actions up to it and leaves what follows
        let mut w = vec![];
        let k = sym::below(util::SHORT);
        let c = Command::new(vec![gen::simple(1, &mut w), util::short_action(k, &mut w)]);
        let n = w.len();
        let t = sym::below(3) as usize;
        w.extend_from_slice(&sym::vec(t));
        let mut cur = Cursor::new(&w[..]);
        let mut r = Reader::new(&mut cur);
        match <Command as DekuReader<u32>>::from_reader_with_ctx(&mut r, n as u32) {
            Ok(v) => {
                sym::check(v == c, 1);
                sym::check(r.bits_read == 8 * n, 2);
                sym::reach(1);
            }
            Err(_) => sym::check(false, 3),
        }
        sym::check(cur.position() as usize == n, 4);
    }
}
