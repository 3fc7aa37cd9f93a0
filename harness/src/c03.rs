//! C03: encoding and decoding are inverse.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use deku::prelude::*;

fn value(a: Action) {
    let Ok(b) = a.to_bytes() else { return sym::check(false, 1) };
    util::observe(&b);
    match Action::try_from(b.as_slice()) {
        Ok(v) => {
            sym::reach(1);
            sym::check(v == a, 2);
        }
        Err(_) => sym::check(false, 3),
    }
    match Vec::<u8>::try_from(a) {
        Ok(c) => sym::check(c == b, 4),
        Err(_) => sym::check(false, 4),
    }
}
fn bytes(b: &[u8]) {
    // known finding: the interface type of a status of an unknown interface is lost
    sym::assume(!(b[0] == 0x62 && b[1] > 3 && b[1] != 0xD7));
    if let Ok((_, v)) = Action::from_bytes((b, 0)) {
        let Ok(e) = v.to_bytes() else { return sym::check(false, 5) };
        sym::observe(&e);
        match Action::try_from(e.as_slice()) {
            Ok(w) => {
                sym::reach(1);
                sym::check(w == v, 6);
                match w.to_bytes() {
                    Ok(f) => sym::check(f == e, 7),
                    Err(_) => sym::check(false, 7),
                }
            }
            Err(_) => sym::check(false, 8),
        }
    }
}
fn group(g: u8) {
    value(util::group_action(g, &mut vec![]))
}
/// a container: bytes, then the same value back
fn comp<T>(v: T)
where
    T: DekuContainerWrite + PartialEq + for<'a> DekuContainerRead<'a>,
{
    let Ok(b) = v.to_bytes() else { return sym::check(false, 10) };
    sym::observe(&b);
    match T::from_bytes((&b, 0)) {
        Ok((rest, w)) => {
            sym::reach(1);
            sym::check(w == v, 11);
            sym::check(rest.0.is_empty(), 12);
        }
        Err(_) => sym::check(false, 13),
    }
}
fn comp_bytes<T>(b: &[u8])
where
    T: DekuContainerWrite + PartialEq + for<'a> DekuContainerRead<'a>,
{
    if let Ok((_, v)) = T::from_bytes((b, 0)) {
        comp(v)
    }
}
entries! {
    h_c03_simple { group(0) }
    h_c03_indirect { group(1) }
    h_c03_forward { group(2) }
    h_c03_status { group(3) }
    h_c03_query { group(4) }
    h_c03_raw { group(5) }
    h_c03_file { group(6) }
    h_c03_final {
        #[cfg(feature = "wizzilab")]
        group(7);
        sym::reach(1);
    }
    h_c03_command {
        let mut w = vec![];
        let (k, l) = (sym::below(util::SHORT), sym::below(util::SHORT));
        let c = Command::new(vec![util::short_action(k, &mut w), util::short_action(l, &mut w), gen::simple(0, &mut w)]);
        let Ok(b) = c.to_bytes() else { return sym::check(false, 1) };
        sym::observe(&b);
        match Command::try_from(b.as_slice()) {
            Ok(v) => {
                sym::reach(1);
                sym::check(v == c, 2);
            }
            Err(_) => sym::check(false, 3),
        }
        match Vec::<u8>::try_from(c) {
            Ok(e) => sym::check(e == b, 4),
            Err(_) => sym::check(false, 4),
        }
    }
    h_c03_long { value(util::big_action(&mut vec![])) }
    h_c03_part {
        let w = &mut vec![];
        match sym::below(8) {
            0 => comp(gen::addressee(w)),
            1 => comp(gen::qos(w)),
            2 => comp(gen::dash7_config(w)),
            3 => comp(gen::dash7_status(w)),
            4 => comp(gen::file_header(w)),
            5 => comp(gen::channel(w)),
            6 => comp(gen::file_offset(w)),
            _ => { let k = sym::below(4); comp(gen::indirect_interface(k, w)) }
        }
    }
    h_c03_bytes {
        let b = sym::bytes::<8>();
        sym::assume(!matches!(b[0] & 0x3F, 1 | 8 | 9 | 11 | 4 | 5 | 32 | 50 | 51));
        bytes(&b);
    }
    h_c03_bytes_read {
        let b = sym::bytes::<7>();
        sym::assume(b[0] & 0x3F == 1);
        bytes(&b);
    }
    h_c03_bytes_query {
        let b = sym::bytes::<8>();
        sym::assume(b[0] & 0x3F == 8);
        bytes(&b);
    }
    h_c03_bytes_file {
        let b = sym::bytes::<8>();
        sym::assume(b[0] & 0x3F == 4);
        bytes(&b);
    }
    h_c03_bytes_forward {
        let b = sym::bytes::<8>();
        sym::assume(matches!(b[0] & 0x3F, 50 | 51));
        // the addressee is covered on its own below; here none that needs more bytes
        if b[1] == 0xD7 {
            for i in 3..8 {
                sym::assume(b[i] == 0x10);
            }
        }
        bytes(&b);
    }
    h_c03_bytes_part {
        match sym::below(6) {
            0 => comp_bytes::<dash7::network::Addressee>(&sym::bytes::<15>()),
            1 => comp_bytes::<dash7::types::VarInt>(&sym::bytes::<1>()),
            2 => comp_bytes::<dash7::session::QoS>(&sym::bytes::<1>()),
            3 => comp_bytes::<dash7::data::FileHeader>(&sym::bytes::<12>()),
            4 => comp_bytes::<dash7::physical::Channel>(&sym::bytes::<3>()),
            _ => comp_bytes::<dash7::app::operation::Length>(&sym::bytes::<4>()),
        }
    }
    h_c03_bytes_sys_file {
        match sym::below(8) {
            0 => file::<8>(0x00),
            1 => file::<2>(0x06),
            2 => file::<56>(0x01),
            3 => file::<7>(0x05),
            4 => file::<7>(0x0A),
            5 => file::<16>(0x0B),
            6 => file::<16>(0x0E),
            _ => file::<21>(0x09),
        }
    }
    h_c03_bytes_text {
        let b = sym::bytes::<15>();
        // a long character, or part of one, at the end of a text
        for i in 2..15 {
            sym::assume(b[i] < 0x80 || matches!(i, 6 | 7 | 13 | 14));
        }
        file_of(2, &b);
    }
    h_c03_bytes_profile {
        let mut b = sym::bytes::<65>();
        let f = sym::below(5) as usize;
        if f != 4 {
            b[0] = 0x32;
        }
        for i in 0..4 {
            if i != f {
                b[2 + 2 * i] &= 0x1F;
            }
        }
        file_of(0x23, &b);
    }
    h_c03_bytes_config {
        let mut b = sym::bytes::<15>();
        b[0] = 0x32;
        b[1] = 0xD7;
        // quality of service, timeout and addressee vary one at a time
        let f = sym::below(3);
        if f != 0 {
            b[2] = 0x82;
        }
        if f != 1 {
            b[3] = 5;
        }
        if f != 2 {
            b[4] = if cfg!(feature = "subiot") { 0x31 } else { 9 };
        }
        bytes(&b);
    }
    h_c03_bytes_dash7_status {
        let mut b = sym::bytes::<27>();
        b[0] = 0x62;
        b[1] = 0xD7;
        b[2] = 22;
        let f = sym::below(3);
        if f != 0 {
            b[3] = 0x32;
        }
        if f != 1 {
            b[12] = 5;
            b[13] = 0x31;
        }
        bytes(&b);
    }
}
fn file<const N: usize>(id: u8) {
    file_of(id, &sym::bytes::<N>())
}
/// a file of exactly its size, as an operand
fn file_of(id: u8, d: &[u8]) {
    let mut b = vec![0x04, id, 0];
    if d.len() < 0x40 {
        b.push(d.len() as u8);
    } else {
        b.extend([0x40, d.len() as u8]);
    }
    b.extend_from_slice(d);
    bytes(&b);
}
