//! C17: link, network and transport frames. Private fields are observed through the text of
//! `{:?}`, of which only the values and their order are used (--real-format).
use crate::{sym, util};
use dash7::app::command::Command;
use dash7::link::{BackgroundFrame, ForegroundFrame};
use dash7::network::{self, HoppingControl};
use dash7::transport::{AckTemplate, Control, Frame};
use dash7::types::VarInt;
use deku::prelude::*;

/// bits, most significant first
struct Bits {
    v: Vec<u8>,
    n: usize,
}
impl Bits {
    fn new() -> Self {
        Bits { v: vec![], n: 0 }
    }
    fn put(&mut self, v: u32, n: usize) -> &mut Self {
        for i in (0..n).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            let l = self.v.len() - 1;
            self.v[l] |= (((v >> i) & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
        self
    }
    fn bytes(&mut self, b: &[u8]) -> &mut Self {
        if self.n % 8 == 0 {
            self.v.extend_from_slice(b);
            self.n += 8 * b.len();
        } else {
            for x in b {
                self.put(*x as u32, 8);
            }
        }
        self
    }
}
/// values in the text of a `{:?}`: names of fields and structures dropped
fn values(t: &str) -> Vec<String> {
    let b = t.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if !word(b[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && word(b[i]) {
            i += 1;
        }
        let name = i < b.len() && b[i] == b':' || i + 1 < b.len() && b[i] == b' ' && b[i + 1] == b'{';
        if !name {
            o.push(t[s..i].to_string());
        }
    }
    o
}
fn same(t: String, want: &[String], id: u32) {
    let v = values(&t);
    sym::check(v.len() >= want.len(), id);
    for (a, b) in v.iter().zip(want) {
        sym::check(a.as_bytes() == b.as_bytes(), id + 1);
    }
}
const TYPES: [&str; 4] = ["NbId", "NoId", "UId", "VId"];
fn ty(k: u8) -> String {
    TYPES[sym::split((k & 3) as usize)].to_string()
}
fn s<T: ToString>(v: T) -> String {
    v.to_string()
}
fn flag(v: u8, bit: u8) -> String {
    s(v >> bit & 1 == 1)
}
/// the control field of the network layer: nine bits with a four bit security method, else eight
#[cfg(not(feature = "wizzilab"))]
const NLS: usize = 4;
#[cfg(feature = "wizzilab")]
const NLS: usize = 3;
/// bits in front of a network frame that make its command start on a byte
const LEAD: usize = 4 - NLS;

const METHODS: [&str; 8] =
    ["None", "AesCtr", "AesCbcMac128", "AesCbcMac64", "AesCbcMac32", "AesCcm128", "AesCcm64", "AesCcm32"];

fn transport_parts(b: &[u8]) -> Option<(Frame, usize)> {
    // the oracle: flags, then the parts they announce
    let f = |i: u8| b[0] >> i & 1 == 1;
    let c = Control {
        is_dialog_start: f(6),
        has_listen_timeout: f(5),
        has_execution_delay_timeout: f(4),
        is_ack_requested: f(3),
        is_ack_not_void: f(2),
        is_ack_record_requested: f(1),
        has_agc: f(0),
    };
    let mut p = 1;
    let mut next = || {
        p += 1;
        b.get(p - 1).copied()
    };
    let var = |v: u8| VarInt::new_unchecked(((v & 31) as u32) << (2 * (v >> 5)), false);
    let r = Frame {
        control: c.clone(),
        dialog_id: next()?,
        transaction_id: next()?,
        target_rx_level_i: if c.has_agc { Some(next()?) } else { None },
        listen_timeout: if c.has_listen_timeout { Some(var(next()?)) } else { None },
        execution_delay_timeout: if c.has_execution_delay_timeout { Some(var(next()?)) } else { None },
        congestion_timeout: if c.is_ack_requested && c.is_dialog_start { Some(var(next()?)) } else { None },
        ack_template: if c.is_ack_not_void {
            Some(AckTemplate { transaction_id_start: next()?, transaction_id_stop: next()? })
        } else {
            None
        },
        command: Command::new(vec![]),
    };
    Some((r, p))
}
fn same_varint(a: &Option<VarInt>, b: &Option<VarInt>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => Into::<u32>::into(*a) == Into::<u32>::into(*b),
        _ => false,
    }
}
entries! {
    k_c17_transport_frame {
        // a frame does not decode from its own encoding: the control field is seven bits
        let f = Frame { command: Command::new(vec![crate::gen::simple(18, &mut vec![])]), ..Frame::default() };
        let Ok(b) = f.to_bytes() else { return sym::check(false, 1) };
        sym::check(Frame::from_bytes((&b[..], 0)).ok().map(|r| r.1) == Some(f), 2);
        sym::reach(1);
    }
    h_c17_background {
        let b = sym::bytes::<8>();
        let n = sym::split(sym::below(9) as usize);
        match BackgroundFrame::from_bytes((&b[..n], 0)) {
            Ok(((rest, o), f)) => {
                sym::check(n >= 6 && rest.len() == n - 6 && o == 0, 1);
                match f.to_bytes() {
                    Ok(e) => sym::check(e == b[..6], 2),
                    Err(_) => sym::check(false, 3),
                }
                // two frames are the same only if all their bits are
                let mut c = b;
                let i = sym::below(48);
                c[i as usize / 8] ^= 1 << (i % 8);
                match BackgroundFrame::from_bytes((&c[..6], 0)) {
                    Ok((_, g)) => sym::check(f != g, 4),
                    Err(_) => sym::check(false, 5),
                }
                sym::reach(1);
            }
            Err(_) => {
                sym::check(n < 6, 6);
                sym::reach(2);
            }
        }
    }
    h_c17_background_fields {
        let i = sym::split(sym::below(6) as usize);
        let mut b = [0x11, 0x92, 0x21, 0x43, 0x65, 0x07];
        b[i] = sym::u8();
        let Ok((_, f)) = BackgroundFrame::from_bytes((&b[..], 0)) else { return sym::check(false, 1) };
        let w = [
            s(b[0]),
            ty(b[1] >> 6),
            s(b[1] & 63),
            s(u16::from_le_bytes([b[2], b[3]])),
            s(u16::from_le_bytes([b[4], b[5]])),
        ];
        same(format!("{:?}", f), &w, 2);
        sym::reach(1);
    }
    h_c17_background_default {
        let f = BackgroundFrame::default();
        sym::check(f.to_bytes().ok() == Some(vec![0, 0x40, 0, 0, 0, 0]), 1);
        sym::reach(1);
    }
    h_c17_network_control {
        let (o, h, t, m) = (sym::below(2), sym::below(2), sym::below(4), sym::below(1 << NLS));
        let mut w = Bits::new();
        w.put(o as u32, 1).put(h as u32, 1).put(t as u32, 2).put(0, 1).put(m as u32, NLS);
        match network::Control::from_bytes((&w.v, 0)) {
            Ok((_, c)) => {
                sym::check(m < 8, 1);
                match c.to_bytes() {
                    Ok(e) => sym::check(e == w.v, 2),
                    Err(_) => sym::check(false, 3),
                }
                let want = [s(o == 1), s(h == 1), ty(t), s(METHODS[sym::split((m & 7) as usize)])];
                same(format!("{:?}", c), &want, 4);
                sym::reach(1);
            }
            Err(_) => {
                sym::check(m >= 8, 6);
                sym::reach(2);
            }
        }
    }
    h_c17_hopping {
        let b = sym::u8();
        let Ok((_, c)) = HoppingControl::from_bytes((&[b], 0)) else { return sym::check(false, 1) };
        match c.to_bytes() {
            Ok(e) => sym::check(e == [b & 0x70], 2),
            Err(_) => sym::check(false, 3),
        }
        same(format!("{:?}", c), &[flag(b, 6), ty(b >> 4)], 4);
        sym::reach(1);
    }
    h_c17_transport_control {
        let b = sym::u8();
        let Ok((_, c)) = Control::from_bytes((&[b], 0)) else { return sym::check(false, 1) };
        let f = |i: u8| b >> i & 1 == 1;
        sym::check(c.is_dialog_start == f(7), 2);
        sym::check(c.has_listen_timeout == f(6), 3);
        sym::check(c.has_execution_delay_timeout == f(5), 4);
        sym::check(c.is_ack_requested == f(4), 5);
        sym::check(c.is_ack_not_void == f(3), 6);
        sym::check(c.is_ack_record_requested == f(2), 7);
        sym::check(c.has_agc == f(1), 8);
        match c.to_bytes() {
            Ok(e) => sym::check(e == [b & 0xFE], 9),
            Err(_) => sym::check(false, 10),
        }
        sym::reach(1);
    }
    h_c17_ack_template {
        let (a, z) = (sym::u8(), sym::u8());
        let t = AckTemplate { transaction_id_start: a, transaction_id_stop: z };
        sym::check(t.to_bytes().ok() == Some(vec![a, z]), 1);
        sym::check(AckTemplate::from_bytes((&[a, z], 0)).ok().map(|r| r.1) == Some(t), 2);
        sym::check(AckTemplate::from_bytes((&[a], 0)).is_err(), 3);
        sym::reach(1);
    }
    h_c17_transport_encoded {
        // every combination of flags, with the parts they announce
        let b = sym::bytes::<9>();
        sym::assume(b[0] < 128);
        let Some((mut f, p)) = transport_parts(&b) else { return };
        // one action behind it
        let mut w = vec![];
        f.command = Command::new(vec![util::short_action(sym::below(util::SHORT), &mut w)]);
        // a number is written in shortest form, which need not be the bytes it came from
        let mut want = Bits::new();
        want.put(b[0] as u32, 7).bytes(&[f.dialog_id, f.transaction_id]);
        if let Some(v) = f.target_rx_level_i {
            want.bytes(&[v]);
        }
        for v in [f.listen_timeout, f.execution_delay_timeout, f.congestion_timeout] {
            if let Some(v) = v {
                let Some(e) = util::enc(&v) else { return sym::check(false, 1) };
                want.bytes(&e);
            }
        }
        if let Some(a) = &f.ack_template {
            want.bytes(&[a.transaction_id_start, a.transaction_id_stop]);
        }
        want.bytes(&w);
        sym::check(p <= 9, 2);
        match f.to_bytes() {
            Ok(e) => sym::check(e == want.v, 3),
            Err(_) => sym::check(false, 4),
        }
        sym::reach(1);
    }
    h_c17_transport_decoded {
        // the seven bits of control at the end of a byte
        let mut b = sym::bytes::<9>();
        let n = sym::split(3 + sym::below(7) as usize);
        b[0] &= 0x7F;
        let parts = transport_parts(&b[..n]);
        // at most two bytes of command
        sym::assume(match &parts {
            Some((_, p)) => n - *p <= 2,
            None => true,
        });
        match (Frame::from_bytes((&b[..n], 1)), parts) {
            (Ok((_, f)), Some((w, p))) => {
                sym::check(f.control == w.control, 1);
                sym::check(f.dialog_id == w.dialog_id, 2);
                sym::check(f.transaction_id == w.transaction_id, 3);
                sym::check(f.target_rx_level_i == w.target_rx_level_i, 4);
                sym::check(same_varint(&f.listen_timeout, &w.listen_timeout), 5);
                sym::check(same_varint(&f.execution_delay_timeout, &w.execution_delay_timeout), 6);
                sym::check(same_varint(&f.congestion_timeout, &w.congestion_timeout), 7);
                sym::check(f.ack_template == w.ack_template, 8);
                match Command::from_bytes((&b[p..n], 0)) {
                    Ok((_, c)) => sym::check(f.command == c, 9),
                    Err(_) => sym::check(false, 10),
                }
                sym::reach(1);
            }
            (Err(_), None) => sym::reach(2),
            (Err(_), Some((_, p))) => {
                // only a command can fail to decode
                sym::check(Command::from_bytes((&b[p..n], 0)).is_err(), 11);
                sym::reach(3);
            }
            (Ok(_), None) => sym::check(false, 12),
        }
    }
    h_c17_network_fields {
        // one of the fields at a time has every value
        let k = sym::split(sym::below(6) as usize);
        let (mut o, mut h, mut t, mut m, mut c, mut d) = (1u8, 1u8, 3u8, 2u8, 1u8, 2u8);
        let (mut sp, mut ma, mut ad) = (5u8, 9u8, [1u8, 2]);
        match k {
            0 => { o = sym::below(2); h = sym::below(2); }
            1 => t = sym::below(4),
            2 => m = sym::below(1 << NLS),
            3 => { c = sym::below(2); d = sym::below(4); }
            4 => { sp = sym::below(16); ma = sym::below(16); }
            _ => ad = sym::bytes::<2>(),
        }
        let h_on = sym::split(h as usize) == 1;
        let mut w = Bits::new();
        w.put(0, LEAD).put(o as u32, 1).put(h as u32, 1).put(t as u32, 2).put(0, 1).put(m as u32, NLS);
        let mut want = vec![s(o == 1), s(h_on), ty(t), s(METHODS[sym::split((m & 7) as usize)])];
        if h_on {
            w.put(0, 1).put(c as u32, 1).put(d as u32, 2).put(0, 4);
            want.extend([s("Some"), s(c == 1), ty(d)]);
        } else {
            want.push(s("None"));
        }
        w.put(sp as u32, 4).put(ma as u32, 4);
        want.extend([s(sp), s(ma), ty(t)]);
        match sym::split(t as usize) {
            0 => {
                w.bytes(&[4]);
                want.extend([s(4), s(false)]);
            }
            1 => {}
            2 => {
                w.bytes(&[0, 0, 0, 0, 0, 0, 1, 2]);
                want.push(s(258));
            }
            _ => {
                w.bytes(&ad);
                want.push(s(u16::from_be_bytes(ad)));
            }
        }
        // transport: no flags, two identifiers, one empty action
        w.put(0, 7).bytes(&[7, 8, 0]);
        match network::Frame::from_bytes((&w.v, LEAD)) {
            Ok((_, f)) => {
                sym::check(m < 8, 1);
                same(format!("{:?}", f), &want, 2);
                if LEAD == 0 {
                    match f.to_bytes() {
                        Ok(e) => sym::check(e == w.v, 4),
                        Err(_) => sym::check(false, 5),
                    }
                }
                sym::reach(1);
            }
            Err(_) => {
                sym::check(m >= 8, 6);
                sym::reach(2);
            }
        }
    }
    h_c17_network_bytes {
        // what decodes is written as it was
        if LEAD == 1 {
            // does not end on a byte (DESIGN.md)
            return sym::reach(1);
        }
        let mut b = sym::bytes::<8>();
        let n = sym::split(5 + sym::below(2) as usize);
        b[0] &= 0xF7;
        if let Ok((_, f)) = network::Frame::from_bytes((&b[..n], 0)) {
            let Ok(e) = f.to_bytes() else { return sym::check(false, 1) };
            let Ok((_, g)) = network::Frame::from_bytes((&e[..], 0)) else { return sym::check(false, 2) };
            sym::check(f == g, 3);
            sym::check(e[0] == b[0], 4);
            sym::reach(1);
        } else {
            sym::reach(2);
        }
    }
    h_c17_foreground_fields {
        // the announced length is where the command ends
        let k = sym::split(sym::below(4) as usize);
        let (mut sub, mut t, mut e, mut crc) = (0x12u8, 1u8, 0x21u8, [0x34u8, 0x12]);
        match k {
            0 => sub = sym::u8(),
            1 => t = sym::below(4),
            2 => e = sym::below(64),
            _ => crc = sym::bytes::<2>(),
        }
        let t = sym::split(t as usize);
        let mut w = Bits::new();
        let len = 11 + [1, 0, 8, 2][t] as u8;
        w.put(0, LEAD).bytes(&[len, sub]).put(t as u32, 2).put(e as u32, 6);
        let mut want = vec![s("Length"), s(len), s(sub), ty(t as u8), s(e), ty(t as u8)];
        match t {
            0 => {
                w.bytes(&[4]);
                want.extend([s(4), s(false)]);
            }
            1 => {}
            2 => {
                w.bytes(&[0, 0, 0, 0, 0, 0, 1, 2]);
                want.push(s(258));
            }
            _ => {
                w.bytes(&[1, 2]);
                want.push(s(258));
            }
        }
        // network: a virtual identifier, no security; transport: nothing; one empty action
        w.put(3, 4).put(0, 1 + NLS).bytes(&[0x59, 1, 2]).put(0, 7).bytes(&[7, 8, 0]).bytes(&crc);
        want.extend([s(false), s(false), s("VId"), s("None"), s("None"), s(5), s(9), s("VId"), s(258)]);
        match ForegroundFrame::from_bytes((&w.v, LEAD)) {
            Ok(((rest, _), f)) => {
                sym::check(rest.is_empty(), 1);
                let t = format!("{:?}", f);
                same(t.clone(), &want, 2);
                let v = values(&t);
                sym::check(v.last() == Some(&s(u16::from_le_bytes(crc))), 4);
                if LEAD == 0 {
                    match f.to_bytes() {
                        Ok(e) => sym::check(e == w.v, 5),
                        Err(_) => sym::check(false, 6),
                    }
                }
                sym::reach(1);
            }
            Err(_) => sym::check(false, 7),
        }
    }
    h_c17_foreground_command {
        // commands of every shape, up to lengths of two bytes, end where the length says
        let mut x = vec![];
        let v = match sym::split(sym::below(3) as usize) {
            0 => {
                let (i, j) = (sym::split(sym::below(util::SHORT) as usize), sym::split(sym::below(2) as usize));
                vec![util::short_action(i as u8, &mut x), util::short_action(j as u8, &mut x)]
            }
            1 => {
                crate::gen::set_ends(true);
                let n = [40usize, 46, 47, 48, 49, 50, 64, 255, 300][sym::split(sym::below(9) as usize)];
                vec![crate::gen::big_action(n, &mut x)]
            }
            _ => {
                let n = [3usize, 20, 52, 53, 54, 55, 60, 100][sym::split(sym::below(8) as usize)];
                x.resize(n, 0x30);
                vec![dash7::app::action::Action::Chunk(dash7::app::operation::ChunkStep::Continue.into()); n]
            }
        };
        let n = x.len();
        let mut w = Bits::new();
        w.put(0, LEAD).bytes(&enc_len(n as u32 + 10 + (n + 10 > 63) as u32)).bytes(&[0x12]);
        w.put(1, 2).put(0x21, 6);
        w.put(3, 4).put(0, 1 + NLS).bytes(&[0x59, 1, 2]).put(0, 7).bytes(&[7, 8]).bytes(&x).bytes(&[0x34, 0x12]);
        let c = Command::new(v);
        match ForegroundFrame::from_bytes((&w.v, LEAD)) {
            Ok(((rest, _), f)) => {
                sym::check(rest.is_empty(), 1);
                if n < 20 && x[0] & 0x3F != 35 && x[0] & 0x3F != 52 {
                    // the very actions, in order
                    let (t, u) = (format!("{:?}", f), format!("{:?}", c));
                    sym::check(t.as_bytes().windows(u.len()).any(|x| x == u.as_bytes()), 2);
                }
                if LEAD == 0 {
                    match f.to_bytes() {
                        Ok(e) => sym::check(e == w.v, 5),
                        Err(_) => sym::check(false, 6),
                    }
                }
                sym::reach(1);
            }
            Err(_) => sym::check(false, 7),
        }
    }
}
fn enc_len(n: u32) -> Vec<u8> {
    let mut w = vec![];
    crate::gen::put_len(&mut w, n);
    w
}
