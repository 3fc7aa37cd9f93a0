//! C04: every action is laid out on the wire as the format prescribes.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use deku::prelude::*;

fn layout(a: &Action, want: &[u8]) {
    match a.to_bytes() {
        Ok(b) => {
            util::observe(&b);
            sym::check(b == want, 1);
        }
        Err(_) => sym::check(false, 2),
    }
    match Action::try_from(want) {
        Ok(v) => {
            sym::reach(1);
            sym::check(v == *a, 3)
        }
        Err(_) => sym::check(false, 4),
    }
}
fn group(g: u8) {
    let mut w = vec![];
    let a = util::group_action(g, &mut w);
    layout(&a, &w);
}
entries! {
    h_c04_simple { group(0) }
    h_c04_no_offset {
        // the start of a file
        let id = sym::u8();
        let o = dash7::app::operation::FileOffset::no_offset(id);
        match o.to_bytes() {
            Ok(b) => sym::check(b == [id, 0], 5),
            Err(_) => sym::check(false, 6),
        }
        match dash7::app::operation::FileOffset::from_bytes((&[id, 0], 0)) {
            Ok((_, v)) => {
                sym::check(v == o, 7);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 8),
        }
    }
    h_c04_indirect { gen::set_full(true); group(1) }
    h_c04_forward { gen::set_full(true); group(2) }
    h_c04_status { gen::set_full(true); group(3) }
    h_c04_query { group(4) }
    h_c04_raw { group(5) }
    h_c04_file { group(6) }
    h_c04_long {
        let mut w = vec![];
        let a = util::big_action(&mut w);
        layout(&a, &w);
    }
    h_c04_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        group(7);
    }
    h_c04_tx_status {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            // cannot be built, only decoded
            use dash7::app::operation::TxStatus;
            use dash7::session::InterfaceTxStatus;
            let mut b = vec![];
            let channel = gen::channel(&mut b);
            let level = gen::byte(&mut b) as i8;
            let k = sym::below(23);
            b.push(gen::FINAL_CODES[k as usize]);
            b.extend_from_slice(&[0, 0, 0]);
            let lts = gen::le32(&mut b);
            let addressee = gen::addressee(&mut b);
            let mut w = vec![0x66, 0xD7];
            gen::put_len(&mut w, b.len() as u32);
            w.extend_from_slice(&b);
            let Ok(a) = Action::try_from(&w[..]) else { return sym::check(false, 1) };
            match a.to_bytes() {
                Ok(b) => sym::check(b == w, 2),
                Err(_) => sym::check(false, 3),
            }
            let Action::TxStatus(o) = a else { return sym::check(false, 4) };
            let TxStatus::Interface(i) = &o.status;
            sym::check(i.interface_id == 0xD7, 5);
            let InterfaceTxStatus::Dash7(s) = &i.status else { return sym::check(false, 6) };
            sym::check(s.channel == channel, 7);
            sym::check(s.target_rx_level == level, 8);
            sym::check(s.error == gen::final_code(k), 9);
            sym::check(s.lts == lts, 10);
            sym::check(s.addressee == addressee, 11);
        }
    }
    h_c04_tx_status_other {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            use dash7::app::operation::TxStatus;
            use dash7::session::InterfaceTxStatus;
            let n = sym::split(sym::below(4) as usize);
            let id = sym::u8();
            sym::assume(id != 0xD7);
            let d = sym::vec(n);
            let mut w = vec![0x66, id, n as u8];
            w.extend_from_slice(&d);
            let Ok(a) = Action::try_from(&w[..]) else { return sym::check(false, 1) };
            match a.to_bytes() {
                Ok(b) => sym::check(b == w, 2),
                Err(_) => sym::check(false, 3),
            }
            let Action::TxStatus(o) = a else { return sym::check(false, 4) };
            let TxStatus::Interface(i) = &o.status;
            sym::check(i.interface_id == id, 5);
            let InterfaceTxStatus::Other(v) = &i.status else { return sym::check(false, 6) };
            sym::check(*v == d, 7);
        }
    }
}
