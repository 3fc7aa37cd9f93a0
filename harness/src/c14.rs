//! C14: addressees and interface configurations, every combination of kinds.
use crate::{gen, sym};
use dash7::app::action::Action;
use dash7::app::interface::*;
use dash7::app::operation::*;
use dash7::network::Addressee;
use dash7::session::*;
use deku::prelude::*;

fn both<T: DekuContainerWrite + for<'a> DekuContainerRead<'a> + PartialEq>(v: &T, w: &mut Vec<u8>) {
    match v.to_bytes() {
        Ok(b) => {
            sym::observe(&b);
            sym::check(b == *w, 1)
        }
        Err(_) => sym::check(false, 2),
    }
    let n = w.len();
    w.push(sym::u8());
    match T::from_bytes((&w[..n], 0)) {
        Ok((r, x)) => {
            sym::check(x == *v, 3);
            sym::check(r.0.is_empty() && r.1 == 0, 4);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 5),
    }
    match T::from_bytes((&w[..], 0)) {
        Ok((r, x)) => {
            sym::check(x == *v, 6);
            sym::check(r.0 == &w[n..] && r.1 == 0, 7)
        }
        Err(_) => sym::check(false, 8),
    }
    w.pop();
}
fn forward(c: InterfaceConfiguration, w: &[u8]) {
    let r = sym::bool();
    let a = Action::Forward(Forward::new(r, c));
    let mut y = vec![(r as u8) << 6 | 50];
    y.extend_from_slice(w);
    match a.to_bytes() {
        Ok(b) => sym::check(b == y, 11),
        Err(_) => sym::check(false, 12),
    }
    match Action::try_from(&y[..]) {
        Ok(x) => sym::check(x == a, 13),
        Err(_) => sym::check(false, 14),
    }
}
/// the fields one by one, through the public accessors of the decoded value
fn addressee_fields(w: &[u8]) {
    use dash7::network::{Address, NlsState};
    let Ok(a) = Addressee::try_from(w) else { return sym::check(false, 21) };
    let t = w[0] >> 4 & 3;
    let n = w[0] & 7;
    sym::check(a.access_class.specifier == w[1] >> 4 && a.access_class.mask == w[1] & 15, 22);
    let rest = match &a.address {
        Address::NbId(v) => {
            sym::check(t == 0, 23);
            let x: u32 = v.clone().into();
            sym::check(x == ((w[2] & 31) as u32) << (2 * (w[2] >> 5)), 24);
            3
        }
        Address::NoId => {
            sym::check(t == 1, 25);
            2
        }
        Address::UId(v) => {
            sym::check(t == 2, 26);
            let mut x = 0u64;
            for i in 0..8 {
                x = x << 8 | w[2 + i] as u64;
            }
            sym::check(*v == x, 27);
            10
        }
        Address::VId(v) => {
            sym::check(t == 3, 28);
            sym::check(*v == (w[2] as u16) << 8 | w[3] as u16, 29);
            4
        }
    };
    let (k, s) = match &a.nls_state {
        NlsState::None => (0, None),
        NlsState::AesCtr(s) => (1, Some(&s[..])),
        NlsState::AesCbcMac128(s) => (2, Some(&s[..])),
        NlsState::AesCbcMac64(s) => (3, Some(&s[..])),
        NlsState::AesCbcMac32(s) => (4, Some(&s[..])),
        NlsState::AesCcm128(s) => (5, Some(&s[..])),
        NlsState::AesCcm64(s) => (6, Some(&s[..])),
        NlsState::AesCcm32(s) => (7, Some(&s[..])),
    };
    sym::check(k == n, 30);
    sym::check(rest + if s.is_some() { 5 } else { 0 } == w.len(), 31);
    if let Some(s) = s {
        sym::check(w[rest..] == s[..], 32);
    }
    #[cfg(feature = "wizzilab")]
    {
        use dash7::transport::GroupCondition;
        let g = match a.group_condition {
            GroupCondition::Any => 0,
            GroupCondition::NotEqual => 1,
            GroupCondition::Equal => 2,
            GroupCondition::GreaterThan => 3,
        };
        sym::check(g == w[0] >> 6, 33);
        sym::check(a.use_vid == (w[0] >> 3 & 1 == 1), 34);
    }
    sym::reach(2);
}
entries! {
    h_c14_addressee {
        gen::set_full(true);
        let mut w = vec![];
        let a = gen::addressee(&mut w);
        both(&a, &mut w);
        addressee_fields(&w);
    }
    h_c14_lora {
        let mut w = vec![];
        let k = sym::split(2 + sym::below(2) as usize);
        let c = gen::interface_config(k as u8, &mut w);
        both(&c, &mut w);
        forward(c, &w);
    }
    h_c14_small {
        let mut w = vec![];
        let k = [0u8, 1, 5][sym::below(3) as usize];
        let c = gen::interface_config(k, &mut w);
        both(&c, &mut w);
        forward(c, &w);
    }
    h_c14_dash7 {
        // every addressee with the other fields free but their enumerations
        let mut w = vec![];
        let q = gen::qos(&mut w);
        let t = gen::varint0(&mut w);
        #[cfg(not(feature = "subiot"))]
        let e = gen::varint0(&mut w);
        let addressee = gen::addressee(&mut w);
        let c = Dash7InterfaceConfiguration {
            qos: q,
            dormant_session_timeout: t,
            #[cfg(not(feature = "subiot"))]
            execution_delay_timeout: e,
            addressee,
        };
        both(&c, &mut w);
        let mut y = vec![0xD7];
        y.extend_from_slice(&w);
        forward(InterfaceConfiguration::Dash7(c), &y);
    }
    h_c14_dash7_fields {
        // every quality of service and timeout
        gen::set_full(true);
        let mut w = vec![];
        let q = gen::qos(&mut w);
        let t = gen::varint(&mut w);
        #[cfg(not(feature = "subiot"))]
        let e = gen::varint(&mut w);
        let addressee = gen::addressee_tn(&mut w, 3, 0);
        let c = Dash7InterfaceConfiguration {
            qos: q,
            dormant_session_timeout: t,
            #[cfg(not(feature = "subiot"))]
            execution_delay_timeout: e,
            addressee,
        };
        both(&c, &mut w);
    }
    h_c14_qos {
        gen::set_full(true);
        let mut w = vec![];
        let q = gen::qos(&mut w);
        both(&q, &mut w);
    }
    h_c14_indirect {
        gen::set_full(true);
        let mut w = vec![];
        let k = sym::below(4);
        let c = gen::indirect_interface(k, &mut w);
        both(&c, &mut w);
        let a = Action::IndirectForward(IndirectForward::new(true, Some(c)));
        let mut y = vec![0xC0 | 51];
        y.extend_from_slice(&w);
        match a.to_bytes() {
            Ok(b) => sym::check(b == y, 11),
            Err(_) => sym::check(false, 12),
        }
        match Action::try_from(&y[..]) {
            Ok(x) => sym::check(x == a, 13),
            Err(_) => sym::check(false, 14),
        }
    }
    h_c14_status {
        // the status carries an addressee too
        let mut w = vec![];
        let a = gen::interface_status(2, &mut w);
        both(&a, &mut w);
    }
    h_c14_status_addressee {
        let mut w = vec![];
        let channel = gen::channel(&mut w);
        w.extend_from_slice(&[1, 2, 3, 0, 4, 5, 6]);
        let addressee = gen::addressee(&mut w);
        let s = Dash7InterfaceStatus {
            channel,
            rx_level: 1,
            link_budget: 2,
            target_rx_level: 3,
            nls: false,
            missed: false,
            retry: false,
            unicast: false,
            fifo_token: 4,
            sequence_number: 5,
            response_timeout: dash7::types::VarInt::new_unchecked(6, false),
            addressee,
        };
        both(&s, &mut w);
    }
}
