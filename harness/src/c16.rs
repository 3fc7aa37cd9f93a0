//! C16: update() brings derived fields in line with the fields they are derived from.
use crate::{gen, sym, util};
use dash7::app::action::{Action, OpCode};
use dash7::app::interface::IndirectInterface;
use dash7::app::operation::*;
use dash7::app::query::*;
use dash7::file::{File, PhyStatus};
use dash7::network::{Address, Addressee};
use dash7::physical::*;
use dash7::types::VarInt;
use deku::prelude::*;

fn clean<T>(v: &mut T, w: &[u8])
where
    T: DekuUpdate + DekuContainerWrite + for<'a> TryFrom<&'a [u8]> + PartialEq + Clone,
{
    sym::check(v.update().is_ok(), 1);
    let once = v.clone();
    match v.to_bytes() {
        Ok(b) => {
            util::observe(&b);
            sym::check(b == w, 2)
        }
        Err(_) => sym::check(false, 3),
    }
    match T::try_from(w) {
        Ok(x) => {
            sym::check(x == *v, 4);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 5),
    }
    sym::check(v.update().is_ok(), 6);
    sym::check(*v == once, 7);
}
/// the value a structure is built with, the one it gets afterwards
fn pair() -> (usize, usize) {
    (sym::split(sym::below(4) as usize), sym::split(sym::below(4) as usize))
}
fn flags() -> (bool, bool) {
    (sym::split(sym::bool() as usize) == 1, sym::split(sym::bool() as usize) == 1)
}
fn addressee(full: bool) {
    // built with one kind, changed to another
    let t0 = sym::below(4);
    let n0 = if full { sym::below(8) } else { [0, 3][sym::below(2) as usize] };
    let mut a = gen::addressee_tn(&mut vec![], t0, n0);
    let mut w = vec![];
    let (t, n) = (sym::below(4), sym::below(8));
    let b = gen::addressee_tn(&mut w, t, n);
    a.address = b.address.clone();
    a.nls_state = b.nls_state.clone();
    a.access_class = b.access_class.clone();
    #[cfg(feature = "wizzilab")]
    {
        a.use_vid = b.use_vid;
        a.group_condition = b.group_condition.clone();
    }
    clean(&mut a, &w);
    sym::check(a == b, 10);
}
macro_rules! in_action {
    ($kind:ident, $q:ident, $w:ident) => {{
        // and as part of a whole action
        let a = Action::ActionQuery(ActionQuery { header: ActionHeader::new(true, false), opcode: OpCode(8), query: Query::$kind($q) });
        let mut x = vec![0x88];
        x.extend_from_slice(&$w);
        match a.to_bytes() {
            Ok(b) => {
                util::observe(&b);
                sym::check(b == x, 11)
            }
            Err(_) => sym::check(false, 12),
        }
        match Action::try_from(&x[..]) {
            Ok(v) => {
                sym::check(v == a, 13);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 14),
        }
    }};
}
/// a query of another shape is given the operands of this one
macro_rules! requery {
    ($kind:ident, $k:literal, [$($f:ident),*]) => {{
        requery!($kind, $k, [$($f),*], pair(), true)
    }};
    ($kind:ident, $k:literal, [$($f:ident),*], $p:expr, $full:expr) => {{
        let (n0, n) = $p;
        let (m0, m) = flags();
        let Query::$kind(mut q) = gen::query($k, n0, m0, false, &mut vec![]) else { return sym::check(false, 8) };
        let mut w = vec![];
        let Query::$kind(r) = gen::query($k, n, m, $full, &mut w) else { return sym::check(false, 8) };
        $(q.$f = r.$f.clone();)*
        sym::check(q.update().is_ok(), 1);
        sym::check(q == r, 9);
        let once = q.clone();
        sym::check(q.update().is_ok(), 6);
        sym::check(q == once, 7);
        in_action!($kind, q, w);
    }};
}
/// the same with long operands, before or after
fn long_pair() -> (usize, usize) {
    const SIZES: [usize; 9] = [62, 63, 64, 127, 128, 255, 256, 257, 300];
    gen::set_ends(true);
    gen::set_plain(true);
    let n = SIZES[sym::split(sym::below(9) as usize)];
    match sym::split(sym::below(3) as usize) {
        0 => (1, n),
        1 => (300, n),
        _ => (n, 2),
    }
}
/// a mask of any size of its own: the announced length is still that of the value
macro_rules! unequal {
    ($kind:ident, $k:literal) => {{
        let (n, m) = pair();
        let mut w = vec![];
        let Query::$kind(mut q) = gen::query($k, n, false, false, &mut w) else { return sym::check(false, 8) };
        q.mask = sym::vec(m);
        sym::check(q.update().is_ok(), 1);
        let once = q.clone();
        sym::check(q.update().is_ok(), 6);
        sym::check(q == once, 7);
        let mask = q.mask.clone();
        match Query::$kind(q).to_bytes() {
            Ok(b) => {
                util::observe(&b);
                if m > 0 {
                    w[0] |= 0x10;
                }
                w.splice(2..2, mask);
                sym::check(b == w, 2);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 3),
        }
    }};
}
entries! {
    h_c16_value_mask { unequal!(ComparisonWithValue, 2) }
    h_c16_search_mask { unequal!(StringTokenSearch, 5) }
    h_c16_zero { requery!(ComparisonWithZero, 1, [mask, params, file]) }
    h_c16_value { requery!(ComparisonWithValue, 2, [mask, value, params, file]) }
    h_c16_other { requery!(ComparisonWithOtherFile, 3, [mask, length, params, file1, file2]) }
    h_c16_bitmap { requery!(BitmapRangeComparison, 4, [mask, length, params, start, stop, file]) }
    h_c16_search { requery!(StringTokenSearch, 5, [mask, value, max_errors, file]) }
    h_c16_search_length {
        // the length is public here and may hold anything
        let n = sym::split(sym::below(3) as usize);
        let mut w = vec![];
        let Query::StringTokenSearch(r) = gen::query(5, n, true, false, &mut w) else { return sym::check(false, 8) };
        let mut q = r.clone();
        q.length = Length::from(sym::u32());
        sym::check(q.update().is_ok(), 1);
        sym::check(q == r, 9);
        in_action!(StringTokenSearch, q, w);
    }
    h_c16_long_zero { requery!(ComparisonWithZero, 1, [mask, params, file], long_pair(), false) }
    h_c16_long_value { requery!(ComparisonWithValue, 2, [mask, value, params, file], long_pair(), false) }
    h_c16_long_other { requery!(ComparisonWithOtherFile, 3, [mask, length, params, file1, file2], long_pair(), false) }
    h_c16_long_bitmap { requery!(BitmapRangeComparison, 4, [mask, length, params, start, stop, file], long_pair(), false) }
    h_c16_long_search { requery!(StringTokenSearch, 5, [mask, value, max_errors, file], long_pair(), false) }
    h_c16_addressee { addressee(false) }
    h_c16_addressee_default {
        // set up field by field
        let mut a = Addressee::default();
        let mut w = vec![];
        let b = gen::addressee(&mut w);
        a.address = b.address.clone();
        a.nls_state = b.nls_state.clone();
        a.access_class = b.access_class.clone();
        #[cfg(feature = "wizzilab")]
        {
            a.use_vid = b.use_vid;
            a.group_condition = b.group_condition.clone();
        }
        clean(&mut a, &w);
        sym::check(a == b, 10);
    }
    h_c16_addressee_big {
        // values that cannot be written are still announced rightly
        let mut a = gen::addressee_tn(&mut vec![], 1, 0);
        a.address = Address::NbId(VarInt::new_unchecked(sym::u32(), sym::bool()));
        sym::check(a.update().is_ok(), 1);
        match a.to_bytes() {
            Ok(b) => {
                sym::check(b[0] & 0x37 == 0, 2);
                sym::check(b.len() == 3, 3);
                sym::reach(1)
            }
            Err(_) => sym::reach(2),
        }
    }
    h_c16_phy_status {
        let (n0, n) = pair();
        let mut p = gen::phy_status(&mut vec![], n0);
        let mut w = vec![];
        let q = gen::phy_status(&mut w, n);
        p.up_time = q.up_time;
        p.rx_time = q.rx_time;
        p.tx_time = q.tx_time;
        p.tx_duty_cycle = q.tx_duty_cycle;
        p.channel_status = q.channel_status.clone();
        clean(&mut p, &w);
        sym::check(p == q, 10);
        // as a file
        let d = FileData::new(ActionHeader::new(false, false), FileOffset { file_id: 9, offset: Length::from(0u32) }, File::PhyStatus(p), OpCode(4));
        let mut x = vec![4, 9, 0, w.len() as u8];
        x.extend_from_slice(&w);
        match Action::WriteFileData(d).to_bytes() {
            Ok(b) => sym::check(b == x, 11),
            Err(_) => sym::check(false, 12),
        }
    }
    h_c16_long_phy_status {
        gen::set_ends(true);
        let n = [63, 64, 84, 85, 86, 127, 128, 255][sym::split(sym::below(8) as usize)];
        let n0 = [0, 3, 200][sym::split(sym::below(3) as usize)];
        let mut p = gen::phy_status(&mut vec![], n0);
        let mut w = vec![];
        let q = gen::phy_status(&mut w, n);
        p.up_time = q.up_time;
        p.rx_time = q.rx_time;
        p.tx_time = q.tx_time;
        p.tx_duty_cycle = q.tx_duty_cycle;
        p.channel_status = q.channel_status.clone();
        clean(&mut p, &w);
        sym::check(p == q, 10);
    }
    h_c16_phy_status_push {
        let n = sym::split(sym::below(4) as usize);
        let mut p = PhyStatus::new(1, 2, 3, 4, vec![]);
        for _ in 0..n {
            p.channel_status.push(ChannelStatus {
                identifier: ChannelStatusIdentifier { channel_band: ChannelBand::Band868, bandwidth: Bandwidth::KHz25, index: 7 },
                noise_floor: sym::u8(),
            });
        }
        if n > 1 && sym::bool() {
            p.channel_status.remove(0);
        }
        sym::check(p.update().is_ok(), 1);
        match p.to_bytes() {
            Ok(b) => {
                sym::check(b[14] as usize == p.channel_status.len(), 2);
                sym::check(b.len() == 15 + 3 * p.channel_status.len(), 3);
                match PhyStatus::try_from(&b[..]) {
                    Ok(v) => sym::check(v == p, 4),
                    Err(_) => sym::check(false, 5),
                }
                sym::reach(1);
            }
            Err(_) => sym::check(false, 6),
        }
    }
    h_c16_indirect {
        // the overload flag follows the configuration
        let r = sym::bool();
        let k = sym::split(sym::below(5) as usize) as u8;
        let mut w = vec![];
        let c: Option<IndirectInterface> = if k < 4 { Some(gen::indirect_interface(k, &mut w)) } else { None };
        let mut f = IndirectForward {
            header: IndirectForwardHeader::new(sym::bool(), r),
            opcode: OpCode::INDIRECT_FORWARD,
            configuration: c.clone(),
        };
        sym::check(f.update().is_ok(), 1);
        sym::check(f.header.overloaded == c.is_some() && f.header.response == r, 2);
        sym::check(f.configuration == c, 3);
        let once = f.clone();
        sym::check(f.update().is_ok(), 4);
        sym::check(f == once, 5);
        sym::check(f == IndirectForward::new(r, c), 6);
        let mut x = vec![((k < 4) as u8) << 7 | (r as u8) << 6 | 51];
        x.extend_from_slice(&w);
        let a = Action::IndirectForward(f);
        match a.to_bytes() {
            Ok(b) => {
                util::observe(&b);
                sym::check(b == x, 7)
            }
            Err(_) => sym::check(false, 8),
        }
        match Action::try_from(&x[..]) {
            Ok(v) => {
                sym::check(v == a, 9);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 10),
        }
    }
    h_c16_decoded {
        // updating what was decoded changes nothing
        let b = sym::bytes::<8>();
        let n = sym::split(3 + sym::below(6) as usize);
        let d = &b[..n];
        match sym::split(sym::below(4) as usize) {
            0 => {
                if let Ok((_, v)) = Addressee::from_bytes((d, 0)) {
                    let mut u = v.clone();
                    sym::check(u.update().is_ok() && u == v, 1);
                    sym::reach(1);
                }
            }
            1 => {
                if let Ok(v) = Action::try_from(d) {
                    let mut u = v.clone();
                    sym::check(u.update().is_ok() && u == v, 1);
                }
            }
            2 => {
                if let Ok((_, Query::ComparisonWithValue(v))) = Query::from_bytes((d, 0)) {
                    let mut u = v.clone();
                    // a set flag in front of no mask at all is the one thing that is put right
                    sym::assume(d[0] & 0x10 == 0 || !v.value.is_empty());
                    sym::check(u.update().is_ok() && u == v, 1);
                    sym::reach(1);
                }
            }
            _ => {
                if let Ok((_, Query::StringTokenSearch(v))) = Query::from_bytes((d, 0)) {
                    let mut u = v.clone();
                    sym::assume(d[0] & 0x10 == 0 || !v.value.is_empty());
                    sym::check(u.update().is_ok() && u == v, 1);
                    sym::reach(1);
                }
            }
        }
    }
    t_c16_addressee_all { gen::set_full(true); addressee(true) }
}
