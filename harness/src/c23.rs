//! C23: layout of every query.
use crate::{gen, sym};
use dash7::app::action::Action;
use dash7::app::query::*;
use deku::prelude::*;

fn bare(k: u8, n: usize, m: bool) {
    let mut w = vec![];
    let q = gen::query(k, n, m, true, &mut w);
    match q.to_bytes() {
        Ok(b) => {
            sym::observe(&b);
            sym::check(b == w, 1)
        }
        Err(_) => sym::check(false, 2),
    }
    w.push(sym::u8());
    let l = w.len() - 1;
    match Query::from_bytes((&w[..l], 0)) {
        Ok((r, v)) => {
            sym::check(v == q, 3);
            sym::check(r.0.is_empty() && r.1 == 0, 4);
            fields(&v, k, n, m, &w[..l]);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 5),
    }
    match Query::from_bytes((&w, 0)) {
        Ok((r, v)) => {
            sym::check(v == q, 6);
            sym::check(r.0 == &w[l..] && r.1 == 0, 7)
        }
        Err(_) => sym::check(false, 8),
    }
}
/// the operands of a decoded query against the bytes it came from
fn fields(q: &Query, k: u8, n: usize, m: bool, w: &[u8]) {
    let arith = |p: &ArithmeticQueryParams| {
        sym::check(p.signed == (w[0] & 8 != 0), 21);
        sym::check(p.comparison_type == gen::arith(w[0] & 7), 22);
    };
    // the operands start after the one-byte length
    let m = if m { n } else { 0 };
    match q {
        Query::NonVoid(_) => sym::check(k == 0, 20),
        Query::ComparisonWithZero(q) => {
            sym::check(k == 1, 20);
            arith(&q.params);
            sym::check(q.mask == w[2..2 + m], 23);
            sym::check(q.file.file_id == w[2 + m], 24);
        }
        Query::ComparisonWithValue(q) => {
            sym::check(k == 2, 20);
            arith(&q.params);
            sym::check(q.mask == w[2..2 + m], 23);
            sym::check(q.value == w[2 + m..2 + m + n], 25);
            sym::check(q.file.file_id == w[2 + m + n], 24);
        }
        Query::ComparisonWithOtherFile(q) => {
            sym::check(k == 3, 20);
            arith(&q.params);
            sym::check(q.mask == w[2..2 + m], 23);
            sym::check(q.file1.file_id == w[2 + m], 24);
            // the second offset is a one-byte one
            sym::check(q.file2.file_id == w[w.len() - 2], 26);
        }
        Query::BitmapRangeComparison(q) => {
            sym::check(k == 4, 20);
            sym::check(q.params.signed == (w[0] & 8 != 0), 21);
            let c = if w[0] & 7 == 0 { RangeComparisonType::NotInRange } else { RangeComparisonType::InRange };
            sym::check(q.params.comparison_type == c, 22);
            sym::check(q.mask == w[w.len() - 2 - m..w.len() - 2], 23);
            sym::check(q.file.file_id == w[w.len() - 2], 24);
        }
        Query::StringTokenSearch(q) => {
            sym::check(k == 5, 20);
            sym::check(q.max_errors == w[0] & 7, 21);
            sym::check(q.mask == w[2..2 + m], 23);
            sym::check(q.value == w[2 + m..2 + m + n], 25);
            sym::check(q.file.file_id == w[2 + m + n], 24);
        }
    }
}
fn sized(k: u8) {
    let (n, m) = (sym::split(sym::below(5) as usize), sym::split(sym::bool() as usize));
    bare(k, n, m == 1)
}
fn action(which: u8) {
    let k = sym::split(sym::below(6) as usize) as u8;
    let (n, m) = (sym::split(sym::below(3) as usize), sym::split(sym::bool() as usize));
    let mut w = vec![];
    let a = gen::query_action(which, k, n, m == 1, false, &mut w);
    match a.to_bytes() {
        Ok(b) => {
            sym::observe(&b);
            sym::check(b == w, 1)
        }
        Err(_) => sym::check(false, 2),
    }
    match Action::try_from(&w[..]) {
        Ok(v) => {
            sym::check(v == a, 3);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 4),
    }
}
fn long(k: u8) {
    // around the change of the length's own size
    let n = [5usize, 8, 16, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000][sym::split(sym::below(16) as usize)];
    gen::set_ends(!matches!(n, 63 | 64));
    let m = sym::split(sym::bool() as usize) == 1;
    gen::set_plain(true);
    let mut w = vec![];
    let q = gen::query(k, n, m, false, &mut w);
    match q.to_bytes() {
        Ok(b) => sym::check(b == w, 1),
        Err(_) => sym::check(false, 2),
    }
    match Query::try_from(&w[..]) {
        Ok(v) => {
            sym::check(v == q, 3);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 4),
    }
}
entries! {
    h_c23_non_void { sized(0) }
    h_c23_zero { sized(1) }
    h_c23_value { sized(2) }
    h_c23_other { sized(3) }
    h_c23_bitmap { sized(4) }
    h_c23_search { sized(5) }
    h_c23_action { action(0) }
    h_c23_break { action(1) }
    h_c23_checksum { action(2) }
    h_c23_long_zero { long(1) }
    h_c23_long_value { long(2) }
    h_c23_long_other { long(3) }
    h_c23_long_bitmap { long(4) }
    h_c23_long_search { long(5) }
    h_c23_unknown {
        // kinds and comparisons without a meaning are rejected
        let b = sym::vec(12);
        let k = b[0] >> 5;
        let bad = match k {
            5 | 6 => true,
            1 | 2 | 3 => b[0] & 7 > 5,
            4 => b[0] & 7 > 1,
            _ => false,
        };
        sym::assume(bad);
        sym::reach(1);
        sym::check(Query::from_bytes((&b, 0)).is_err(), 1);
    }
    h_c23_reject_mask {
        // a set flag without mask bytes behind it
        let n = sym::split(1 + sym::below(3) as usize);
        let c = [1u8, 2, 3, 7][sym::split(sym::below(4) as usize)];
        let mut b = vec![c << 5 | 0x10, n as u8];
        b.extend_from_slice(&sym::vec(n - 1));
        sym::reach(1);
        sym::check(Query::from_bytes((&b, 0)).is_err(), 1);
    }
}
