//! C10: announced lengths equal the bytes that follow, at every size of the length itself.
use crate::{gen, sym};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::operation::ChunkStep;
use dash7::app::query::Query;


const SIZES: [usize; 12] = [0, 1, 2, 3, 4, 62, 63, 64, 65, 127, 255, 256];
fn size() -> usize {
    SIZES[sym::split(sym::below(12) as usize)]
}
/// the action, then another one that must be found behind it
fn followed(a: Action, w: &mut Vec<u8>) -> Option<Action> {
    let c = Command::new(vec![a, gen::simple(1, w)]);
    match c.to_bytes() {
        Ok(b) => {
            if b.len() < 100 {
                sym::observe(&b)
            }
            sym::check(b == *w, 1)
        }
        Err(_) => {
            sym::check(false, 2);
            return None;
        }
    }
    match Command::try_from(&w[..]) {
        Ok(mut v) => {
            sym::check(v == c, 3);
            sym::reach(1);
            sym::check(v.actions.len() == 2, 4);
            Some(v.actions.swap_remove(0))
        }
        Err(_) => {
            sym::check(false, 5);
            None
        }
    }
}
fn file(n: usize, k: u8) {
    let mut w = vec![];
    let a = gen::raw_file_action(k, n, false, &mut w);
    followed(a, &mut w);
}
fn query(k: u8) {
    gen::set_plain(true);
    let i = sym::split(sym::below(24) as usize);
    query_of(k, SIZES[i % 12], i >= 12)
}
fn query_of(k: u8, n: usize, m: bool) {
    let mut w = vec![];
    let a = gen::query_action(0, k, n, m, false, &mut w);
    let Some(Action::ActionQuery(q)) = followed(a, &mut w) else { return sym::check(false, 6) };
    let (mask, value) = match q.query {
        Query::ComparisonWithZero(q) => (q.mask.len(), None),
        Query::ComparisonWithValue(q) => (q.mask.len(), Some(q.value.len())),
        Query::ComparisonWithOtherFile(q) => (q.mask.len(), None),
        Query::BitmapRangeComparison(q) => (q.mask.len(), None),
        Query::StringTokenSearch(q) => (q.mask.len(), Some(q.value.len())),
        _ => return sym::check(false, 8),
    };
    sym::check(mask == if m { n } else { 0 }, 7);
    sym::check(value.is_none() || value == Some(n), 9);
}
/// data beyond the sizes of 16 bit numbers: mostly fixed, the ends free
fn huge(n: usize) {
    let mut w = vec![];
    let a = gen::big_action(n, &mut w);
    // an empty chunk action behind it
    w.push(0xB0);
    let c = Command::new(vec![a, Action::Chunk(ChunkStep::End.into())]);
    match c.to_bytes() {
        Ok(b) => sym::check(b == w, 1),
        Err(_) => sym::check(false, 2),
    }
    match Command::try_from(&w[..]) {
        Ok(v) => sym::check(v == c, 3),
        Err(_) => sym::check(false, 4),
    }
    sym::reach(1);
}
entries! {
    h_c10_file { let n = size(); file(n, 2) }
    h_c10_write { let n = size(); file(n, 0) }
    h_c10_write_flush { let n = size(); file(n, 1) }
    h_c10_value { query(2) }
    h_c10_search { query(5) }
    h_c10_zero { query(1) }
    h_c10_other { query(3) }
    h_c10_bitmap { query(4) }
    h_c10_sys_file {
        let mut w = vec![];
        let k = sym::below(gen::FILES);
        let a = gen::sys_file_action(2, k, &mut w);
        followed(a, &mut w);
    }
    h_c10_phy_status {
        // a structured file that grows past the one-byte length
        let mut w = vec![];
        let n = [15u8, 16, 17][sym::below(3) as usize];
        let mut body = sym::vec(14);
        body.push(n);
        for _ in 0..n {
            let (i, f) = (sym::u8(), sym::u8());
            body.extend_from_slice(&[0x68, i, f]);
        }
        w.extend_from_slice(&[32, 9, 0]);
        gen::put_len(&mut w, body.len() as u32);
        w.extend_from_slice(&body);
        match Action::try_from(&w[..]) {
            Ok(a) => {
                followed(a, &mut w);
            }
            Err(_) => sym::check(false, 6),
        }
    }
    h_c10_status {
        let mut w = vec![];
        let k = sym::below(3);
        let a = gen::interface_status(k, &mut w);
        followed(a, &mut w);
    }
    h_c10_final {
        sym::reach(1);
        #[cfg(feature = "wizzilab")]
        {
            let mut w = vec![];
            let k = sym::below(13);
            let a = gen::final_status(if k == 12 { None } else { Some(SIZES[k as usize]) }, &mut w);
            followed(a, &mut w);
        }
    }
    h_c10_row {
        // several in a row, the sizes independent
        let mut w = vec![];
        let (n, m) = (size(), sym::below(4) as usize);
        let c = Command::new(vec![
            gen::raw_file_action(2, n, false, &mut w),
            gen::raw_file_action(0, m, false, &mut w),
            gen::simple(16, &mut w),
        ]);
        match c.to_bytes().ok() {
            Some(b) => sym::check(b == w, 1),
            None => sym::check(false, 2),
        }
        match Command::try_from(&w[..]) {
            Ok(v) => { sym::check(v == c, 3); sym::reach(1) }
            Err(_) => sym::check(false, 4),
        }
    }
    h_c10_huge { huge([65535usize, 65536, 70000][sym::split(sym::below(3) as usize)]) }
    t_c10_huge { huge([4194303usize, 4194304][sym::split(sym::below(2) as usize)]) }
    t_c10_large_file {
        let n = [4096usize, 16382, 16383, 16384, 16385][sym::split(sym::below(5) as usize)];
        file(n, 2)
    }
    t_c10_large_query {
        let n = [1000usize, 4095, 4096][sym::split(sym::below(3) as usize)];
        gen::set_plain(true);
        query_of(2, n, true)
    }
}
