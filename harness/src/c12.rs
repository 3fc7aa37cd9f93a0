//! C12: questions about a command are answered from its actions.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::operation::{ChunkStep, Status};
use dash7::session::InterfaceStatus;

/// what the answers should be, found by position in the list of what was put in
#[derive(Default)]
struct Want {
    req: Option<(u8, bool)>,
    resp: Option<(u8, bool, bool)>,
    status: Option<usize>,
    others: Vec<usize>,
}
const KINDS: u8 = 7;
fn add(k: u8, v: &mut Vec<Action>, out: &mut Vec<u8>, w: &mut Want) {
    let i = v.len();
    let p = out.len();
    match k {
        0 => {
            v.push(gen::simple(16, out));
            if w.req.is_none() {
                w.req = Some((out[p + 1], out[p] & 0x80 != 0));
            }
            w.others.push(i);
        }
        1 => {
            v.push(gen::simple(13, out));
            if w.resp.is_none() {
                w.resp = Some((out[p + 1], out[p] & 0x80 != 0, out[p] & 0x40 != 0));
            }
            w.others.push(i);
        }
        2 | 3 => {
            v.push(gen::interface_status(k - 2, out));
            if w.status.is_none() {
                w.status = Some(i);
            }
        }
        4 => {
            v.push(gen::simple(18, out));
            w.others.push(i);
        }
        5 => {
            v.push(gen::simple(0, out));
            w.others.push(i);
        }
        _ => {
            v.push(gen::raw_file_action(2, 1, false, out));
            w.others.push(i);
        }
    }
}
fn status_of(a: &Action) -> Option<&InterfaceStatus> {
    match a {
        Action::Status(s) => match &s.status {
            Status::Interface(i) => Some(&i.status),
            _ => None,
        },
        _ => None,
    }
}
fn answers(c: &Command, w: &Want) {
    match (c.request_tag(), &w.req) {
        (None, None) => sym::check(true, 1),
        (Some(t), Some((id, e))) => sym::check(t.id == *id && t.header.end_of_packet == *e, 1),
        _ => sym::check(false, 2),
    }
    match (c.response_tag(), &w.resp) {
        (None, None) => sym::check(true, 3),
        (Some(t), Some((id, e, r))) => sym::check(t.id == *id && t.header.end_of_packet == *e && t.header.error == *r, 3),
        _ => sym::check(false, 4),
    }
    let (q, p) = (w.req.map(|x| x.0), w.resp.map(|x| x.0));
    sym::check(c.request_id() == q, 5);
    sym::check(c.response_id() == p, 6);
    sym::check(c.tag_id() == if q.is_some() { q } else { p }, 7);
    let last = match w.resp {
        Some((_, e, _)) => e,
        None => false,
    };
    sym::check(c.is_last_response() == last, 8);
    match (c.interface_status(), w.status) {
        (None, None) => sym::check(true, 9),
        (Some(s), Some(i)) => sym::check(status_of(&c.actions[i]) == Some(s), 9),
        _ => sym::check(false, 10),
    }
    let o = c.actions_without_interface_status();
    sym::check(o.len() == w.others.len(), 11);
    let mut i = 0;
    while i < o.len() {
        sym::check(core::ptr::eq(o[i], &c.actions[w.others[i]]), 12);
        i += 1;
    }
    sym::reach(1);
}
fn all(v: Vec<Action>, out: Vec<u8>, w: Want) {
    let c = Command::new(v);
    answers(&c, &w);
    sym::observe(&[c.is_last_response() as u8, c.tag_id().unwrap_or(0), c.tag_id().is_some() as u8]);
    // the same answers on the other side
    match Command::try_from(&out[..]) {
        Ok(d) => answers(&d, &w),
        Err(_) => sym::check(false, 13),
    }
}
fn many(n: usize, kinds: u8) {
    let (mut v, mut out, mut w) = (vec![], vec![], Want::default());
    for _ in 0..n {
        let k = sym::split(sym::below(kinds) as usize);
        add(k as u8, &mut v, &mut out, &mut w);
    }
    all(v, out, w);
}
/// actions nobody asks for
fn fill(n: usize, v: &mut Vec<Action>, out: &mut Vec<u8>, w: &mut Want) {
    for _ in 0..n {
        w.others.push(v.len());
        v.push(Action::Chunk(ChunkStep::Continue.into()));
        out.push(0x30);
    }
}
entries! {
    h_c12_three { many(3, KINDS) }
    h_c12_four { many(4, 4) }
    h_c12_two { many(2, KINDS) }
    h_c12_one { many(1, KINDS) }
    h_c12_none {
        answers(&Command::new(vec![]), &Want::default());
        answers(&Command::default(), &Want::default());
    }
    h_c12_groups {
        // any action at all next to the ones asked for
        let (mut v, mut out, mut w) = (vec![], vec![], Want::default());
        let g = sym::split(sym::below(4) as usize);
        match g {
            0 => { let k = sym::below(16); sym::assume(k != 13); v.push(gen::simple(k, &mut out)); w.others.push(0); }
            1 => { let k = sym::below(6); v.push(gen::forward(k, &mut out)); w.others.push(0); }
            2 => { v.push(util::group_action(4, &mut out)); w.others.push(0); }
            _ => { v.push(gen::interface_status(2, &mut out)); w.status = Some(0); }
        }
        let k = sym::split(sym::below(4) as usize);
        add(k as u8, &mut v, &mut out, &mut w);
        all(v, out, w);
    }
    h_c12_before_indirect {
        let (mut v, mut out, mut w) = (vec![], vec![], Want::default());
        let k = sym::split(sym::below(4) as usize);
        add(k as u8, &mut v, &mut out, &mut w);
        v.push(gen::indirect_forward(4, &mut out));
        w.others.push(1);
        all(v, out, w);
    }
    h_c12_far {
        // what is asked for stands behind and in front of many others
        let (mut v, mut out, mut w) = (vec![], vec![], Want::default());
        let n = [4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300][sym::split(sym::below(14) as usize)];
        fill(n, &mut v, &mut out, &mut w);
        let (i, j) = (sym::split(sym::below(4) as usize), sym::split(sym::below(4) as usize));
        add(i as u8, &mut v, &mut out, &mut w);
        fill(2, &mut v, &mut out, &mut w);
        add(j as u8, &mut v, &mut out, &mut w);
        fill(n / 2, &mut v, &mut out, &mut w);
        all(v, out, w);
    }
    h_c12_between {
        let (mut v, mut out, mut w) = (vec![], vec![], Want::default());
        let (i, j) = (sym::split(sym::below(4) as usize), sym::split(sym::below(4) as usize));
        add(i as u8, &mut v, &mut out, &mut w);
        w.others.push(1);
        gen::set_plain(true);
        let g = sym::split(sym::below(5) as usize);
        match g {
            0 => { let k = sym::below(16); sym::assume(k != 13); v.push(gen::simple(k, &mut out)) }
            1 => { let k = sym::below(2); v.push(gen::forward(k, &mut out)) }
            2 => { let k = sym::below(gen::QUERIES); v.push(gen::query_action(0, k, 1, true, false, &mut out)) }
            3 => v.push(gen::raw_file_action(2, 2, false, &mut out)),
            _ => v.push(gen::sys_file_action(2, 1, &mut out)),
        }
        add(j as u8, &mut v, &mut out, &mut w);
        all(v, out, w);
    }
    t_c12_five { many(5, 4) }
    t_c12_four_all { many(4, KINDS) }
}
