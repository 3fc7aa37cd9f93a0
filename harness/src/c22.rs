//! C22: the textual form of a command. Formatting is executed for real here (--real-format).
//! What is compared is the order and presence of the parts, not the words between them.
use crate::{gen, sym};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::operation::*;
use dash7::session::InterfaceStatus;
use deku::prelude::*;

#[derive(Default)]
struct Want {
    req: Option<u8>,
    resp: Option<(u8, bool, bool)>,
    status: Option<String>,
    others: Vec<String>,
}
impl Want {
    fn push(&mut self, v: &mut Vec<Action>, a: Action) {
        self.others.push(format!("{:?}", a));
        v.push(a);
    }
    fn status(&mut self, v: &mut Vec<Action>, s: InterfaceStatus) {
        if self.status.is_none() {
            self.status = Some(s.to_string());
        }
        v.push(Action::Status(Status::Interface(s.into()).into()));
    }
}
const KINDS: u8 = 7;
/// adds an action and what the text has to say about it; tags have free fields, the others
/// carry the position as a mark
fn add(k: u8, v: &mut Vec<Action>, w: &mut Want) {
    let mark = v.len() as u8 + 3;
    match k {
        0 => {
            let id = sym::u8();
            let e = sym::bool();
            w.req = w.req.or(Some(id));
            let t = RequestTag { header: RequestTagHeader { end_of_packet: e }, opcode: OpCode(52), id };
            w.push(v, Action::RequestTag(t));
        }
        1 => {
            let (id, e, r) = (sym::u8(), sym::bool(), sym::bool());
            w.resp = w.resp.or(Some((id, e, r)));
            let h = ResponseTagHeader { end_of_packet: e, error: r };
            w.push(v, Action::ResponseTag(ResponseTag { header: h, opcode: OpCode(35), id }));
        }
        2 => w.status(v, InterfaceStatus::Host),
        3 => w.status(v, InterfaceStatus::Other(vec![mark])),
        4 => w.push(v, Action::Status(Status::Action(ActionStatus { action_id: mark, status: StatusCode(0) }).into())),
        5 => w.push(v, Action::Chunk(ChunkStep::Start.into())),
        _ => w.push(v, Action::Nop(Nop { header: ActionHeader { response: mark & 1 == 0, group: false }, opcode: OpCode(0) })),
    }
}
fn at(h: &[u8], i: usize, n: &[u8]) -> bool {
    i + n.len() <= h.len() && (0..n.len()).all(|j| h[i + j] == n[j])
}
fn find(h: &[u8], from: usize, n: &[u8]) -> Option<usize> {
    (from..h.len()).find(|&i| at(h, i, n))
}
fn dec(mut v: u32) -> Vec<u8> {
    let mut d = vec![];
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    d
}
fn judge(c: &Command, w: &Want) {
    let text = c.to_string();
    let t = text.as_bytes();
    let tag = if w.req.is_some() { w.req } else { w.resp.map(|r| r.0) };
    // the head ends where the actions begin
    let mut cut = vec![];
    let mut p = 0;
    for o in &w.others {
        match find(t, p, o.as_bytes()) {
            Some(i) => {
                cut.push((i, i + o.len()));
                p = i + o.len();
            }
            None => return sym::check(false, 1),
        }
    }
    if let Some(s) = &w.status {
        match find(t, p, s.as_bytes()) {
            Some(i) => {
                cut.push((i, i + s.len()));
                p = i + s.len();
            }
            None => return sym::check(false, 2),
        }
    }
    // nothing is said twice
    cut.push((t.len(), t.len()));
    let mut p = 0;
    for (a, b) in cut.iter() {
        let gap = &t[p..*a];
        for o in &w.others {
            sym::check(find(gap, 0, o.as_bytes()).is_none(), 3);
        }
        if let Some(s) = &w.status {
            sym::check(find(gap, 0, s.as_bytes()).is_none(), 4);
        } else {
            sym::check(find(gap, 0, b"InterfaceStatus").is_none(), 5);
        }
        p = *b;
    }
    let head = &t[..cut[0].0];
    match (tag, find(head, 0, b"tag ")) {
        (None, None) => sym::check(true, 6),
        (Some(id), Some(i)) => {
            let d = dec(id as u32);
            sym::check(at(head, i + 4, &d), 6);
            sym::check(head.len() > i + 4 + d.len() && !head[i + 4 + d.len()].is_ascii_digit(), 7);
        }
        _ => sym::check(false, 8),
    }
    let has = |n: &[u8]| find(head, 0, n).is_some();
    let (done, err) = match w.resp {
        Some((_, e, r)) => (e, r),
        None => (false, false),
    };
    sym::check(has(b"executing") == !done, 9);
    sym::check(has(b"completed") == done, 10);
    sym::check(has(b"with error") == (done && err), 11);
    sym::check(has(b"without error") == (done && !err), 12);
}
fn sequence(n: usize) {
    let mut w = Want::default();
    let mut v = vec![];
    let mut statuses = 0;
    for _ in 0..n {
        let k = sym::split(sym::below(KINDS) as usize) as u8;
        statuses += (k == 2 || k == 3) as u8;
        // which of several interface statuses is shown is left open
        if statuses > 1 {
            return sym::reach(2);
        }
        add(k, &mut v, &mut w);
    }
    judge(&Command::new(v), &w);
    sym::reach(1);
}
const EXAMPLES: [&[u8]; 10] = [
    &[0x41, 7, 0, 3],
    &[0x04, 0x41, 0, 2, 5, 6],
    &[0x44, 0x70, 0, 1, 9],
    &[0x08, 0x00, 0x03, 0x41, 0x01],
    &[0x89, 0x00, 0x03, 0x41, 0x01],
    &[0x20, 0x45, 0, 1, 4],
    &[0x32, 0x00],
    &[0xB3, 0x02],
    &[0x33],
    &[0x32, 0x01],
];
fn one(a: Action) {
    let mut w = Want::default();
    let mut v = vec![];
    match &a {
        Action::RequestTag(t) => w.req = Some(t.id),
        Action::ResponseTag(t) => w.resp = Some((t.id, t.header.end_of_packet, t.header.error)),
        _ => {}
    }
    w.push(&mut v, a);
    add(2, &mut v, &mut w);
    judge(&Command::new(v), &w);
    sym::reach(1);
}
fn never_fails(s: InterfaceStatus) {
    use std::fmt::Write;
    let mut t = String::new();
    sym::check(write!(t, "{}", s).is_ok(), 20);
    sym::check(!t.is_empty(), 21);
    sym::reach(1);
}
/// the numbers and truth values of a text, in order
fn values(t: &[u8]) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = vec![];
    let mut word: Vec<u8> = vec![];
    for &c in t.iter().chain(b" ") {
        if matches!(c, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'-') {
            word.push(c)
        } else if !word.is_empty() {
            let w = std::mem::take(&mut word);
            if matches!(w[0], b'0'..=b'9' | b'-') || w == b"true" || w == b"false" {
                r.push(w)
            }
        }
    }
    r
}
fn decimal(mut v: u32) -> Vec<u8> {
    let mut d = vec![];
    loop {
        d.insert(0, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            return d;
        }
    }
}
/// a status shows each of its values once and in order
fn shows(s: &dash7::session::Dash7InterfaceStatus, timeout: u32) {
    let t = s.to_string();
    let t = t.as_bytes();
    let (c, a) = (format!("{:?}", s.channel), format!("{:?}", s.addressee));
    let Some(i) = find(t, 0, c.as_bytes()) else { return sym::check(false, 40) };
    let i = i + c.len();
    let Some(j) = find(t, i, a.as_bytes()) else { return sym::check(false, 41) };
    let flag = |b: bool| if b { b"true".to_vec() } else { b"false".to_vec() };
    let want = [
        decimal(s.rx_level as u32),
        decimal(s.link_budget as u32),
        decimal(s.target_rx_level as u32),
        flag(s.nls),
        flag(s.missed),
        flag(s.retry),
        flag(s.unicast),
        decimal(s.fifo_token as u32),
        decimal(s.sequence_number as u32),
        decimal(timeout),
    ];
    let got = values(&t[i..j]);
    sym::check(got.len() == want.len(), 42);
    for (g, w) in got.iter().zip(want.iter()) {
        sym::check(g == w, 43);
    }
    sym::check(values(&t[j + a.len()..]).is_empty(), 44);
    sym::reach(1);
}
entries! {
    h_c22_status_values {
        // one value at a time may be anything
        let mut b: Vec<u8> = vec![0x14, 1, 2, 103, 104, 105, 0x50, 107, 108, 9, 0x30, 1, 2, 3, 4, 5, 6, 7, 8, 9];
        let i = sym::split(sym::below(8) as usize);
        b[[3, 4, 5, 6, 7, 8, 9, 10][i]] = sym::u8();
        let low = b[9];
        let mut timeout = (low & 0x1F) as u32;
        for _ in 0..low >> 5 {
            timeout *= 4;
        }
        if let Ok((_, s)) = dash7::session::Dash7InterfaceStatus::from_bytes((&b[..], 0)) {
            shows(&s, timeout);
        }
    }
    h_c22_status_other {
        // the bytes of a status there is no reader for
        let b = sym::bytes::<2>();
        let n = sym::split(sym::below(3) as usize);
        let t = InterfaceStatus::Other(b[..n].to_vec()).to_string();
        let want: Vec<_> = b[..n].iter().map(|x| decimal(*x as u32)).collect();
        sym::check(values(t.as_bytes()) == want, 45);
        sym::reach(1);
    }
    h_c22_short { sequence(sym::split(sym::below(3) as usize)) }
    h_c22_three { sequence(3) }
    t_c22_four { sequence(4) }
    h_c22_far {
        // many actions, with what the head and the end are made of in front of and behind them
        let n = [5, 9, 17, 33, 65, 101][sym::split(sym::below(6) as usize)];
        let (i, j) = (sym::split(sym::below(3) as usize) as u8, sym::split(sym::below(3) as usize) as u8);
        let mut w = Want::default();
        let mut v = vec![];
        if i != 2 {
            add(i, &mut v, &mut w);
        }
        for k in 0..n {
            add(4 + k % 2, &mut v, &mut w);
        }
        add(j, &mut v, &mut w);
        add(5, &mut v, &mut w);
        judge(&Command::new(v), &w);
        sym::reach(1);
    }
    h_c22_long {
        // long data, in an action and in a status
        let n = [63, 64, 128, 255, 256, 300][sym::split(sym::below(6) as usize)];
        let mut w = Want::default();
        let mut v = vec![];
        let mut d = vec![7; n];
        d[n - 1] = 255;
        let f = FileOffset { file_id: 0x45, offset: 0u32.into() };
        let h = ActionHeader { response: true, group: false };
        w.push(&mut v, Action::WriteFileData(FileData::new(h, f, dash7::file::File::Other(d.clone()), OpCode(4))));
        w.status(&mut v, InterfaceStatus::Other(d));
        judge(&Command::new(v), &w);
        sym::reach(1);
    }
    h_c22_action {
        // every simple action of few fields, with all of them
        const K: [u8; 14] = [0, 2, 5, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18];
        one(gen::simple(K[sym::split(sym::below(14) as usize)], &mut vec![]));
    }
    h_c22_other_action {
        // every other kind of action, decoded from one example each
        one(Action::try_from(EXAMPLES[sym::split(sym::below(EXAMPLES.len() as u8) as usize)]).unwrap());
    }
    h_c22_shown_status {
        // any byte of a status may be anything
        const B: [&[u8]; 3] = [
            &[0, 1, 2, 3, 4, 5, 0x50, 7, 8, 9, 0x20, 1, 2, 3, 4, 5, 6, 7, 8, 9],
            &[0x14, 1, 2, 3, 4, 5, 0x50, 7, 8, 9, 0x30, 1, 2, 3, 4, 5, 6, 7, 8, 9],
            &[0x24, 1, 2, 3, 4, 5, 0x50, 7, 8, 9, 0x10, 1, 2, 3, 4, 5, 6, 7, 8, 9],
        ];
        let k = sym::split(sym::below(3) as usize);
        let i = sym::split(sym::below(15) as usize);
        let mut b = B[k].to_vec();
        b[i] = sym::u8();
        if i < 10 {
            b[i + 1] = sym::u8()
        }
        if let Ok((_, s)) = dash7::session::Dash7InterfaceStatus::from_bytes((&b[..], 0)) {
            never_fails(InterfaceStatus::Dash7(s));
        }
    }
    h_c22_status {
        let n = sym::split(sym::below(3) as usize);
        match sym::below(3) {
            0 => never_fails(InterfaceStatus::Host),
            1 => never_fails(InterfaceStatus::Serial),
            _ => never_fails(InterfaceStatus::Other(sym::vec(n))),
        }
    }
    h_c22_decoded {
        let b = sym::bytes::<3>();
        let n = sym::split(sym::below(4) as usize);
        if let Ok((_, c)) = Command::from_bytes((&b[..n], 0)) {
            let t = c.to_string();
            sym::check(t.len() > 8, 30);
            sym::reach(1);
        }
    }
}
