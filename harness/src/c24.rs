//! C24: failures of a stream are reported, and how a stream delivers its bytes does not matter.
use crate::{gen, sym, util};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::action::OpCode;
use dash7::app::operation::{ActionHeader, FileData, FileOffset};
use dash7::file::{File, SecurityKey};
use dash7::link::{BackgroundFrame, ForegroundFrame};
use dash7::network;
use deku::no_std_io::{Cursor, Read, Seek, SeekFrom, Write};
use deku::prelude::*;
use std::io::{Error, ErrorKind};

const KINDS: [ErrorKind; 6] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidData,
    ErrorKind::WriteZero,
];
const ALWAYS: u32 = 64;
/// commands for frames
const FRAMED: [&[u8]; 3] = [
    &[0x01, 0x20, 0x03, 0x04, 0x20, 0x41, 0x00, 0x03, 1, 2, 3],
    &[0xB4, 0x42, 0x08, 0x79, 0x02, 1, 2, 3, 4, 5, 6],
    &[0x00, 0x00],
];

/// A stream with a schedule of what goes wrong.
struct Stream<'a> {
    c: Cursor<&'a [u8]>,
    /// reading fails from this position on
    at: usize,
    kind: ErrorKind,
    /// that many times
    times: u32,
    /// the first calls of `read` are interrupted
    interrupted: u8,
    /// at most so much at a time
    chunk: usize,
    /// seeking fails after so many times
    seeks: u32,
    failed: u32,
}
impl<'a> Stream<'a> {
    fn new(b: &'a [u8]) -> Self {
        Stream { c: Cursor::new(b), at: usize::MAX, kind: ErrorKind::Other, times: 0, interrupted: 0, chunk: usize::MAX, seeks: u32::MAX, failed: 0 }
    }
    fn fail(&mut self) -> Error {
        self.failed += 1;
        // who is told this often that the stream is broken and still goes on never ends
        sym::check(self.failed < ALWAYS, 90);
        Error::from(self.kind)
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupted > 0 {
            self.interrupted -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let p = self.c.position() as usize;
        let mut n = b.len().min(self.chunk);
        if self.failed < self.times {
            if p >= self.at {
                return Err(self.fail());
            }
            n = n.min(self.at - p)
        }
        self.c.read(&mut b[..n])
    }
}
impl Seek for Stream<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.seeks == 0 {
            return Err(self.fail());
        }
        self.seeks -= 1;
        self.c.seek(p)
    }
}
fn kind() -> ErrorKind {
    KINDS[sym::split(sym::below(KINDS.len() as u8) as usize)]
}
/// reading fails somewhere within the `n` bytes or right behind them
fn broken<'a>(b: &'a [u8], n: usize) -> Stream<'a> {
    let mut s = Stream::new(b);
    s.at = sym::split(sym::below(n as u8 + 1) as usize);
    (s.times, s.kind) = if sym::bool() { (1, ErrorKind::WouldBlock) } else { (ALWAYS, ErrorKind::Other) };
    s
}
fn is_io<T>(r: &Result<T, DekuError>, k: ErrorKind) -> bool {
    matches!(r, Err(DekuError::Io(e)) if *e == k)
}
fn action(a: Action, mut e: Vec<u8>) {
    let n = e.len();
    e.extend_from_slice(&[0x34, 0x35]);
    let mut s = broken(&e, n);
    let (at, k) = (s.at, s.kind);
    match Action::from_reader((&mut s, 0)) {
        Ok((bits, v)) => {
            sym::check(at == n, 1);
            sym::check(bits == 8 * n && v == a, 2);
            sym::check(s.failed == 0, 3);
            sym::reach(2);
        }
        r => {
            sym::check(at < n, 4);
            sym::check(is_io(&r, k), 5);
            sym::reach(1);
        }
    }
}
fn part<T>(v: T, mut e: Vec<u8>)
where
    T: DekuContainerWrite + PartialEq + for<'a> DekuContainerRead<'a>,
{
    let n = e.len();
    let use_ = sym::split(sym::below(3) as usize);
    if use_ == 0 {
        return write(&v, &e);
    }
    if use_ == 1 {
        return slice(&v, &e);
    }
    e.extend_from_slice(&[0x34, 0x35]);
    let mut s = broken(&e, n);
    let (at, k) = (s.at, s.kind);
    match T::from_reader((&mut s, 0)) {
        Ok((bits, x)) => {
            sym::check(at == n, 1);
            sym::check(bits == 8 * n && x == v, 2);
            sym::reach(2);
        }
        r => {
            sym::check(at < n, 4);
            sym::check(is_io(&r, k), 5);
            sym::reach(1);
        }
    }
}
/// into a slice that may be too small
fn slice<T: DekuContainerWrite>(v: &T, e: &[u8]) {
    let n = e.len();
    let mut out = vec![0x77; n + 1];
    let m = sym::split(sym::below(n as u8 + 2) as usize);
    match v.to_slice(&mut out[..m]) {
        Ok(k) => {
            sym::check(m >= n && k == n, 20);
            sym::check(out[..n] == e[..] && out[n..].iter().all(|b| *b == 0x77), 21);
            sym::reach(3);
        }
        Err(_) => sym::check(m < n, 22),
    }
}
macro_rules! part {
    ($v:expr) => {{
        let mut w = vec![];
        let v = $v(&mut w);
        part(v, w)
    }};
}
/// A sink that takes only so many bytes, and only so many at a time.
struct Sink {
    c: Cursor<Vec<u8>>,
    room: usize,
    chunk: usize,
    kind: ErrorKind,
    interrupted: u8,
    failed: u32,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupted > 0 {
            self.interrupted -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = b.len().min(self.chunk).min(self.room - self.c.position() as usize);
        if n == 0 {
            self.failed += 1;
            sym::check(self.failed < ALWAYS, 91);
            return Err(Error::from(self.kind));
        }
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
fn sink(n: usize) -> Sink {
    Sink {
        c: Cursor::new(vec![]),
        room: sym::split(sym::below(n as u8 + 2) as usize),
        chunk: if sym::bool() { 1 } else { 3 },
        kind: ErrorKind::Other,
        interrupted: if sym::bool() { 0 } else { 1 },
        failed: 0,
    }
}
fn written<F: FnOnce(&mut Writer<&mut Sink>) -> Result<(), DekuError>>(n: usize, e: &[u8], f: F) {
    let mut s = sink(n);
    let mut w = Writer::new(&mut s);
    let r = f(&mut w).and_then(|_| w.finalize().map_err(|_| DekuError::Io(ErrorKind::Other)));
    match r {
        Ok(()) => {
            sym::check(s.room >= n, 10);
            sym::check(s.c.get_ref()[..] == e[..n], 11);
            sym::reach(4);
        }
        Err(DekuError::Io(k)) => {
            sym::check(s.room < n && k == s.kind, 12);
            sym::reach(5);
        }
        Err(_) => sym::check(false, 13),
    }
}
fn write<T: DekuContainerWrite>(v: &T, e: &[u8]) {
    written(e.len(), e, |w| v.to_writer(w, ()))
}
/// data of files, structured and not, and the wizzilab final statuses
fn file_action(e: &mut Vec<u8>) -> Action {
    gen::set_plain(true);
    let k = sym::split(sym::below(gen::FILES + 3) as usize) as u8;
    if k == 3 {
        // texts of which one is shorter than its field
        let (_, f) = (e.extend_from_slice(&[4, 2, 0, 15]), gen::firmware(e, 6, 3));
        let o = FileOffset { file_id: 2, offset: 0u32.into() };
        return Action::WriteFileData(FileData::new(ActionHeader::new(false, false), o, File::FirmwareVersion(f), OpCode(4)));
    }
    if k < gen::FILES {
        return gen::sys_file_action(1, k, e);
    }
    match k - gen::FILES {
        0 => gen::raw_file_action(0, 2, false, e),
        1 => gen::raw_file_action(2, 0, false, e),
        _ => util::group_action(if util::GROUPS > 7 { 7 } else { 3 }, e),
    }
}
/// one action of each shape; contents fixed
fn shape(k: usize, e: &mut Vec<u8>) -> Action {
    gen::set_plain(true);
    match k {
        0 => gen::raw_file_action(2, 3, false, e),
        1 => gen::interface_status(1, e),
        2 => gen::query_action(0, 2, 2, true, false, e),
        3 => gen::forward(1, e),
        4 => gen::simple(1, e),
        5 => gen::sys_file_action(2, 6, e),
        6 => gen::simple(0, e),
        7 => gen::simple(13, e),
        _ => gen::indirect_forward(1, e),
    }
}
fn shapes(max: u8, e: &mut Vec<u8>) -> (Vec<Action>, Vec<usize>) {
    let n = sym::split(sym::below(max + 1) as usize);
    let mut v = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let k = sym::split(sym::below(8) as usize);
        v.push(shape(k, e));
        ends.push(e.len());
    }
    (v, ends)
}
entries! {
    h_c24_action_simple {
        let mut e = vec![];
        let a = util::group_action(0, &mut e);
        action(a, e)
    }
    h_c24_action_forward {
        let mut e = vec![];
        let g = 1 + sym::below(3);
        let a = util::group_action(g, &mut e);
        action(a, e)
    }
    h_c24_action_query {
        let mut e = vec![];
        let a = util::group_action(4, &mut e);
        action(a, e)
    }
    h_c24_action_file {
        let mut e = vec![];
        let a = file_action(&mut e);
        action(a, e)
    }
    h_c24_command {
        // also at the places where a command could end
        let mut e = vec![];
        let (_, ends) = shapes(2, &mut e);
        let mut s = broken(&e, e.len());
        let (at, k) = (s.at, s.kind);
        let r = Command::from_reader((&mut s, 0));
        sym::check(is_io(&r, k), 1);
        sym::check(r.is_err(), 2);
        sym::check(s.failed >= 1, 3);
        sym::reach(if at == e.len() { 1 } else if ends.contains(&at) { 2 } else { 3 });
    }
    h_c24_kinds {
        let mut e = vec![];
        shapes(1, &mut e);
        let mut s = broken(&e, e.len());
        s.kind = kind();
        let k = s.kind;
        sym::check(is_io(&Command::from_reader((&mut s, 0)), k), 1);
        sym::reach(1)
    }
    h_c24_command_forward {
        // behind an indirect forward nothing is read any more
        let mut e = vec![];
        let (mut a, _) = shapes(1, &mut e);
        a.push(shape(8, &mut e));
        let n = e.len();
        e.extend_from_slice(&[0x34, 0x35]);
        let mut s = broken(&e, n);
        let (at, k) = (s.at, s.kind);
        match Command::from_reader((&mut s, 0)) {
            Ok((_, c)) => {
                sym::check(at == n && s.failed == 0, 1);
                sym::check(c.actions == a, 2);
                sym::reach(1)
            }
            r => {
                sym::check(at < n, 3);
                sym::check(is_io(&r, k), 4);
                sym::reach(2)
            }
        }
    }
    h_c24_later {
        // the leading bytes can not be read either
        let p = sym::split(sym::below(4) as usize);
        let mut e = vec![0x34; p];
        let a = shape(sym::split(sym::below(9) as usize), &mut e);
        let n = e.len();
        let mut s = broken(&e, n);
        let (at, k) = (s.at, s.kind);
        match Action::from_reader((&mut s, 8 * p)) {
            Ok((_, v)) => sym::check(at == n && v == a, 1),
            r => {
                sym::check(at < n, 2);
                sym::check(is_io(&r, k), 3);
                sym::reach(1)
            }
        }
    }
    h_c24_chunks {
        // any sizes of pieces and interruptions on the way give the same as the whole buffer
        let mut e = vec![];
        let (a, _) = shapes(2, &mut e);
        let n = e.len();
        let mut s = Stream::new(&e);
        s.chunk = 1 + sym::split(sym::below(3) as usize);
        s.interrupted = sym::split(sym::below(2) as usize) as u8;
        match Command::from_reader((&mut s, 0)) {
            Ok((bits, c)) => {
                sym::check(bits == 8 * n, 1);
                sym::check(c.actions == a, 2);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 3),
        }
    }
    h_c24_interrupted {
        let mut e = vec![];
        let g = sym::below(util::GROUPS);
        gen::set_plain(true);
        let a = util::group_action(g, &mut e);
        let mut s = Stream::new(&e);
        s.chunk = 1 + sym::split(sym::below(3) as usize);
        s.interrupted = sym::split(sym::below(4) as usize) as u8;
        match Action::from_reader((&mut s, 0)) {
            Ok((_, v)) => {
                sym::check(v == a, 4);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 5),
        }
    }
    h_c24_seek {
        // a stream that can not be moved at some point
        let mut e = vec![];
        let (a, _) = shapes(2, &mut e);
        let mut s = Stream::new(&e);
        s.seeks = sym::split(sym::below(8) as usize) as u32;
        s.kind = ErrorKind::Unsupported;
        s.times = ALWAYS;
        match Command::from_reader((&mut s, 0)) {
            Ok((_, c)) => {
                sym::check(c.actions == a, 1);
                sym::check(s.failed == 0, 2);
                sym::reach(1)
            }
            Err(_) => {
                sym::check(s.failed > 0, 3);
                sym::reach(2)
            }
        }
    }
    h_c24_seek_action {
        let mut e = vec![];
        let a = shape(sym::split(sym::below(9) as usize), &mut e);
        let mut s = Stream::new(&e);
        s.seeks = sym::split(sym::below(5) as usize) as u32;
        s.kind = ErrorKind::Unsupported;
        s.times = ALWAYS;
        match Action::from_reader((&mut s, 0)) {
            Ok((_, v)) => {
                sym::check(v == a, 1);
                sym::check(s.failed == 0, 2);
                sym::reach(1)
            }
            Err(_) => {
                sym::check(s.failed > 0, 3);
                sym::reach(2)
            }
        }
    }
    h_c24_two {
        // after a failure the stream can be read again from where the item starts
        let mut e = vec![];
        let (a, _) = shapes(2, &mut e);
        let mut s = broken(&e, e.len());
        s.times = 1;
        sym::check(Command::from_reader((&mut s, 0)).is_err(), 1);
        s.c.set_position(0);
        match Command::from_reader((&mut s, 0)) {
            Ok((_, c)) => {
                sym::check(c.actions == a, 2);
                sym::reach(1)
            }
            Err(_) => sym::check(false, 3),
        }
    }
    h_c24_parts {
        gen::set_plain(true);
        match sym::below(9) {
            0 => part!(gen::addressee),
            1 => part!(gen::qos),
            2 => part!(gen::dash7_config),
            3 => part!(gen::dash7_status),
            4 => part!(gen::file_header),
            5 => part!(gen::channel),
            6 => part!(gen::file_offset),
            7 => part!(gen::varint),
            _ => { let k = sym::below(6); part!(|w: &mut Vec<u8>| gen::interface_config(k, w)) }
        }
    }
    h_c24_frame {
        // frames, also where the command in them could end
        if cfg!(feature = "wizzilab") {
            return sym::reach(1);
        }
        let x = FRAMED[sym::split(sym::below(3) as usize)];
        let open = sym::bool();
        let e = if open { util::network_wire(x) } else { util::foreground_wire(x) };
        let n = e.len();
        let mut s = broken(&e, n);
        let (at, k) = (s.at, s.kind);
        if open {
            // the command ends where the stream does
            let r = network::Frame::from_reader((&mut s, 0));
            sym::check(is_io(&r, k), 1);
            sym::reach(1)
        } else {
            match (ForegroundFrame::from_reader((&mut s, 0)), ForegroundFrame::from_bytes((&e, 0))) {
                (Ok((_, v)), Ok((_, w))) => {
                    sym::check(at == n && v == w, 2);
                    sym::reach(2)
                }
                (r, w) => sym::check(at < n && is_io(&r, k) && w.is_ok(), 3),
            }
        }
    }
    h_c24_frame_pieces {
        if cfg!(feature = "wizzilab") {
            return sym::reach(1);
        }
        let x = FRAMED[sym::split(sym::below(3) as usize)];
        let e = util::foreground_wire(x);
        let mut s = Stream::new(&e);
        s.chunk = 1 + sym::split(sym::below(3) as usize);
        s.interrupted = sym::split(sym::below(2) as usize) as u8;
        match (ForegroundFrame::from_reader((&mut s, 0)), ForegroundFrame::from_bytes((&e, 0))) {
            (Ok((bits, v)), Ok((_, w))) => {
                sym::check(bits == 8 * e.len(), 1);
                sym::check(v == w, 2);
                sym::reach(1);
                write(&v, &e)
            }
            _ => sym::check(false, 3),
        }
    }
    h_c24_key {
        let b = sym::bytes::<6>();
        if let Ok((_, v)) = BackgroundFrame::from_bytes((&b, 0)) {
            if let Ok(e) = v.to_bytes() {
                part(v, e)
            }
        }
        let k = sym::bytes::<24>();
        if let Ok((rest, v)) = SecurityKey::from_bytes((&k, 0)) {
            let n = 24 - rest.0.len();
            let mut s = broken(&k, n);
            let (at, kind) = (s.at, s.kind);
            match SecurityKey::from_reader((&mut s, 0)) {
                Ok((_, x)) => sym::check(at == n && x == v, 30),
                r => sym::check(at < n && is_io(&r, kind), 31),
            }
        }
    }
    h_c24_write_action {
        let mut e = vec![];
        let a = shape(sym::split(sym::below(9) as usize), &mut e);
        written(e.len(), &e, |w| a.to_writer(w, ()));
    }
    h_c24_write_command {
        let mut e = vec![];
        gen::set_plain(true);
        let (a, _) = shapes(2, &mut e);
        let c = Command::new(a);
        written(e.len(), &e, |w| c.to_writer(w, 0));
    }
    h_c24_write_query {
        let mut e = vec![];
        let (w, k, n, m) = (sym::below(3), sym::below(gen::QUERIES), sym::below(3), sym::bool());
        let a = gen::query_action(w, k, n as usize, m, false, &mut e);
        written(e.len(), &e, |w| a.to_writer(w, ()));
    }
    h_c24_write_file {
        let mut e = vec![];
        let a = file_action(&mut e);
        written(e.len(), &e, |w| a.to_writer(w, ()));
    }
}
