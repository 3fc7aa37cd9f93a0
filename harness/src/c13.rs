//! C13: layout of the system files, alone and as file data, and files kept as bytes.
use crate::{gen, sym};
use dash7::app::action::{Action, OpCode};
use dash7::app::operation::*;
use dash7::file::{File, FileId};
use deku::prelude::*;

fn no_rest(r: (&[u8], usize)) -> bool {
    r.0.is_empty() && r.1 == 0
}
/// the file under its id: decoded alone, followed by other bytes, and inside an action
fn as_file(id: u8, w: &[u8], f: &File) {
    let Ok(fid) = FileId::try_from(id) else { return sym::check(false, 1) };
    match File::from_bytes((w, 0), fid.clone(), w.len() as u32) {
        Ok((r, v)) => {
            sym::check(v == *f, 2);
            sym::check(no_rest(r), 3);
            sym::reach(1)
        }
        Err(_) => sym::check(false, 4),
    }
    let mut x = w.to_vec();
    x.push(sym::u8());
    match File::from_bytes((&x, 0), fid, w.len() as u32) {
        Ok((r, v)) => {
            sym::check(v == *f, 5);
            sym::check(r.0 == &x[w.len()..] && r.1 == 0, 6);
        }
        Err(_) => sym::check(false, 7),
    }
    let d = FileData::new(
        ActionHeader::new(false, false),
        FileOffset { file_id: id, offset: Length::from(0u32) },
        f.clone(),
        OpCode(32),
    );
    let mut y = vec![32, id, 0];
    gen::put_len(&mut y, w.len() as u32);
    y.extend_from_slice(w);
    let a = Action::ReturnFileData(d);
    match a.to_bytes() {
        Ok(b) => {
            sym::observe(&b);
            sym::check(b == y, 8)
        }
        Err(_) => sym::check(false, 9),
    }
    match Action::try_from(&y[..]) {
        Ok(b) => sym::check(a == b, 10),
        Err(_) => sym::check(false, 11),
    }
}
/// a file structure by itself
fn alone<T: DekuContainerWrite + for<'a> TryFrom<&'a [u8]> + PartialEq>(v: &T, w: &[u8]) {
    match v.to_bytes() {
        Ok(b) => sym::check(b == w, 20),
        Err(_) => sym::check(false, 21),
    }
    match T::try_from(w) {
        Ok(x) => sym::check(x == *v, 22),
        Err(_) => sym::check(false, 23),
    }
}
fn kind(k: u8) {
    let mut w = vec![];
    let (id, f) = gen::file(k, &mut w);
    as_file(id, &w, &f);
    match &f {
        File::FactorySettings(v) => alone(v, &w),
        File::FirmwareVersion(v) => alone(v, &w),
        File::EngineeringMode(v) => alone(v, &w),
        File::PhyStatus(v) => alone(v, &w),
        File::DllConfig(v) => alone(v, &w),
        File::DllStatus(v) => alone(v, &w),
        File::NwlSecurityKey(v) => alone(v, &w),
        File::AccessProfile07(v) => {
            alone(v, &w);
            alone(&v.profile, &w);
        }
        _ => (),
    }
}
entries! {
    k_c13_many_channels {
        // the count of channel entries is one byte
        let c = gen::channel_status(&mut vec![]);
        let f = dash7::file::PhyStatus::new(1, 2, 3, 4, vec![c; 256]);
        let Some(b) = crate::util::enc(&f) else { return sym::check(true, 1) };
        sym::check(dash7::file::PhyStatus::from_bytes((&b[..], 0)).ok().map(|r| r.1) == Some(f), 2);
        sym::reach(1);
    }
    h_c13_uid { kind(0) }
    h_c13_vid { kind(1) }
    h_c13_factory { kind(2) }
    h_c13_engineering { gen::set_full(true); kind(4) }
    h_c13_dll_config { kind(6) }
    h_c13_dll_status { gen::set_full(true); kind(7) }
    h_c13_key { kind(8) }
    h_c13_profile { kind(9) }
    h_c13_firmware {
        // texts of every length
        let (a, g) = (sym::split(sym::below(7) as usize), sym::split(sym::below(8) as usize));
        let mut w = vec![];
        let f = gen::firmware(&mut w, a, g);
        alone(&f, &w);
        as_file(2, &w, &File::FirmwareVersion(f));
    }
    h_c13_characters {
        // characters of one to four bytes in either text
        let second = sym::split(sym::bool() as usize) == 1;
        let room = if second { 7 } else { 6 };
        let mut s = Vec::new();
        while s.len() < room {
            let n = sym::split(sym::below(5) as usize);
            if n == 0 {
                break;
            }
            sym::assume(s.len() + n <= room);
            gen::character(n, &mut s);
        }
        let mut w = vec![1, 2];
        let (other, free) = (b"x1".to_vec(), s);
        let (a, g) = if second { (other, free) } else { (free, other) };
        w.extend_from_slice(&a);
        w.resize(8, 0);
        w.extend_from_slice(&g);
        w.resize(15, 0);
        // both are made of whole characters
        let f = unsafe {
            dash7::file::FirmwareVersion {
                major: 1,
                minor: 2,
                application_name: String::from_utf8_unchecked(a),
                git_sha1: String::from_utf8_unchecked(g),
            }
        };
        alone(&f, &w);
        as_file(2, &w, &File::FirmwareVersion(f));
    }
    h_c13_phy_status {
        let n = sym::split(sym::below(4) as usize);
        let mut w = vec![];
        let f = gen::phy_status(&mut w, n);
        alone(&f, &w);
        as_file(9, &w, &File::PhyStatus(f));
    }
    h_c13_other {
        // any other file keeps the bytes it has, up to the announced length
        let n = sym::split(sym::below(9) as usize);
        let id = sym::u8();
        sym::assume(!gen::structured(id));
        let w = sym::vec(n);
        as_file(id, &w, &File::Other(w.clone()));
    }
    h_c13_channels {
        // more channel entries than sizes of small numbers, the inner ones fixed
        gen::set_ends(true);
        let n = [4, 16, 63, 64, 84, 85, 86, 127, 128, 255][sym::split(sym::below(10) as usize)];
        let mut w = vec![];
        let f = gen::phy_status(&mut w, n);
        alone(&f, &w);
        as_file(9, &w, &File::PhyStatus(f));
    }
    h_c13_other_long {
        gen::set_ends(true);
        let n = [63usize, 64, 100, 127, 128, 255, 256, 257, 300, 1000][sym::split(sym::below(10) as usize)];
        let id = sym::u8();
        sym::assume(!gen::structured(id));
        let mut w = vec![];
        let f = File::Other(gen::data(&mut w, n));
        as_file(id, &w, &f);
    }
    h_c13_embedded_zero {
        // zeros inside a text are part of it
        let mut w = sym::vec(15);
        for i in 2..15 {
            sym::assume(w[i] < 128);
        }
        let Ok(v) = dash7::file::FirmwareVersion::try_from(&w[..]) else { return sym::check(false, 1) };
        let (a, g) = (v.application_name.as_bytes(), v.git_sha1.as_bytes());
        sym::check(a.len() <= 6 && g.len() <= 7, 2);
        if a.len() <= 6 && g.len() <= 7 {
            sym::check(*a == w[2..2 + a.len()] && w[2 + a.len()..8].iter().all(|x| *x == 0), 3);
            sym::check(*g == w[8..8 + g.len()] && w[8 + g.len()..].iter().all(|x| *x == 0), 4);
            sym::check(a.last() != Some(&0) && g.last() != Some(&0), 5);
        }
        sym::reach(1);
        let major = w[0];
        let minor = w[1];
        sym::check(v.major == major && v.minor == minor, 6);
        match v.to_bytes() {
            Ok(b) => sym::check(b == w, 7),
            Err(_) => sym::check(false, 8),
        }
        w.clear();
    }
    t_c13_phy_status_many {
        let n = sym::split(sym::below(9) as usize);
        let mut w = vec![];
        let f = gen::phy_status(&mut w, n);
        alone(&f, &w);
    }
    t_c13_other_long {
        let n = [63usize, 64, 100, 255, 256, 300][sym::split(sym::below(6) as usize)];
        let id = sym::u8();
        sym::assume(!gen::structured(id));
        let w = sym::vec(n);
        as_file(id, &w, &File::Other(w.clone()));
    }
}
