//! C26, continued: reading arrays of things that own memory. The library's helper is generic and private;
//! it is included from its source (optional: left out when it no longer compiles on its own, see check.py).
use crate::sym;
use crate::utils::{read_array, write_array};
use deku::no_std_io::{Cursor, Read, Seek, Write};
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;

/// owns memory; a number above 9 is refused
struct Owner(Box<u8>);
impl<'a> DekuReader<'a> for Owner {
    fn from_reader_with_ctx<R: Read + Seek>(reader: &mut Reader<R>, _: ()) -> Result<Self, DekuError> {
        let v = u8::from_reader_with_ctx(reader, ())?;
        if v > 9 {
            return Err(DekuError::Parse("".into()));
        }
        Ok(Owner(Box::new(v)))
    }
}
impl DekuWriter for Owner {
    fn to_writer<W: Write + Seek>(&self, writer: &mut Writer<W>, _: ()) -> Result<(), DekuError> {
        self.0.to_writer(writer, ())
    }
}
fn read(b: &[u8]) -> Option<[Owner; 4]> {
    let mut c = Cursor::new(b);
    let mut r = Reader::new(&mut c);
    read_array::<_, Owner, 4>(&mut r).ok()
}
entries! {
    h_c26u_array {
        let b = sym::bytes::<4>();
        let n = sym::split(sym::below(5) as usize);
        let _ = read(&[0]);
        let a = sym::live();
        match read(&b[..n]) {
            Some(v) => {
                sym::check(n == 4 && (0..4).all(|i| *v[i].0 == b[i] && b[i] < 10), 1);
                let mut out = vec![];
                let mut c = Cursor::new(&mut out);
                let mut w = Writer::new(&mut c);
                sym::check(write_array(&mut w, &v).is_ok(), 2);
                sym::check(w.finalize().is_ok(), 3);
                sym::check(out == b, 4);
            }
            None => sym::check(n < 4 || b.iter().any(|x| *x > 9), 5),
        }
        sym::check(sym::live() == a, 6);
        sym::reach(1);
    }
}
