//! Reference reader of the DASH7 application layer: walks arbitrary bytes by the format's
//! grammar and produces the canonical form (reserved bits zero, shortest lengths), or rejects.
//! Written from the format; shares no code with the implementation.
#![allow(dead_code)]
use crate::gen::{put_len, structured};

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub out: Vec<u8>,
    /// the input lies in a documented known finding's domain; nothing is claimed about it
    pub excluded: bool,
    /// an interface status of an unknown interface type (its type is lost: known finding)
    pub unknown_status: bool,
}
type O<T> = Option<T>;

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0, out: Vec::new(), excluded: false, unknown_status: false }
    }
    fn get(&mut self) -> O<u8> {
        let x = *self.b.get(self.p)?;
        self.p += 1;
        Some(x)
    }
    /// one byte, keeping the bits in `m`
    fn keep(&mut self, m: u8) -> O<u8> {
        let x = self.get()?;
        self.out.push(x & m);
        Some(x & m)
    }
    fn copy(&mut self, n: usize) -> O<()> {
        if self.b.len() - self.p < n {
            return None;
        }
        self.out.extend_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Some(())
    }
    fn raw_len(&mut self) -> O<u32> {
        let f = self.get()?;
        let mut v = (f & 0x3F) as u32;
        let mut k = f >> 6;
        while k > 0 {
            v = v << 8 | self.get()? as u32;
            k -= 1;
        }
        Some(v)
    }
    pub fn length(&mut self) -> O<u32> {
        let v = self.raw_len()?;
        put_len(&mut self.out, v);
        Some(v)
    }
    pub fn varint(&mut self) -> O<()> {
        let x = self.get()?;
        let (e, m) = (x >> 5, x & 31);
        // the canonical form has the smallest exponent
        let k = if m == 0 {
            7
        } else if m == 1 {
            2
        } else {
            (m < 8) as u8
        };
        let k = if k < e { k } else { e };
        self.out.push((e - k) << 5 | ((m as u32) << (2 * k)) as u8);
        Some(())
    }
    fn ok(c: bool) -> O<()> {
        if c {
            Some(())
        } else {
            None
        }
    }
    pub fn channel_header(&mut self) -> O<()> {
        let x = self.keep(0x7F)?;
        Self::ok(x >> 4 < 5)
    }
    pub fn addressee(&mut self) -> O<()> {
        #[cfg(not(feature = "wizzilab"))]
        let x = self.keep(0x3F)?;
        #[cfg(feature = "wizzilab")]
        let x = self.keep(0xFF)?;
        #[cfg(not(feature = "wizzilab"))]
        let n = x & 15;
        #[cfg(feature = "wizzilab")]
        let n = x & 7;
        Self::ok(n < 8)?;
        self.copy(1)?;
        match x >> 4 & 3 {
            0 => self.varint()?,
            1 => {}
            2 => self.copy(8)?,
            _ => self.copy(2)?,
        }
        if n > 0 {
            self.copy(5)?;
        }
        Some(())
    }
    pub fn qos(&mut self) -> O<()> {
        let x = self.keep(0xFF)? & 7;
        Self::ok(x != 3 && x != 7)
    }
    fn lora(&mut self) -> O<()> {
        self.keep(0x06)?;
        self.copy(2)
    }
    pub fn interface_config(&mut self) -> O<()> {
        match self.keep(0xFF)? {
            2 => {
                self.lora()?;
                self.copy(40)
            }
            3 => {
                self.lora()?;
                self.copy(32)
            }
            0xD7 => {
                self.qos()?;
                self.varint()?;
                #[cfg(not(feature = "subiot"))]
                self.varint()?;
                self.addressee()
            }
            _ => Some(()),
        }
    }
    pub fn file_header(&mut self) -> O<()> {
        self.copy(1)?;
        let x = self.keep(0xF3)?;
        Self::ok(x >> 4 & 7 < 4)?;
        self.copy(10)
    }
    pub fn query(&mut self) -> O<()> {
        let x = self.get()?;
        let id = x >> 5;
        let mask = x >> 4 & 1 == 1;
        match id {
            0 => {
                self.out.push(0);
                self.length()?;
                self.file_offset()
            }
            1 | 2 | 3 => {
                self.out.push(x);
                Self::ok(x & 7 < 6)?;
                let n = self.length()? as usize;
                if mask {
                    self.copy(n)?;
                }
                if id == 2 {
                    self.copy(n)?;
                }
                self.file_offset()?;
                if id == 3 {
                    self.file_offset()?;
                }
                Some(())
            }
            4 => {
                self.out.push(x);
                Self::ok(x & 7 < 2)?;
                let n = self.length()? as usize;
                self.length()?;
                self.length()?;
                self.copy(n)?;
                self.file_offset()
            }
            7 => {
                self.out.push(x & 0xF7);
                let n = self.length()? as usize;
                if mask {
                    self.copy(n)?;
                }
                self.copy(n)?;
                self.file_offset()
            }
            _ => None,
        }
    }
    pub fn file_offset(&mut self) -> O<()> {
        self.copy(1)?;
        self.length()?;
        Some(())
    }
    /// body of a file of the given id; `n`: number of bytes of an unstructured one
    pub fn file(&mut self, id: u8, n: usize) -> O<()> {
        match id {
            0x00 => self.copy(8),
            0x06 => self.copy(2),
            0x01 => self.copy(56),
            0x02 => {
                self.copy(2)?;
                for w in [6, 7] {
                    let p = self.p;
                    self.copy(w)?;
                    let mut k = w;
                    while k > 0 && self.b[p + k - 1] == 0 {
                        k -= 1;
                    }
                    Self::ok(core::str::from_utf8(&self.b[p..p + k]).is_ok())?;
                }
                Some(())
            }
            0x05 => {
                let m = self.keep(0xFF)?;
                Self::ok(m < 5)?;
                self.copy(2)?;
                self.channel_header()?;
                self.copy(3)
            }
            0x09 => {
                self.copy(14)?;
                let mut k = self.keep(0xFF)?;
                while k > 0 {
                    let x = self.keep(0xFF)?;
                    Self::ok(x >> 5 < 5 && x >> 3 & 3 < 2)?;
                    self.copy(2)?;
                    k -= 1;
                }
                Some(())
            }
            0x0A => {
                self.copy(1)?;
                self.keep(0)?;
                self.keep(0)?;
                self.copy(4)
            }
            0x0B => {
                self.copy(3)?;
                self.channel_header()?;
                self.copy(12)
            }
            0x0E => self.copy(16),
            0x20..=0x2E => {
                self.channel_header()?;
                for _ in 0..4 {
                    self.copy(1)?;
                    self.varint()?;
                }
                self.copy(56)
            }
            _ => self.copy(n),
        }
    }
    /// length-prefixed item: `f` reads the body given the announced length
    fn prefixed(&mut self, f: impl FnOnce(&mut Self, usize) -> O<()>) -> O<()> {
        let n = self.raw_len()?;
        let mut c = Cur { b: self.b, p: self.p, out: Vec::new(), excluded: false, unknown_status: false };
        let r = f(&mut c, n as usize);
        if c.excluded || c.p - self.p != n as usize {
            // structured bodies do not look at the announced length: known finding
            if r.is_some() {
                self.excluded = true;
            }
        }
        self.p = c.p;
        self.unknown_status |= c.unknown_status;
        r?;
        put_len(&mut self.out, c.out.len() as u32);
        self.out.extend_from_slice(&c.out);
        Some(())
    }
    pub fn action(&mut self) -> O<()> {
        let x = self.get()?;
        match x & 0x3F {
            0 | 63 => {
                self.out.push(x);
                Some(())
            }
            1 => {
                self.out.push(x);
                self.file_offset()?;
                self.length()?;
                Some(())
            }
            2 | 16 | 18 | 19 | 20 | 31 | 35 => {
                self.out.push(x);
                self.copy(1)
            }
            4 | 5 | 32 => {
                self.out.push(x);
                let id = self.keep(0xFF)?;
                self.length()?;
                self.prefixed(|c, n| c.file(id, n))
            }
            6 | 17 | 33 => {
                self.out.push(x);
                self.copy(1)?;
                self.file_header()
            }
            8 | 9 | 11 => {
                self.out.push(x);
                self.query()
            }
            10 => {
                self.out.push(x);
                let l = self.keep(0xFF)?;
                Self::ok(l < 2)?;
                let p = self.keep(0xFF)?;
                Self::ok(p == 0x42)?;
                self.copy(8)
            }
            23 => {
                self.out.push(x);
                self.copy(2)
            }
            34 => {
                self.out.push(x);
                match x >> 6 {
                    0 => self.copy(2),
                    1 => {
                        let t = self.keep(0xFF)?;
                        self.prefixed(|c, n| match t {
                            0 | 1 => Some(()),
                            2 | 3 => None,
                            0xD7 => {
                                c.channel_header()?;
                                c.copy(5)?;
                                c.keep(0xF0)?;
                                c.copy(2)?;
                                c.varint()?;
                                c.addressee()
                            }
                            _ => {
                                // the interface type is lost: known finding
                                c.excluded = true;
                                c.unknown_status = true;
                                c.copy(n)
                            }
                        })
                    }
                    #[cfg(feature = "wizzilab")]
                    2 => {
                        let t = self.keep(0xFF)?;
                        self.prefixed(|c, n| {
                            if t == 0xD7 {
                                let k = c.keep(0xFF)?;
                                Self::ok(k == 0 || k >= 0xEA)
                            } else {
                                c.copy(n)
                            }
                        })
                    }
                    _ => None,
                }
            }
            #[cfg(feature = "wizzilab")]
            38 => {
                self.out.push(x);
                Self::ok(x >> 6 == 1)?;
                let t = self.keep(0xFF)?;
                self.prefixed(|c, n| {
                    if t == 0xD7 {
                        c.channel_header()?;
                        c.copy(3)?;
                        let k = c.keep(0xFF)?;
                        Self::ok(k == 0 || k >= 0xEA)?;
                        for _ in 0..3 {
                            c.keep(0)?;
                        }
                        c.copy(4)?;
                        c.addressee()
                    } else {
                        c.copy(n)
                    }
                })
            }
            48 | 49 => {
                self.out.push(x);
                Some(())
            }
            50 => {
                self.out.push(x & 0x7F);
                self.interface_config()
            }
            51 => {
                self.out.push(x);
                if x & 0x80 != 0 {
                    if self.keep(0xFF)? == 0xD7 {
                        self.addressee()?;
                    }
                }
                Some(())
            }
            52 => {
                self.out.push(x & 0xBF);
                self.copy(1)
            }
            _ => None,
        }
    }
    /// a whole command: actions up to the end or up to and including an indirect forward
    pub fn command(&mut self) -> O<usize> {
        let mut n = 0;
        while self.p < self.b.len() {
            let last = self.b[self.p] & 0x3F == 51;
            self.action()?;
            n += 1;
            if last {
                break;
            }
        }
        Some(n)
    }
    pub fn known(id: u8) -> bool {
        structured(id)
    }
}
