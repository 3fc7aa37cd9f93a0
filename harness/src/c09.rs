//! C09: compressed numbers.
use crate::sym;
use dash7::types::VarInt;
use deku::prelude::*;

const MAX: u32 = 31 << 14;
fn num(v: VarInt) -> u32 {
    v.into()
}
/// the number a byte stands for
fn spelled(b: u8) -> u32 {
    ((b & 31) as u32) << (2 * (b >> 5) as u32)
}
/// smallest exponent that can hold v
fn exponent(v: u32) -> u32 {
    let mut e = 0;
    while e < 7 && v > 31 << (2 * e) {
        e += 1;
    }
    e
}
entries! {
    h_c09_compress {
        let (v, ceil) = (sym::u32(), sym::bool());
        match VarInt::compress(v, ceil) {
            Ok((e, m)) => {
                sym::observe(&[e, m]);
                sym::check(v <= MAX, 1);
                sym::check(e < 8 && m < 32, 2);
                sym::check(e as u32 == exponent(v), 3);
                let step = 1u32 << (2 * e as u32);
                let r = (m as u32) * step;
                if ceil {
                    sym::check(r >= v && r - v < step, 4);
                } else {
                    sym::check(r <= v && v - r < step, 5);
                }
                sym::reach(1);
            }
            Err(_) => {
                sym::check(v > MAX, 6);
                sym::reach(2);
            }
        }
    }
    h_c09_bytes {
        let (v, ceil) = (sym::u32(), sym::bool());
        match VarInt::new_unchecked(v, ceil).to_bytes() {
            Ok(b) => {
                sym::observe(&b);
                sym::check(v <= MAX && b.len() == 1, 1);
                let r = spelled(b[0]);
                let step = 1u32 << (2 * (b[0] >> 5) as u32);
                sym::check((b[0] >> 5) as u32 == exponent(v), 2);
                sym::check(if ceil { r >= v && r - v < step } else { r <= v && v - r < step }, 3);
                match VarInt::try_from(b.as_slice()) {
                    Ok(w) => {
                        sym::check(num(w) == r, 4);
                        sym::reach(1);
                    }
                    Err(_) => sym::check(false, 5),
                }
            }
            Err(_) => {
                sym::check(v > MAX, 6);
                sym::reach(2);
            }
        }
    }
    h_c09_decode {
        let b = sym::u8();
        match VarInt::from_bytes((&[b][..], 0)) {
            Ok((rest, v)) => {
                sym::check(rest.0.is_empty(), 1);
                sym::check(num(v) == spelled(b), 2);
                // exactly representable: unchanged in both directions
                for c in [false, true] {
                    match VarInt::new_unchecked(num(v), c).to_bytes() {
                        Ok(e) => {
                            sym::check(e.len() == 1 && spelled(e[0]) == spelled(b), 3);
                            sym::observe(&e);
                        }
                        Err(_) => sym::check(false, 4),
                    }
                }
                match v.to_bytes() {
                    Ok(e) => sym::check(e.len() == 1 && spelled(e[0]) == spelled(b), 5),
                    Err(_) => sym::check(false, 5),
                }
                sym::reach(1);
            }
            Err(_) => sym::check(false, 6),
        }
    }
    h_c09_parts {
        let (e, m) = (sym::u8(), sym::u8());
        match VarInt::decompress(e, m) {
            Ok(v) => {
                sym::check(e < 8 && m < 32 && v == (m as u32) << (2 * e as u32), 1);
                sym::reach(1);
            }
            Err(_) => {
                sym::check(e > 7 || m > 31, 2);
                sym::reach(2);
            }
        }
    }
    h_c09_new {
        let (v, c) = (sym::u32(), sym::bool());
        sym::check(VarInt::is_valid(v) == (v <= MAX), 1);
        sym::check(VarInt::MAX == MAX, 2);
        match VarInt::new(v, c) {
            Ok(x) => {
                sym::check(v <= MAX && num(x) == v && x == VarInt::new_unchecked(v, c), 3);
                match (x.to_bytes(), VarInt::compress(v, c)) {
                    (Ok(b), Ok((e, m))) => sym::check(b.len() == 1 && b[0] == e << 5 | m, 4),
                    _ => sym::check(false, 5),
                }
                sym::reach(1);
            }
            Err(_) => {
                sym::check(v > MAX, 6);
                sym::reach(2);
            }
        }
        sym::check(num(VarInt::from(v)) == v, 7);
        sym::check(VarInt::from(v) == VarInt::new_unchecked(v, false), 8);
        sym::check(num(VarInt::default()) == 0, 9);
    }
    h_c09_ceil_least {
        // rounding up gives the least representable number that is large enough
        let (v, b) = (sym::u32(), sym::u8());
        sym::assume(spelled(b) >= v && v <= MAX);
        match VarInt::compress(v, true) {
            Ok((e, m)) => {
                sym::check((m as u32) << (2 * e as u32) <= spelled(b), 1);
                sym::reach(1);
            }
            Err(_) => sym::check(false, 2),
        }
    }
}
