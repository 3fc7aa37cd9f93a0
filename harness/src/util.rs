//! Shared helpers of the harnesses.
#![allow(dead_code)]
use crate::{gen, sym};
use dash7::app::action::Action;
use deku::prelude::*;

/// bytes of a value, or none when encoding is refused
pub fn enc<T: DekuContainerWrite>(v: &T) -> Option<Vec<u8>> {
    v.to_bytes().ok()
}

/// number of groups of `any_action`
#[cfg(not(feature = "wizzilab"))]
pub const GROUPS: u8 = 7;
#[cfg(feature = "wizzilab")]
pub const GROUPS: u8 = 8;
/// one action of a group, symbolic in everything but the group; operand sizes 0..=2
pub fn group_action(g: u8, out: &mut Vec<u8>) -> Action {
    match g {
        0 => gen::simple(sym::below(gen::SIMPLE), out),
        1 => gen::indirect_forward(sym::below(5), out),
        2 => gen::forward(sym::below(6), out),
        3 => gen::interface_status(sym::below(3), out),
        4 => {
            let (w, k, n, m) = (sym::below(3), sym::below(gen::QUERIES), sym::below(3), sym::bool());
            gen::query_action(w, k, n as usize, m, false, out)
        }
        5 => {
            let (w, n) = (sym::below(3), sym::below(3));
            gen::raw_file_action(w, n as usize, false, out)
        }
        6 => {
            let (w, k) = (sym::below(3), sym::below(gen::FILES));
            gen::sys_file_action(w, k, out)
        }
        #[cfg(feature = "wizzilab")]
        7 => {
            let n = sym::below(4);
            gen::final_status(if n == 3 { None } else { Some(n as usize) }, out)
        }
        _ => unreachable!(),
    }
}
/// short actions of every shape that matters for command structure; kind 0..SHORT
pub const SHORT: u8 = 9;
pub fn short_action(kind: u8, out: &mut Vec<u8>) -> Action {
    match kind {
        0 => gen::simple(0, out),
        1 => gen::simple(13, out),
        2 => gen::simple(16, out),
        3 => gen::simple(18, out),
        4 => gen::interface_status(0, out),
        5 => gen::interface_status(1, out),
        6 => gen::forward(1, out),
        7 => gen::raw_file_action(2, 1, false, out),
        _ => gen::simple(14, out),
    }
}
/// an action with a long operand, of a size around which lengths, counts and indices change
pub fn big_action(out: &mut Vec<u8>) -> Action {
    big_action_of(&[62, 63, 64, 128, 255, 256, 257, 300], out)
}
pub fn big_action_of(sizes: &[usize], out: &mut Vec<u8>) -> Action {
    // what differs between the variants is only the last kind
    let k = if cfg!(feature = "wizzilab") {
        9
    } else if cfg!(feature = "subiot") {
        0
    } else {
        sym::below(gen::BIG)
    };
    let n = sizes[sym::split(sym::below(sizes.len() as u8) as usize)];
    gen::big(k, n, out)
}
/// observed unless it is long
pub fn observe(b: &[u8]) {
    if b.len() < 100 {
        sym::observe(b)
    }
}

/// a network frame (not in the wizzilab variant, where it does not end on a byte) with that command
pub fn network_wire(x: &[u8]) -> Vec<u8> {
    let mut w = vec![0x30, 0x2C, 0x80, 0x81, 0x00, 7, 8];
    w.extend_from_slice(x);
    w
}
/// and what it is sent in
pub fn foreground_wire(x: &[u8]) -> Vec<u8> {
    let mut w = vec![x.len() as u8 + 10, 0x12, 0x61];
    w.extend(network_wire(x));
    w.extend_from_slice(&[0x34, 0x12]);
    w
}
