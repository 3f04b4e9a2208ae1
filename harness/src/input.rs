//! Builds a (partly symbolic) input text from the template given in the unit parameters.
//!
//! Parameters from `off`: [n, w0 .. w(n-1), k, (lo0,hi0) .. (lo(k-1),hi(k-1))]
//!   w < 256        literal byte
//!   w = 256        any ASCII byte 0x00..=0x7f
//!   w = 257/258/259 any 2/3/4-byte UTF-8 scalar value
//!   w = 261        any UTF-8 continuation byte (after literal bytes it completes)
//!   w = 260        any scalar value (choice of the four lengths)
//!   w = 512 + i    an ASCII byte in the set given by mask pair i
//!   w = 1024 + i   like 512 + i, or nothing at all (optional)
use crate::sym::*;
use alloc::vec::Vec;

#[inline(never)]
pub fn in_mask(b: u8, lo: u64, hi: u64) -> bool {
    if b < 64 {
        (lo >> b) & 1 == 1
    } else if b < 128 {
        (hi >> (b - 64)) & 1 == 1
    } else {
        false
    }
}

fn cont() -> u8 {
    let b = byte();
    assume((b & 0xc0) == 0x80);
    b
}

pub fn utf8_2(v: &mut Vec<u8>) {
    let b = byte();
    assume(b >= 0xc2 && b <= 0xdf);
    v.push(b);
    v.push(cont());
}
pub fn utf8_3(v: &mut Vec<u8>) {
    match choice(3) {
        0 => {
            v.push(0xe0);
            let b = byte();
            assume(b >= 0xa0 && b <= 0xbf);
            v.push(b);
            v.push(cont());
        }
        1 => {
            v.push(0xed);
            let b = byte();
            assume(b >= 0x80 && b <= 0x9f);
            v.push(b);
            v.push(cont());
        }
        _ => {
            let b = byte();
            assume(b >= 0xe1 && b <= 0xef && b != 0xed);
            v.push(b);
            v.push(cont());
            v.push(cont());
        }
    }
}
pub fn utf8_4(v: &mut Vec<u8>) {
    match choice(3) {
        0 => {
            v.push(0xf0);
            let b = byte();
            assume(b >= 0x90 && b <= 0xbf);
            v.push(b);
        }
        1 => {
            v.push(0xf4);
            let b = byte();
            assume(b >= 0x80 && b <= 0x8f);
            v.push(b);
        }
        _ => {
            let b = byte();
            assume(b >= 0xf1 && b <= 0xf3);
            v.push(b);
            v.push(cont());
        }
    }
    v.push(cont());
    v.push(cont());
}
pub fn ascii() -> u8 {
    let b = byte();
    assume(b < 128);
    b
}
pub fn any_char(v: &mut Vec<u8>) {
    match choice(4) {
        0 => v.push(ascii()),
        1 => utf8_2(v),
        2 => utf8_3(v),
        _ => utf8_4(v),
    }
}

/// Reads the template at parameter index `off`; returns the bytes and the index after it.
pub fn template(off: usize) -> (Vec<u8>, usize) {
    let n = param(off) as usize;
    let masks = off + 1 + n;
    let k = param(masks) as usize;
    let mut v = Vec::with_capacity(n * 2 + 8);
    for i in 0..n {
        let w = param(off + 1 + i);
        match w {
            0..=255 => v.push(w as u8),
            256 => v.push(ascii()),
            257 => utf8_2(&mut v),
            258 => utf8_3(&mut v),
            259 => utf8_4(&mut v),
            260 => any_char(&mut v),
            261 => v.push(cont()),
            _ => {
                let m = (w & 511) as usize;
                if w >= 1024 && choice(2) == 0 {
                    continue;
                }
                let b = byte();
                assume(in_mask(b, param(masks + 1 + 2 * m), param(masks + 2 + 2 * m)));
                v.push(b);
            }
        }
    }
    (v, masks + 1 + 2 * k)
}
pub fn as_str(v: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(v) }
}
