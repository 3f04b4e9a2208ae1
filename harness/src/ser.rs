//! C21: what `yam_serde::to_pretty_string` writes, `yam_serde::from_str` reads back as the same value.
use crate::input::*;
use crate::sym::*;
use alloc::string::String;
use serde::Serialize;
use serde::de::DeserializeOwned;
use yam_serde::ser::PrettyFormatter;
use yam_serde::{from_str, to_pretty_string};

/// 0: pretty, 1: pretty with the given line length, 2: default
fn formatter(off: usize) -> PrettyFormatter {
    match param(off) {
        0 => PrettyFormatter::pretty(),
        1 => {
            let mut f = PrettyFormatter::pretty();
            f.pref_string_length = param(off + 1) as usize;
            f
        }
        _ => PrettyFormatter::default(),
    }
}
fn written<T: Serialize + ?Sized>(v: &T, off: usize) -> Option<String> {
    match to_pretty_string(&v, formatter(off)) {
        Ok(t) => {
            out(t.len() as u64);
            Some(t)
        }
        Err(_) => {
            check(false, "to_pretty_string fails on a value it supports");
            None
        }
    }
}
fn back<T: DeserializeOwned>(t: &str, same: impl Fn(&T) -> bool) {
    match from_str::<T>(t) {
        Ok(x) => check(same(&x), "the text that to_pretty_string wrote is read back as another value"),
        Err(_) => check(false, "the text that to_pretty_string wrote is rejected"),
    }
}
fn trip<T: Serialize + DeserializeOwned>(v: T, off: usize, same: impl Fn(&T, &T) -> bool) {
    if let Some(t) = written(&v, off) {
        back::<T>(&t, |x| same(x, &v));
    }
}
fn one_char(v: &[u8]) -> Option<char> {
    let mut c = as_str(v).chars();
    match (c.next(), c.next()) {
        (Some(x), None) => Some(x),
        _ => None,
    }
}
/// base value with `param(4)` arbitrary bytes at byte position `param(5)`
fn bits() -> u64 {
    let mut x = param(3);
    for i in 0..param(4) {
        x ^= (byte() as u64) << (8 * (param(5) + i));
    }
    x
}
fn special(k: u32) -> f64 {
    match k {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        2 => f64::NAN,
        3 => -f64::NAN,
        4 => 0.0,
        5 => 1.0,
        6 => -1.5,
        7 => 0.1,
        8 => 1e-7,
        9 => 123456789.25,
        10 => 1e15,
        11 => 5e-324,
        _ => -2.5e-300,
    }
}
const NF: u32 = 13;
fn same_f64(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// kind, formatter, line length, then what the kind needs
pub fn run() {
    match param(0) {
        // strings
        0 | 1 => {
            let (v, _) = template(3);
            let s = as_str(&v);
            let t = if param(0) == 0 { written(s, 1) } else { written(&Some(s), 1) };
            if let Some(t) = t {
                if param(0) == 0 {
                    back::<String>(&t, |x| x == s);
                } else {
                    back::<Option<String>>(&t, |x| x.as_deref() == Some(s));
                }
            }
        }
        // characters
        2 => {
            let (v, _) = template(3);
            match one_char(&v) {
                Some(c) => trip(c, 1, |a, b| a == b),
                None => assume(false),
            }
        }
        3 => {
            let b = choice(3);
            match b {
                0 => trip(true, 1, |a, b| a == b),
                1 => trip(false, 1, |a, b| a == b),
                _ => trip(Some(true), 1, |a, b| a == b),
            }
        }
        // absent values (the default formatter writes nothing for them)
        4 => match choice(4) {
            0 => trip((), 1, |_, _| true),
            1 => trip(None::<i64>, 1, |a, b| a == b),
            2 => trip(None::<bool>, 1, |a, b| a == b),
            _ => trip(None::<String>, 1, |a, b| a == b),
        },
        5 => trip(special(choice(NF)), 1, |a, b| same_f64(*a, *b)),
        6 => trip(special(choice(NF)) as f32, 1, |a, b| same_f64(*a as f64, *b as f64)),
        10 => trip(bits() as i8, 1, |a, b| a == b),
        11 => trip(bits() as u8, 1, |a, b| a == b),
        12 => trip(bits() as i16, 1, |a, b| a == b),
        13 => trip(bits() as u16, 1, |a, b| a == b),
        14 => trip(bits() as i32, 1, |a, b| a == b),
        15 => trip(bits() as u32, 1, |a, b| a == b),
        16 => trip(bits() as i64, 1, |a, b| a == b),
        17 => trip(bits(), 1, |a, b| a == b),
        18 => trip(Some(bits() as i64), 1, |a, b| a == b),
        _ => check(false, "no such kind"),
    }
}
