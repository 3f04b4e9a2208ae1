//! C17: core schema resolution of scalars.
use crate::input::*;
use crate::sym::*;
use alloc::borrow::Cow;
use alloc::string::String;
use alloc::vec::Vec;
use yam_core::parsing::Tag;
use yam_core::prelude::*;

#[derive(Clone, PartialEq)]
pub enum Res {
    Null,
    Bool(bool),
    Int(i64),
    /// an integer that does not fit an i64
    Big,
    Float,
    Str,
}
fn dig(b: u8) -> bool {
    b.is_ascii_digit()
}
/// the value of a run of digits, if it fits
fn radix_val(d: &[u8], radix: i64, neg: bool) -> Option<i64> {
    let mut v: i64 = 0;
    for b in d {
        let x = match b {
            b'0'..=b'9' => (*b as u32).wrapping_sub(48),
            b'a'..=b'f' => (*b - b'a' + 10) as u32,
            _ => (*b - b'A' + 10) as u32,
        } as i64;
        v = v.checked_mul(radix)?;
        v = if neg { v.checked_sub(x)? } else { v.checked_add(x)? };
    }
    Some(v)
}
pub fn ref_int(v: &[u8]) -> Option<Option<i64>> {
    if v.len() > 2 && v[0] == b'0' && v[1] == b'x' && v[2..].iter().all(|b| b.is_ascii_hexdigit()) {
        return Some(radix_val(&v[2..], 16, false));
    }
    if v.len() > 2 && v[0] == b'0' && v[1] == b'o' && v[2..].iter().all(|b| *b >= b'0' && *b <= b'7') {
        return Some(radix_val(&v[2..], 8, false));
    }
    if v.is_empty() {
        return None;
    }
    let neg = v[0] == b'-';
    let d = if neg || v[0] == b'+' { &v[1..] } else { v };
    if !d.is_empty() && d.iter().all(|b| dig(*b)) {
        return Some(radix_val(d, 10, neg));
    }
    None
}
/// [-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?
fn float_number(v: &[u8]) -> bool {
    let mut i = 0;
    let n = v.len();
    if i < n && (v[i] == b'-' || v[i] == b'+') {
        i += 1;
    }
    let a = i;
    while i < n && dig(v[i]) {
        i += 1;
    }
    let ints = i - a;
    if i < n && v[i] == b'.' {
        i += 1;
        let f = i;
        while i < n && dig(v[i]) {
            i += 1;
        }
        if ints == 0 && i == f {
            return false;
        }
    } else if ints == 0 {
        return false;
    }
    if i < n && (v[i] == b'e' || v[i] == b'E') {
        i += 1;
        if i < n && (v[i] == b'-' || v[i] == b'+') {
            i += 1;
        }
        let e = i;
        while i < n && dig(v[i]) {
            i += 1;
        }
        if i == e {
            return false;
        }
    }
    i == n
}
fn float_special(v: &[u8]) -> bool {
    let w = if !v.is_empty() && (v[0] == b'-' || v[0] == b'+') { &v[1..] } else { v };
    w == b".inf" || w == b".Inf" || w == b".INF" || v == b".nan" || v == b".NaN" || v == b".NAN"
}
pub fn ref_float(v: &[u8]) -> bool {
    float_number(v) || float_special(v)
}
pub fn ref_null(v: &[u8]) -> bool {
    v.is_empty() || v == b"~" || v == b"null" || v == b"Null" || v == b"NULL"
}
pub fn ref_bool(v: &[u8]) -> Option<bool> {
    if v == b"true" || v == b"True" || v == b"TRUE" {
        Some(true)
    } else if v == b"false" || v == b"False" || v == b"FALSE" {
        Some(false)
    } else {
        None
    }
}
pub fn resolve(v: &[u8]) -> Res {
    if ref_null(v) {
        return Res::Null;
    }
    if let Some(b) = ref_bool(v) {
        return Res::Bool(b);
    }
    if let Some(i) = ref_int(v) {
        return i.map_or(Res::Big, Res::Int);
    }
    if ref_float(v) {
        return Res::Float;
    }
    Res::Str
}
fn inf(v: &[u8]) -> Option<f64> {
    if !float_special(v) {
        None
    } else if v.len() == 4 && (v[1] == b'n' || v[1] == b'N') {
        Some(f64::NAN)
    } else if v[0] == b'-' {
        Some(f64::NEG_INFINITY)
    } else {
        Some(f64::INFINITY)
    }
}
#[inline(never)]
fn is_nan_bits(x: u64) -> bool {
    (x & 0x7ff0_0000_0000_0000) == 0x7ff0_0000_0000_0000 && (x & 0x000f_ffff_ffff_ffff) != 0
}
#[inline(never)]
fn float_ok(v: &[u8], f: f64) -> bool {
    match inf(v) {
        Some(x) => {
            let n = is_nan_bits(x.to_bits());
            if n { is_nan_bits(f.to_bits()) } else { x.to_bits() == f.to_bits() }
        }
        None => match as_str(v).parse::<f64>() {
            Ok(x) => x.to_bits() == f.to_bits(),
            Err(_) => false,
        },
    }
}
pub fn out_scalar(s: &Option<YamlScalar>) {
    match s {
        None => out(9),
        Some(YamlScalar::Null(_)) => out(0),
        Some(YamlScalar::Bool(b)) => out(1 + *b as u64),
        Some(YamlScalar::Integer(i)) => {
            out(3);
            out(*i as u64)
        }
        Some(YamlScalar::FloatingPoint(_)) => out(4),
        Some(YamlScalar::String(s)) => {
            out(5);
            out_bytes(s.as_bytes())
        }
    }
}
/// does `got` agree with the core schema reading of `v`?
pub fn agrees(v: &[u8], got: &YamlScalar) -> bool {
    match (resolve(v), got) {
        (Res::Null, YamlScalar::Null(_)) => true,
        (Res::Bool(a), YamlScalar::Bool(b)) => a == *b,
        (Res::Int(a), YamlScalar::Integer(b)) => a == *b,
        (Res::Float, YamlScalar::FloatingPoint(f)) => float_ok(v, *f),
        (Res::Big, YamlScalar::FloatingPoint(f)) => float_ok(v, *f),
        (Res::Big | Res::Str, YamlScalar::String(s)) => crate::ev::bytes_eq(v, s.as_bytes()),
        _ => false,
    }
}
fn core_tag(s: &str) -> Option<Cow<'static, Tag>> {
    Some(Cow::Owned(Tag { handle: String::from("tag:yaml.org,2002:"), suffix: String::from(s) }))
}
pub fn run() {
    let mode = param(0);
    let (v, _) = template(1);
    let t = as_str(&v);
    let go = |ty: ScalarType, tag: Option<Cow<'static, Tag>>| -> Option<YamlScalar> {
        let c: Cow<str> = if mode & 16 == 0 { Cow::Borrowed(t) } else { Cow::Owned(String::from(t)) };
        let r = YamlScalar::parse_from_cow_and_metadata(c, ty, tag);
        out_scalar(&r);
        r
    };
    match mode & 15 {
        0 => match go(ScalarType::Plain, None) {
            Some(r) => check(agrees(&v, &r), "an untagged plain scalar does not resolve as the core schema says"),
            None => check(false, "an untagged plain scalar does not resolve"),
        },
        1 => match go(ScalarType::Plain, core_tag("bool")) {
            Some(YamlScalar::Bool(b)) => check(ref_bool(&v) == Some(b), "!!bool accepts other text or gives the wrong value"),
            None => check(ref_bool(&v).is_none(), "!!bool rejects a boolean"),
            _ => check(false, "!!bool gives something else"),
        },
        2 => match go(ScalarType::Plain, core_tag("int")) {
            Some(YamlScalar::Integer(i)) => check(ref_int(&v) == Some(Some(i)), "!!int accepts other text or gives the wrong value"),
            None => check(!matches!(ref_int(&v), Some(Some(_))), "!!int rejects an integer"),
            _ => check(false, "!!int gives something else"),
        },
        3 => match go(ScalarType::Plain, core_tag("float")) {
            Some(YamlScalar::FloatingPoint(f)) => {
                check(ref_float(&v), "!!float accepts other text");
                check(float_ok(&v, f), "!!float gives the wrong value");
            }
            None => check(!ref_float(&v), "!!float rejects a number"),
            _ => check(false, "!!float gives something else"),
        },
        4 => match go(ScalarType::Plain, core_tag("null")) {
            Some(YamlScalar::Null(_)) => check(ref_null(&v), "!!null accepts other text"),
            None => check(!ref_null(&v), "!!null rejects a null"),
            _ => check(false, "!!null gives something else"),
        },
        5 => match go(ScalarType::Plain, core_tag("str")) {
            Some(YamlScalar::String(s)) => check(crate::ev::bytes_eq(&v, s.as_bytes()), "!!str changes the text"),
            _ => check(false, "!!str does not give a string"),
        },
        6 => {
            let u = ["foo", "INT", "", "str ", "bool1", "seq"][choice(6) as usize];
            check(go(ScalarType::Plain, core_tag(u)).is_none(), "an unknown core schema tag resolves to a value");
        }
        7 => {
            let h = [("!", "int"), ("", "int"), ("tag:yaml.org,2002", "str"), ("tag:yaml.org,2003:", "bool")][choice(4) as usize];
            match go(ScalarType::Plain, Some(Cow::Owned(Tag { handle: String::from(h.0), suffix: String::from(h.1) }))) {
                Some(r) => check(agrees(&v, &r), "a plain scalar with an application tag does not resolve as an untagged one"),
                None => check(false, "a plain scalar with an application tag does not resolve"),
            }
        }
        8 => {
            let ty = [ScalarType::SingleQuote, ScalarType::DoubleQuote, ScalarType::Literal, ScalarType::Folded][choice(4) as usize];
            match go(ty, None) {
                Some(YamlScalar::String(s)) => check(crate::ev::bytes_eq(&v, s.as_bytes()), "a quoted or block scalar changes its text"),
                _ => check(false, "a quoted or block scalar does not give a string"),
            }
        }
        _ => {
            // through the loader, for text that reads as one plain scalar
            let mut w: Vec<u8> = b"- ".to_vec();
            w.extend_from_slice(&v);
            w.extend_from_slice(b"\n");
            let (evs, ok) = crate::ev::collect_nc(as_str(&w));
            assume(ok && evs.len() == 7 && evs[3].k == crate::ev::SCALAR && evs[3].style == crate::ev::PLAIN && evs[3].tag.is_none());
            let val = evs[3].val.clone();
            match Yaml::load_from(as_str(&w)) {
                Ok(d) => {
                    check(d.len() == 1 && d[0].is_sequence() && d[0].sequence().len() == 1, "a sequence of one scalar does not load as such");
                    match &d[0].sequence()[0].0 {
                        YamlData::Scalar(s) => check(agrees(&val, s), "a loaded plain scalar does not resolve as the core schema says"),
                        _ => check(false, "a loaded plain scalar is not a scalar"),
                    }
                }
                Err(_) => check(false, "a text with events does not load"),
            }
        }
    }
}

/// Stands in for `f64::from_str` on symbolic text: exactly Rust's grammar, and a value that is an
/// injective function of the text (up to 7 characters, sign apart) instead of the real value.
#[cfg(not(feature = "native"))]
#[unsafe(no_mangle)]
pub fn sym_model_f64_from_str(s: &str) -> Result<f64, core::num::ParseFloatError> {
    let v = s.as_bytes();
    if float_number(v) {
        let neg = v[0] == b'-';
        let d = if neg || v[0] == b'+' { &v[1..] } else { v };
        let mut h: u64 = d.len() as u64 & 7;
        for b in d {
            h = (h << 7) ^ (h >> 40) ^ (*b as u64 & 127);
        }
        h = (h & 0x000f_ffff_ffff_ffff) | 0x3ff0_0000_0000_0000 | (neg as u64) << 63;
        return Ok(f64::from_bits(h));
    }
    let w = if !v.is_empty() && (v[0] == b'-' || v[0] == b'+') { &v[1..] } else { v };
    let neg = !v.is_empty() && v[0] == b'-';
    if w.eq_ignore_ascii_case(b"inf") || w.eq_ignore_ascii_case(b"infinity") {
        return Ok(if neg { f64::NEG_INFINITY } else { f64::INFINITY });
    }
    if w.eq_ignore_ascii_case(b"nan") {
        return Ok(f64::NAN);
    }
    "".parse::<f64>()
}
