//! C19: the node access interface is consistent with the node's content.
use crate::ev::bytes_eq;
use crate::sym::*;
use alloc::borrow::Cow;
use alloc::boxed::Box;
use alloc::string::String;
use alloc::vec::Vec;
use core::marker::PhantomData;
use yam_core::parsing::Tag;
use yam_core::prelude::*;

fn word() -> u64 {
    let mut v = 0u64;
    for _ in 0..8 {
        v = v << 8 | byte() as u64;
    }
    v
}
fn letters(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        unsafe { s.as_mut_vec().push(b) };
    }
    s
}
/// what a node holds
#[derive(Clone)]
enum X {
    Bad,
    Null,
    Str(String),
    Bool(bool),
    Float(u64),
    Int(i64),
    Seq(usize),
    Map(usize),
    Tagged(String, String, Box<X>),
    Alias(usize),
}
const PLAIN_KINDS: u32 = 9;
fn gen_x(depth: u32) -> X {
    match choice(if depth > 0 { PLAIN_KINDS + 1 } else { PLAIN_KINDS }) {
        0 => X::Bad,
        1 => X::Null,
        2 => X::Str(letters(choice(3) as usize)),
        3 => X::Bool(choice(2) == 1),
        4 => X::Float(word()),
        5 => X::Int(word() as i64),
        6 => X::Seq(choice(3) as usize),
        7 => X::Map(choice(3) as usize),
        8 => X::Alias(byte() as usize),
        _ => X::Tagged(letters(1), letters(1), Box::new(gen_x(depth - 1))),
    }
}
fn tag(h: &str, s: &str) -> Cow<'static, Tag> {
    Cow::Owned(Tag { handle: String::from(h), suffix: String::from(s) })
}
fn yaml(x: &X) -> Yaml<'static> {
    Yaml(match x {
        X::Bad => YamlData::BadValue,
        X::Null => YamlData::Scalar(YamlScalar::Null(PhantomData)),
        X::Str(s) => YamlData::Scalar(YamlScalar::String(Cow::Owned(s.clone()))),
        X::Bool(b) => YamlData::Scalar(YamlScalar::Bool(*b)),
        X::Float(f) => YamlData::Scalar(YamlScalar::FloatingPoint(f64::from_bits(*f))),
        X::Int(i) => YamlData::Scalar(YamlScalar::Integer(*i)),
        X::Seq(n) => YamlData::Sequence((0..*n).map(|i| Yaml::from(i as i64)).collect()),
        X::Map(n) => YamlData::Mapping((0..*n).map(|i| YamlEntry::new(Yaml::from(i as i64), Yaml::from(10 + i as i64))).collect()),
        X::Alias(n) => YamlData::Alias(*n),
        X::Tagged(h, s, n) => YamlData::Tagged(tag(h, s), Box::new(yaml(n))),
    })
}
fn sint(i: i64) -> SpannedYaml<'static> {
    SpannedYaml { span: Span::default(), yaml: YamlData::Scalar(YamlScalar::Integer(i)) }
}
fn spanned(x: &X) -> SpannedYaml<'static> {
    let mark = Marker::new(1, 2, 3);
    SpannedYaml { span: Span::new(mark, Marker::new(4, 5, 6)), yaml: match x {
        X::Bad => YamlData::BadValue,
        X::Null => YamlData::Scalar(YamlScalar::Null(PhantomData)),
        X::Str(s) => YamlData::Scalar(YamlScalar::String(Cow::Owned(s.clone()))),
        X::Bool(b) => YamlData::Scalar(YamlScalar::Bool(*b)),
        X::Float(f) => YamlData::Scalar(YamlScalar::FloatingPoint(f64::from_bits(*f))),
        X::Int(i) => YamlData::Scalar(YamlScalar::Integer(*i)),
        X::Seq(n) => YamlData::Sequence((0..*n).map(|i| sint(i as i64)).collect()),
        X::Map(n) => YamlData::Mapping((0..*n).map(|i| YamlEntry::new(sint(i as i64), sint(10 + i as i64))).collect()),
        X::Alias(n) => YamlData::Alias(*n),
        X::Tagged(h, s, n) => YamlData::Tagged(tag(h, s), Box::new(spanned(n))),
    } }
}
const PRED: &str = "a type predicate does not match the node";
const ACC: &str = "an accessor does not match the node";
const MUTA: &str = "a mutable accessor does not match the node";
const INTO: &str = "a consuming accessor does not match the node";
fn content<'a, N>(x: &X, mk: fn(&X) -> N)
where
    N: YamlDocAccess<'a, OutNode = N, SequenceNode = Vec<N>, MappingNode = Vec<YamlEntry<'a, N>>>,
{
    let mut n = mk(x);
    let t = match x {
        X::Bad => 0,
        X::Null => 1,
        X::Str(_) => 2,
        X::Bool(_) => 3,
        X::Float(_) => 4,
        X::Int(_) => 5,
        X::Seq(_) => 6,
        X::Map(_) => 7,
        X::Alias(_) => 8,
        X::Tagged(..) => 9,
    };
    check(t == 9 || n.is_bad_value() == (t == 0), PRED);
    check(n.is_null() == (t == 1), PRED);
    check(n.is_string() == (t == 2), PRED);
    check(n.is_bool() == (t == 3), PRED);
    check(n.is_floating_point() == (t == 4), PRED);
    check(n.is_integer() == (t == 5), PRED);
    check(n.is_sequence() == (t == 6), PRED);
    check(n.is_mapping() == (t == 7), PRED);
    check(n.is_alias() == (t == 8), PRED);
    check(n.is_collection() == (t == 6 || t == 7), PRED);
    check(n.is_non_empty_collection() == matches!(x, X::Seq(1..) | X::Map(1..)), PRED);
    let s = if let X::Str(s) = x { Some(s) } else { None };
    let b = if let X::Bool(b) = x { Some(*b) } else { None };
    let f = if let X::Float(f) = x { Some(*f) } else { None };
    let i = if let X::Int(i) = x { Some(*i) } else { None };
    let str_ok = |r: Option<&str>| match (r, s) {
        (None, None) => true,
        (Some(a), Some(b)) => bytes_eq(a.as_bytes(), b.as_bytes()),
        _ => false,
    };
    check(str_ok(n.as_str()), ACC);
    check(n.as_bool() == b, ACC);
    check(n.as_f64().map(f64::to_bits) == f, ACC);
    check(n.as_i64() == i, ACC);
    match n.get_tag() {
        Some(g) => match x {
            X::Tagged(h, s, _) => check(bytes_eq(g.handle.as_bytes(), h.as_bytes()) && bytes_eq(g.suffix.as_bytes(), s.as_bytes()), "get_tag gives another tag"),
            _ => check(false, "an untagged node has a tag"),
        },
        None => check(t != 9, "a tagged node has no tag"),
    }
    let items = |v: &Vec<N>, k: usize| v.len() == k && (0..k).all(|i| v[i].as_i64() == Some(i as i64));
    let pairs = |v: &Vec<YamlEntry<'a, N>>, k: usize| v.len() == k && (0..k).all(|i| v[i].key.as_i64() == Some(i as i64) && v[i].value.as_i64() == Some(10 + i as i64));
    match n.as_sequence() {
        Ok(v) => check(matches!(x, X::Seq(k) if items(v, *k)), ACC),
        Err(e) => check(t != 6 && e == YamlAccessError::ExpectedSequence, ACC),
    }
    match n.as_mapping() {
        Ok(v) => check(matches!(x, X::Map(k) if pairs(v, *k)), ACC),
        Err(e) => check(t != 7 && e == YamlAccessError::ExpectedMapping, ACC),
    }
    if let X::Seq(k) = x {
        check(items(n.sequence(), *k), ACC);
    }
    if let X::Map(k) = x {
        check(pairs(n.mapping(), *k), ACC);
    }
    // mutable access reaches the same place
    match n.as_bool_mut() {
        Some(p) => {
            check(Some(*p) == b, MUTA);
            *p = !*p;
            check(n.as_bool() == b.map(|x| !x), MUTA);
        }
        None => check(b.is_none(), MUTA),
    }
    let w = 0x123456789abcdef0u64;
    match n.as_i64_mut() {
        Some(p) => {
            check(Some(*p) == i, MUTA);
            *p = w as i64;
            check(n.as_i64() == Some(w as i64), MUTA);
        }
        None => check(i.is_none(), MUTA),
    }
    match n.as_f64_mut() {
        Some(p) => {
            check(Some(p.to_bits()) == f, MUTA);
            *p = 0.5;
            check(n.as_f64().map(f64::to_bits) == Some(0.5f64.to_bits()), MUTA);
        }
        None => check(f.is_none(), MUTA),
    }
    match n.as_str_mut() {
        Some(p) => {
            check(str_ok(Some(p)), MUTA);
            p.make_ascii_uppercase();
            let want = s.map(|s| s.to_ascii_uppercase());
            check(matches!((n.as_str(), &want), (Some(a), Some(b)) if bytes_eq(a.as_bytes(), b.as_bytes())), MUTA);
        }
        None => check(s.is_none(), MUTA),
    }
    match n.as_sequence_mut() {
        Ok(v) => {
            check(matches!(x, X::Seq(k) if items(v, *k)), MUTA);
            v.push(N::null());
            let k = v.len();
            check(n.sequence().len() == k && n.is_non_empty_collection(), MUTA);
            n.sequence_mut().pop();
            check(n.sequence().len() + 1 == k, MUTA);
        }
        Err(e) => check(t != 6 && e == YamlAccessError::ExpectedSequence, MUTA),
    }
    match n.as_mapping_mut() {
        Ok(v) => {
            check(matches!(x, X::Map(k) if pairs(v, *k)), MUTA);
            v.push(YamlEntry::new(N::null(), N::bad_value()));
            let k = v.len();
            check(n.mapping().len() == k && n.mapping()[k - 1].key.is_null() && n.mapping()[k - 1].value.is_bad_value(), MUTA);
            n.mapping_mut().pop();
            check(n.mapping().len() + 1 == k, MUTA);
        }
        Err(e) => check(t != 7 && e == YamlAccessError::ExpectedMapping, MUTA),
    }
    check(mk(x).into_bool() == b, INTO);
    check(mk(x).into_i64() == i, INTO);
    check(mk(x).into_f64().map(f64::to_bits) == f, INTO);
    check(str_ok(mk(x).into_string().as_deref()), INTO);
    match mk(x).into_sequence() {
        Some(v) => check(matches!(x, X::Seq(k) if items(&v, *k)), INTO),
        None => check(t != 6, INTO),
    }
    match mk(x).into_mapping() {
        Some(v) => check(matches!(x, X::Map(k) if pairs(&v, *k)), INTO),
        None => check(t != 7, INTO),
    }
    // a clone and a taken node are the same node, and take leaves a bad value
    let m = mk(x).clone();
    check(m.get_type() == mk(x).get_type() && m.as_i64() == i && str_ok(m.as_str()) && m.as_f64().map(f64::to_bits) == f && m.as_bool() == b, "a clone differs");
    let mut m = mk(x);
    let o = m.take();
    check(m.is_bad_value() && m.get_tag().is_none() && o.get_type() == mk(x).get_type() && o.as_i64() == i && str_ok(o.as_str()) && o.get_tag().is_some() == (t == 9), "take does not move the node");
    let g = mk(x).into_tagged(tag("!", "t"));
    match g.get_tag() {
        Some(t) => check(t.handle == "!" && t.suffix == "t", "into_tagged gives another tag"),
        None => check(false, "into_tagged does not tag"),
    }
    check(g.as_i64().is_none() && g.as_str().is_none() && g.as_sequence().is_err() && g.as_mapping().is_err() && !g.is_collection(), "a tagged node gives access to its content without its tag");
    check(N::null().is_null() && N::bad_value().is_bad_value() && N::bad_span_value(Span::default()).is_bad_value(), "a constructor gives another node");
    let ks = letters(2);
    check(matches!(N::key_from_str(&ks).as_str(), Some(a) if bytes_eq(a.as_bytes(), ks.as_bytes())), "key_from_str gives another key");
    let ku = word() >> 1;
    check(N::key_from_usize(ku as usize).as_i64() == Some(ku as i64), "key_from_usize gives another key");
    out(t);
}
pub fn kinds() {
    let x = gen_x(2);
    if param(0) == 0 { content(&x, yaml) } else { content(&x, spanned) }
}

// ---- equality and indexing of Yaml --------------------------------------------------------
fn small(d: u32) -> Yaml<'static> {
    match choice(if d > 0 { 10 } else { 7 }) {
        0 => Yaml(YamlData::BadValue),
        1 => Yaml::null(),
        2 => Yaml(YamlData::Scalar(YamlScalar::String(Cow::Owned(letters(1))))),
        3 => Yaml::from(choice(2) == 1),
        4 => Yaml::from([0.0, -0.0, 1.5, f64::NAN, f64::INFINITY][choice(5) as usize]),
        5 => Yaml::from(byte() as i8),
        6 => Yaml(YamlData::Alias(choice(2) as usize)),
        7 => {
            let n = choice(3);
            Yaml(YamlData::Sequence((0..n).map(|_| small(d - 1)).collect()))
        }
        8 => {
            let n = choice(2);
            Yaml(YamlData::Mapping((0..n).map(|_| YamlEntry::new(small(d - 1), small(d - 1))).collect()))
        }
        _ => Yaml(YamlData::Tagged(tag("!", &letters(1)), Box::new(small(d - 1)))),
    }
}
fn eq(a: &Yaml, b: &Yaml) -> bool {
    match (&a.0, &b.0) {
        (YamlData::BadValue, YamlData::BadValue) => true,
        (YamlData::Scalar(a), YamlData::Scalar(b)) => match (a, b) {
            (YamlScalar::Null(_), YamlScalar::Null(_)) => true,
            (YamlScalar::String(a), YamlScalar::String(b)) => bytes_eq(a.as_bytes(), b.as_bytes()),
            (YamlScalar::Bool(a), YamlScalar::Bool(b)) => a == b,
            (YamlScalar::FloatingPoint(a), YamlScalar::FloatingPoint(b)) => a == b,
            (YamlScalar::Integer(a), YamlScalar::Integer(b)) => a == b,
            _ => false,
        },
        (YamlData::Alias(a), YamlData::Alias(b)) => a == b,
        (YamlData::Sequence(a), YamlData::Sequence(b)) => a.len() == b.len() && (0..a.len()).all(|i| eq(&a[i], &b[i])),
        (YamlData::Mapping(a), YamlData::Mapping(b)) => a.len() == b.len() && (0..a.len()).all(|i| eq(&a[i].key, &b[i].key) && eq(&a[i].value, &b[i].value)),
        (YamlData::Tagged(t, a), YamlData::Tagged(u, b)) => bytes_eq(t.handle.as_bytes(), u.handle.as_bytes()) && bytes_eq(t.suffix.as_bytes(), u.suffix.as_bytes()) && eq(a, b),
        _ => false,
    }
}
pub fn equality() {
    let d = param(0) as u32;
    let a = small(d);
    let b = small(d);
    let r = eq(&a, &b);
    check((a == b) == r, "equality of nodes is not equality of their content");
    check((b == a) == r, "equality of nodes is not symmetric");
    check((a == a.clone()) == eq(&a, &a), "a clone is another node");
    out(r as u64);
}
pub fn index() {
    let n = param(0) as usize;
    match param(1) {
        0 => {
            let mut v: Vec<Yaml> = (0..n).map(|_| small(0)).collect();
            let want = v.clone();
            let i = choice(n as u32) as usize;
            let mut y = Yaml::from(core::mem::take(&mut v));
            check(core::ptr::eq(&y[i], &y.sequence()[i]), "indexing a sequence gives another element");
            let p: *const Yaml = &mut y[i];
            check(core::ptr::eq(p, &y.sequence()[i]), "mutable indexing of a sequence gives another element");
            check((0..n).all(|j| eq(&y.sequence()[j], &want[j]) || !eq(&want[j], &want[j])), "a node built from a vector has other elements");
        }
        1 => {
            let v: Vec<YamlEntry<Yaml>> = (0..n).map(|k| YamlEntry::new(small(param(2) as u32), Yaml::from(k as i64))).collect();
            let mut y = Yaml(YamlData::Mapping(v));
            let i = byte() as usize;
            let f = y.mapping().iter().position(|e| e.key.as_i64() == Some(i as i64));
            assume(f.is_some());
            let f = f.unwrap_or(0);
            check(core::ptr::eq(&y[i], &y.mapping()[f].value), "indexing a mapping by an integer does not give the value of the first such key");
            let p: *const Yaml = &mut y[i];
            check(core::ptr::eq(p, &y.mapping()[f].value), "mutable indexing of a mapping by an integer does not give the value of the first such key");
            out(f as u64);
        }
        _ => {
            let v: Vec<YamlEntry<Yaml>> = (0..n).map(|k| YamlEntry::new(small(param(2) as u32), Yaml::from(k as i64))).collect();
            let mut y = Yaml(YamlData::Mapping(v));
            let s = letters(choice(2) as usize + 1);
            let f = y.mapping().iter().position(|e| matches!(e.key.as_str(), Some(x) if bytes_eq(x.as_bytes(), s.as_bytes())));
            assume(f.is_some());
            let f = f.unwrap_or(0);
            check(core::ptr::eq(&y[s.as_str()], &y.mapping()[f].value), "indexing a mapping by a string does not give the value of the first such key");
            let p: *const Yaml = &mut y[s.as_str()];
            check(core::ptr::eq(p, &y.mapping()[f].value), "mutable indexing of a mapping by a string does not give the value of the first such key");
            out(f as u64);
        }
    }
}
pub fn from() {
    let w = word();
    check(Yaml::from(w as i64).as_i64() == Some(w as i64), "From<i64> gives another value");
    check(Yaml::from(w as i32).as_i64() == Some(w as i32 as i64), "From<i32> gives another value");
    check(Yaml::from(w as i16).as_i64() == Some(w as i16 as i64), "From<i16> gives another value");
    check(Yaml::from(w as i8).as_i64() == Some(w as i8 as i64), "From<i8> gives another value");
    check(Yaml::from(f64::from_bits(w)).as_f64().map(f64::to_bits) == Some(w), "From<f64> gives another value");
    let f = [0.0f32, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY][choice(6) as usize];
    check(Yaml::from(f).as_f64().map(f64::to_bits) == Some((f as f64).to_bits()), "From<f32> gives another value");
    let s = letters(2);
    let y = Yaml::from(s.as_str());
    check(matches!(y.as_str(), Some(x) if bytes_eq(x.as_bytes(), s.as_bytes())), "From<&str> gives another value");
    let b = choice(2) == 1;
    check(Yaml::from(b).as_bool() == Some(b), "From<bool> gives another value");
    out(w);
}
