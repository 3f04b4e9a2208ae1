//! C20: `yam_serde::from_str` builds the value the document spells.
use crate::ev::*;
use crate::input::*;
use crate::load::{events, fold, resolve, T};
use crate::sym::*;
use alloc::boxed::Box;
use alloc::collections::BTreeMap;
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt;
use serde::de::{Deserialize, DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use yam_core::prelude::YamlScalar;

/// any value, as `deserialize_any` describes it
#[derive(Clone)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    /// a plain decimal number beyond i64
    Big(u64),
}
struct AnyVisitor;
/// scalar targets that refuse other kinds without rendering them in the error
macro_rules! wrap { ($n:ident, $t:ty, $d:ident, $m:ident, $vt:ty, $v:ident => $e:expr, [$($om:ident $ot:ty),*]) => {
    struct $n($t);
    impl<'de> Visitor<'de> for Wrap<$n> {
        type Value = $n;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("another kind")
        }
        fn $m<X: serde::de::Error>(self, $v: $vt) -> Result<$n, X> {
            match $e {
                Some(x) => Ok($n(x)),
                None => Err(X::custom("another value")),
            }
        }
        $(fn $om<X: serde::de::Error>(self, _: $ot) -> Result<$n, X> {
            Err(X::custom("another kind"))
        })*
    }
    impl<'de> Deserialize<'de> for $n {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<$n, D::Error> {
            d.$d(Wrap(core::marker::PhantomData::<$n>))
        }
    }
} }
struct Wrap<T>(core::marker::PhantomData<T>);
wrap!(Bo, bool, deserialize_bool, visit_bool, bool, v => Some(v), [visit_i64 i64, visit_u64 u64, visit_f64 f64, visit_str &str]);
wrap!(St, String, deserialize_string, visit_str, &str, v => Some(String::from(v)), [visit_bool bool, visit_i64 i64, visit_u64 u64, visit_f64 f64]);
wrap!(Ch, char, deserialize_char, visit_str, &str, v => { let mut c = v.chars(); match (c.next(), c.next()) { (Some(x), None) => Some(x), _ => None } }, [visit_bool bool, visit_i64 i64, visit_u64 u64, visit_f64 f64]);
struct Fl(f64);
impl<'de> Visitor<'de> for Wrap<Fl> {
    type Value = Fl;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("another kind")
    }
    fn visit_f64<X: serde::de::Error>(self, v: f64) -> Result<Fl, X> {
        Ok(Fl(v))
    }
    fn visit_i64<X: serde::de::Error>(self, v: i64) -> Result<Fl, X> {
        Ok(Fl(v as f64))
    }
    fn visit_bool<X: serde::de::Error>(self, _: bool) -> Result<Fl, X> {
        Err(X::custom("another kind"))
    }
    fn visit_str<X: serde::de::Error>(self, _: &str) -> Result<Fl, X> {
        Err(X::custom("another kind"))
    }
}
impl<'de> Deserialize<'de> for Fl {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Fl, D::Error> {
        d.deserialize_f64(Wrap(core::marker::PhantomData::<Fl>))
    }
}
macro_rules! wref { ($($n:ident $t:ty),*) => { $(impl Ref for $n {
    fn of(n: &N) -> Option<Self> {
        <$t>::of(n).map($n)
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
})* } }
wref!(Bo bool, St String, Ch char, Fl f64);
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a value")
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn visit_bool<E>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Val, E> {
        Ok(Val::Int(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Val, E> {
        Ok(Val::Float(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(String::from(v)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut r = Vec::new();
        while let Some(x) = a.next_element()? {
            r.push(x)
        }
        Ok(Val::Seq(r))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut r = Vec::new();
        while let Some(k) = a.next_key()? {
            r.push((k, a.next_value()?))
        }
        Ok(Val::Map(r))
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}
fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Null, Val::Null) => true,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::Float(x), Val::Float(y)) => x.to_bits() == y.to_bits(),
        (Val::Big(_), Val::Float(_)) => true,
        (Val::Str(x), Val::Str(y)) => bytes_eq(x.as_bytes(), y.as_bytes()),
        (Val::Seq(x), Val::Seq(y)) => x.len() == y.len() && (0..x.len()).all(|i| val_eq(&x[i], &y[i])),
        (Val::Map(x), Val::Map(y)) => x.len() == y.len() && (0..x.len()).all(|i| val_eq(&x[i].0, &y[i].0) && val_eq(&x[i].1, &y[i].1)),
        _ => false,
    }
}
/// a decimal integer written plainly, beyond i64
fn big(e: &Ev) -> Option<u64> {
    if e.tag.is_some() || e.style != PLAIN {
        return None;
    }
    let v = if e.val.first() == Some(&b'+') { &e.val[1..] } else { &e.val[..] };
    if v.is_empty() {
        return None;
    }
    let mut r = 0u64;
    for b in v {
        if !b.is_ascii_digit() {
            return None;
        }
        r = r.checked_mul(10)?.checked_add((b - b'0') as u64)?;
    }
    Some(r)
}
/// the node the reference gives a scalar event to match on
pub enum N {
    /// resolved value and source text
    Scalar(Option<Val>, String),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
    Bad,
}
fn build(t: &T) -> N {
    match t {
        T::Bad => N::Bad,
        T::Scalar(e) => {
            let v = match resolve(e) {
                None => None,
                Some(YamlScalar::Null(_)) => Some(Val::Null),
                Some(YamlScalar::Bool(b)) => Some(Val::Bool(b)),
                Some(YamlScalar::Integer(i)) => Some(Val::Int(i)),
                Some(YamlScalar::FloatingPoint(f)) => Some(match big(e) {
                    Some(u) => Val::Big(u),
                    None => Val::Float(f),
                }),
                Some(YamlScalar::String(s)) => Some(Val::Str(s.into_owned())),
            };
            N::Scalar(v, String::from(as_str(&e.val)))
        }
        T::Seq(_, v) => N::Seq(v.iter().map(build).collect()),
        T::Map(_, v) => N::Map(v.iter().map(|(k, x)| (build(k), build(x))).collect()),
    }
}
/// what a target type makes of a node
trait Ref: Sized {
    fn of(n: &N) -> Option<Self>;
    fn same(&self, o: &Self) -> bool;
}
impl Ref for Val {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Bad => None,
            N::Scalar(v, _) => v.clone(),
            N::Seq(v) => {
                let mut r = Vec::new();
                for x in v {
                    r.push(Val::of(x)?)
                }
                Some(Val::Seq(r))
            }
            N::Map(v) => {
                let mut r = Vec::new();
                for (k, x) in v {
                    r.push((Val::of(k)?, Val::of(x)?))
                }
                Some(Val::Map(r))
            }
        }
    }
    fn same(&self, o: &Self) -> bool {
        val_eq(self, o)
    }
}
macro_rules! int { ($($t:ty),*) => { $(impl Ref for $t {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(Some(Val::Int(i)), _) => <$t>::try_from(*i).ok(),
            N::Scalar(Some(Val::Big(u)), _) => <$t>::try_from(*u).ok(),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
})* } }
int!(i8, i16, i32, i64, u8, u16, u32, u64);
impl Ref for bool {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(Some(Val::Bool(b)), _) => Some(*b),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ref for String {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(Some(Val::Str(s)), _) => Some(s.clone()),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        bytes_eq(self.as_bytes(), o.as_bytes())
    }
}
impl Ref for char {
    fn of(n: &N) -> Option<Self> {
        let s = String::of(n)?;
        let mut c = s.chars();
        let r = c.next()?;
        if c.next().is_none() { Some(r) } else { None }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ref for () {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(Some(Val::Null), _) => Some(()),
            _ => None,
        }
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Ref for f64 {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(Some(Val::Float(f)), _) => Some(*f),
            N::Scalar(Some(Val::Int(i)), _) => Some(*i as f64),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<A: Ref> Ref for Option<A> {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(Some(Val::Null), _) => Some(None),
            _ => A::of(n).map(Some),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<A: Ref> Ref for Box<A> {
    fn of(n: &N) -> Option<Self> {
        A::of(n).map(Box::new)
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl<A: Ref> Ref for Vec<A> {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Seq(v) => {
                let mut r = Vec::new();
                for x in v {
                    r.push(A::of(x)?)
                }
                Some(r)
            }
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && (0..self.len()).all(|i| self[i].same(&o[i]))
    }
}
impl<A: Ref, B: Ref> Ref for (A, B) {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Seq(v) if v.len() == 2 => Some((A::of(&v[0])?, B::of(&v[1])?)),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<A: Ref, B: Ref, C: Ref> Ref for (A, B, C) {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Seq(v) if v.len() == 3 => Some((A::of(&v[0])?, B::of(&v[1])?, C::of(&v[2])?)),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
impl<K: Ref + Ord, A: Ref> Ref for BTreeMap<K, A> {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Map(v) => {
                let mut r = BTreeMap::new();
                for (k, x) in v {
                    r.insert(K::of(k)?, A::of(x)?);
                }
                Some(r)
            }
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|((a, b), (c, d))| a.same(c) && b.same(d))
    }
}
#[derive(serde::Deserialize)]
struct S {
    a: i8,
    b: Option<Box<S>>,
}
/// the value of a field given at most once; keys are strings, other fields are of any kind
fn fields<'a, const K: usize>(v: &'a [(N, N)], names: [&str; K]) -> Option<[Option<&'a N>; K]> {
    let mut r = [None; K];
    for (k, x) in v {
        let k = String::of(k)?;
        let mut known = false;
        for i in 0..K {
            if k.as_str() == names[i] {
                if r[i].is_some() {
                    return None;
                }
                r[i] = Some(x);
                known = true;
            }
        }
        if !known {
            Val::of(x)?;
        }
    }
    Some(r)
}
impl Ref for S {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Map(v) => {
                let f = fields(v, ["a", "b"])?;
                Some(S {
                    a: i8::of(f[0]?)?,
                    b: match f[1] {
                        None => None,
                        Some(n) => Ref::of(n)?,
                    },
                })
            }
            // a structure may be given as the sequence of its fields
            N::Seq(v) if v.len() == 2 => Some(S { a: i8::of(&v[0])?, b: Ref::of(&v[1])? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.a == o.a && self.b.same(&o.b)
    }
}
#[derive(serde::Deserialize)]
enum E {
    Un,
    New(Box<E>),
    Int(i8),
    Tup(u8, Option<u8>),
    Str { a: Vec<i8>, b: Option<Bo> },
}
impl Ref for E {
    fn of(n: &N) -> Option<Self> {
        match n {
            N::Scalar(_, s) if s == "Un" => Some(E::Un),
            N::Map(v) if v.len() == 1 => {
                let x = &v[0].1;
                match String::of(&v[0].0)?.as_str() {
                    "Un" => <()>::of(x).map(|_| E::Un),
                    "New" => Ref::of(x).map(E::New),
                    "Int" => Ref::of(x).map(E::Int),
                    "Tup" => <(u8, Option<u8>)>::of(x).map(|(a, b)| E::Tup(a, b)),
                    "Str" => match x {
                        N::Map(v) => {
                            let f = fields(v, ["a", "b"])?;
                            Some(E::Str {
                                a: Ref::of(f[0]?)?,
                                b: match f[1] {
                                    None => None,
                                    Some(n) => Ref::of(n)?,
                                },
                            })
                        }
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (E::Un, E::Un) => true,
            (E::New(a), E::New(b)) => a.same(b),
            (E::Int(a), E::Int(b)) => a == b,
            (E::Tup(a, b), E::Tup(c, d)) => a == c && b == d,
            (E::Str { a, b }, E::Str { a: c, b: d }) => a == c && b.same(d),
            _ => false,
        }
    }
}
#[derive(serde::Deserialize)]
struct New(i8);
impl Ref for New {
    fn of(n: &N) -> Option<Self> {
        i8::of(n).map(New)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
#[derive(serde::Deserialize)]
struct Pair(Vec<u8>, New);
impl Ref for Pair {
    fn of(n: &N) -> Option<Self> {
        <(Vec<u8>, New)>::of(n).map(|(a, b)| Pair(a, b))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1.same(&o.1)
    }
}
#[derive(serde::Deserialize)]
struct Unit;
impl Ref for Unit {
    fn of(n: &N) -> Option<Self> {
        <()>::of(n).map(|_| Unit)
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
fn go<V: Ref + DeserializeOwned>(t: &str) {
    let (evs, err) = events(t);
    let w = fold(&evs);
    let want = if err.is_none() && w.len() == 1 { V::of(&build(&w[0])) } else { None };
    out(want.is_some() as u64);
    match (yam_serde::from_str::<V>(t), want) {
        (Ok(a), Some(b)) => check(b.same(&a), "from_str gives another value than the document spells"),
        (Err(_), None) => {}
        (Ok(_), None) => check(false, "from_str accepts a text that does not spell one value of the type"),
        // aliases may be refused
        (Err(_), Some(_)) if evs.iter().any(|e| e.k == ALIAS) => {}
        (Err(_), Some(_)) => check(false, "from_str rejects a text that spells a value of the type"),
    }
}
/// type, template
pub fn run() {
    let (v, _) = template(1);
    let t = as_str(&v);
    match param(0) {
        0 => go::<Val>(t),
        1 => go::<i8>(t),
        2 => go::<u8>(t),
        3 => go::<i16>(t),
        4 => go::<u16>(t),
        5 => go::<i32>(t),
        6 => go::<u32>(t),
        7 => go::<i64>(t),
        8 => go::<u64>(t),
        9 => go::<Bo>(t),
        10 => go::<Fl>(t),
        11 => go::<St>(t),
        12 => go::<Ch>(t),
        13 => go::<()>(t),
        14 => go::<Option<i8>>(t),
        15 => go::<Vec<Option<u8>>>(t),
        16 => go::<(((u8, u8), (u8, u8)), u8)>(t),
        17 => go::<Vec<S>>(t),
        18 => go::<E>(t),
        19 => go::<Vec<E>>(t),
        20 => go::<BTreeMap<String, Vec<i8>>>(t),
        21 => go::<Vec<New>>(t),
        22 => go::<Pair>(t),
        23 => go::<Vec<Unit>>(t),
        24 => go::<S>(t),
        25 => go::<BTreeMap<i8, (Option<Val>, Vec<Val>)>>(t),
        26 => go::<(Vec<Vec<u8>>, Option<Vec<Bo>>, St)>(t),
        27 => go::<(E, S, Option<()>)>(t),
        _ => check(false, "no such type"),
    }
}
