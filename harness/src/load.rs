//! C18: the loaded tree is the fold of the event stream.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::borrow::Cow;
use alloc::string::String;
use alloc::vec::Vec;
use yam_core::parsing::{Parser, Tag};
use yam_core::prelude::*;

#[derive(Clone)]
pub enum T {
    Bad,
    Scalar(Ev),
    Seq(Ev, Vec<T>),
    Map(Ev, Vec<(T, T)>),
}
/// builds the tree of the node that starts at `v[*i]`; `done` holds the completed anchored nodes
fn node(v: &[Ev], i: &mut usize, done: &mut Vec<(usize, T)>) -> T {
    let e = &v[*i];
    *i += 1;
    if e.k == ALIAS {
        for (id, t) in done.iter().rev() {
            if *id == e.anchor {
                return t.clone();
            }
        }
        return T::Bad;
    }
    let t = if e.k == SEQ {
        let mut c = Vec::new();
        while v[*i].k != SEQ_END {
            c.push(node(v, i, done));
        }
        *i += 1;
        T::Seq(e.clone(), c)
    } else if e.k == MAP {
        let mut c = Vec::new();
        while v[*i].k != MAP_END {
            let k = node(v, i, done);
            let x = node(v, i, done);
            c.push((k, x));
        }
        *i += 1;
        T::Map(e.clone(), c)
    } else {
        T::Scalar(e.clone())
    };
    if e.anchor > 0 {
        done.push((e.anchor, t.clone()));
    }
    t
}
/// the trees of the documents complete in `v`
pub fn fold(v: &[Ev]) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i].k == DOC_IMPLICIT || v[i].k == DOC_EXPLICIT {
            let mut e = i + 1;
            while e < v.len() && v[e].k != DOC_END {
                e += 1;
            }
            if e == v.len() {
                return r;
            }
            i += 1;
            let mut done = Vec::new();
            r.push(node(v, &mut i, &mut done));
            check(i == e, "events of a document do not form one node");
        }
        i += 1;
    }
    r
}
fn to_style(s: u64) -> ScalarType {
    match s {
        PLAIN => ScalarType::Plain,
        SINGLE => ScalarType::SingleQuote,
        DOUBLE => ScalarType::DoubleQuote,
        LITERAL => ScalarType::Literal,
        _ => ScalarType::Folded,
    }
}
/// what the core schema makes of a scalar event
pub fn resolve(e: &Ev) -> Option<YamlScalar<'_>> {
    let core = match &e.tag {
        Some((h, s)) if h == b"tag:yaml.org,2002:" => Some(Cow::Owned(Tag { handle: String::from(as_str(h)), suffix: String::from(as_str(s)) })),
        _ => None,
    };
    YamlScalar::parse_from_cow_and_metadata(Cow::Borrowed(as_str(&e.val)), to_style(e.style), core)
}
fn scalar_eq(a: &YamlScalar, b: &YamlScalar) -> bool {
    match (a, b) {
        (YamlScalar::FloatingPoint(x), YamlScalar::FloatingPoint(y)) => x.to_bits() == y.to_bits(),
        (YamlScalar::String(x), YamlScalar::String(y)) => bytes_eq(x.as_bytes(), y.as_bytes()),
        (YamlScalar::Null(_), YamlScalar::Null(_)) => true,
        (YamlScalar::Bool(x), YamlScalar::Bool(y)) => x == y,
        (YamlScalar::Integer(x), YamlScalar::Integer(y)) => x == y,
        _ => false,
    }
}
fn head(t: &T) -> Option<&Ev> {
    match t {
        T::Bad => None,
        T::Scalar(e) | T::Seq(e, _) | T::Map(e, _) => Some(e),
    }
}
pub fn tree_eq(t: &T, y: &Yaml) -> bool {
    let mut y = y;
    let mut core = None;
    if let Some((h, s)) = head(t).and_then(|e| e.tag.as_ref()) {
        if h == b"tag:yaml.org,2002:" {
            core = Some(Cow::Owned(Tag { handle: String::from(as_str(h)), suffix: String::from(as_str(s)) }));
        } else {
            match &y.0 {
                YamlData::Tagged(g, n) => {
                    if !bytes_eq(g.handle.as_bytes(), h) || !bytes_eq(g.suffix.as_bytes(), s) {
                        return false;
                    }
                    y = n;
                }
                _ => return false,
            }
        }
    }
    match (t, &y.0) {
        (T::Bad, YamlData::BadValue) => true,
        (T::Scalar(e), _) => {
            let r = YamlScalar::parse_from_cow_and_metadata(Cow::Borrowed(as_str(&e.val)), to_style(e.style), core);
            match (r, &y.0) {
                (Some(a), YamlData::Scalar(b)) => scalar_eq(&a, b),
                (None, YamlData::BadValue) => true,
                _ => false,
            }
        }
        (T::Seq(_, a), YamlData::Sequence(b)) => a.len() == b.len() && (0..a.len()).all(|i| tree_eq(&a[i], &b[i])),
        (T::Map(_, a), YamlData::Mapping(b)) => a.len() == b.len() && (0..a.len()).all(|i| tree_eq(&a[i].0, &b[i].key) && tree_eq(&a[i].1, &b[i].value)),
        _ => false,
    }
}
fn out_tree(y: &Yaml) {
    match &y.0 {
        YamlData::BadValue => out(1),
        YamlData::Scalar(YamlScalar::Null(_)) => out(2),
        YamlData::Scalar(YamlScalar::Bool(b)) => out(3 + *b as u64),
        YamlData::Scalar(YamlScalar::Integer(i)) => {
            out(5);
            out(*i as u64)
        }
        YamlData::Scalar(YamlScalar::FloatingPoint(_)) => out(6),
        YamlData::Scalar(YamlScalar::String(s)) => {
            out(7);
            out_bytes(s.as_bytes())
        }
        YamlData::Sequence(v) => {
            out(8);
            out(v.len() as u64);
            v.iter().for_each(out_tree)
        }
        YamlData::Mapping(v) => {
            out(9);
            out(v.len() as u64);
            for e in v {
                out_tree(&e.key);
                out_tree(&e.value)
            }
        }
        YamlData::Tagged(t, n) => {
            out(10);
            out_bytes(t.handle.as_bytes());
            out_bytes(t.suffix.as_bytes());
            out_tree(n)
        }
        YamlData::Alias(_) => out(11),
    }
}
/// raw events (anchors as the parser numbers them) and the error, if any
pub fn events(t: &str) -> (Vec<Ev>, Option<YamlError>) {
    let mut p = Parser::new_from_str(t);
    let mut r = Vec::new();
    loop {
        match p.next_event() {
            None => return (r, None),
            Some(Ok((e, _))) => {
                let e = conv(&e);
                if e.k != COMMENT {
                    r.push(e)
                }
            }
            Some(Err(e)) => return (r, Some(e)),
        }
    }
}
fn many(w: &[T], err: &Option<YamlError>, got: Result<Vec<Yaml>, YamlError>) {
    match (got, err) {
        (Ok(d), None) => {
            out(d.len() as u64);
            d.iter().for_each(out_tree);
            check(d.len() == w.len(), "loading gives another number of documents than the event stream has");
            for i in 0..d.len() {
                check(tree_eq(&w[i], &d[i]), "a loaded tree differs from the tree the events describe");
            }
        }
        (Err(a), Some(b)) => check(a == *b, "loading fails with another error than the event stream"),
        (Ok(_), Some(_)) => check(false, "a text whose event stream ends in an error loads"),
        (Err(_), None) => check(false, "a text with a complete event stream does not load"),
    }
}
fn single(w: &[T], err: &Option<YamlError>, got: Result<Yaml, YamlError>) {
    match got {
        Ok(d) => {
            out_tree(&d);
            check(!w.is_empty(), "a text without a complete document loads as one");
            check(tree_eq(&w[0], &d), "the loaded document is not the first document of the event stream");
        }
        Err(e) => {
            check(w.is_empty(), "a text with a complete first document does not load");
            match err {
                Some(x) => check(e == *x, "loading one document fails with another error than the event stream"),
                None => check(e == YamlError::NoDocument, "an empty stream fails with something else than NoDocument"),
            }
        }
    }
}
pub fn run() {
    let (v, _) = template(1);
    let t = as_str(&v);
    let (evs, err) = events(t);
    let w = fold(&evs);
    match param(0) {
        0 => many(&w, &err, Yaml::load_from(t)),
        1 => single(&w, &err, Yaml::load_single(t)),
        2 => many(&w, &err, YamlLoader::<Yaml>::load_from_parser(&mut Parser::new_from_str(t))),
        3 => single(&w, &err, YamlLoader::<Yaml>::load_single_from_parser(&mut Parser::new_from_str(t))),
        _ => single(&w, &err, YamlLoader::<Yaml>::load_single_source(StrSource::new(t))),
    }
}

struct G {
    v: Vec<u8>,
    nodes: u32,
    props: u32,
    names: u32,
}
impl G {
    fn node(&mut self) {
        self.nodes -= 1;
        let p = if self.props > 0 { choice(7) } else { 0 };
        if p > 0 {
            self.props -= 1;
        }
        // an alias takes no properties
        let lim = if self.nodes == 0 { 3 } else { 5 };
        let k = if p == 0 && self.names > 0 { choice(lim + 1) } else { choice(lim) };
        match p {
            0 => {}
            1 => self.v.extend_from_slice(b"!t "),
            2 => self.v.extend_from_slice(b"!!int "),
            3 => self.v.extend_from_slice(b"!!str "),
            4 => self.v.extend_from_slice(b"!!map "),
            _ => {
                self.v.push(b'&');
                let c = b'x' + choice(2) as u8;
                self.v.push(c);
                self.v.push(b' ');
                self.names |= 1 << (c - b'x');
                if p == 6 {
                    self.v.extend_from_slice(b"!e!t%61 ");
                }
            }
        }
        match if k == lim { 9 } else { k } {
            0 => {
                let b = byte();
                assume(b.is_ascii_alphanumeric() || b == b'~');
                self.v.push(b);
            }
            1 => {
                let b = byte();
                assume(b.is_ascii_alphanumeric());
                self.v.push(b'\'');
                self.v.push(b);
                self.v.push(b'\'');
            }
            2 => {
                if p == 0 {
                    self.v.extend_from_slice(b"tru");
                }
                self.v.push(b'e');
            }
            3 => {
                self.v.extend_from_slice(b"[ ");
                while self.nodes > 0 && choice(2) == 1 {
                    self.node();
                    self.v.extend_from_slice(b" , ");
                }
                self.v.extend_from_slice(b"]");
            }
            4 => {
                self.v.extend_from_slice(b"{ ");
                while self.nodes > 0 && choice(2) == 1 {
                    self.v.extend_from_slice(b"? ");
                    self.node();
                    if self.nodes > 0 {
                        self.v.extend_from_slice(b" : ");
                        self.node();
                    }
                    self.v.extend_from_slice(b" , ");
                }
                self.v.extend_from_slice(b"}");
            }
            _ => {
                self.v.push(b'*');
                let c = if self.names == 3 { choice(2) } else { self.names - 1 };
                self.v.push(b'x' + c as u8);
            }
        }
    }
}
/// generated flow documents: nodes, properties, documents
pub fn tree() {
    let mut g = G { v: Vec::new(), nodes: 0, props: param(1) as u32, names: 0 };
    for _ in 0..param(2) {
        g.v.extend_from_slice(b"%TAG !e! tag:e,1:\n--- ");
        g.names = 0;
        g.nodes = param(0) as u32;
        g.node();
        g.v.extend_from_slice(b"\n...\n");
    }
    let t = as_str(&g.v);
    let (evs, err) = events(t);
    check(err.is_none(), "a generated document is rejected");
    let w = fold(&evs);
    check(w.len() as u64 == param(2), "a generated stream has another number of documents");
    many(&w, &err, Yaml::load_from(t));
    single(&w, &err, Yaml::load_single(t));
}
