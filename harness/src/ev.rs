//! Plain event records for comparing streams.
use crate::events::kind;
use crate::sym::*;
use alloc::vec::Vec;
use yam_core::parsing::{Event, Parser, Source, Tag};
use yam_core::prelude::ScalarType;

#[derive(Clone, PartialEq)]
pub struct Ev {
    pub k: u64,
    pub style: u64,
    pub anchor: usize,
    pub tag: Option<(Vec<u8>, Vec<u8>)>,
    pub val: Vec<u8>,
}
pub const SCALAR: u64 = 8;
pub const ALIAS: u64 = 6;
pub const COMMENT: u64 = 7;
pub const SEQ: u64 = 9;
pub const SEQ_END: u64 = 10;
pub const MAP: u64 = 11;
pub const MAP_END: u64 = 12;
pub const DOC_IMPLICIT: u64 = 3;
pub const DOC_EXPLICIT: u64 = 4;
pub const DOC_END: u64 = 5;
pub const PLAIN: u64 = 0;
pub const SINGLE: u64 = 1;
pub const DOUBLE: u64 = 2;
pub const LITERAL: u64 = 3;
pub const FOLDED: u64 = 4;

pub fn style(s: ScalarType) -> u64 {
    match s {
        ScalarType::Plain => PLAIN,
        ScalarType::SingleQuote => SINGLE,
        ScalarType::DoubleQuote => DOUBLE,
        ScalarType::Literal => LITERAL,
        ScalarType::Folded => FOLDED,
    }
}
pub fn simple(k: u64) -> Ev {
    Ev { k, style: 0, anchor: 0, tag: None, val: Vec::new() }
}
pub fn scalar(style: u64, val: &[u8]) -> Ev {
    Ev { k: SCALAR, style, anchor: 0, tag: None, val: val.to_vec() }
}
fn tag(t: Option<&Tag>) -> Option<(Vec<u8>, Vec<u8>)> {
    t.map(|t| (t.handle.as_bytes().to_vec(), t.suffix.as_bytes().to_vec()))
}
pub fn conv(e: &Event) -> Ev {
    let mut v = simple(kind(e));
    match e {
        Event::Alias(i) => v.anchor = *i,
        Event::Comment(c) => v.val = c.as_bytes().to_vec(),
        Event::Scalar(s) => {
            v.style = style(s.scalar_type);
            v.anchor = s.anchor_id;
            v.tag = tag(s.tag.as_deref());
            v.val = s.value.as_bytes().to_vec();
        }
        Event::SequenceStart(i, t) | Event::MappingStart(i, t) => {
            v.anchor = *i;
            v.tag = tag(t.as_deref());
        }
        _ => {}
    }
    v
}
pub fn collect_from<S: Source>(mut p: Parser<S>) -> (Vec<Ev>, bool) {
    let mut r = Vec::new();
    loop {
        match p.next_event() {
            None => return (r, true),
            Some(Ok((e, _))) => r.push(conv(&e)),
            Some(Err(_)) => return (r, false),
        }
    }
}
/// Anchor numbers are opaque: renumber the anchored nodes in document order, and let every alias
/// carry the number of the node it stands for.
pub fn renumber(v: &mut [Ev]) {
    let mut ids: Vec<usize> = Vec::new();
    let mut doc = 0;
    for e in v {
        if e.k == DOC_IMPLICIT || e.k == DOC_EXPLICIT {
            doc = ids.len();
        }
        if e.anchor == 0 {
            continue;
        }
        if e.k == ALIAS {
            let mut n = usize::MAX;
            for (i, id) in ids.iter().enumerate() {
                if *id == e.anchor {
                    n = i + 1;
                }
            }
            e.anchor = n;
        } else {
            // two nodes of a document with one number: an alias to the first cannot be told from one to the second
            let dup = ids[doc..].contains(&e.anchor);
            ids.push(e.anchor);
            e.anchor = if dup { usize::MAX } else { ids.len() };
        }
    }
}
pub fn collect(text: &str) -> (Vec<Ev>, bool) {
    let (mut v, ok) = collect_from(Parser::new_from_str(text));
    renumber(&mut v);
    (v, ok)
}
/// events of a text without comments (the feature `comment` reports them)
pub fn collect_nc(text: &str) -> (Vec<Ev>, bool) {
    let (mut v, ok) = collect(text);
    v.retain(|e| e.k != COMMENT);
    (v, ok)
}
#[inline(never)]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn tag_eq(a: &Option<(Vec<u8>, Vec<u8>)>, b: &Option<(Vec<u8>, Vec<u8>)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => bytes_eq(&a.0, &b.0) && bytes_eq(&a.1, &b.1),
        _ => false,
    }
}
pub fn ev_eq(a: &Ev, b: &Ev) -> bool {
    a.k == b.k && a.style == b.style && a.anchor == b.anchor && tag_eq(&a.tag, &b.tag) && bytes_eq(&a.val, &b.val)
}
pub fn same(a: &[Ev], b: &[Ev], msg: &'static str) {
    check(a.len() == b.len(), msg);
    for i in 0..a.len().min(b.len()) {
        check(ev_eq(&a[i], &b[i]), msg);
    }
}
pub fn same_evs(a: &[Ev], b: &[Ev]) -> bool {
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= ev_eq(&a[i], &b[i]);
    }
    r
}
pub fn out_ev(e: &Ev) {
    out(e.k | e.style << 8 | (e.anchor as u64) << 16);
    out_bytes(&e.val);
}
pub fn out_evs(v: &[Ev]) {
    out(v.len() as u64);
    for e in v {
        out_ev(e);
    }
}
/// expected stream for one document with the given node events
pub fn stream(doc: u64, body: &[Ev]) -> Vec<Ev> {
    let mut v = Vec::new();
    v.push(simple(1));
    v.push(simple(doc));
    v.extend_from_slice(body);
    v.push(simple(DOC_END));
    v.push(simple(2));
    v
}
