//! C05: all ways of pulling events agree.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::{Event, Parser, ParserIter, SpannedEventReceiver};
use yam_core::prelude::{Span, YamlError};

struct Recv<'a>(Vec<(Event<'a>, Span)>);
impl<'a> SpannedEventReceiver<'a> for Recv<'a> {
    fn on_event(&mut self, e: Event<'a>, s: Span) {
        self.0.push((e, s));
    }
}
type Stream<'a> = (Vec<(Event<'a>, Span)>, Option<YamlError>);

fn pull(text: &str) -> Stream<'_> {
    let mut p = Parser::new_from_str(text);
    let mut r = Vec::new();
    loop {
        match p.next_event() {
            None => return (r, None),
            Some(Ok(e)) => r.push(e),
            Some(Err(e)) => return (r, Some(e)),
        }
    }
}
fn eq(a: &Stream, b: &Stream, msg: &'static str) {
    check(a.0.len() == b.0.len(), msg);
    for i in 0..a.0.len().min(b.0.len()) {
        check(ev_eq(&conv(&a.0[i].0), &conv(&b.0[i].0)) && a.0[i].1 == b.0[i].1, msg);
    }
    check(a.1.is_some() == b.1.is_some() && a.1 == b.1, msg);
}
fn to_event<'a>(y: YamEvent<'a>) -> Event<'a> {
    match y {
        YamEvent::DocStart => Event::DocumentStart(false),
        YamEvent::DocEnd => Event::DocumentEnd,
        YamEvent::StreamEnd => Event::StreamEnd,
        YamEvent::Alias(i) => Event::Alias(i),
        YamEvent::Scalar(s) => Event::Scalar(s),
        YamEvent::SeqStart(i, t) => Event::SequenceStart(i, t),
        YamEvent::SeqEnd => Event::SequenceEnd,
        YamEvent::MapStart(i, t) => Event::MappingStart(i, t),
        YamEvent::MapEnd => Event::MappingEnd,
    }
}

pub fn run() {
    let (v, _) = template(0);
    let text = as_str(&v);
    let base = pull(text);
    out(base.0.len() as u64);
    out(base.1.is_some() as u64);
    cover(base.1.is_some() as u32);
    // iterator
    let mut it: Stream = (Vec::new(), None);
    for r in Parser::new_from_str(text) {
        match r {
            Ok(e) => it.0.push(e),
            Err(e) => {
                it.1 = Some(e);
                break;
            }
        }
    }
    eq(&base, &it, "C05: iterating gives other events than next_event");
    // peeking
    let mut p = Parser::new_from_str(text);
    let mut pk: Stream = (Vec::new(), None);
    loop {
        let n = match p.peek() {
            None => {
                check(p.next_event().is_none(), "C05: next_event returned an event after peek returned None");
                break;
            }
            Some(Ok(e)) => e.clone(),
            Some(Err(e)) => {
                pk.1 = Some(e);
                break;
            }
        };
        let again = match p.peek() {
            Some(Ok(e)) => *e == n,
            _ => false,
        };
        check(again, "C05: peeking twice gives different events");
        match p.next_event() {
            Some(Ok(e)) => {
                check(e == n, "C05: next_event returned something else than peek");
                pk.0.push(e);
            }
            _ => {
                check(false, "C05: next_event returned something else than peek");
                return;
            }
        }
    }
    eq(&base, &pk, "C05: peeking changes the event stream");
    // push interface, whole stream
    for peeked in [false, true] {
        let mut p = Parser::new_from_str(text);
        let mut r = Recv(Vec::new());
        if peeked {
            let _ = p.peek();
        }
        let e = p.load(&mut r, true).err();
        eq(&base, &(r.0, e), if peeked { "C05: load after peek pushes other events than next_event returns" } else { "C05: load pushes other events than next_event returns" });
    }
    // push interface, document by document
    let mut p = Parser::new_from_str(text);
    let mut r = Recv(Vec::new());
    let mut e = None;
    for _ in 0..v.len() + 3 {
        let n = r.0.len();
        e = p.load(&mut r, false).err();
        if e.is_some() || matches!(r.0.last(), Some((Event::StreamEnd, _))) || r.0.len() == n {
            break;
        }
    }
    // the final StreamEnd carries the marker of the end of the stream, or an error prevents it
    let doc: Stream = (r.0, e);
    check(doc.0.len() == base.0.len() && doc.1 == base.1, "C05: loading document by document gives other events than next_event");
    for i in 0..doc.0.len().min(base.0.len()) {
        check(ev_eq(&conv(&doc.0[i].0), &conv(&base.0[i].0)), "C05: loading document by document gives other events than next_event");
    }
    // simplified iterator: the events of the first document
    let mut want = Vec::new();
    for (e, _) in &base.0 {
        match e {
            Event::StreamStart | Event::Comment(_) => {}
            Event::StreamEnd => break,
            Event::DocumentStart(_) => want.push(conv(&Event::DocumentStart(false))),
            e => want.push(conv(e)),
        }
        if matches!(e, Event::DocumentEnd) {
            break;
        }
    }
    let mut got = Vec::new();
    for e in ParserIter::from_str_ref(&text) {
        got.push(conv(&to_event(e)));
        if got.len() > want.len() {
            break;
        }
    }
    same(&want, &got, "C05: ParserIter gives other events than the parser for the first document");
}
