//! Parser-level obligations over arbitrary text: no panic / UB (C01), termination (C02),
//! event grammar (C03), spans (C04).
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;
use yam_core::parsing::{Event, Parser};
use yam_core::prelude::{Marker, Span, YamlError};

pub const CONT_ERR: u64 = 1;
pub const GRAMMAR: u64 = 2;
pub const SPANS: u64 = 4;
pub const BOUND: u64 = 8;

pub fn kind(e: &Event) -> u64 {
    match e {
        Event::Nothing => 0,
        Event::StreamStart => 1,
        Event::StreamEnd => 2,
        Event::DocumentStart(false) => 3,
        Event::DocumentStart(true) => 4,
        Event::DocumentEnd => 5,
        Event::Alias(_) => 6,
        Event::Comment(_) => 7,
        Event::Scalar(_) => 8,
        Event::SequenceStart(..) => 9,
        Event::SequenceEnd => 10,
        Event::MappingStart(..) => 11,
        Event::MappingEnd => 12,
    }
}
pub fn emit(e: &Event) {
    out(kind(e));
    match e {
        Event::Alias(i) => out(*i as u64),
        Event::Scalar(s) => {
            out(s.scalar_type as u64);
            out(s.anchor_id as u64);
            out(s.tag.is_some() as u64);
            out_bytes(s.value.as_bytes());
        }
        Event::SequenceStart(i, t) | Event::MappingStart(i, t) => {
            out(*i as u64);
            out(t.is_some() as u64);
        }
        _ => {}
    }
}

/// Automaton for the event grammar.
pub struct Grammar {
    started: bool,
    ended: bool,
    in_doc: bool,
    root_done: bool,
    // stack: 0 = sequence, 1 = mapping expecting key, 2 = mapping expecting value
    stack: Vec<u8>,
}
impl Grammar {
    pub fn new() -> Self {
        Grammar { started: false, ended: false, in_doc: false, root_done: false, stack: Vec::new() }
    }
    fn node(&mut self) {
        check(self.in_doc, "C03: node outside a document");
        if let Some(t) = self.stack.last_mut() {
            match *t {
                1 => *t = 2,
                2 => *t = 1,
                _ => {}
            }
        } else {
            check(!self.root_done, "C03: document with more than one root node");
            self.root_done = true;
        }
    }
    pub fn step(&mut self, e: &Event) {
        check(!self.ended, "C03: event after StreamEnd");
        match e {
            Event::StreamStart => {
                check(!self.started, "C03: second StreamStart");
                self.started = true;
                return;
            }
            _ => check(self.started, "C03: event before StreamStart"),
        }
        match e {
            Event::Nothing => check(false, "C03: internal event Nothing emitted"),
            Event::StreamStart => {}
            Event::Comment(_) => {}
            Event::StreamEnd => {
                check(!self.in_doc && self.stack.is_empty(), "C03: StreamEnd inside a document");
                self.ended = true;
            }
            Event::DocumentStart(_) => {
                check(!self.in_doc, "C03: DocumentStart inside a document");
                self.in_doc = true;
                self.root_done = false;
            }
            Event::DocumentEnd => {
                check(self.in_doc && self.stack.is_empty() && self.root_done, "C03: DocumentEnd without a complete root node");
                self.in_doc = false;
            }
            Event::Alias(_) | Event::Scalar(_) => self.node(),
            Event::SequenceStart(..) => {
                self.node();
                self.stack.push(0);
            }
            Event::MappingStart(..) => {
                self.node();
                self.stack.push(1);
            }
            Event::SequenceEnd => {
                check(self.stack.pop() == Some(0), "C03: SequenceEnd does not close a sequence");
            }
            Event::MappingEnd => {
                check(self.stack.pop() == Some(1), "C03: MappingEnd does not close a mapping at a key position");
            }
        }
    }
}

/// line and column of a byte position, from the text alone (CRLF, CR and LF each end a line)
#[inline(never)]
fn line_col(text: &[u8], pos: usize) -> (usize, usize) {
    let (mut line, mut start) = (1, 0);
    let mut i = 0;
    while i < pos {
        let b = text[i];
        if b == b'\n' || (b == b'\r' && text.get(i + 1) != Some(&b'\n')) {
            line += 1;
            start = i + 1;
        }
        i += 1;
    }
    (line, pos - start + 1)
}
fn marker_ok(m: &Marker, text: &[u8], ascii: bool) -> bool {
    if !ascii || m.pos >= text.len() {
        return true;
    }
    let (l, c) = line_col(text, m.pos);
    m.line as usize == l && m.col as usize == c
}

struct Spans {
    prev: usize,
    ascii: bool,
}
impl Spans {
    fn step(&mut self, e: &Event, s: &Span, text: &[u8]) {
        let n = text.len();
        check(s.start.pos <= n && s.end.pos <= n, "C04: marker beyond the input");
        check(s.start.pos <= s.end.pos, "C04: span ends before it starts");
        check(s.start.pos >= self.prev || matches!(e, Event::StreamEnd), "C04: event starts before its predecessor");
        self.prev = s.start.pos.max(self.prev);
        check(marker_ok(&s.start, text, self.ascii), "C04: line/column of a span start disagrees with its position");
        check(marker_ok(&s.end, text, self.ascii), "C04: line/column of a span end disagrees with its position");
    }
}

pub fn run() {
    let mode = param(0);
    let (v, _) = template(1);
    let text = as_str(&v);
    let mut p = Parser::new_from_str(text);
    let bound = 6 * v.len() + 12;
    let mut n = 0usize;
    let mut errs = 0;
    let mut g = Grammar::new();
    let mut sp = Spans { prev: 0, ascii: v.is_ascii() };
    loop {
        match p.next_event() {
            None => {
                check(mode & GRAMMAR == 0 || errs > 0 || g.ended, "C03: stream finished without StreamEnd");
                if errs == 0 {
                    cover(0);
                }
                break;
            }
            Some(Ok((ev, s))) => {
                emit(&ev);
                out(s.start.pos as u64);
                out(s.end.pos as u64);
                if mode & GRAMMAR != 0 && errs == 0 {
                    g.step(&ev);
                }
                if mode & SPANS != 0 && errs == 0 {
                    sp.step(&ev, &s, &v);
                }
            }
            Some(Err(e)) => {
                cover(1);
                errs += 1;
                out(99);
                if let YamlError::ScannerErr { mark, .. } = &e {
                    out(mark.pos as u64);
                    check(mode & SPANS == 0 || mark.pos <= v.len(), "C04: error marker beyond the input");
                    check(mode & SPANS == 0 || marker_ok(mark, &v, sp.ascii), "C04: line/column of an error marker disagrees with its position");
                }
                if mode & CONT_ERR == 0 || errs > 3 {
                    break;
                }
            }
        }
        n += 1;
        check(mode & BOUND == 0 || n <= bound, "C02: more events than the input can justify");
        if n > bound {
            break;
        }
    }
}
