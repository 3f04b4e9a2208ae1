//! C15 (comments and blank space are neutral), C16 (line break style is irrelevant).
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;

/// an arbitrary ASCII byte that can stand inside a comment
fn comment_byte() -> u8 {
    let b = byte();
    assume(b < 128 && b != b'\n' && b != b'\r' && b != 0);
    b
}
fn slot_eol(v: &mut Vec<u8>) {
    match choice(6) {
        0 => v.push(b' '),
        1 => v.extend_from_slice(b" \t"),
        2 => {
            v.extend_from_slice(b" #");
            v.push(comment_byte());
            v.push(comment_byte());
        }
        3 => {
            v.extend_from_slice(b"  # x\n #");
            v.push(comment_byte());
        }
        4 => {
            v.extend_from_slice(b" #\n\n");
            v.extend_from_slice(b"   ");
        }
        _ => {
            v.extend_from_slice(b"\t#\xc3\xa9");
            v.push(comment_byte());
        }
    }
}
fn slot_hdr(v: &mut Vec<u8>) {
    match choice(3) {
        0 => v.push(b' '),
        1 => v.extend_from_slice(b" \t"),
        _ => {
            v.extend_from_slice(b" #");
            v.push(comment_byte());
            v.push(comment_byte());
        }
    }
}
fn slot_line(v: &mut Vec<u8>) {
    match choice(5) {
        0 => v.push(b'\n'),
        1 => v.extend_from_slice(b"   \n"),
        2 => {
            v.push(b'#');
            v.push(comment_byte());
            v.push(comment_byte());
            v.push(b'\n');
        }
        3 => {
            v.extend_from_slice(b"     #");
            v.push(comment_byte());
            v.extend_from_slice(b"\n\n");
        }
        _ => v.extend_from_slice(b" #: [\n# - x\n"),
    }
}
fn slot_space(v: &mut Vec<u8>) {
    match choice(3) {
        0 => v.push(b' '),
        1 => v.extend_from_slice(b"   "),
        _ => v.extend_from_slice(b" \t "),
    }
}
/// [which, n, w..]: like template, plus 300 = end-of-line slot, 301 = own-line slot, 302 = space slot,
/// 303 = end-of-line slot that stays on its line;
/// only slot number `which` (or a pair i, j given as 1000 + 1000 i + j) is filled in the second text
fn two_texts(off: usize) -> (Vec<u8>, Vec<u8>, Vec<(usize, usize)>) {
    let mut added = Vec::new();
    let which = param(off);
    let n = param(off + 1) as usize;
    let (mut a, mut b) = (Vec::new(), Vec::new());
    let mut slot = 0;
    for i in 0..n {
        let w = param(off + 2 + i);
        match w {
            0..=255 => {
                a.push(w as u8);
                b.push(w as u8);
            }
            300..=303 => {
                if w == 302 {
                    a.push(b' ');
                    b.push(b' ');
                }
                if which == slot || which >= 1000 && (which / 1000 - 1 == slot || which % 1000 == slot) {
                    let from = b.len();
                    match w {
                        300 => slot_eol(&mut b),
                        301 => slot_line(&mut b),
                        303 => slot_hdr(&mut b),
                        _ => slot_space(&mut b),
                    }
                    added.push((from, b.len()));
                }
                slot += 1;
            }
            _ => {
                // one letter or digit
                let c = byte();
                assume(c.is_ascii_alphanumeric());
                a.push(c);
                b.push(c);
            }
        }
    }
    (a, b, added)
}
/// start and end of the comments in a part of a text whose every # starts a comment or is in one
fn find_comments(v: &[u8], from: usize, to: usize, r: &mut Vec<(usize, usize)>) {
    let mut i = from;
    while i < to {
        if v[i] == b'#' {
            let mut e = i;
            while e < v.len() && v[e] != b'\n' {
                e += 1;
            }
            r.push((i, e));
            i = e;
        } else {
            i += 1;
        }
    }
}
/// C28 (feature `comment`): the added comments are reported, verbatim, in place, and nothing else changes
pub fn reported() {
    let (a, b, added) = two_texts(0);
    let mut exp = Vec::new();
    for (f, t) in added {
        find_comments(&b, f, t, &mut exp);
    }
    let (x, ok1) = collect(as_str(&a));
    check(ok1, "C28: the text without comments is rejected");
    let (y, ok2) = spanned(as_str(&b));
    for (e, s, _) in &y {
        out_ev(e);
        out(*s as u64);
    }
    check(ok2, "C28: a text with comments is rejected");
    comments_of(&b, &y, Some(&exp));
    let z: Vec<Ev> = y.into_iter().map(|e| e.0).filter(|e| e.k != COMMENT).collect();
    same(&x, &z, "C28: comments change the other events");
}
pub fn spanned(text: &str) -> (Vec<(Ev, usize, usize)>, bool) {
    let mut p = yam_core::parsing::Parser::new_from_str(text);
    let mut v = Vec::new();
    let ok = loop {
        match p.next_event() {
            None => break true,
            Some(Ok((e, s))) => v.push((conv(&e), s.start.pos, s.end.pos)),
            Some(Err(_)) => break false,
        }
    };
    let mut evs: Vec<Ev> = v.iter().map(|e| e.0.clone()).collect();
    renumber(&mut evs);
    for (e, n) in v.iter_mut().zip(evs) {
        e.0 = n;
    }
    (v, ok)
}
/// every reported comment is a comment of the text, reported once, in its place
fn comments_of(text: &[u8], y: &[(Ev, usize, usize)], exp: Option<&[(usize, usize)]>) {
    let mut n = 0;
    let mut last = 0;
    for (e, s, t) in y {
        check(*s >= last, "C28: an event is reported after one that starts later");
        last = *s;
        if e.k != COMMENT {
            continue;
        }
        check(s < t && *t <= text.len(), "C28: the span of a comment is not a part of the text");
        check(text[*s] == b'#', "C28: a comment does not start with #");
        check(*s == 0 || matches!(text[*s - 1], b' ' | b'\t' | b'\n' | b'\r') || *s == 3 && text[0] == 0xef, "C28: a comment starts inside other content");
        check(*t == text.len() || matches!(text[*t], b'\n' | b'\r'), "C28: a comment ends before its line does");
        let mut nl = false;
        for &b in &text[*s..*t] {
            nl |= b == b'\n' || b == b'\r';
        }
        check(!nl, "C28: a comment goes on after the end of its line");
        check(bytes_eq(&e.val, &text[*s..*t]), "C28: the text of a comment is not the part of the input it spans");
        if let Some(x) = exp {
            check(n < x.len() && x[n] == (*s, *t), "C28: something else than the next comment of the text is reported");
        }
        n += 1;
    }
    if let Some(x) = exp {
        check(n == x.len(), "C28: a comment is not reported");
    }
}
/// C28: any text: what is reported as a comment is one, and taking it out changes nothing else
pub fn reported_any() {
    let (v, _) = template(0);
    for &b in &v {
        assume(b != 0);
    }
    let (y, ok) = spanned(as_str(&v));
    for (e, s, _) in &y {
        out_ev(e);
        out(*s as u64);
    }
    out(ok as u64);
    comments_of(&v, &y, None);
    if !ok {
        return;
    }
    let mut w = Vec::with_capacity(v.len());
    let mut at = 0;
    let mut any = false;
    for (e, s, t) in &y {
        if e.k == COMMENT {
            any = true;
            w.extend_from_slice(&v[at..*s]);
            at = *t;
        }
    }
    w.extend_from_slice(&v[at..]);
    cover(any as u32);
    if any {
        let (z, ok2) = collect(as_str(&w));
        check(ok2, "C28: the text is rejected without its comments");
        let y: Vec<Ev> = y.into_iter().map(|e| e.0).filter(|e| e.k != COMMENT).collect();
        same(&y, &z, "C28: taking the comments out changes the other events");
    }
}
pub fn comments() {
    let (a, b, _) = two_texts(0);
    let (x, ok1) = collect_nc(as_str(&a));
    check(ok1, "C15: the text without comments is rejected");
    let (y, ok2) = collect_nc(as_str(&b));
    out_evs(&y);
    check(ok2, "C15: adding comments or blank space makes the text invalid");
    same(&x, &y, "C15: adding comments or blank space changes the events");
}

/// mode 0: LF -> CRLF, 1: LF -> CR, 2: each LF -> any style
pub fn breaks() {
    let mode = param(0);
    let (v, _) = template(1);
    let mut w = Vec::with_capacity(v.len() * 2);
    for &b in &v {
        assume(b != b'\r');
        if b == b'\n' {
            match if mode == 2 { choice(3) as u64 } else { mode } {
                0 => w.extend_from_slice(b"\r\n"),
                1 => w.push(b'\r'),
                // a CR just before would make it one break
                _ if w.last() == Some(&b'\r') => w.extend_from_slice(b"\r\n"),
                _ => w.push(b'\n'),
            }
        } else {
            w.push(b);
        }
    }
    let (x, ok1) = collect_nc(as_str(&v));
    let (y, ok2) = collect_nc(as_str(&w));
    out_evs(&y);
    out(ok2 as u64);
    cover(ok1 as u32);
    check(ok1 == ok2, "C16: another line break style changes whether the text is accepted");
    same(&x, &y, "C16: another line break style changes the events");
}
