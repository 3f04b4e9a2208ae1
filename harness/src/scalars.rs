//! C06 double-quoted, C07 single-quoted, C08 plain: decoding against a reference written from the YAML 1.2 text.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;

/// outcome of a reference decoder
pub enum Ref {
    Value(Vec<u8>),
    /// the text is malformed: an error must be reported
    Invalid,
}

pub struct Ctx {
    pub pre: &'static [u8],
    pub post: &'static [u8],
    /// columns a continuation line must be indented by
    pub indent: usize,
    pub multiline: bool,
    pub flow: bool,
    pub doc: u64,
    pub before: Vec<Ev>,
    pub after: Vec<Ev>,
}
fn k(v: &[u8]) -> Ev {
    scalar(PLAIN, v)
}
pub fn ctx(i: u64) -> Ctx {
    let s = simple;
    let mut c = Ctx { pre: b"", post: b"", indent: 0, multiline: true, flow: false, doc: DOC_IMPLICIT, before: Vec::new(), after: Vec::new() };
    match i {
        0 => {}
        1 => {
            c.pre = b"--- ";
            c.post = b"\n...\n";
            c.doc = DOC_EXPLICIT;
        }
        2 => {
            c.pre = b"- ";
            c.post = b"\n- z\n";
            c.indent = 1;
            c.before.push(s(SEQ));
            c.after.extend([k(b"z"), s(SEQ_END)]);
        }
        3 => {
            c.pre = b"k: ";
            c.post = b"\nl: z\n";
            c.indent = 1;
            c.before.extend([s(MAP), k(b"k")]);
            c.after.extend([k(b"l"), k(b"z"), s(MAP_END)]);
        }
        4 => {
            c.pre = b"[";
            c.post = b",z]";
            c.flow = true;
            c.before.push(s(SEQ));
            c.after.extend([k(b"z"), s(SEQ_END)]);
        }
        5 => {
            c.post = b": v\n";
            c.multiline = false;
            c.before.push(s(MAP));
            c.after.extend([k(b"v"), s(MAP_END)]);
        }
        6 => {
            c.pre = b"{k: ";
            c.post = b" }\n";
            c.flow = true;
            c.before.extend([s(MAP), k(b"k")]);
            c.after.push(s(MAP_END));
        }
        7 => {
            c.pre = b"{";
            c.post = b" : v}";
            c.flow = true;
            c.before.push(s(MAP));
            c.after.extend([k(b"v"), s(MAP_END)]);
        }
        8 => {
            c.pre = b"- - ";
            c.post = b"\n  - y\n- z";
            c.indent = 3;
            c.before.extend([s(SEQ), s(SEQ)]);
            c.after.extend([k(b"y"), s(SEQ_END), k(b"z"), s(SEQ_END)]);
        }
        9 => {
            c.pre = b"a:\n  b: ";
            c.post = b"\nc: d\n";
            c.indent = 3;
            c.before.extend([s(MAP), k(b"a"), s(MAP), k(b"b")]);
            c.after.extend([s(MAP_END), k(b"c"), k(b"d"), s(MAP_END)]);
        }
        10 => {
            c.pre = b"? ";
            c.post = b"\n: v\n";
            c.indent = 1;
            c.before.push(s(MAP));
            c.after.extend([k(b"v"), s(MAP_END)]);
        }
        11 => {
            c.pre = b"- k:\n   ";
            c.post = b"\n  l: m\n";
            c.indent = 3;
            c.before.extend([s(SEQ), s(MAP), k(b"k")]);
            c.after.extend([k(b"l"), k(b"m"), s(MAP_END), s(SEQ_END)]);
        }
        12 => {
            c.pre = b"- ";
            c.post = b": v\n";
            c.indent = 2;
            c.multiline = false;
            c.before.extend([s(SEQ), s(MAP)]);
            c.after.extend([k(b"v"), s(MAP_END), s(SEQ_END)]);
        }
        13 => {
            c.pre = b"a: [b, ";
            c.post = b"]\nc: d\n";
            c.indent = 1;
            c.flow = true;
            c.before.extend([s(MAP), k(b"a"), s(SEQ), k(b"b")]);
            c.after.extend([s(SEQ_END), k(b"c"), k(b"d"), s(MAP_END)]);
        }
        // a single pair in a flow sequence
        _ => {
            c.pre = b"[a: ";
            c.post = b",b: c]";
            c.flow = true;
            c.before.extend([s(SEQ), s(MAP), k(b"a")]);
            c.after.extend([s(MAP_END), s(MAP), k(b"b"), k(b"c"), s(MAP_END), s(SEQ_END)]);
        }
    }
    c
}

fn blank(b: u8) -> bool {
    b == b' ' || b == b'\t'
}
fn hexval(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a' + 10) as u32),
        b'A'..=b'F' => Some((b - b'A' + 10) as u32),
        _ => None,
    }
}
fn push_char(v: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        v.push(c as u8);
    } else if c < 0x800 {
        v.push(0xc0 | (c >> 6) as u8);
        v.push(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        v.push(0xe0 | (c >> 12) as u8);
        v.push(0x80 | (c >> 6 & 63) as u8);
        v.push(0x80 | (c & 63) as u8);
    } else {
        v.push(0xf0 | (c >> 18) as u8);
        v.push(0x80 | (c >> 12 & 63) as u8);
        v.push(0x80 | (c >> 6 & 63) as u8);
        v.push(0x80 | (c & 63) as u8);
    }
}
/// Position after the indentation and leading blanks of the continuation line at `i`, and whether
/// the line is empty.  Lines the statement leaves open (too little indentation, tabs inside the
/// indentation) are assumed away; a document marker at the margin is malformed (quoted styles).
fn line_start(b: &[u8], i: usize, c: &Ctx, marker: &mut bool) -> (usize, bool) {
    let mut j = i;
    while j < b.len() && b[j] == b' ' {
        j += 1;
    }
    let spaces = j - i;
    while j < b.len() && blank(b[j]) {
        j += 1;
    }
    let empty = j < b.len() && b[j] == b'\n';
    if empty {
        assume(j == i + spaces || spaces >= c.indent);
    } else {
        assume(spaces >= c.indent);
        if j == i && j + 3 <= b.len() {
            let m = (b[j] == b'-' && b[j + 1] == b'-' && b[j + 2] == b'-') || (b[j] == b'.' && b[j + 1] == b'.' && b[j + 2] == b'.');
            // what follows the body is not a blank in any context, a break or the end
            if m && j + 3 < b.len() && (blank(b[j + 3]) || b[j + 3] == b'\n') {
                *marker = true;
            }
        }
    }
    (j, empty)
}
/// Consumes breaks and blanks from the first break at `i` to the first non-blank of a later line.
/// Returns the position and the number of breaks.
fn breaks(b: &[u8], i: usize, c: &Ctx, marker: &mut bool) -> (usize, usize) {
    let mut n = 1;
    let mut i = i + 1;
    loop {
        let (j, empty) = line_start(b, i, c, marker);
        if !empty {
            return (j, n);
        }
        n += 1;
        i = j + 1;
    }
}
fn fold(out: &mut Vec<u8>, n: usize) {
    if n == 1 {
        out.push(b' ');
    }
    for _ in 1..n {
        out.push(b'\n');
    }
}

/// reference decoder of the text between the quotes
pub fn quoted(b: &[u8], c: &Ctx, double: bool) -> Ref {
    let mut out = Vec::new();
    let mut i = 0;
    let mut marker = false;
    while i < b.len() {
        let x = b[i];
        if x == b'\n' {
            marker |= !c.multiline;
            let (j, n) = breaks(b, i, c, &mut marker);
            fold(&mut out, n);
            i = j;
        } else if blank(x) {
            let mut j = i;
            while j < b.len() && blank(b[j]) {
                j += 1;
            }
            if j == b.len() || b[j] != b'\n' {
                out.extend_from_slice(&b[i..j]);
            }
            i = j;
        } else if !double && x == b'\'' {
            // a lone quote ends the scalar
            assume(i + 1 < b.len() && b[i + 1] == b'\'');
            out.push(b'\'');
            i += 2;
        } else if double && x == b'"' {
            assume(false);
        } else if double && x == b'\\' {
            // the closing quote follows the body
            assume(i + 1 < b.len());
            let e = b[i + 1];
            i += 2;
            let (mut digits, mut code) = (0, 0u32);
            match e {
                b'\n' => {
                    marker |= !c.multiline;
                    let (j, n) = breaks(b, i - 1, c, &mut marker);
                    for _ in 1..n {
                        out.push(b'\n');
                    }
                    i = j;
                    continue;
                }
                b'0' => {}
                b'a' => code = 7,
                b'b' => code = 8,
                b't' | b'\t' => code = 9,
                b'n' => code = 10,
                b'v' => code = 11,
                b'f' => code = 12,
                b'r' => code = 13,
                b'e' => code = 27,
                b' ' => code = 32,
                b'"' => code = 34,
                b'/' => code = 47,
                b'\\' => code = 92,
                b'N' => code = 0x85,
                b'_' => code = 0xa0,
                b'L' => code = 0x2028,
                b'P' => code = 0x2029,
                b'x' => digits = 2,
                b'u' => digits = 4,
                b'U' => digits = 8,
                _ => {
                    marker = true;
                    continue;
                }
            }
            let mut k = 0;
            while k < digits && i < b.len() {
                match hexval(b[i]) {
                    None => break,
                    Some(h) => code = code << 4 | h,
                }
                i += 1;
                k += 1;
            }
            if k < digits || code >= 0x11_0000 || (code >= 0xd800 && code < 0xe000) {
                marker = true;
                continue;
            }
            push_char(&mut out, code);
        } else {
            out.push(x);
            i += 1;
        }
    }
    if marker {
        return Ref::Invalid;
    }
    Ref::Value(out)
}

fn indicator(b: u8) -> bool {
    matches!(b, b'-' | b'?' | b':' | b',' | b'[' | b']' | b'{' | b'}' | b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'\'' | b'"' | b'%' | b'@' | b'`')
}
fn flow_ind(b: u8) -> bool {
    matches!(b, b',' | b'[' | b']' | b'{' | b'}')
}
/// reference decoder of a plain scalar; texts that are not one plain scalar are assumed away
pub fn plain(b: &[u8], c: &Ctx) -> Ref {
    let safe = |i: usize| i < b.len() && !blank(b[i]) && b[i] != b'\n' && !(c.flow && flow_ind(b[i]));
    assume(safe(0) && b.len() > 0);
    assume(!indicator(b[0]) || (matches!(b[0], b'?' | b':' | b'-') && safe(1)));
    let mut out = Vec::new();
    let mut i = 0;
    let mut marker = false;
    // at the margin of the document the first line may not be a marker either
    if c.pre.is_empty() && b.len() >= 3 && ((b[0] == b'-' && b[1] == b'-' && b[2] == b'-') || (b[0] == b'.' && b[1] == b'.' && b[2] == b'.')) {
        assume(b.len() > 3 && !blank(b[3]) && b[3] != b'\n');
    }
    let mut several = false;
    let mut prev_space = false;
    while i < b.len() {
        let x = b[i];
        if x == b'\n' || blank(x) {
            let mut j = i;
            while j < b.len() && blank(b[j]) {
                j += 1;
            }
            if j == b.len() {
                // blanks at the end do not belong to the scalar
                break;
            }
            if b[j] == b'\n' {
                several |= !c.multiline;
                let (k, n) = breaks(b, j, c, &mut marker);
                assume(k < b.len());
                fold(&mut out, n);
                i = k;
            } else {
                out.extend_from_slice(&b[i..j]);
                i = j;
            }
            prev_space = true;
            continue;
        }
        assume(!(c.flow && flow_ind(x)));
        assume(x != b'#' || !prev_space);
        assume(x != b':' || safe(i + 1));
        out.push(x);
        prev_space = false;
        i += 1;
    }
    let n = b.len();
    if n >= 4 && b[n - 4] == b'\n' {
        // a marker on the last line: whether it is one depends on what follows
        let (x, y, z) = (b[n - 3], b[n - 2], b[n - 1]);
        assume(!(x == y && y == z && (x == b'-' || x == b'.')));
    }
    assume(!marker);
    if several {
        return Ref::Invalid;
    }
    Ref::Value(out)
}

/// [style, ctx, template]
pub fn run() {
    let st = param(0);
    let c = ctx(param(1));
    let (b, _) = template(2);
    for &x in &b {
        // characters allowed in a YAML stream; other break styles are C16's
        assume(x >= 0x20 && x != 0x7f || x == b'\n' || x == b'\t');
    }
    assume(!(c.pre.is_empty() && b.starts_with(b"\xEF\xBB\xBF")));
    let r = match st {
        PLAIN => plain(&b, &c),
        _ => quoted(&b, &c, st == DOUBLE),
    };
    let mut t = c.pre.to_vec();
    let q: &[u8] = match st {
        SINGLE => b"'",
        DOUBLE => b"\"",
        _ => b"",
    };
    t.extend_from_slice(q);
    t.extend_from_slice(&b);
    t.extend_from_slice(q);
    t.extend_from_slice(c.post);
    let (got, ok) = collect_nc(as_str(&t));
    out_evs(&got);
    out(ok as u64);
    match r {
        Ref::Invalid => {
            cover(0);
            check(!ok, "a malformed scalar is accepted");
        }
        Ref::Value(v) => {
            cover(1);
            let mut body = c.before;
            body.push(scalar(st, &v));
            body.extend(c.after);
            check(ok, "a well-formed scalar is rejected");
            same(&stream(c.doc, &body), &got, "a scalar is decoded wrongly");
        }
    }
}
