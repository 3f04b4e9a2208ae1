//! C09: literal and folded block scalars against a reference written from the YAML 1.2 text.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;

/// (text before the header, indentation of the parent node, text after the body, events before, after)
fn ctx(i: u64) -> (&'static [u8], i32, &'static [u8], u64, Vec<Ev>, Vec<Ev>) {
    let s = simple;
    let k = |v: &[u8]| scalar(PLAIN, v);
    let (mut a, mut b) = (Vec::new(), Vec::new());
    match i {
        0 => (b"", -1, b"", DOC_IMPLICIT, a, b),
        1 => (b"--- ", -1, b"...\n", DOC_EXPLICIT, a, b),
        2 => {
            a.push(s(SEQ));
            b.extend([k(b"z"), s(SEQ_END)]);
            (b"- ", 0, b"- z\n", DOC_IMPLICIT, a, b)
        }
        3 => {
            a.extend([s(MAP), k(b"k")]);
            b.extend([k(b"l"), k(b"z"), s(MAP_END)]);
            (b"k: ", 0, b"# c\nl: z\n", DOC_IMPLICIT, a, b)
        }
        4 => {
            a.extend([s(MAP), k(b"a"), s(MAP), k(b"b")]);
            b.extend([k(b"c"), k(b"d"), s(MAP_END), s(MAP_END)]);
            (b"a:\n  b: ", 2, b"  c: d\n", DOC_IMPLICIT, a, b)
        }
        5 => {
            a.extend([s(SEQ), s(SEQ)]);
            b.extend([s(SEQ_END), k(b"z"), s(SEQ_END)]);
            (b"- - ", 2, b" # c\n- z\n", DOC_IMPLICIT, a, b)
        }
        6 => {
            a.extend([s(SEQ), s(MAP), k(b"k")]);
            b.extend([k(b"l"), k(b"m"), s(MAP_END), s(SEQ_END)]);
            (b"- k: ", 2, b"  l: m\n", DOC_IMPLICIT, a, b)
        }
        7 => {
            a.push(s(MAP));
            b.extend([k(b"v"), s(MAP_END)]);
            (b"? ", 0, b": v\n", DOC_IMPLICIT, a, b)
        }
        8 => {
            // a sequence at the indentation of its parent mapping
            a.extend([s(MAP), k(b"a"), s(SEQ)]);
            b.extend([s(SEQ_END), k(b"c"), k(b"d"), s(MAP_END)]);
            (b"a:\n- ", 0, b"c: d\n", DOC_IMPLICIT, a, b)
        }
        // another document follows
        10 => (b"--- ", -1, b"---\nz\n", DOC_EXPLICIT, a, b),
        _ => {
            // the header on its own line
            a.extend([s(MAP), k(b"a")]);
            b.extend([k(b"c"), k(b"d"), s(MAP_END)]);
            (b"a:\n    ", 0, b"c: d\n", DOC_IMPLICIT, a, b)
        }
    }
}

struct Line {
    start: usize,
    end: usize,
    spaces: usize,
}
/// None: malformed
fn reference(b: &[u8], n: i32, explicit: usize, chomp: u64, folded: bool) -> Option<Vec<u8>> {
    let mut lines: Vec<Line> = Vec::new();
    let mut s = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            let mut sp = s;
            while b[sp] == b' ' {
                sp += 1;
            }
            lines.push(Line { start: s, end: i, spaces: sp - s });
            s = i + 1;
        }
    }
    let min = (n + 1) as usize;
    assume(b.is_empty() || b[0] != b'\t');
    let mut indent = min;
    let mut invalid = false;
    if explicit > 0 {
        indent = (n + explicit as i32) as usize;
    } else {
        let mut most = 0;
        for l in &lines {
            if l.start + l.spaces == l.end {
                most = most.max(l.spaces);
            } else {
                indent = l.spaces;
                assume(indent >= min);
                invalid = most > indent;
                most = 0;
                break;
            }
        }
        // nothing but empty lines
        indent = indent.max(most);
    }
    let mut out = Vec::new();
    let mut empties = 0;
    let mut prev: Option<bool> = None;
    for l in &lines {
        if l.spaces < indent || l.end - l.start == indent {
            // less indented text does not belong to the scalar
            assume(l.start + l.spaces == l.end || l.spaces >= indent);
            empties += 1;
            continue;
        }
        let t = &b[l.start + indent..l.end];
        if indent == 0 && t.len() >= 3 && t[0] == t[1] && t[1] == t[2] && (t[0] == b'-' || t[0] == b'.') {
            // possibly a document marker
            assume(t.len() > 3 && t[3] != b' ' && t[3] != b'\t');
        }
        let spaced = t[0] == b' ' || t[0] == b'\t';
        match prev {
            None => {
                for _ in 0..empties {
                    out.push(b'\n');
                }
            }
            Some(p) => {
                if !folded || p || spaced {
                    out.push(b'\n');
                } else if empties == 0 {
                    out.push(b' ');
                }
                for _ in 0..empties {
                    out.push(b'\n');
                }
            }
        }
        out.extend_from_slice(t);
        prev = Some(spaced);
        empties = 0;
    }
    if prev.is_some() && chomp != 1 {
        out.push(b'\n');
    }
    if chomp == 2 {
        for _ in 0..empties {
            out.push(b'\n');
        }
    }
    if invalid { None } else { Some(out) }
}

/// [ctx, folded, chomp (0 clip, 1 strip, 2 keep), indentation indicator (0: none), header variant, template of the body]
pub fn run() {
    let (pre, n, post, doc, mut ev, after) = ctx(param(0));
    let folded = param(1) == 1;
    let chomp = param(2);
    let explicit = param(3) as usize;
    let hdr = param(4);
    let (body, _) = template(5);
    for &x in &body {
        assume(x >= 0x20 && x != 0x7f || x == b'\n' || x == b'\t');
    }
    if !body.is_empty() {
        assume(body[body.len() - 1] == b'\n');
    }
    let r = reference(&body, n, explicit, chomp, folded);
    let mut t = pre.to_vec();
    t.push(if folded { b'>' } else { b'|' });
    let c: &[u8] = match chomp {
        0 => b"",
        1 => b"-",
        _ => b"+",
    };
    if hdr & 1 == 0 {
        t.extend_from_slice(c);
    }
    if explicit > 0 {
        t.push(b'0' + explicit as u8);
    }
    if hdr & 1 == 1 {
        t.extend_from_slice(c);
    }
    match hdr >> 1 {
        0 => {}
        1 => t.extend_from_slice(b" \t"),
        _ => t.extend_from_slice(b" # x"),
    }
    t.push(b'\n');
    t.extend_from_slice(&body);
    t.extend_from_slice(post);
    let (got, ok) = collect_nc(as_str(&t));
    out_evs(&got);
    out(ok as u64);
    match r {
        None => {
            cover(0);
            check(!ok, "a block scalar whose leading empty lines are indented too much is accepted");
        }
        Some(v) => {
            cover(1);
            check(ok, "a well-formed block scalar is rejected");
            ev.push(scalar(if folded { FOLDED } else { LITERAL }, &v));
            ev.extend(after);
            if param(0) == 10 {
                ev.extend([simple(DOC_END), simple(DOC_EXPLICIT), scalar(PLAIN, b"z")]);
            }
            same(&stream(doc, &ev), &got, "a block scalar has the wrong value");
        }
    }
}
