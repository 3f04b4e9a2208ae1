//! C22 (a node reads the same wherever it is nested), C23 (a stream reads as its parts).
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;

fn is_nl(b: u8) -> bool {
    b == b'\n' || b == b'\r'
}
/// a line of the text starts with a document marker or (if `directives`) a `%`
fn has_marker(v: &[u8], directives: bool) -> bool {
    let mut start = true;
    for i in 0..v.len() {
        if start {
            if directives && v[i] == b'%' {
                return true;
            }
            if i + 2 < v.len() && (v[i] == b'-' || v[i] == b'.') && v[i] == v[i + 1] && v[i] == v[i + 2] {
                return true;
            }
        }
        start = is_nl(v[i]);
    }
    false
}
/// every line that is not empty, but the first if `!first`, moved `n` columns to the right
fn indent(r: &mut Vec<u8>, v: &[u8], n: usize, first: bool) {
    let mut start = first;
    for &b in v {
        let nl = is_nl(b);
        if start && !nl {
            for _ in 0..n {
                r.push(b' ');
            }
        }
        r.push(b);
        start = nl;
    }
}
/// [mode, ...template]: 0 value of a key on its own lines, 1 sequence entry, 2 explicit key, 3 explicit value
pub fn nested() {
    let mode = param(0);
    let (mut v, _) = template(1);
    if v.last() != Some(&b'\n') {
        v.push(b'\n');
    }
    assume(!has_marker(&v, true));
    let (x, ok) = collect(as_str(&v));
    let mut t = Vec::new();
    let (pre, post): (Vec<Ev>, Vec<Ev>);
    let p = |s: &[u8]| scalar(PLAIN, s);
    match mode {
        0 => {
            let n = 1 + choice(3) as usize;
            t.extend_from_slice(b"k:\n");
            indent(&mut t, &v, n, true);
            t.extend_from_slice(b"z: w\n");
            pre = [simple(MAP), p(b"k")].to_vec();
            post = [p(b"z"), p(b"w"), simple(MAP_END)].to_vec();
        }
        1 => {
            t.extend_from_slice(b"- ");
            indent(&mut t, &v, 2, false);
            t.extend_from_slice(b"- w\n");
            pre = [simple(SEQ)].to_vec();
            post = [p(b"w"), simple(SEQ_END)].to_vec();
        }
        2 => {
            t.extend_from_slice(b"?  ");
            indent(&mut t, &v, 3, false);
            t.extend_from_slice(b": w\n");
            pre = [simple(MAP)].to_vec();
            post = [p(b"w"), simple(MAP_END)].to_vec();
        }
        _ => {
            t.extend_from_slice(b"? k\n: ");
            indent(&mut t, &v, 2, false);
            t.extend_from_slice(b"? z\n: w\n");
            pre = [simple(MAP), p(b"k")].to_vec();
            post = [p(b"z"), p(b"w"), simple(MAP_END)].to_vec();
        }
    }
    let (y, ok2) = collect(as_str(&t));
    out_evs(&y);
    out(ok as u64 | (ok2 as u64) << 1);
    if !ok {
        check(!ok2, "C22: a text that is rejected alone is accepted as a nested node");
        return;
    }
    // exactly one document
    if x.len() < 5 {
        return;
    }
    let n = x.len() - 1;
    assume(x[1].k == DOC_IMPLICIT && x[n - 1].k == DOC_END && !x[2..n - 1].iter().any(|e| e.k == DOC_END));
    cover(1);
    check(ok2, "C22: a node accepted alone is rejected where it is nested");
    let mut w = pre;
    w.extend_from_slice(&x[2..n - 1]);
    w.extend_from_slice(&post);
    same(&stream(DOC_IMPLICIT, &w), &y, "C22: a node reads differently where it is nested");
}
/// [mode, first n words.., template 1, template 2]: 0 `...` between, 1 `---` between
pub fn concat() {
    let mode = param(0);
    let (mut v, at) = template(1);
    let (w, _) = template(at);
    if v.last() != Some(&b'\n') {
        v.push(b'\n');
    }
    let (x, ok1) = collect(as_str(&v));
    assume(ok1);
    let (y, ok2) = collect(as_str(&w));
    if mode == 1 {
        // the second text starts with its first node
        assume(y.len() > 1 && y[1].k == DOC_IMPLICIT && !has_marker(&w[..w.len().min(3)], true));
    }
    let mut t = v.clone();
    t.extend_from_slice(if mode == 0 { b"...\n" } else { b"---\n" });
    t.extend_from_slice(&w);
    let (z, ok) = collect(as_str(&t));
    out_evs(&z);
    out(ok as u64 | (ok1 as u64) << 1 | (ok2 as u64) << 2);
    let mut e: Vec<Ev> = x[..x.len() - 1].to_vec();
    let ids = e.iter().filter(|e| e.anchor != 0 && e.k != ALIAS).count();
    let add = |e: &Ev| {
        let mut e = e.clone();
        if e.anchor != 0 {
            e.anchor += ids;
        }
        e
    };
    check(ok == ok2, "C23: a document is accepted or rejected differently after another one");
    if mode == 0 {
        e.extend(y[1..].iter().map(add));
    } else if y.len() > 1 {
        // the marker makes the start of the second document explicit
        e.push(simple(DOC_EXPLICIT));
        e.extend(y[2..].iter().map(add));
    }
    if ok {
        cover(1);
    } else {
        cover(2);
    }
    // in a stream that ends in an error, what comes before it is reported all the same
    same(&e, &z, "C23: documents read differently in one stream");
}
/// [template], C25: the letter `a` of the template (its byte 0x61) stands for any other letter
pub fn letters() {
    let (v, _) = template(0);
    // tags, directives and escapes give particular letters a meaning
    for &b in &v {
        assume(b != b'!' && b != b'%' && b != b'\\');
    }
    let mut c = Vec::new();
    match choice(4) {
        0 => {
            let b = byte();
            assume(b.is_ascii_alphabetic());
            c.push(b);
        }
        1 => utf8_2(&mut c),
        2 => utf8_3(&mut c),
        _ => utf8_4(&mut c),
    }
    // printable, and neither a line break of YAML 1.1 nor a byte order mark
    match c.len() {
        2 => assume(c[0] != 0xc2 || c[1] > 0xa0),
        3 => {
            assume(c[0] != 0xe2 || c[1] != 0x80 || c[2] < 0xa8 || c[2] > 0xa9);
            assume(c[0] != 0xef);
        }
        _ => {}
    }
    let mut t = Vec::new();
    for &b in &v {
        if b == b'a' {
            t.extend_from_slice(&c);
        } else {
            t.push(b);
        }
    }
    let (mut x, ok1) = collect(as_str(&v));
    let (y, ok2) = collect(as_str(&t));
    out_evs(&y);
    out(ok1 as u64 | (ok2 as u64) << 1);
    cover(ok1 as u32);
    check(ok1 == ok2, "C25: which letters a text uses decides whether it is accepted");
    for e in &mut x {
        let mut n = Vec::new();
        for &b in &e.val {
            if b == b'a' {
                n.extend_from_slice(&c);
            } else {
                n.push(b);
            }
        }
        e.val = n;
    }
    same(&x, &y, "C25: the structure of a text depends on which letters it uses");
}

/// [n words.., before], [blanks holding a tab], [template after]: C26
pub fn tabs() {
    use yam_core::parsing::{Event, Parser};
    let (mut v, at) = template(0);
    let from = v.len();
    let (b, at) = template(at);
    let to = from + b.len();
    let (w, _) = template(at);
    let mut t = v.clone();
    t.extend_from_slice(&b);
    t.extend_from_slice(&w);
    // the same with spaces
    v.resize(to, b' ');
    v.extend_from_slice(&w);
    let mut end = to;
    while end < v.len() && !is_nl(v[end]) {
        end += 1;
    }
    let mut x = Vec::new();
    let mut ok1 = true;
    let mut block = false;
    let mut flow = Vec::new();
    let mut p = Parser::new_from_str(as_str(&v));
    loop {
        match p.next_event() {
            None => break,
            Some(Err(_)) => {
                ok1 = false;
                break;
            }
            Some(Ok((e, s))) => {
                match e {
                    Event::SequenceStart(..) | Event::MappingStart(..) => {
                        let i = s.start.pos;
                        let in_flow = flow.last() == Some(&true) || i < v.len() && (v[i] == b'[' || v[i] == b'{') && s.end.pos > i;
                        if !in_flow && i >= from && i <= end {
                            block = true;
                        }
                        flow.push(in_flow);
                    }
                    Event::SequenceEnd | Event::MappingEnd => {
                        flow.pop();
                    }
                    _ => {}
                }
                x.push(conv(&e));
            }
        }
    }
    let (y, ok2) = collect(as_str(&t));
    out_evs(&y);
    out(ok1 as u64 | (ok2 as u64) << 1 | (block as u64) << 2);
    // at the start of a line, an indentation depends on the tab if the text reads differently with only the spaces before it
    let mut dep = false;
    let mut at = from;
    while at > 0 && t[at - 1] == b' ' {
        at -= 1;
    }
    if at > 0 && is_nl(t[at - 1]) {
        let mut u = t[..from].to_vec();
        for &c in &b {
            if c != b' ' {
                break;
            }
            u.push(b' ');
        }
        let mut i = 0;
        while i < w.len() && (w[i] == b' ' || w[i] == b'\t') {
            i += 1;
        }
        // at column 0, it may become a document marker
        assume(!(u.len() == at && has_marker(&w[i..], false)));
        u.extend_from_slice(&w[i..]);
        let (z, ok3) = collect(as_str(&u));
        dep = ok3 != ok1 || !same_evs(&x, &z);
    }
    if ok2 {
        cover(1);
        check(ok1, "C26: a text is accepted with a tab but not with spaces");
        check(!block, "C26: a tab indents a block collection");
        check(!dep, "C26: a tab serves as indentation");
        same(&x, &y, "C26: a separating tab changes the events");
    } else {
        cover(2);
        check(!ok1 || block || dep, "C26: a tab is rejected although no indentation depends on it");
    }
}

/// start of the line of position `p`, and the number of spaces it starts with
fn line_of(t: &[u8], p: usize) -> (usize, usize) {
    let mut s = p.min(t.len());
    while s > 0 && !is_nl(t[s - 1]) {
        s -= 1;
    }
    let mut n = 0;
    while s + n < t.len() && t[s + n] == b' ' {
        n += 1;
    }
    (s, n)
}
fn blank_at(t: &[u8], p: usize) -> bool {
    p >= t.len() || t[p] == b' ' || t[p] == b'\t' || is_nl(t[p])
}
#[derive(Clone)]
struct Coll {
    block: bool,
    map: bool,
    start: usize,
    col: usize,
    n: usize,
    /// line of the last child of even index
    key_line: usize,
}
/// [template]: C29
pub fn columns() {
    use yam_core::parsing::{Event, Parser};
    use yam_core::prelude::ScalarType;
    let (t, _) = template(0);
    let mut evs = Vec::new();
    let mut p = Parser::new_from_str(as_str(&t));
    loop {
        match p.next_event() {
            None => break,
            Some(Err(_)) => {
                out(0);
                return;
            }
            Some(Ok((e, s))) => {
                let k = match &e {
                    Event::Scalar(v) => match v.scalar_type {
                        ScalarType::Plain => 1,
                        ScalarType::DoubleQuote | ScalarType::SingleQuote => 2,
                        _ => 3,
                    },
                    Event::Alias(_) => 4,
                    Event::SequenceStart(..) => 5,
                    Event::MappingStart(..) => 6,
                    Event::SequenceEnd | Event::MappingEnd => 7,
                    Event::DocumentStart(_) => 8,
                    _ => continue,
                };
                evs.push((k, s.start.pos, s.end.pos));
            }
        }
    }
    out(1);
    cover(1);
    let mut stack: Vec<Coll> = Vec::new();
    for &(k, p, end) in &evs {
        out(k as u64 | (p as u64) << 8);
        if k == 8 {
            stack.clear();
            continue;
        }
        let (ls, sp) = line_of(&t, p);
        let b = stack.iter().rposition(|c| c.block);
        if k == 7 {
            let Some(c) = stack.pop() else { return };
            if let (false, Some(b)) = (c.block, b) {
                let close = p < t.len() && (t[p] == b']' || t[p] == b'}');
                check(!close || ls == line_of(&t, c.start).0 || sp > stack[b].col, "C29: the end of a flow collection is not indented more than the block collection around it");
            }
            continue;
        }
        let in_flow = stack.last().is_some_and(|c| !c.block);
        let flow = in_flow || p < t.len() && (t[p] == b'[' || t[p] == b'{') && end > p;
        let empty = (k == 1 || k == 3) && end == p;
        let (n, key_line) = stack.last().map_or((0, 0), |c| (c.n, c.key_line));
        if let Some(c) = stack.last_mut() {
            if c.n % 2 == 0 {
                c.key_line = ls;
            }
            c.n += 1;
        }
        if let (Some(b), false) = (b, empty) {
            let c = stack[b].clone();
            let start_line = line_of(&t, c.start).0;
            if in_flow {
                let f = stack[b + 1].start;
                check(ls == line_of(&t, f).0 || sp > c.col, "C29: a node in a flow collection is not indented more than the block collection around it");
            } else if ls == start_line {
                check(p >= c.start, "C29: a node stands before the start of its block collection");
            } else {
                check(sp >= c.col, "C29: a node is indented less than its block collection");
                if sp == c.col {
                    let ch = t[ls + sp];
                    let ind = blank_at(&t, ls + sp + 1);
                    if !c.map {
                        check(ch == b'-' && ind, "C29: an entry of a block sequence does not start with -");
                    } else {
                        let ok = n % 2 == 0
                            || key_line == ls
                            || ind && (ch == b'?' || ch == b':')
                            || k == 5 && ch == b'-' && ind && p == ls + sp;
                        check(ok, "C29: the value of a block mapping is not indented more than the mapping");
                    }
                } else if c.map && n % 2 == 0 {
                    // the node of an explicit key on a later line
                    let mut at = ls;
                    let mut ch = 0;
                    while at > start_line {
                        let (s, n) = line_of(&t, at - 1);
                        at = s;
                        if at == start_line {
                            ch = t[c.start];
                        } else if n == c.col && s + n < t.len() && !is_nl(t[s + n]) && t[s + n] != b'#' {
                            ch = t[s + n];
                            break;
                        }
                    }
                    check(ch == b'?', "C29: a key of a block mapping is indented more than the mapping");
                }
            }
            if (k == 5 || k == 6) && !flow {
                let col = p - ls;
                check(col > c.col || k == 5 && c.map && col == c.col, "C29: a block collection is not indented more than the one around it");
            }
            if k == 1 || k == 2 {
                let mut i = p;
                while i < end {
                    if is_nl(t[i]) && i + 1 < end {
                        let (s, n) = line_of(&t, i + 1);
                        if s + n < end && !is_nl(t[s + n]) && t[s + n] != b'\t' {
                            // (tests of the repository allow quoted scalars to be indented like the sequence)
                            check(n > c.col || k == 2 && !c.map && n == c.col, "C29: a line of a scalar is not indented more than the block collection around it");
                        }
                    }
                    i += 1;
                }
            }
        }
        if k == 5 || k == 6 {
            stack.push(Coll { block: !flow, map: k == 6, start: p, col: p - ls, n: 0, key_line: 0 });
        }
    }
}
