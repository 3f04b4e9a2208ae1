//! C12 documents and directives, C13 anchors and aliases, C14 tags.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;
use yam_core::parsing::Parser;

struct G {
    t: Vec<u8>,
    ev: Vec<Ev>,
    /// departures from the plainest form that are left
    fancy: u64,
    /// the text must be rejected from here on
    bad: bool,
}
fn letter() -> u8 {
    let c = byte();
    assume(c.is_ascii_lowercase());
    c
}
impl G {
    fn s(&mut self, b: &[u8]) {
        self.t.extend_from_slice(b);
    }
    fn opt(&mut self, n: u32) -> u32 {
        if self.fancy == 0 {
            return 0;
        }
        let c = choice(n);
        if c != 0 {
            self.fancy -= 1;
        }
        c
    }
}

/// [documents, departures, keep_tags]
pub fn docs() {
    let n = param(0);
    let mut g = G { t: Vec::new(), ev: Vec::new(), fancy: param(1), bad: false };
    let keep = param(2) == 1;
    g.ev.push(simple(1));
    // prefix of `!e!` in force (0: not declared)
    let mut decl = 0u8;
    // a bare document or a directive may follow
    let mut ended = true;
    // the document ends with a scalar that the next line would continue
    let mut open_text = false;
    match g.opt(5) {
        1 => g.s(b"# c\n"),
        2 => g.s(b"\n \n"),
        3 => g.s(b"...\n"),
        4 => g.s(b"\xEF\xBB\xBF"),
        _ => {}
    }
    for i in 0..n {
        let mut directives = false;
        let mut good = decl;
        if !keep {
            good = 0;
        }
        if ended {
            let d = g.opt(9);
            directives = d != 0;
            match d {
                1 => g.s(b"%YAML 1.2\n"),
                2 => g.s(b"%YAML 1.1 # c\n"),
                3 => {
                    let p = letter();
                    g.s(&[b'%', b'T', b'A', b'G', b' ', b'!', b'e', b'!', b' ', p, b':', b'\n']);
                    good = p;
                }
                4 => g.s(b"%FOO bar baz\n"),
                5 => {
                    let p = letter();
                    g.s(&[b'%', b'T', b'A', b'G', b'\t', b'!', b'e', b'!', b' ', p, b':', b' ', b'\n', b'%', b'Y', b'A', b'M', b'L', b' ', b'1', b'.', b'2', b'\n']);
                    good = p;
                }
                6 => g.s(b"%FOO bar\n%BAR foo\n%TAG !f! y:\n"),
                7 => {
                    g.s(b"%YAML 1.2\n%YAML 1.2\n");
                    g.bad = true;
                }
                8 => {
                    g.s(b"%TAG !e! x:\n%TAG !e! y:\n");
                    g.bad = true;
                }
                _ => {}
            }
        } else if !open_text && g.opt(2) == 1 {
            // a directive without the end of the document before it
            g.s(b"%YAML 1.2\n---\n");
            g.bad = true;
            break;
        }
        let explicit = !ended || directives || choice(2) == 1;
        if explicit && directives && g.opt(2) == 1 {
            // directives need `---`
            g.s(b"a\n");
            g.bad = true;
            break;
        }
        g.ev.push(simple(if explicit { DOC_EXPLICIT } else { DOC_IMPLICIT }));
        let c = letter();
        let mut same_line = false;
        if explicit {
            g.s(b"---");
            match g.opt(6) {
                0 => g.s(b"\n"),
                1 => {
                    g.s(b" ");
                    same_line = true;
                }
                2 => {
                    g.s(b" \t ");
                    same_line = true;
                }
                3 => g.s(b" # c\n"),
                4 => g.s(b"\n\n# c\n"),
                _ => g.s(b" \n"),
            }
        }
        let k = if explicit { g.opt(13) } else { g.opt(11) };
        open_text = matches!(k, 2 | 3 | 5 | 9 | 10);
        match k {
            0 => {
                assume(!same_line);
                g.s(&[b'-', b' ', c, b'\n']);
                g.ev.extend([simple(SEQ), scalar(PLAIN, &[c]), simple(SEQ_END)]);
            }
            1 => {
                assume(!same_line);
                g.s(&[c, b':', b' ', c, b'\n']);
                g.ev.extend([simple(MAP), scalar(PLAIN, &[c]), scalar(PLAIN, &[c]), simple(MAP_END)]);
            }
            2 => {
                g.s(&[c, b'\n']);
                g.ev.push(scalar(PLAIN, &[c]));
            }
            3 => {
                g.s(&[c, b'\n', b'-', b'-', b'-', c, b'\n', b'%', b'.', b'.', b'\n']);
                g.ev.push(scalar(PLAIN, &[c, b' ', b'-', b'-', b'-', c, b' ', b'%', b'.', b'.']));
            }
            4 => {
                g.s(&[b'"', c, b'\n', b'%', b' ', b'.', b'.', c, b'"', b'\n']);
                g.ev.push(scalar(DOUBLE, &[c, b' ', b'%', b' ', b'.', b'.', c]));
            }
            5 => {
                g.s(&[b'|', b'\n', b'%', c, b'\n', b'-', b'-', b'\n', b' ', b'.', b'.', b'.', b'\n']);
                g.ev.push(scalar(LITERAL, &[b'%', c, b'\n', b'-', b'-', b'\n', b' ', b'.', b'.', b'.', b'\n']));
            }
            6 => {
                g.s(&[b'>', b'-', b'\n', b' ', c, b'\n', b' ', b'-', b'-', b'-', b'\n']);
                g.ev.push(scalar(FOLDED, &[c, b' ', b'-', b'-', b'-']));
            }
            7 => {
                g.s(&[b'[', c, b',', b'\n', b'%', c, b'\n', b']', b'\n']);
                // `%` cannot start a scalar
                g.bad = true;
            }
            8 => {
                g.s(&[b'{', c, b':', b'\n', c, b'}', b'\n']);
                g.ev.extend([simple(MAP), scalar(PLAIN, &[c]), scalar(PLAIN, &[c]), simple(MAP_END)]);
            }
            9 | 10 => {
                // a tag whose handle must have been declared in this document
                let root = k == 10 && !same_line;
                g.s(b"!e!");
                g.s(&[c]);
                g.s(if root { b"\n- w\n" } else { b" w\n" });
                if good == 0 {
                    g.bad = true;
                    break;
                }
                let mut e = if root { simple(SEQ) } else { scalar(PLAIN, b"w") };
                e.tag = Some((alloc::vec![good, b':'], alloc::vec![c]));
                g.ev.push(e);
                if root {
                    g.ev.extend([scalar(PLAIN, b"w"), simple(SEQ_END)]);
                }
            }
            11 => {
                // nothing at all
                if same_line {
                    g.s(b"\n");
                }
                g.ev.push(scalar(PLAIN, b""));
            }
            _ => {
                let mut e = scalar(PLAIN, b"");
                e.tag = Some((b"!".to_vec(), alloc::vec![c]));
                g.s(&[b'!', c, b'\n', b'#', b'\n']);
                g.ev.push(e);
            }
        }
        if g.bad {
            break;
        }
        g.ev.push(simple(DOC_END));
        ended = true;
        match g.opt(6) {
            0 => ended = false,
            1 => g.s(b"...\n"),
            2 => g.s(b"... # c\n# d\n"),
            3 => g.s(b"...\t \n\n...\n"),
            4 => {
                g.s(b"... x\n");
                g.ev.pop();
                g.bad = true;
            }
            _ => {
                g.s(b"...");
                if i + 1 < n {
                    g.s(b"\r\n");
                }
            }
        }
        decl = if keep { good } else { 0 };
        if g.bad {
            break;
        }
    }
    g.ev.push(simple(2));
    let mut p = Parser::new_from_str(as_str(&g.t));
    if keep {
        p = p.keep_tags(true);
    }
    let (mut got, ok) = collect_from(p);
    got.retain(|e| e.k != COMMENT);
    out_bytes(&g.t);
    out(ok as u64);
    if g.bad {
        check(!ok, "C12: a malformed stream of documents is accepted");
        // everything before the failing document has been delivered
        let mut last = 0;
        for (i, e) in g.ev.iter().enumerate() {
            if e.k == DOC_END {
                last = i;
            }
        }
        check(got.len() >= last, "C12: an error hides documents before it");
        same(&g.ev[..last], &got[..last], "C12: documents before an error are delivered wrongly");
    } else {
        check(ok, "C12: a well-formed stream of documents is rejected");
        same(&g.ev, &got, "C12: documents are delivered wrongly");
    }
}

/// [marker 0 `---` 1 `...`, open scalar (0 plain, 1 seq, 2 literal, 3 double-quoted, 4 flow), arbitrary bytes after the marker as a template]
pub fn marker() {
    let m: &[u8] = if param(0) == 0 { b"---" } else { b"..." };
    let k = param(1);
    let (x, _) = template(2);
    let mut t = Vec::new();
    let pre: &[u8] = match k {
        0 => b"a\n",
        1 => b"- a\n",
        2 => b"|\na\n",
        3 => b"\"a\n",
        _ => b"[a,\n",
    };
    t.extend_from_slice(pre);
    t.extend_from_slice(m);
    t.extend_from_slice(&x);
    t.extend_from_slice(match k {
        3 => b"\"\n",
        4 => b"]\n",
        _ => b"\n",
    });
    for &c in &x {
        assume(c >= 0x20 && c != 0x7f && c != b':' && c != b'#' || c == b'\n' || c == b'\t');
    }
    let is_marker = x.is_empty() && k < 3 || !x.is_empty() && matches!(x[0], b' ' | b'\t' | b'\n');
    let (got, ok) = collect_nc(as_str(&t));
    out_bytes(&t);
    out(ok as u64);
    let n = |k: u64| got.iter().filter(|e| e.k == k).count();
    if is_marker {
        if k >= 3 {
            check(!ok, "C12: a document marker inside a quoted scalar or flow collection is accepted");
            return;
        }
        // the first document ends here, whatever follows
        let mut want = alloc::vec![simple(1), simple(DOC_IMPLICIT)];
        match k {
            0 => want.push(scalar(PLAIN, b"a")),
            1 => want.extend([simple(SEQ), scalar(PLAIN, b"a"), simple(SEQ_END)]),
            _ => want.push(scalar(LITERAL, b"a\n")),
        }
        want.push(simple(DOC_END));
        if !ok && got.len() < want.len() {
            want.truncate(got.len());
            // a malformed end marker may be noticed while the document is still open
            check(param(0) == 1, "C12: a document marker does not end the document");
        }
        check(got.len() >= want.len(), "C12: a document marker does not end the document");
        same(&want, &got[..want.len()], "C12: a document marker does not end the document");
        if ok && param(0) == 0 {
            check(got[want.len()].k == DOC_EXPLICIT, "C12: --- does not start an explicit document");
        }
    } else if k == 0 || k == 2 {
        // text that only looks like a marker belongs to the scalar
        check(n(3) + n(4) == 1 || !ok, "C12: text like a document marker splits a document");
        if ok {
            check(got.len() == 5 && got[2].k == SCALAR, "C12: text like a document marker splits a scalar");
            let v = &got[2].val;
            check(v.len() >= 5 && v[0] == b'a' && v[2..5] == *m, "C12: text like a document marker is not part of the scalar");
        }
    } else {
        check(n(3) + n(4) == 1 || !ok, "C12: text like a document marker splits a document");
    }
}

struct Anchors {
    names: Vec<(Vec<u8>, usize)>,
    count: usize,
}
impl Anchors {
    fn name(&mut self, wide: bool) -> Vec<u8> {
        let c = byte();
        // ns-anchor-char: visible and no flow indicator
        assume(c > 0x20 && c < 0x7f && !matches!(c, b',' | b'[' | b']' | b'{' | b'}'));
        let mut v = Vec::new();
        v.push(c);
        if wide && choice(2) == 1 {
            match choice(3) {
                0 => v.extend_from_slice("\u{e9}".as_bytes()),
                1 => v.push(b'-'),
                _ => v.push(b'a'),
            }
        }
        v
    }
    fn def(&mut self, n: Vec<u8>) -> usize {
        self.count += 1;
        self.names.push((n, self.count));
        self.count
    }
    fn find(&self, n: &[u8]) -> usize {
        let mut r = 0;
        for (m, i) in &self.names {
            if bytes_eq(m, n) {
                r = *i;
            }
        }
        r
    }
}

/// [layout (0 block sequence, 1 flow sequence, 2 mapping values, 3 mapping keys, 4 nested block, 5 flow mapping), nodes, wide names, documents]
pub fn anchor() {
    let (lay, n, wide, docs) = (param(0), param(1), param(2) == 1, param(3));
    let mut t: Vec<u8> = Vec::new();
    let mut ev = alloc::vec![simple(1)];
    let mut a = Anchors { names: Vec::new(), count: 0 };
    let mut bad = false;
    'all: for d in 0..docs {
        a.names.clear();
        ev.push(simple(if d == 0 { DOC_IMPLICIT } else { DOC_EXPLICIT }));
        if d > 0 {
            t.extend_from_slice(b"---\n");
        }
        match lay {
            1 => t.push(b'['),
            5 => t.push(b'{'),
            _ => {}
        }
        ev.push(simple(if matches!(lay, 0 | 1 | 4) { SEQ } else { MAP }));
        for i in 0..n {
            match lay {
                0 => t.extend_from_slice(b"- "),
                1 | 5 if i > 0 => t.extend_from_slice(b" , "),
                2 => {
                    t.extend_from_slice(b"k: ");
                    ev.push(scalar(PLAIN, b"k"));
                }
                4 => {
                    // every second node sits in a sequence of its own
                    t.extend_from_slice(if i % 2 == 0 { b"- " } else { b"- - " });
                    if i % 2 == 1 {
                        ev.push(simple(SEQ));
                    }
                }
                _ => {}
            }
            let name = a.name(wide);
            match choice(5) {
                0 => {
                    t.push(b'&');
                    t.extend_from_slice(&name);
                    t.extend_from_slice(b" x");
                    let mut e = scalar(PLAIN, b"x");
                    e.anchor = a.def(name);
                    ev.push(e);
                }
                1 => {
                    t.push(b'*');
                    t.extend_from_slice(&name);
                    let mut e = simple(ALIAS);
                    e.anchor = a.find(&name);
                    if e.anchor == 0 {
                        bad = true;
                        break 'all;
                    }
                    ev.push(e);
                }
                2 => {
                    // an anchored collection that refers to a node
                    t.push(b'&');
                    t.extend_from_slice(&name);
                    let mut e = simple(SEQ);
                    e.anchor = a.def(name);
                    ev.push(e);
                    t.extend_from_slice(b" [*");
                    let other = a.name(false);
                    t.extend_from_slice(&other);
                    let mut e = simple(ALIAS);
                    e.anchor = a.find(&other);
                    if e.anchor == 0 {
                        t.push(b']');
                        bad = true;
                        break 'all;
                    }
                    ev.push(e);
                    ev.push(simple(SEQ_END));
                    t.push(b']');
                }
                3 => {
                    // tag and anchor in either order
                    let mut e = scalar(SINGLE, b"y");
                    if choice(2) == 0 {
                        t.extend_from_slice(b"!t &");
                        t.extend_from_slice(&name);
                    } else {
                        t.push(b'&');
                        t.extend_from_slice(&name);
                        t.extend_from_slice(b" !t");
                    }
                    t.extend_from_slice(b" 'y'");
                    e.anchor = a.def(name);
                    e.tag = Some((b"!".to_vec(), b"t".to_vec()));
                    ev.push(e);
                }
                _ => {
                    // an anchored empty node
                    t.push(b'&');
                    t.extend_from_slice(&name);
                    if matches!(lay, 0 | 2 | 4) && choice(2) == 1 {
                        t.extend_from_slice(b" # c");
                    }
                    let mut e = scalar(PLAIN, b"");
                    e.anchor = a.def(name);
                    ev.push(e);
                }
            }
            match lay {
                3 | 5 => {
                    t.extend_from_slice(b" : v");
                    ev.push(scalar(PLAIN, b"v"));
                }
                4 if i % 2 == 1 => ev.push(simple(SEQ_END)),
                _ => {}
            }
            if !matches!(lay, 1 | 5) {
                t.push(b'\n');
            }
        }
        match lay {
            1 => t.extend_from_slice(b" ]\n"),
            5 => t.extend_from_slice(b"}\n"),
            _ => {}
        }
        ev.push(simple(if matches!(lay, 0 | 1 | 4) { SEQ_END } else { MAP_END }));
        ev.push(simple(DOC_END));
    }
    if bad {
        // complete the text, so that only the reference is wrong
        match lay {
            1 => t.extend_from_slice(b" ]\n"),
            3 => t.extend_from_slice(b" : v\n"),
            5 => t.extend_from_slice(b" : v}\n"),
            _ => t.push(b'\n'),
        }
    }
    ev.push(simple(2));
    let (got, ok) = collect_nc(as_str(&t));
    out_bytes(&t);
    out(ok as u64);
    if bad {
        check(!ok, "C13: an alias to a name that is not defined in the document is accepted");
    } else {
        check(ok, "C13: well-formed anchors and aliases are rejected");
        same(&ev, &got, "C13: an alias is bound to the wrong node");
    }
}

fn tag_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'-' | b'#' | b';' | b'/' | b'?' | b':' | b'@' | b'&' | b'=' | b'+' | b'$' | b'_' | b'.' | b'~' | b'*' | b'\'' | b'(' | b')')
}
fn hex(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 255,
    }
}
/// decodes a URI part; None: malformed
fn uri(s: &[u8], any: bool) -> Option<Vec<u8>> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == b'%' {
            if i + 2 >= s.len() || hex(s[i + 1]) == 255 || hex(s[i + 2]) == 255 {
                return None;
            }
            r.push(hex(s[i + 1]) << 4 | hex(s[i + 2]));
            i += 3;
            continue;
        }
        if !(tag_char(c) || any && matches!(c, b'!' | b',' | b'[' | b']')) {
            return None;
        }
        r.push(c);
        i += 1;
    }
    if core::str::from_utf8(&r).is_err() {
        return None;
    }
    Some(r)
}

/// [form, position, template for the variable part]
pub fn tag() {
    let form = param(0);
    let pos = param(1);
    let (s, _) = template(2);
    for &c in &s {
        assume(c > 0x20 && c < 0x7f);
    }
    let mut t: Vec<u8> = Vec::new();
    let mut tg: Vec<u8> = Vec::new();
    // the full name, or None: must be rejected
    let mut full: Option<Vec<u8>> = None;
    let cat = |p: &[u8], s: Option<Vec<u8>>| {
        s.map(|s| {
            let mut v = p.to_vec();
            v.extend_from_slice(&s);
            v
        })
    };
    match form {
        0 => {
            assume(!s.is_empty() && s[0] != b'!' && s[0] != b'<');
            tg.push(b'!');
            full = cat(b"!", uri(&s, false));
        }
        1 => {
            assume(!s.is_empty());
            tg.extend_from_slice(b"!!");
            full = cat(b"tag:yaml.org,2002:", uri(&s, false));
        }
        2 => {
            assume(!s.is_empty());
            t.extend_from_slice(b"%TAG !e! tag:x,2000:/\n---\n");
            tg.extend_from_slice(b"!e!");
            full = cat(b"tag:x,2000:/", uri(&s, false));
        }
        3 => {
            // verbatim
            assume(!s.is_empty() && s != b"!");
            assume(!s.contains(&b'>'));
            tg.extend_from_slice(b"!<");
            full = uri(&s, true);
        }
        4 => {
            assume(!s.is_empty() && s[0] != b'!' && s[0] != b'<');
            t.extend_from_slice(b"%TAG ! !l/\n---\n");
            tg.push(b'!');
            full = cat(b"!l/", uri(&s, false));
        }
        5 => {
            assume(!s.is_empty());
            t.extend_from_slice(b"%TAG !! x:\n%TAG !y! z:\n---\n");
            tg.extend_from_slice(b"!!");
            full = cat(b"x:", uri(&s, false));
        }
        6 => {
            // not declared
            assume(!s.is_empty());
            t.extend_from_slice(b"%TAG !f! z:\n---\n");
            tg.extend_from_slice(b"!e!");
        }
        7 => {
            // the prefix of a directive
            assume(!s.is_empty());
            t.extend_from_slice(b"%TAG !e! ");
            t.extend_from_slice(&s);
            t.extend_from_slice(b"\n---\n");
            tg.extend_from_slice(b"!e!z");
            full = if s[0] == b'!' || tag_char(s[0]) || s[0] == b'%' {
                uri(&s, true).map(|mut v| {
                    v.push(b'z');
                    v
                })
            } else {
                None
            };
        }
        8 => {
            // a named handle
            assume(!s.is_empty());
            let word = s.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-');
            assume(!s.contains(&b'_'));
            t.extend_from_slice(b"%TAG !");
            t.extend_from_slice(&s);
            t.extend_from_slice(b"! w:\n---\n");
            tg.push(b'!');
            tg.extend_from_slice(&s);
            tg.extend_from_slice(b"!z");
            full = if word || s == b"" { Some(b"w:z".to_vec()) } else { None };
        }
        9 => {
            // the non-specific tag
            tg.push(b'!');
            full = Some(b"!".to_vec());
        }
        _ => {
            // unknown directives do not matter
            assume(!s.is_empty() && s[0] != b'!' && s[0] != b'<');
            t.extend_from_slice(b"%FOO ! x:\n%BAR !! y:\n---\n");
            tg.push(b'!');
            full = cat(b"!", uri(&s, false));
        }
    }
    if !matches!(form, 7 | 8 | 9) {
        tg.extend_from_slice(&s);
    }
    if form == 3 {
        tg.push(b'>');
    }
    let flow = matches!(pos, 4 | 5);
    if flow {
        // flow indicators end a tag there
        for &c in &s {
            assume(!matches!(c, b',' | b'[' | b']' | b'{' | b'}'));
        }
    }
    let x = full.clone().unwrap_or_default();
    let with = |mut e: Ev| {
        e.tag = Some((Vec::new(), x.clone()));
        e
    };
    let p = |v: &[u8]| scalar(PLAIN, v);
    let mut ev: Vec<Ev> = Vec::new();
    let put = |t: &mut Vec<u8>, a: &[u8], b: &[u8]| {
        t.extend_from_slice(a);
        t.extend_from_slice(&tg);
        t.extend_from_slice(b);
    };
    match pos {
        0 => {
            put(&mut t, b"", b" x\n");
            ev.push(with(p(b"x")));
        }
        1 => {
            put(&mut t, b"- ", b" 'x'\n- y");
            ev.extend([simple(SEQ), with(scalar(SINGLE, b"x")), p(b"y"), simple(SEQ_END)]);
        }
        2 => {
            put(&mut t, b"k: ", b" |\n  x\nl: m");
            ev.extend([simple(MAP), p(b"k"), with(scalar(LITERAL, b"x\n")), p(b"l"), p(b"m"), simple(MAP_END)]);
        }
        3 => {
            put(&mut t, b"", b" k: v");
            ev.extend([simple(MAP), with(p(b"k")), p(b"v"), simple(MAP_END)]);
        }
        4 => {
            put(&mut t, b"[", b" x, ");
            put(&mut t, b"", b"]");
            ev.extend([simple(SEQ), with(p(b"x")), with(p(b"")), simple(SEQ_END)]);
        }
        5 => {
            put(&mut t, b"{", b" k : ");
            put(&mut t, b"", b" \"v\"}");
            ev.extend([simple(MAP), with(p(b"k")), with(scalar(DOUBLE, b"v")), simple(MAP_END)]);
        }
        6 => {
            put(&mut t, b"", b" [x]\n");
            ev.extend([with(simple(SEQ)), p(b"x"), simple(SEQ_END)]);
        }
        7 => {
            put(&mut t, b"", b"\n- x\n");
            ev.extend([with(simple(SEQ)), p(b"x"), simple(SEQ_END)]);
        }
        8 => {
            put(&mut t, b"", b" &a\nk: *a\n");
            let mut m = with(simple(MAP));
            m.anchor = 1;
            let mut al = simple(ALIAS);
            al.anchor = 1;
            ev.extend([m, p(b"k"), al, simple(MAP_END)]);
        }
        9 => {
            put(&mut t, b"- &a ", b" x\n");
            let mut m = with(p(b"x"));
            m.anchor = 1;
            ev.extend([simple(SEQ), m, simple(SEQ_END)]);
        }
        10 => {
            put(&mut t, b"- ", b"\n- k: ");
            put(&mut t, b"", b"\n  l: m");
            ev.extend([simple(SEQ), with(p(b"")), simple(MAP), p(b"k"), with(p(b"")), p(b"l"), p(b"m"), simple(MAP_END), simple(SEQ_END)]);
        }
        _ => {
            put(&mut t, b"? ", b" # c\n  {a: b}\n: ");
            put(&mut t, b"", b"\n  - y\n");
            ev.extend([simple(MAP), with(simple(MAP)), p(b"a"), p(b"b"), simple(MAP_END), with(simple(SEQ)), p(b"y"), simple(SEQ_END), simple(MAP_END)]);
        }
    }
    let (mut got, ok) = collect_nc(as_str(&t));
    out_bytes(&t);
    out(ok as u64);
    let core = form == 1;
    for e in &mut got {
        if let Some((h, s)) = &mut e.tag {
            if core {
                check(bytes_eq(h, b"tag:yaml.org,2002:"), "C14: `!!` does not give the handle of the core schema");
            }
            // only the full name counts
            let mut f = core::mem::take(h);
            f.extend_from_slice(s);
            *s = f;
        }
    }
    match full {
        None => check(!ok, "C14: a malformed or undeclared tag is accepted"),
        Some(_) => {
            check(ok, "C14: a well-formed tag is rejected");
            let explicit = matches!(form, 2 | 4 | 5 | 7 | 8 | 10);
            same(&stream(if explicit { DOC_EXPLICIT } else { DOC_IMPLICIT }, &ev), &got, "C14: a tag is resolved wrongly");
        }
    }
}
