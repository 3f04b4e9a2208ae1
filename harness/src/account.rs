//! C30: the span of a scalar is its source, and every character of an accepted text is accounted for.
use crate::ev::*;
use crate::input::*;
use crate::neutral::spanned;
use crate::sym::*;
use alloc::vec::Vec;

fn blank(b: u8) -> bool {
    b == b' ' || b == b'\t'
}
fn brk(b: u8) -> bool {
    b == b'\n' || b == b'\r'
}
fn white(b: u8) -> bool {
    blank(b) || brk(b)
}
fn flow_ind(b: u8) -> bool {
    matches!(b, b',' | b'[' | b']' | b'{' | b'}')
}
/// white space, a line break or the end at `i`
fn sep(t: &[u8], i: usize) -> bool {
    i >= t.len() || white(t[i])
}
fn ink(t: &[u8]) -> Vec<u8> {
    t.iter().copied().filter(|b| !white(*b)).collect()
}
fn line_end(t: &[u8], mut i: usize) -> usize {
    while i < t.len() && !brk(t[i]) {
        i += 1;
    }
    i
}
fn scalar_span(t: &[u8], e: &Ev, s: usize, f: usize) {
    match e.style {
        PLAIN => {
            if e.val.is_empty() {
                check(s == f, "C30: an empty plain scalar spans text");
                return;
            }
            check(s < f, "C30: a plain scalar spans no text");
            check(!white(t[s]) && !white(t[f - 1]), "C30: the span of a plain scalar starts or ends with white space");
            let src = &t[s..f];
            if src.iter().any(|b| brk(*b)) {
                check(bytes_eq(&ink(src), &ink(&e.val)), "C30: the span of a plain scalar is not its text");
            } else {
                check(bytes_eq(src, &e.val), "C30: the span of a plain scalar is not its text");
            }
        }
        SINGLE | DOUBLE => {
            let q = if e.style == SINGLE { b'\'' } else { b'"' };
            check(f >= s + 2 && t[s] == q && t[f - 1] == q, "C30: the span of a quoted scalar does not reach from quote to quote");
            let src = &t[s + 1..f - 1];
            if !src.contains(&b'\\') && !src.contains(&b'\'') {
                check(bytes_eq(&ink(src), &ink(&e.val)), "C30: the span of a quoted scalar is not its text");
            }
        }
        _ if ink(&e.val).is_empty() => check(ink(&t[s..f]).is_empty() || t[s] == b'|' || t[s] == b'>', "C30: an empty block scalar spans other text"),
        _ => check(bytes_eq(&ink(&t[s..f]), &ink(&e.val)), "C30: the span of a block scalar is not its text"),
    }
}
pub fn run() {
    let (t, _) = template(0);
    let n = t.len();
    for &b in &t {
        assume(b != 0);
    }
    let (y, ok) = spanned(as_str(&t));
    for (e, s, f) in &y {
        out_ev(e);
        out(*s as u64);
        out(*f as u64);
    }
    if !ok {
        return;
    }
    cover(0);
    // what the events say
    let mut own: Vec<bool> = Vec::new();
    own.resize(n, false);
    let (mut anchors, mut tags, mut docs, mut blocks, mut entries, mut pairs, mut loose, mut commas_min, mut commas_max) = (0usize, 0usize, 0usize, 0usize, 0usize, 0usize, 0usize, 0usize, 0usize);
    // open collections: (a flow collection in brackets of its own, is a mapping, children)
    let mut open: Vec<(bool, bool, usize)> = Vec::new();
    let mut flows: Vec<(usize, u64)> = Vec::new();
    for i in 0..y.len() {
        let (e, s, f) = &y[i];
        let (s, f) = (*s, *f);
        if e.k == SCALAR || e.k == ALIAS || e.k == SEQ || e.k == MAP {
            if let Some(o) = open.last_mut() {
                o.2 += 1;
            }
        }
        if e.k != ALIAS && e.anchor != 0 {
            anchors += 1;
        }
        if e.tag.is_some() {
            tags += 1;
        }
        if e.k == SCALAR || e.k == ALIAS {
            check(s <= f && f <= n, "C30: a span is not a part of the text");
            // an empty block scalar may span its header
            let header = e.k == SCALAR && e.style >= LITERAL && ink(&e.val).is_empty();
            for o in &mut own[s..f] {
                check(!*o, "C30: the spans of two nodes overlap");
                *o = !header;
            }
        }
        if e.k == SCALAR {
            scalar_span(&t, e, s, f);
            blocks += (e.style == LITERAL || e.style == FOLDED) as usize;
        } else if e.k == ALIAS {
            check(f >= s + 2 && t[s] == b'*', "C30: the span of an alias does not start with *");
            for &b in &t[s + 1..f] {
                check(!white(b) && !flow_ind(b), "C30: the span of an alias goes beyond its name");
            }
            check(sep(&t, f) || flow_ind(t[f]), "C30: the span of an alias ends within its name");
        } else if e.k == DOC_EXPLICIT {
            docs += 1;
        } else if e.k == SEQ || e.k == MAP {
            let br = if e.k == SEQ { b'[' } else { b'{' };
            let inner = i + 1 < y.len() && y[i + 1].0.k == e.k && y[i + 1].1 == s;
            let flow = s < n && t[s] == br && !inner;
            if flow {
                flows.push((s, e.k));
            }
            open.push((flow, e.k == MAP, 0));
        } else if e.k == SEQ_END || e.k == MAP_END {
            let Some((flow, map, c)) = open.pop() else { return };
            let m = if map { c / 2 } else { c };
            if map {
                pairs += m;
            }
            if flow {
                flows.push((s, e.k));
                commas_min += if m > 0 { m - 1 } else { 0 };
                commas_max += m;
            } else if map {
                loose += m;
            } else {
                entries += m;
            }
        }
    }
    // what the text says
    let (mut a, mut g, mut d, mut h, mut dash, mut colon, mut quest, mut comma, mut depth) = (0usize, 0usize, 0usize, 0usize, 0usize, 0usize, 0usize, 0usize, 0usize);
    let mut i = 0;
    while i < n {
        let b = t[i];
        let line = i == 0 || brk(t[i - 1]) || i == 3 && t[0] == 0xef;
        let from = i;
        if own[i] || white(b) {
            i += 1;
            continue;
        }
        if b == 0xef && i + 2 < n && t[i + 1] == 0xbb && t[i + 2] == 0xbf && line {
            i += 3;
        } else if b == b'#' {
            check(line || white(t[i - 1]), "C30: content is dropped after a # without a space before it");
            i = line_end(&t, i);
        } else if line && b == b'%' {
            i = line_end(&t, i);
        } else if line && (b == b'-' || b == b'.') && i + 2 < n && t[i + 1] == b && t[i + 2] == b && sep(&t, i + 3) {
            d += (b == b'-') as usize;
            check(depth == 0, "C30: a document marker within a flow collection");
            i += 3;
        } else if b == b'&' {
            a += 1;
            i += 1;
            check(!sep(&t, i) && !flow_ind(t[i]), "C30: an anchor without a name");
            while !sep(&t, i) && !flow_ind(t[i]) {
                i += 1;
            }
        } else if b == b'!' {
            g += 1;
            i += 1;
            if i < n && t[i] == b'<' {
                while i < n && t[i] != b'>' {
                    i += 1;
                }
                check(i < n, "C30: an open verbatim tag");
                i += 1;
            } else {
                while !sep(&t, i) && !flow_ind(t[i]) {
                    i += 1;
                }
            }
        } else if matches!(b, b'[' | b'{' | b']' | b'}') {
            let k = match b {
                b'[' => SEQ,
                b'{' => MAP,
                b']' => SEQ_END,
                _ => MAP_END,
            };
            let mut hit = false;
            for x in &flows {
                hit |= *x == (i, k);
            }
            check(hit, "C30: a bracket starts or ends no collection");
            if b == b'[' || b == b'{' {
                depth += 1;
            } else {
                check(depth > 0, "C30: a bracket closes nothing");
                depth -= 1;
            }
            i += 1;
        } else if b == b',' {
            check(depth > 0, "C30: a comma outside of flow collections is dropped");
            comma += 1;
            i += 1;
        } else if b == b'-' {
            check(depth == 0 && sep(&t, i + 1), "C30: a dash is neither content nor an entry");
            dash += 1;
            i += 1;
        } else if b == b'?' {
            check(sep(&t, i + 1) || depth > 0 && flow_ind(t[i + 1]), "C30: a question mark is neither content nor a key");
            quest += 1;
            i += 1;
        } else if b == b':' {
            check(depth > 0 || sep(&t, i + 1), "C30: a colon is neither content nor a value");
            colon += 1;
            i += 1;
        } else if b == b'|' || b == b'>' {
            check(depth == 0, "C30: a block scalar within a flow collection");
            h += 1;
            i += 1;
            let e = line_end(&t, i);
            let (mut ind, mut chomp) = (0, 0);
            while i < e && (t[i] == b'+' || t[i] == b'-' || t[i].is_ascii_digit()) {
                if t[i].is_ascii_digit() {
                    check(t[i] != b'0', "C30: the indentation indicator 0");
                    ind += 1;
                } else {
                    chomp += 1;
                }
                i += 1;
            }
            check(ind < 2 && chomp < 2, "C30: a block scalar with more indicators than there are");
            check(sep(&t, i), "C30: something follows the indicators of a block scalar");
        } else {
            check(false, "C30: a character of an accepted text is neither content nor syntax");
        }
        for o in &own[from..i] {
            check(!*o, "C30: a node is reported within a comment, directive, anchor or tag");
        }
    }
    check(depth == 0, "C30: an open bracket");
    check(a == anchors, "C30: not every anchor is on a node, or a node is anchored without one");
    check(g == tags, "C30: not every tag is on a node, or a node is tagged without one");
    check(d == docs, "C30: not every --- starts a document, or a document is explicit without one");
    check(h == blocks, "C30: not every block scalar indicator has its scalar");
    check(dash == entries, "C30: the entries of block sequences are not the dashes of the text");
    check(colon <= pairs && quest <= pairs, "C30: a mapping indicator is in no pair");
    check(loose <= colon + quest, "C30: a pair without indicator outside of a flow mapping");
    check(comma >= commas_min && comma <= commas_max, "C30: the members of flow collections are not what the commas separate");
}
/// a blank line with a tab in it
fn tab_line(t: &[u8]) -> bool {
    let mut i = 0;
    while i < t.len() {
        if brk(t[i]) {
            let mut j = i + 1;
            let mut tab = false;
            while j < t.len() && blank(t[j]) {
                tab |= t[j] == b'\t';
                j += 1;
            }
            if tab && j < t.len() && brk(t[j]) {
                return true;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    false
}
/// C31: quotes around a plain scalar, or other quotes, change nothing but the style
pub fn requote() {
    let mode = param(0);
    let (t, _) = template(1);
    for &b in &t {
        assume(b != 0);
    }
    let (x, ok) = spanned(as_str(&t));
    assume(ok);
    let from = if mode < 2 { PLAIN } else if mode == 2 { SINGLE } else { DOUBLE };
    let to = if mode == 0 || mode == 2 { DOUBLE } else { SINGLE };
    let q = if to == DOUBLE { b'"' } else { b'\'' };
    let mut w: Vec<u8> = Vec::new();
    let mut at = 0;
    let mut n = 0;
    let mut want: Vec<Ev> = Vec::new();
    for (e, s, f) in &x {
        let (s, f) = (*s, *f);
        let mut e = e.clone();
        if e.k == SCALAR && e.style == from && s < f && s >= at {
            let (a, b) = if from == PLAIN { (s, f) } else { (s + 1, f - 1) };
            assume(a <= b);
            let src = &t[a..b];
            assume(from != PLAIN || !tab_line(src));
            if !src.iter().any(|c| matches!(*c, b'\'' | b'"' | b'\\')) {
                w.extend_from_slice(&t[at..s]);
                w.push(q);
                w.extend_from_slice(src);
                w.push(q);
                at = f;
                n += 1;
                e.style = to;
            }
        }
        if e.k != COMMENT {
            want.push(e);
        }
    }
    assume(n > 0);
    w.extend_from_slice(&t[at..]);
    cover(0);
    let (y, ok2) = collect_nc(as_str(&w));
    for e in &y {
        out_ev(e);
    }
    check(ok2, "C31: a text is rejected with other quotes");
    same(&want, &y, "C31: other quotes change the events");
}
/// C13: get_anchor tells the name that an anchored node or an alias has in the text
pub fn names() {
    let (t, _) = template(0);
    for &b in &t {
        assume(b != 0 && b != b'#');
    }
    let mut p = yam_core::parsing::Parser::new_from_str(as_str(&t));
    let mut from = 0;
    loop {
        let (e, s, f) = match p.next_event() {
            Some(Ok((e, s))) => (conv(&e), s.start.pos, s.end.pos),
            _ => return,
        };
        out(e.k);
        out(e.anchor as u64);
        if e.anchor != 0 {
            cover(0);
            let name: Vec<u8> = match p.get_anchor(e.anchor) {
                Some(n) => n.as_bytes().to_vec(),
                None => {
                    check(false, "C13: a known anchor has no name");
                    return;
                }
            };
            out_bytes(&name);
            check(s <= f && f <= t.len() && from <= s, "C13: a span is not a part of the text");
            if e.k == ALIAS {
                check(bytes_eq(&name, &t[s + 1..f]), "C13: the name of an alias is not the one in the text");
            } else {
                let mut found = false;
                for i in from..s {
                    if t[i] == b'&' && i + 1 + name.len() <= t.len() && bytes_eq(&name, &t[i + 1..i + 1 + name.len()]) {
                        let j = i + 1 + name.len();
                        found |= sep(&t, j) || flow_ind(t[j]);
                    }
                }
                check(found, "C13: the name of an anchor is not the one in the text");
            }
        }
        if e.k == SCALAR || e.k == ALIAS {
            from = f;
        }
    }
}
