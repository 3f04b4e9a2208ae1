//! C32: an independent reader that follows the productions of the YAML 1.2.2 specification one by one
//! (chapters 6 to 9, without escapes of numbered characters and verbatim tags), to compare with.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;

#[derive(Clone, Copy, PartialEq)]
enum C {
    BlockOut,
    BlockIn,
    FlowOut,
    FlowIn,
    BlockKey,
    FlowKey,
}
use C::*;

struct P<'a> {
    t: &'a [u8],
    /// end of the current document
    end: usize,
    ev: Vec<Ev>,
    /// anchors in order of definition; those of the current document start at `doc`
    names: Vec<(usize, usize)>,
    doc: usize,
    /// tag handles declared for the current document
    handles: Vec<(usize, usize)>,
    /// the text uses something this reader does not know
    unknown: bool,
    /// the node being read follows a `-`, `?` or `:` indicator (not the `:` of an implicit key)
    dash: bool,
    fuel: u32,
}
type Props = (Option<(usize, usize)>, bool);

impl<'a> P<'a> {
    fn at(&self, i: usize) -> u8 {
        if i < self.end { self.t[i] } else { 0 }
    }
    fn eof(&self, i: usize) -> bool {
        i >= self.end
    }
    fn brk(&self, i: usize) -> bool {
        self.at(i) == b'\n'
    }
    fn white(&self, i: usize) -> bool {
        let b = self.at(i);
        b == b' ' || b == b'\t'
    }
    /// ns-char
    fn ns(&self, i: usize) -> bool {
        !self.eof(i) && !self.brk(i) && !self.white(i)
    }
    fn flow_ind(&self, i: usize) -> bool {
        matches!(self.at(i), b',' | b'[' | b']' | b'{' | b'}')
    }
    fn bol(&self, i: usize) -> bool {
        i == 0 || self.t[i - 1] == b'\n'
    }
    fn mark(&self) -> (usize, usize) {
        (self.ev.len(), self.names.len())
    }
    fn reset(&mut self, m: (usize, usize)) {
        self.ev.truncate(m.0);
        self.names.truncate(m.1);
    }
    // ---- 6 structural productions
    fn indent(&self, n: i32, i: usize) -> Option<usize> {
        let mut j = i;
        let mut k = 0;
        while k < n {
            if self.at(j) != b' ' {
                return None;
            }
            j += 1;
            k += 1;
        }
        Some(j)
    }
    fn spaces(&self, i: usize) -> i32 {
        let mut j = i;
        while self.at(j) == b' ' {
            j += 1;
        }
        (j - i) as i32
    }
    fn whites(&self, i: usize) -> usize {
        let mut j = i;
        while self.white(j) {
            j += 1;
        }
        j
    }
    fn sep_in_line(&self, i: usize) -> Option<usize> {
        let j = self.whites(i);
        if j > i || self.bol(i) { Some(j) } else { None }
    }
    fn comment_text(&self, i: usize) -> usize {
        let mut j = i;
        if self.at(j) == b'#' {
            while !self.eof(j) && !self.brk(j) {
                j += 1;
            }
        }
        j
    }
    fn b_comment(&self, i: usize) -> Option<usize> {
        if self.eof(i) {
            Some(i)
        } else if self.brk(i) {
            Some(i + 1)
        } else {
            None
        }
    }
    fn s_b_comment(&self, i: usize) -> Option<usize> {
        match self.sep_in_line(i) {
            Some(j) => self.b_comment(self.comment_text(j)),
            None => self.b_comment(i),
        }
    }
    fn l_comments(&self, i: usize) -> usize {
        let mut i = i;
        while !self.eof(i) {
            let Some(j) = self.sep_in_line(i) else { break };
            let Some(k) = self.b_comment(self.comment_text(j)) else { break };
            i = k;
        }
        i
    }
    fn s_l_comments(&self, i: usize) -> Option<usize> {
        match self.s_b_comment(i) {
            Some(j) => Some(self.l_comments(j)),
            None if self.bol(i) => Some(self.l_comments(i)),
            None => None,
        }
    }
    fn flow_line_prefix(&self, n: i32, i: usize) -> Option<usize> {
        self.indent(n, i).map(|j| self.whites(j))
    }
    fn separate(&self, n: i32, c: C, i: usize) -> Option<usize> {
        if c == BlockKey || c == FlowKey {
            return self.sep_in_line(i);
        }
        if let Some(j) = self.s_l_comments(i) {
            if let Some(k) = self.flow_line_prefix(n, j) {
                return Some(k);
            }
        }
        self.sep_in_line(i)
    }
    /// s-flow-folded: from the break at `i` to the text of a later line, and the number of line feeds (0: a space)
    fn folded(&mut self, n: i32, i: usize) -> Option<(usize, usize)> {
        if !self.brk(i) {
            return None;
        }
        let mut j = i + 1;
        let mut lf = 0;
        loop {
            // l-empty: s-line-prefix(n, flow-in) or fewer spaces, and a break
            let k = self.spaces(j);
            let e = if k < n { j + k as usize } else { self.whites(j + if n > 0 { n as usize } else { 0 }) };
            // a tab as indentation of a blank line is left open
            if !self.brk(e) && self.brk(self.whites(e)) {
                self.unknown = true;
            }
            if !self.brk(e) {
                break;
            }
            j = e + 1;
            lf += 1;
        }
        self.flow_line_prefix(n, j).map(|k| (k, lf))
    }
    // ---- 6.9 node properties
    fn anchor_name(&self, i: usize) -> usize {
        let mut j = i;
        while self.ns(j) && !self.flow_ind(j) {
            j += 1;
        }
        j
    }
    fn anchor(&self, i: usize) -> Option<usize> {
        if self.at(i) != b'&' {
            return None;
        }
        let j = self.anchor_name(i + 1);
        if j > i + 1 { Some(j) } else { None }
    }
    fn tag(&mut self, i: usize) -> Option<usize> {
        if self.at(i) != b'!' {
            return None;
        }
        // verbatim tags and escapes are left to C14
        if self.at(i + 1) == b'<' {
            self.unknown = true;
        }
        let w = self.word(i + 1);
        if self.at(w) == b'!' {
            let j = self.tag_chars(w + 1);
            if j == w + 1 {
                return None;
            }
            let known = w == i + 1 || self.handles.iter().any(|&(a, b)| bytes_eq(&self.t[a..b], &self.t[i..w + 1]));
            return if known { Some(j) } else { None };
        }
        Some(self.tag_chars(i + 1))
    }
    /// ns-tag-char*
    fn tag_chars(&mut self, i: usize) -> usize {
        let mut j = i;
        while matches!(self.at(j), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'#' | b';' | b'/' | b'?' | b':' | b'@' | b'&' | b'=' | b'+' | b'$' | b'_' | b'.' | b'~' | b'*' | b'\'' | b'(' | b')') {
            j += 1;
        }
        if self.at(j) == b'%' {
            self.unknown = true;
        }
        j
    }
    /// ns-word-char*
    fn word(&mut self, i: usize) -> usize {
        let mut j = i;
        while self.at(j).is_ascii_alphanumeric() || self.at(j) == b'-' {
            j += 1;
        }
        // the scanner has `_` as well: left open
        if self.at(j) == b'_' {
            self.unknown = true;
        }
        j
    }
    /// l-directive without its s-l-comments
    fn directive(&mut self, i: usize, version: &mut bool) -> Option<usize> {
        let a = i + 1;
        let j = self.word(a);
        if self.ns(j) || j == a {
            // other names than words: left open
            self.unknown = true;
            return None;
        }
        if bytes_eq(&self.t[a..j], b"YAML") {
            let k = self.whites(j);
            let mut m = k;
            while self.at(m).is_ascii_digit() {
                m += 1;
            }
            if k == j || m == k || self.at(m) != b'.' {
                return None;
            }
            let mut l = m + 1;
            while self.at(l).is_ascii_digit() {
                l += 1;
            }
            // other versions: left open
            if m - k > 1 || self.at(k) != b'1' || l - m > 3 {
                self.unknown = true;
            }
            if l == m + 1 || *version {
                return None;
            }
            *version = true;
            return Some(l);
        }
        if bytes_eq(&self.t[a..j], b"TAG") {
            let k = self.whites(j);
            if k == j || self.at(k) != b'!' {
                return None;
            }
            let w = self.word(k + 1);
            let e = if self.at(w) == b'!' { w + 1 } else { w };
            if e == w && w > k + 1 {
                return None;
            }
            let p = self.whites(e);
            if p == e {
                return None;
            }
            let mut q = p;
            if self.at(q) == b'!' {
                q += 1;
            } else if self.tag_chars(q) == q {
                return None;
            }
            loop {
                let r = self.tag_chars(q);
                if matches!(self.at(r), b',' | b'[' | b']' | b'!') {
                    q = r + 1;
                } else {
                    q = r;
                    break;
                }
            }
            if self.handles.iter().any(|&(a, b)| bytes_eq(&self.t[a..b], &self.t[k..e])) {
                return None;
            }
            self.handles.push((k, e));
            return Some(q);
        }
        // ns-reserved-directive
        let mut k = j;
        loop {
            let w = self.whites(k);
            if w == k || !self.ns(w) || self.at(w) == b'#' {
                return Some(k);
            }
            k = w;
            while self.ns(k) {
                k += 1;
            }
        }
    }
    /// both properties, or (`one`) only the first
    fn props(&mut self, n: i32, c: C, i: usize, one: bool) -> Option<(usize, Props)> {
        if let Some(j) = self.tag(i) {
            if !one {
                if let Some(k) = self.separate(n, c, j) {
                    if let Some(l) = self.anchor(k) {
                        return Some((l, (Some((k + 1, l)), true)));
                    }
                }
            }
            return Some((j, (None, true)));
        }
        if let Some(j) = self.anchor(i) {
            let a = Some((i + 1, j));
            if !one {
                if let Some(k) = self.separate(n, c, j) {
                    if let Some(l) = self.tag(k) {
                        return Some((l, (a, true)));
                    }
                }
            }
            return Some((j, (a, false)));
        }
        None
    }
    fn emit(&mut self, mut e: Ev, p: Props) {
        if let Some(a) = p.0 {
            self.names.push(a);
            e.anchor = self.names.len();
        }
        if p.1 {
            e.tag = Some((Vec::new(), Vec::new()));
        }
        self.ev.push(e);
    }
    fn empty(&mut self, p: Props) {
        self.emit(scalar(PLAIN, b""), p);
    }
    // ---- 7 flow styles
    fn alias(&mut self, i: usize) -> Option<usize> {
        if self.at(i) != b'*' {
            return None;
        }
        let j = self.anchor_name(i + 1);
        if j == i + 1 {
            return None;
        }
        let mut e = simple(ALIAS);
        for k in self.doc..self.names.len() {
            let (a, b) = self.names[k];
            if bytes_eq(&self.t[a..b], &self.t[i + 1..j]) {
                e.anchor = k + 1;
            }
        }
        if e.anchor == 0 {
            return None;
        }
        self.ev.push(e);
        Some(j)
    }
    fn plain_safe(&self, c: C, i: usize) -> bool {
        self.ns(i) && !((c == FlowIn || c == FlowKey) && self.flow_ind(i))
    }
    fn plain_first(&self, c: C, i: usize) -> bool {
        match self.at(i) {
            b'?' | b':' | b'-' => self.plain_safe(c, i + 1),
            b',' | b'[' | b']' | b'{' | b'}' | b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'\'' | b'"' | b'%' | b'@' | b'`' => false,
            _ => self.ns(i),
        }
    }
    fn plain_char(&self, c: C, i: usize) -> bool {
        match self.at(i) {
            b':' => self.plain_safe(c, i + 1),
            b'#' => i > 0 && self.ns(i - 1),
            _ => self.plain_safe(c, i),
        }
    }
    fn plain_in_line(&self, c: C, i: usize) -> usize {
        let mut i = i;
        loop {
            let j = self.whites(i);
            if !self.plain_char(c, j) {
                return i;
            }
            i = j + 1;
        }
    }
    fn plain(&mut self, n: i32, c: C, i: usize, p: Props) -> Option<usize> {
        if !self.plain_first(c, i) {
            return None;
        }
        let mut j = self.plain_in_line(c, i + 1);
        let mut v = self.t[i..j].to_vec();
        while c == FlowOut || c == FlowIn {
            let w = self.whites(j);
            let Some((k, lf)) = self.folded(n, w) else { break };
            if !self.plain_char(c, k) {
                break;
            }
            let l = self.plain_in_line(c, k + 1);
            fold(&mut v, lf);
            v.extend_from_slice(&self.t[k..l]);
            j = l;
        }
        self.emit(scalar(PLAIN, &v), p);
        Some(j)
    }
    /// the break at `w` in a quoted scalar is followed by a line that is not indented enough
    fn at_dash(&mut self, n: i32, c: C, w: usize) {
        // a quoted scalar may go on at the column of that indicator: left open
        if c == FlowOut && self.dash {
            let mut l = w;
            while self.brk(l) {
                l = self.whites(l + 1);
            }
            while !self.bol(l) {
                l -= 1;
            }
            if self.spaces(l) >= n - 1 {
                self.unknown = true;
            }
        }
    }
    fn quoted(&mut self, n: i32, c: C, i: usize, p: Props) -> Option<usize> {
        let q = self.at(i);
        let mut v: Vec<u8> = Vec::new();
        let mut j = i + 1;
        loop {
            if self.eof(j) {
                return None;
            }
            let b = self.at(j);
            if b == q {
                if q == b'\'' && self.at(j + 1) == q {
                    v.push(q);
                    j += 2;
                    continue;
                }
                break;
            }
            let w = self.whites(j);
            if q == b'"' && self.at(w) == b'\\' {
                v.extend_from_slice(&self.t[j..w]);
                let e = self.at(w + 1);
                j = w + 2;
                let c = match e {
                    b'\n' => {
                        // s-double-escaped
                        if c != FlowOut && c != FlowIn {
                            return None;
                        }
                        let Some((k, lf)) = self.folded(n, w + 1) else {
                            self.at_dash(n, c, w + 1);
                            return None;
                        };
                        for _ in 0..lf {
                            v.push(b'\n');
                        }
                        j = k;
                        continue;
                    }
                    b'0' => 0,
                    b'a' => 7,
                    b'b' => 8,
                    b't' | b'\t' => 9,
                    b'n' => 10,
                    b'v' => 11,
                    b'f' => 12,
                    b'r' => 13,
                    b'e' => 27,
                    b' ' | b'"' | b'/' | b'\\' => e,
                    b'N' | b'_' | b'L' | b'P' | b'x' | b'u' | b'U' => {
                        self.unknown = true;
                        e
                    }
                    _ => return None,
                };
                v.push(c);
                continue;
            }
            if self.brk(w) {
                if c != FlowOut && c != FlowIn {
                    return None;
                }
                let Some((k, lf)) = self.folded(n, w) else {
                    self.at_dash(n, c, w);
                    return None;
                };
                fold(&mut v, lf);
                j = k;
            } else if w > j {
                v.extend_from_slice(&self.t[j..w]);
                j = w;
            } else {
                v.push(b);
                j += 1;
            }
        }
        self.emit(scalar(if q == b'"' { DOUBLE } else { SINGLE }, &v), p);
        Some(j + 1)
    }
    fn json(&mut self, n: i32, c: C, i: usize, p: Props) -> Option<usize> {
        match self.at(i) {
            b'\'' | b'"' => self.quoted(n, c, i, p),
            b'[' => self.flow_seq(n, c, i, p),
            b'{' => self.flow_map(n, c, i, p),
            _ => None,
        }
    }
    fn inner(c: C) -> C {
        match c {
            FlowOut | FlowIn => FlowIn,
            _ => FlowKey,
        }
    }
    fn opt_sep(&self, n: i32, c: C, i: usize) -> usize {
        self.separate(n, c, i).unwrap_or(i)
    }
    fn flow_seq(&mut self, n: i32, c: C, i: usize, p: Props) -> Option<usize> {
        self.emit(simple(SEQ), p);
        let mut j = self.opt_sep(n, c, i + 1);
        let d = Self::inner(c);
        while self.at(j) != b']' {
            j = self.seq_entry(n, d, j)?;
            j = self.opt_sep(n, d, j);
            if self.at(j) == b',' {
                j = self.opt_sep(n, d, j + 1);
            } else if self.at(j) != b']' {
                return None;
            }
        }
        self.ev.push(simple(SEQ_END));
        Some(j + 1)
    }
    fn flow_map(&mut self, n: i32, c: C, i: usize, p: Props) -> Option<usize> {
        self.emit(simple(MAP), p);
        let mut j = self.opt_sep(n, c, i + 1);
        let d = Self::inner(c);
        while self.at(j) != b'}' {
            j = self.map_entry(n, d, j)?;
            j = self.opt_sep(n, d, j);
            if self.at(j) == b',' {
                j = self.opt_sep(n, d, j + 1);
            } else if self.at(j) != b'}' {
                return None;
            }
        }
        self.ev.push(simple(MAP_END));
        Some(j + 1)
    }
    /// ns-flow-map-explicit-entry after `?`
    fn explicit_entry(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        let m = self.mark();
        if let Some(j) = self.implicit_entry(n, c, i) {
            return Some(j);
        }
        self.reset(m);
        self.empty((None, false));
        self.empty((None, false));
        Some(i)
    }
    fn map_entry(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if self.at(i) == b'?' {
            if let Some(j) = self.separate(n, c, i + 1) {
                let m = self.mark();
                if let Some(k) = self.explicit_entry(n, c, j) {
                    return Some(k);
                }
                self.reset(m);
            }
        }
        self.implicit_entry(n, c, i)
    }
    /// ns-flow-map-implicit-entry
    fn implicit_entry(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        let m = self.mark();
        if let Some(j) = self.yaml_node(n, c, i) {
            let k = self.opt_sep(n, c, j);
            if let Some(l) = self.separate_value(n, c, k) {
                return Some(l);
            }
            self.empty((None, false));
            return Some(j);
        }
        self.reset(m);
        self.empty((None, false));
        if let Some(l) = self.separate_value(n, c, i) {
            return Some(l);
        }
        self.reset(m);
        if let Some(j) = self.json_node(n, c, i) {
            let k = self.opt_sep(n, c, j);
            if let Some(l) = self.adjacent_value(n, c, k) {
                return Some(l);
            }
            self.empty((None, false));
            return Some(j);
        }
        self.reset(m);
        None
    }
    /// c-ns-flow-map-separate-value
    fn separate_value(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if self.at(i) != b':' || self.plain_safe(c, i + 1) {
            return None;
        }
        if let Some(j) = self.separate(n, c, i + 1) {
            let m = self.mark();
            if let Some(k) = self.flow_node(n, c, j) {
                return Some(k);
            }
            self.reset(m);
        }
        self.empty((None, false));
        Some(i + 1)
    }
    /// c-ns-flow-map-adjacent-value
    fn adjacent_value(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if self.at(i) != b':' {
            return None;
        }
        let j = self.opt_sep(n, c, i + 1);
        let m = self.mark();
        if let Some(k) = self.flow_node(n, c, j) {
            return Some(k);
        }
        self.reset(m);
        self.empty((None, false));
        Some(i + 1)
    }
    /// ns-flow-seq-entry: ns-flow-pair or ns-flow-node
    fn seq_entry(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        let m = self.mark();
        self.ev.push(simple(MAP));
        if self.at(i) == b'?' {
            if let Some(j) = self.separate(n, c, i + 1) {
                if let Some(k) = self.explicit_entry(n, c, j) {
                    self.ev.push(simple(MAP_END));
                    return Some(k);
                }
            }
            self.reset(m);
            self.ev.push(simple(MAP));
        }
        let m2 = self.mark();
        if let Some(j) = self.yaml_node(n, FlowKey, i) {
            let k = self.sep_in_line(j).unwrap_or(j);
            if let Some(l) = self.separate_value(n, c, k) {
                self.ev.push(simple(MAP_END));
                return Some(l);
            }
        }
        self.reset(m2);
        self.empty((None, false));
        if let Some(l) = self.separate_value(n, c, i) {
            self.ev.push(simple(MAP_END));
            return Some(l);
        }
        self.reset(m2);
        if let Some(j) = self.json_node(n, FlowKey, i) {
            let k = self.sep_in_line(j).unwrap_or(j);
            if let Some(l) = self.adjacent_value(n, c, k) {
                self.ev.push(simple(MAP_END));
                return Some(l);
            }
        }
        self.reset(m);
        self.flow_node(n, c, i)
    }
    /// ns-flow-yaml-node
    fn yaml_node(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if let Some(j) = self.alias(i) {
            return Some(j);
        }
        if let Some(j) = self.plain(n, c, i, (None, false)) {
            return Some(j);
        }
        let (j, p) = self.props(n, c, i, false)?;
        if let Some(k) = self.separate(n, c, j) {
            if let Some(l) = self.plain(n, c, k, p) {
                return Some(l);
            }
            // the properties may belong to a c-flow-json-node instead
            if matches!(self.at(k), b'\'' | b'"' | b'[' | b'{') {
                return None;
            }
        }
        self.empty(p);
        Some(j)
    }
    /// c-flow-json-node
    fn json_node(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if let Some((j, p)) = self.props(n, c, i, false) {
            let k = self.separate(n, c, j)?;
            return self.json(n, c, k, p);
        }
        self.json(n, c, i, (None, false))
    }
    /// ns-flow-node
    fn flow_node(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if let Some(j) = self.alias(i) {
            return Some(j);
        }
        let (j, k, p) = match self.props(n, c, i, false) {
            Some((j, p)) => (j, self.separate(n, c, j), p),
            None => (i, Some(i), (None, false)),
        };
        if let Some(k) = k {
            let m = self.mark();
            if let Some(l) = self.plain(n, c, k, p) {
                return Some(l);
            }
            if let Some(l) = self.json(n, c, k, p) {
                return Some(l);
            }
            self.reset(m);
        }
        if j == i {
            return None;
        }
        self.empty(p);
        Some(j)
    }
    // ---- 8 block styles
    fn block_seq(&mut self, n: i32, i: usize, p: Props) -> Option<usize> {
        let m = self.spaces(i);
        if m < n + 1 {
            return None;
        }
        self.seq_entries(m, i + m as usize, p)
    }
    /// entries at column `n`, the first of them at `i`
    fn seq_entries(&mut self, n: i32, i: usize, p: Props) -> Option<usize> {
        let s = self.mark();
        self.emit(simple(SEQ), p);
        let mut i = i;
        let mut end = None;
        loop {
            if self.at(i) != b'-' || self.ns(i + 1) {
                break;
            }
            let m = self.mark();
            match self.block_indented(n, BlockIn, i + 1) {
                Some(j) => {
                    end = Some(j);
                    if self.eof(j) {
                        break;
                    }
                    match self.indent(n, j) {
                        Some(k) => i = k,
                        None => break,
                    }
                }
                None => {
                    self.reset(m);
                    break;
                }
            }
        }
        if end.is_none() {
            self.reset(s);
        } else {
            self.ev.push(simple(SEQ_END));
        }
        end
    }
    /// s-l+block-indented
    fn block_indented(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        let s = self.mark();
        let m = self.spaces(i);
        let j = i + m as usize;
        if let Some(k) = self.seq_entries(n + 1 + m, j, (None, false)) {
            return Some(k);
        }
        self.reset(s);
        if let Some(k) = self.map_entries(n + 1 + m, j, (None, false)) {
            return Some(k);
        }
        self.reset(s);
        self.dash = true;
        if let Some(k) = self.block_node(n, c, i) {
            return Some(k);
        }
        self.reset(s);
        let k = self.s_l_comments(i)?;
        self.empty((None, false));
        Some(k)
    }
    fn block_map(&mut self, n: i32, i: usize, p: Props) -> Option<usize> {
        let m = self.spaces(i);
        if m < n + 1 {
            return None;
        }
        self.map_entries(m, i + m as usize, p)
    }
    fn map_entries(&mut self, n: i32, i: usize, p: Props) -> Option<usize> {
        let s = self.mark();
        self.emit(simple(MAP), p);
        let mut i = i;
        let mut end = None;
        loop {
            let m = self.mark();
            match self.block_map_entry(n, i) {
                Some(j) => {
                    end = Some(j);
                    if self.eof(j) {
                        break;
                    }
                    match self.indent(n, j) {
                        Some(k) => i = k,
                        None => break,
                    }
                }
                None => {
                    self.reset(m);
                    break;
                }
            }
        }
        if end.is_none() {
            self.reset(s);
        } else {
            self.ev.push(simple(MAP_END));
        }
        end
    }
    fn block_map_entry(&mut self, n: i32, i: usize) -> Option<usize> {
        let m = self.mark();
        if self.at(i) == b'?' && !self.ns(i + 1) {
            if let Some(j) = self.block_indented(n, BlockOut, i + 1) {
                let m2 = self.mark();
                if let Some(k) = self.indent(n, j) {
                    if self.at(k) == b':' && !self.ns(k + 1) {
                        if let Some(l) = self.block_indented(n, BlockOut, k + 1) {
                            return Some(l);
                        }
                    }
                }
                self.reset(m2);
                self.empty((None, false));
                return Some(j);
            }
            self.reset(m);
        }
        // ns-l-block-map-implicit-entry
        if let Some(j) = self.json_node(0, BlockKey, i) {
            let k = self.sep_in_line(j).unwrap_or(j);
            if let Some(l) = self.implicit_value(n, k) {
                return Some(l);
            }
        }
        self.reset(m);
        if let Some(j) = self.yaml_node(0, BlockKey, i) {
            let k = self.sep_in_line(j).unwrap_or(j);
            if let Some(l) = self.implicit_value(n, k) {
                return Some(l);
            }
        }
        self.reset(m);
        self.empty((None, false));
        if let Some(j) = self.implicit_value(n, i) {
            return Some(j);
        }
        // a block collection right after the `:` of an empty key is left open
        if self.at(i) == b':' && !self.ns(i + 1) && self.block_indented(n, BlockOut, i + 1).is_some() {
            self.unknown = true;
        }
        None
    }
    fn implicit_value(&mut self, n: i32, i: usize) -> Option<usize> {
        if self.at(i) != b':' || self.ns(i + 1) {
            return None;
        }
        let m = self.mark();
        self.dash = false;
        if let Some(j) = self.block_node(n, BlockOut, i + 1) {
            return Some(j);
        }
        self.reset(m);
        let j = self.s_l_comments(i + 1)?;
        self.empty((None, false));
        Some(j)
    }
    /// s-l+block-node
    fn block_node(&mut self, n: i32, c: C, i: usize) -> Option<usize> {
        if self.fuel == 0 {
            self.unknown = true;
            return None;
        }
        self.fuel -= 1;
        let dash = self.dash;
        let s = self.mark();
        // s-l+block-in-block
        if let Some(j) = self.separate(n + 1, c, i) {
            for one in [false, true] {
                if let Some((k, p)) = self.props(n + 1, c, j, one) {
                    if let Some(l) = self.separate(n + 1, c, k) {
                        if let Some(l) = self.block_scalar(n, l, p) {
                            return Some(l);
                        }
                    }
                    if let Some(l) = self.block_collection(n, c, k, p) {
                        return Some(l);
                    }
                    self.reset(s);
                }
            }
            if let Some(l) = self.block_scalar(n, j, (None, false)) {
                return Some(l);
            }
        }
        if let Some(l) = self.block_collection(n, c, i, (None, false)) {
            return Some(l);
        }
        self.reset(s);
        // s-l+flow-in-block
        let j = self.separate(n + 1, FlowOut, i)?;
        self.dash = dash;
        let k = self.flow_node(n + 1, FlowOut, j)?;
        self.s_l_comments(k)
    }
    /// c-l+literal, c-l+folded
    fn block_scalar(&mut self, n: i32, i: usize, p: Props) -> Option<usize> {
        let folded = self.at(i) == b'>';
        if self.at(i) != b'|' && !folded {
            return None;
        }
        // c-b-block-header
        let mut j = i + 1;
        let (mut m, mut chomp) = (0, 0);
        for _ in 0..2 {
            match self.at(j) {
                b @ b'1'..=b'9' if m == 0 => m = (b - b'0') as i32,
                b @ (b'+' | b'-') if chomp == 0 => chomp = b,
                _ => break,
            }
            j += 1;
        }
        let mut l = self.s_b_comment(j)?;
        // a tab at the start of the first line is left open
        if self.at(l) == b'\t' {
            self.unknown = true;
        }
        let mut ci = n + m;
        if m > 0 {
            // an indicator without a parent node: left open
            if n < 0 {
                self.unknown = true;
            }
        } else {
            let (mut k, mut most) = (l, 0);
            loop {
                let sp = self.spaces(k);
                let e = k + sp as usize;
                if self.eof(e) {
                    // blanks at the end of the text
                    self.unknown |= sp > 0;
                    ci = most.max(n + 1);
                    break;
                }
                if !self.brk(e) {
                    if sp > n {
                        if most > sp {
                            return None;
                        }
                        ci = sp;
                    } else {
                        ci = most.max(n + 1);
                    }
                    break;
                }
                most = most.max(sp);
                k = e + 1;
            }
        }
        let mut out: Vec<u8> = Vec::new();
        let mut empties = 0;
        let mut prev: Option<bool> = None;
        while !self.eof(l) {
            let sp = self.spaces(l);
            let k = l + if sp < ci { sp } else { ci } as usize;
            if self.eof(k) {
                // blanks at the end of the text
                self.unknown = true;
                return None;
            }
            if self.brk(k) {
                empties += 1;
                l = k + 1;
                continue;
            }
            if sp < ci {
                break;
            }
            let mut e = k;
            while !self.eof(e) && !self.brk(e) {
                e += 1;
            }
            let spaced = self.white(k);
            if let Some(p) = prev {
                if !folded || p || spaced {
                    out.push(b'\n');
                } else if empties == 0 {
                    out.push(b' ');
                }
            }
            while empties > 0 {
                out.push(b'\n');
                empties -= 1;
            }
            out.extend_from_slice(&self.t[k..e]);
            prev = Some(spaced);
            // the end of the text counts as a line break
            l = if self.brk(e) { e + 1 } else { e };
        }
        if prev.is_some() && chomp != b'-' {
            out.push(b'\n');
        }
        if chomp == b'+' {
            while empties > 0 {
                out.push(b'\n');
                empties -= 1;
            }
        }
        // l-trail-comments; a tab before one or on a blank line is left open
        let w = self.whites(l);
        if (self.eof(w) || self.brk(w) || self.at(w) == b'#') && self.spaces(l) < (w - l) as i32 {
            self.unknown = true;
        }
        let sp = self.spaces(l);
        if sp < ci && self.at(l + sp as usize) == b'#' {
            l = self.l_comments(l);
        }
        self.emit(scalar(if folded { FOLDED } else { LITERAL }, &out), p);
        Some(l)
    }
    fn block_collection(&mut self, n: i32, c: C, i: usize, p: Props) -> Option<usize> {
        let j = self.s_l_comments(i)?;
        if self.eof(j) {
            return None;
        }
        let s = self.mark();
        if let Some(k) = self.block_seq(if c == BlockOut { n - 1 } else { n }, j, p) {
            return Some(k);
        }
        self.reset(s);
        self.block_map(n, j, p)
    }
    // ---- 9 documents
    fn forbidden(&self, i: usize) -> bool {
        let t = self.t;
        self.bol(i) && i + 2 < t.len() && (t[i] == b'-' || t[i] == b'.') && t[i + 1] == t[i] && t[i + 2] == t[i] && (i + 3 == t.len() || matches!(t[i + 3], b' ' | b'\t' | b'\n'))
    }
    fn stream(&mut self) -> bool {
        let n = self.t.len();
        self.ev.push(simple(1));
        self.end = n;
        let mut i = self.l_comments(0);
        let mut bare = true;
        while i < n {
            let explicit = self.forbidden(i) && self.t[i] == b'-';
            if self.forbidden(i) && !explicit {
                // l-document-suffix
                match self.s_l_comments(i + 3) {
                    Some(j) => i = j,
                    None => return false,
                }
                bare = true;
                continue;
            }
            if !explicit && !bare {
                return false;
            }
            let mut explicit = explicit;
            self.handles.clear();
            if !explicit && self.t[i] == b'%' {
                self.end = n;
                let mut version = false;
                while self.at(i) == b'%' {
                    let Some(j) = self.directive(i, &mut version) else { return false };
                    match self.s_l_comments(j) {
                        Some(k) => i = k,
                        None => return false,
                    }
                }
                explicit = self.forbidden(i) && self.t[i] == b'-';
                if !explicit {
                    return false;
                }
            }
            let from = if explicit { i + 3 } else { i };
            let mut end = if explicit { from } else { i };
            while end < n && !self.forbidden(end) {
                end += 1;
            }
            self.ev.push(simple(if explicit { DOC_EXPLICIT } else { DOC_IMPLICIT }));
            self.end = end;
            self.doc = self.names.len();
            let m = self.mark();
            self.dash = false;
            let mut ok = self.block_node(-1, BlockIn, from) == Some(end);
            if !ok && explicit {
                self.reset(m);
                self.empty((None, false));
                ok = self.s_l_comments(from) == Some(end);
            }
            if !ok {
                return false;
            }
            self.ev.push(simple(DOC_END));
            self.end = n;
            i = end;
            bare = false;
        }
        self.ev.push(simple(2));
        true
    }
}
fn fold(v: &mut Vec<u8>, lf: usize) {
    if lf == 0 {
        v.push(b' ');
    }
    for _ in 0..lf {
        v.push(b'\n');
    }
}
pub fn run() {
    let (t, _) = template(0);
    for &b in &t {
        assume(b == b'\n' || b == b'\t' || b >= b' ' && b < 127);
    }
    let mut p = P { t: &t, end: t.len(), ev: Vec::new(), names: Vec::new(), doc: 0, handles: Vec::new(), unknown: false, dash: false, fuel: 300 };
    let (x, ok) = collect_nc(as_str(&t));
    for e in &x {
        out_ev(e);
    }
    let want = p.stream();
    assume(!p.unknown);
    if want {
        cover(0);
        check(ok, "C32: a text of the YAML grammar is rejected");
        check(x.len() == p.ev.len(), "C32: the events are not what the YAML grammar says");
        for i in 0..x.len().min(p.ev.len()) {
            let (a, b) = (&x[i], &p.ev[i]);
            check(a.k == b.k && a.style == b.style && a.anchor == b.anchor && a.tag.is_some() == b.tag.is_some() && bytes_eq(&a.val, &b.val), "C32: the events are not what the YAML grammar says");
        }
    } else {
        cover(1);
        check(!ok, "C32: a text outside of the YAML grammar is accepted");
    }
}
