//! C10 flow collections, C11 block collections: a tree and its layout are chosen symbolically, the
//! text is written out, and the parser has to deliver the events of that tree.
use crate::ev::*;
use crate::sym::*;
use alloc::vec::Vec;

pub struct Gen {
    pub t: Vec<u8>,
    pub ev: Vec<Ev>,
    /// separation style of flow collections
    style: u64,
    /// leaf kinds in use
    leaves: u32,
    /// current indentation for line breaks inside flow collections
    ind: usize,
    anchors: usize,
    /// block collections: how many collections, additional entries and departures from the plainest layout are left
    colls: u64,
    extra: u64,
    fancy: u64,
    /// only one of the two nodes of a pair is a collection
    chain: bool,
}
fn letter() -> u8 {
    let c = byte();
    assume(c.is_ascii_lowercase());
    c
}
impl Gen {
    pub fn new(style: u64, leaves: u32) -> Gen {
        Gen { t: Vec::new(), ev: Vec::new(), style, leaves, ind: 0, anchors: 0, colls: 0, extra: 0, fancy: 0, chain: false }
    }
    fn s(&mut self, b: &[u8]) {
        self.t.extend_from_slice(b);
    }
    fn e(&mut self, k: u64) {
        self.ev.push(simple(k));
    }
    fn null(&mut self) {
        self.ev.push(scalar(PLAIN, b""));
    }
    fn nl(&mut self, n: usize) {
        self.t.push(b'\n');
        for _ in 0..n {
            self.t.push(b' ');
        }
    }
    /// optional separation inside flow collections
    fn sep(&mut self, one_line: bool) {
        match self.style {
            1 => self.s(b"  "),
            2 if !one_line => self.nl(self.ind + 1),
            3 if !one_line => {
                self.s(b" #c");
                self.nl(0);
                self.nl(self.ind + 2);
            }
            4 => self.s(b" \t"),
            _ => {}
        }
    }
    /// mandatory separation
    fn sp(&mut self, one_line: bool) {
        let n = self.t.len();
        self.sep(one_line);
        if self.t.len() == n {
            self.t.push(b' ');
        }
    }
    /// returns whether a value indicator may follow immediately
    fn leaf(&mut self) -> bool {
        let c = letter();
        match choice(self.leaves) {
            0 => {
                self.t.push(c);
                self.ev.push(scalar(PLAIN, &[c]));
                false
            }
            1 => {
                self.s(&[b'"', c, b'"']);
                self.ev.push(scalar(DOUBLE, &[c]));
                true
            }
            2 => {
                self.s(&[b'\'', c, b'\'']);
                self.ev.push(scalar(SINGLE, &[c]));
                true
            }
            3 => {
                self.s(&[b'!', c, b' ', c]);
                let mut e = scalar(PLAIN, &[c]);
                e.tag = Some((b"!".to_vec(), [c].to_vec()));
                self.ev.push(e);
                false
            }
            4 => {
                self.s(b"&x !!str '-'");
                self.anchors += 1;
                let mut e = scalar(SINGLE, b"-");
                e.anchor = self.anchors;
                e.tag = Some((b"tag:yaml.org,2002:".to_vec(), b"str".to_vec()));
                self.ev.push(e);
                true
            }
            5 => {
                // two words, an indicator inside
                self.s(&[c, b' ', b'-', b'-', c, b':', c, b'#']);
                self.ev.push(scalar(PLAIN, &[c, b' ', b'-', b'-', c, b':', c, b'#']));
                false
            }
            _ => {
                // an empty node with a tag
                self.s(&[b'!', c, b' ']);
                let mut e = scalar(PLAIN, b"");
                e.tag = Some((b"!".to_vec(), [c].to_vec()));
                self.ev.push(e);
                false
            }
        }
    }
    pub fn flow_node(&mut self, depth: u32, entries: u32, one_line: bool) -> bool {
        match if depth == 0 { 0 } else { choice(3) } {
            0 => self.leaf(),
            1 => {
                self.flow_seq(depth - 1, entries, one_line);
                true
            }
            _ => {
                self.flow_map(depth - 1, entries, one_line);
                true
            }
        }
    }
    fn split(&mut self, depth: u32) -> (u32, u32) {
        if !self.chain || depth == 0 {
            (depth, depth)
        } else if choice(2) == 0 {
            (depth, 0)
        } else {
            (0, depth)
        }
    }
    pub fn flow_seq(&mut self, depth: u32, entries: u32, one_line: bool) {
        self.s(b"[");
        self.e(SEQ);
        self.sep(one_line);
        let n = choice(entries + 1);
        for i in 0..n {
            let (depth, vdepth) = self.split(depth);
            match choice(6) {
                0 | 1 => {
                    self.flow_node(depth, entries, one_line);
                    self.sep(one_line);
                }
                2 => {
                    // single pair
                    self.e(MAP);
                    let adj = self.flow_node(depth, 1, true);
                    if !adj {
                        self.s(b" ");
                    }
                    self.s(b":");
                    if !adj || choice(2) == 0 {
                        self.sp(one_line);
                    }
                    self.flow_node(vdepth, 1, one_line);
                    self.sep(one_line);
                    self.e(MAP_END);
                }
                3 => {
                    self.e(MAP);
                    self.flow_node(depth, 1, true);
                    self.s(b" :");
                    self.sep(one_line);
                    self.null();
                    self.e(MAP_END);
                }
                4 => {
                    self.e(MAP);
                    self.s(b"?");
                    self.sp(one_line);
                    self.flow_node(depth, 1, one_line);
                    self.sp(one_line);
                    if choice(2) == 0 {
                        self.s(b":");
                        self.sp(one_line);
                        self.flow_node(vdepth, 1, one_line);
                        self.sep(one_line);
                    } else {
                        self.null();
                    }
                    self.e(MAP_END);
                }
                _ => {
                    self.e(MAP);
                    self.null();
                    self.s(b":");
                    self.sp(one_line);
                    self.flow_node(depth, 1, one_line);
                    self.sep(one_line);
                    self.e(MAP_END);
                }
            }
            if i + 1 < n || choice(2) == 1 {
                self.s(b",");
                self.sep(one_line);
            }
        }
        self.s(b"]");
        self.e(SEQ_END);
    }
    pub fn flow_map(&mut self, depth: u32, entries: u32, one_line: bool) {
        self.s(b"{");
        self.e(MAP);
        self.sep(one_line);
        let n = choice(entries + 1);
        for i in 0..n {
            let (depth, vdepth) = self.split(depth);
            match choice(7) {
                0 => {
                    let adj = self.flow_node(depth, 1, one_line);
                    if !adj {
                        self.sep(one_line);
                    }
                    self.s(b":");
                    if !adj || choice(2) == 0 {
                        self.sp(one_line);
                    }
                    self.flow_node(vdepth, 1, one_line);
                    self.sep(one_line);
                }
                1 => {
                    self.flow_node(depth, 1, one_line);
                    self.sep(one_line);
                    self.null();
                }
                2 => {
                    self.flow_node(depth, 1, one_line);
                    self.sep(one_line);
                    self.s(b":");
                    self.sep(one_line);
                    self.null();
                }
                3 => {
                    self.s(b"?");
                    self.sp(one_line);
                    self.flow_node(depth, 1, one_line);
                    self.sp(one_line);
                    self.s(b":");
                    self.sp(one_line);
                    self.flow_node(vdepth, 1, one_line);
                    self.sep(one_line);
                }
                4 => {
                    self.s(b"?");
                    self.sp(one_line);
                    if choice(2) == 0 {
                        self.flow_node(depth, 1, one_line);
                        self.sep(one_line);
                    } else {
                        self.null();
                    }
                    self.null();
                }
                5 => {
                    self.s(b":");
                    self.sp(one_line);
                    self.null();
                    self.flow_node(vdepth, 1, one_line);
                    self.sep(one_line);
                }
                _ => {
                    self.s(b":");
                    self.sep(one_line);
                    self.null();
                    self.null();
                }
            }
            if i + 1 < n || choice(2) == 1 {
                self.s(b",");
                self.sep(one_line);
            }
        }
        self.s(b"}");
        self.e(MAP_END);
    }
}

/// [context, style, leaf kinds, kind (0 seq, 1 map), depth, entries, chain]
pub fn flow() {
    let mut g = Gen::new(param(1), param(2) as u32);
    let (kind, depth, entries) = (param(3), param(4) as u32, param(5) as u32);
    g.chain = param(6) == 1;
    let c = param(0);
    let mut doc = DOC_IMPLICIT;
    match c {
        0 => {}
        1 => {
            doc = DOC_EXPLICIT;
            g.s(b"--- ");
        }
        2 => {
            g.s(b"- ");
            g.e(SEQ);
            g.ind = 1;
        }
        3 => {
            g.s(b"k: ");
            g.ev.extend([simple(MAP), scalar(PLAIN, b"k")]);
            g.ind = 1;
        }
        4 => {
            g.e(MAP);
        }
        _ => {
            g.s(b"- k:\n    ");
            g.ev.extend([simple(SEQ), simple(MAP), scalar(PLAIN, b"k")]);
            g.ind = 4;
        }
    }
    if kind == 0 {
        g.flow_seq(depth, entries, c == 4);
    } else {
        g.flow_map(depth, entries, c == 4);
    }
    match c {
        0 | 1 => {}
        2 => {
            g.s(b" # c\n- z");
            g.ev.extend([scalar(PLAIN, b"z"), simple(SEQ_END)]);
        }
        3 => {
            g.s(b"\nl: m\n");
            g.ev.extend([scalar(PLAIN, b"l"), scalar(PLAIN, b"m"), simple(MAP_END)]);
        }
        4 => {
            g.s(b": v\n");
            g.ev.extend([scalar(PLAIN, b"v"), simple(MAP_END)]);
        }
        _ => {
            g.s(b"\n  l: m\n");
            g.ev.extend([scalar(PLAIN, b"l"), scalar(PLAIN, b"m"), simple(MAP_END), simple(SEQ_END)]);
        }
    }
    let (got, ok) = collect_nc(crate::input::as_str(&g.t));
    out_bytes(&g.t);
    out(ok as u64);
    check(ok, "C10: a well-formed flow collection is rejected");
    same(&stream(doc, &g.ev), &got, "C10: a flow collection is delivered as another tree");
}

#[derive(Clone, Copy, PartialEq)]
enum At {
    /// the start of a document
    Top,
    /// after `---`
    Dashes,
    /// after `-`
    Seq,
    /// after `?` or the `:` of an explicit entry
    Explicit,
    /// after the `:` of an implicit key
    Value,
}
impl Gen {
    fn opt(&mut self, n: u32) -> u32 {
        if self.fancy == 0 {
            return 0;
        }
        let c = choice(n);
        if c != 0 {
            self.fancy -= 1;
        }
        c
    }
    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.t.push(b' ');
        }
    }
    fn eol(&mut self) {
        self.t.push(b'\n');
    }
    fn tagged(&mut self, e: &mut Ev, c: u8) {
        e.tag = Some((b"!".to_vec(), [c].to_vec()));
    }
    /// properties before a node: text without surrounding white space
    fn props(&mut self, e: &mut Ev) {
        match choice(3) {
            0 => {
                self.s(b"&y");
                self.anchors += 1;
                e.anchor = self.anchors;
            }
            1 => {
                let c = letter();
                self.s(&[b'!', c]);
                self.tagged(e, c);
            }
            _ => {
                self.s(b"!z &z");
                self.tagged(e, b'z');
                self.anchors += 1;
                e.anchor = self.anchors;
            }
        }
    }
    /// node whose parent collection has indentation `n` (-1: none); ends with a line break
    fn block_node(&mut self, n: isize, at: At) {
        let compact = matches!(at, At::Seq | At::Explicit);
        let k = if self.colls == 0 {
            choice(2)
        } else if compact && at == At::Explicit {
            choice(7)
        } else if compact {
            choice(6)
        } else if at == At::Value {
            let k = choice(5);
            if k == 4 { 6 } else { k }
        } else {
            choice(4)
        };
        if k >= 2 {
            self.colls -= 1;
        }
        let blank = at != At::Top;
        match k {
            0 => self.block_leaf(n, at),
            1 => {
                assume(at != At::Top);
                self.null();
                self.eol();
            }
            2 | 3 | 6 => {
                let i = self.ev.len();
                let mut e = simple(if k == 3 { MAP } else { SEQ });
                self.ev.push(simple(0));
                let mut line = blank;
                match self.opt(4) {
                    0 => {}
                    1 => {
                        if blank {
                            self.s(b" ");
                        }
                        self.props(&mut e);
                        line = true;
                    }
                    2 => {
                        // properties on a line of their own
                        assume(at != At::Top);
                        self.eol();
                        self.pad((n + 2) as usize);
                        self.props(&mut e);
                    }
                    _ => {
                        if blank {
                            self.s(b" ");
                        }
                        self.s(b"#c");
                        line = true;
                    }
                }
                if line {
                    self.eol();
                }
                self.ev[i] = e;
                let m = if k == 6 {
                    n as usize
                } else {
                    (match self.opt(3) {
                        0 => if n < 0 { 0 } else { n + 2 },
                        1 => n + 1,
                        _ => n + 4,
                    }) as usize
                };
                if k == 3 {
                    self.block_map(m, true)
                } else {
                    self.block_seq(m, true)
                }
            }
            _ => {
                let w = self.opt(3) as usize + 1;
                self.pad(w);
                let m = n as usize + 1 + w;
                self.e(if k == 4 { SEQ } else { MAP });
                if k == 4 {
                    self.block_seq(m, false)
                } else {
                    self.block_map(m, false)
                }
            }
        }
    }
    fn block_leaf(&mut self, n: isize, at: At) {
        let m = if at == At::Top { 1 } else { (n + 2) as usize };
        let c = letter();
        let mut e = scalar(PLAIN, &[c]);
        if at != At::Top {
            let sp: &[u8] = match self.opt(4) {
                0 => b" ",
                1 => b"\t",
                2 => b" #c\n",
                _ => b"\n",
            };
            self.s(sp);
            if sp[sp.len() - 1] == b'\n' {
                self.pad(m);
            }
        }
        match self.opt(10) {
            0 => self.s(&[c]),
            1 => {
                self.s(&[b'"', c, b'"']);
                e = scalar(DOUBLE, &[c]);
            }
            2 => {
                self.s(&[b'\'', c, b':', b' ', c, b'\'']);
                e = scalar(SINGLE, &[c, b':', b' ', c]);
            }
            3 => {
                self.props(&mut e);
                self.s(b" ");
                self.s(&[c]);
            }
            4 => {
                // properties, then an empty node
                self.props(&mut e);
                e.val.clear();
            }
            5 => {
                self.props(&mut e);
                self.eol();
                self.pad(m);
                self.s(&[c]);
            }
            6 => {
                // two lines
                self.s(&[c, b' ', b'-']);
                self.eol();
                self.pad(m);
                self.s(b"w");
                e.val.extend_from_slice(b" - w");
            }
            7 => {
                self.s(b"|\n");
                self.pad(m);
                self.s(&[c, b':', b' ', b'-']);
                e = scalar(LITERAL, &[c, b':', b' ', b'-', b'\n']);
            }
            8 => {
                self.s(&[b'[', c, b',', b' ', c, b']']);
                self.ev.extend([simple(SEQ), scalar(PLAIN, &[c]), scalar(PLAIN, &[c])]);
                e = simple(SEQ_END);
            }
            _ => {
                self.s(&[b'{', c, b':', b' ', c, b'}']);
                self.ev.extend([simple(MAP), scalar(PLAIN, &[c]), scalar(PLAIN, &[c])]);
                e = simple(MAP_END);
            }
        }
        self.ev.push(e);
        self.eol();
    }
    fn more(&mut self) -> bool {
        if self.extra > 0 && choice(2) == 1 {
            self.extra -= 1;
            true
        } else {
            false
        }
    }
    fn block_seq(&mut self, m: usize, mut pad: bool) {
        loop {
            if pad {
                self.pad(m);
            }
            pad = true;
            self.s(b"-");
            self.block_node(m as isize, At::Seq);
            if !self.more() {
                break;
            }
        }
        self.e(SEQ_END);
    }
    fn block_map(&mut self, m: usize, mut pad: bool) {
        let mut open_key = false;
        loop {
            if pad {
                self.pad(m);
            }
            pad = true;
            let c = letter();
            let mut e = scalar(PLAIN, &[c]);
            let k = self.opt(11);
            assume(k != 5 || !open_key);
            open_key = false;
            match k {
                0 => self.s(&[c]),
                1 => {
                    self.s(&[b'"', c, b'"']);
                    e = scalar(DOUBLE, &[c]);
                }
                2 => {
                    self.s(&[b'\'', c, b'\'', b' ']);
                    e = scalar(SINGLE, &[c]);
                }
                3 => {
                    self.props(&mut e);
                    self.s(b" ");
                    self.s(&[c]);
                }
                4 => {
                    self.s(&[c, b' ', b'\t', c, b' ']);
                    e = scalar(PLAIN, &[c, b' ', b'\t', c]);
                }
                5 => e.val.clear(),
                6 => {
                    self.s(&[b'[', c, b',', b' ', c, b']']);
                    self.ev.extend([simple(SEQ), scalar(PLAIN, &[c]), scalar(PLAIN, &[c])]);
                    e = simple(SEQ_END);
                }
                7 => {
                    self.s(&[b'{', c, b':', b' ', c, b'}']);
                    self.ev.extend([simple(MAP), scalar(PLAIN, &[c]), scalar(PLAIN, &[c])]);
                    e = simple(MAP_END);
                }
                8 => {
                    // properties, then an empty key
                    self.props(&mut e);
                    self.s(b" ");
                    e.val.clear();
                }
                _ => {
                    self.s(b"?");
                    self.block_node(m as isize, At::Explicit);
                    if k == 9 {
                        self.pad(m);
                        self.s(b":");
                        self.block_node(m as isize, At::Explicit);
                    } else {
                        self.null();
                        open_key = true;
                    }
                    if !self.more() {
                        break;
                    }
                    continue;
                }
            }
            self.ev.push(e);
            self.s(b":");
            self.block_node(m as isize, At::Value);
            if !self.more() {
                break;
            }
        }
        self.e(MAP_END);
    }
}

/// [context (0 bare, 1 after `---`, 2 no final line break, 3 `---` and a second document), collections, extra entries, departures]
pub fn block() {
    let mut g = Gen::new(0, 0);
    g.colls = param(1);
    g.extra = param(2);
    g.fancy = param(3);
    let c = param(0);
    let mut doc = DOC_IMPLICIT;
    if c & 1 == 1 {
        doc = DOC_EXPLICIT;
        g.s(b"---");
    }
    g.block_node(-1, if c & 1 == 1 { At::Dashes } else { At::Top });
    assume(g.colls < param(1));
    if c == 2 {
        g.t.pop();
    }
    let mut want = stream(doc, &g.ev);
    if c == 3 {
        g.s(b"---\n- z\n...\n");
        want.pop();
        want.extend([simple(DOC_EXPLICIT), simple(SEQ), scalar(PLAIN, b"z"), simple(SEQ_END), simple(DOC_END), simple(2)]);
    }
    let (got, ok) = collect_nc(crate::input::as_str(&g.t));
    out_bytes(&g.t);
    out(ok as u64);
    check(ok, "C11: a well-formed block collection is rejected");
    same(&want, &got, "C11: a block collection is delivered as another tree");
}
