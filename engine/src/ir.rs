//! LLVM IR text parser and decoder.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Meta,
    Fn,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(n) => (*n as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| x.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                if *n > 8 {
                    b.next_power_of_two()
                } else {
                    b
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(n) => *n as u64 / 8,
            Ty::Arr(n, t) | Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, u32, Ty)>) {
        match self {
            Ty::Int(n) => out.push((off, *n, self.clone())),
            Ty::Ptr => out.push((off, 64, Ty::Ptr)),
            Ty::F64 => out.push((off, 64, Ty::F64)),
            Ty::F32 => out.push((off, 32, Ty::F32)),
            Ty::FOther(n) => out.push((off, *n, self.clone())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out);
                }
            }
            Ty::Struct(f, p) => {
                let mut o = off;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    t.leaves(o, out);
                    o += t.size();
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> usize {
        let mut v = vec![];
        self.leaves(0, &mut v);
        v.len()
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            t => t.clone(),
        }
    }
    /// (first leaf index, type) of a sub-aggregate
    pub fn leaf_path(&self, path: &[u64]) -> (usize, Ty) {
        let mut base = 0;
        let mut t = self.clone();
        for &p in path {
            for i in 0..p as usize {
                base += t.elem(i).nleaves();
            }
            t = t.elem(p as usize);
        }
        (base, t)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Loc(String),
    Glob(String),
    Meta(String),
    Attr(u32),
    Word(String),
    Num(String),
    Str(Vec<u8>), // "..." or c"..."
    CStr(Vec<u8>),
    P(char),
    Dots,
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && id(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && (id(b[i])) {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::Attr(s[st..i].parse().unwrap_or(0)));
            }
            b'"' => {
                let (v, n) = lexstr(b, i + 1);
                i = n;
                out.push(Tok::Str(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, n) = lexstr(b, i + 2);
                i = n;
                out.push(Tok::CStr(v));
            }
            b'.' if b[i..].starts_with(b"...") => {
                i += 3;
                out.push(Tok::Dots);
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E'))) {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.') {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            c => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}
fn lexstr(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

/// Constant with relocations resolved lazily
#[derive(Clone, Debug)]
pub enum Konst {
    Int(u128),
    Agg(Vec<Konst>),
    Zero(u64), // n leaves zero
    Bytes(Vec<u8>),
    Glob(String),
    Add(Box<Konst>, i64),
    Sub(Box<Konst>, Box<Konst>),
    Xor(Box<Konst>, Box<Konst>),
    Trunc(Box<Konst>, u32),
    Undef(u64),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(u32), // const pool
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Copy,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Vec<(u32, Opnd)>,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Intr(u32), // index in intrinsic name table
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, dst: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, w: u32, dst: u32, a: Opnd, b: Opnd },
    Cast { k: CastK, from: u32, to: u32, dst: u32, a: Opnd },
    Select { n: u32, dst: u32, c: Opnd, a: Vec<Opnd>, b: Vec<Opnd>, w: Vec<u32> },
    Load { dst: u32, leaves: Vec<(u64, u32)>, p: Opnd },
    Store { vals: Vec<Opnd>, leaves: Vec<(u64, u32)>, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Alloca { dst: u32, size: u64 },
    Mov { dst: u32, src: Vec<Opnd> },
    Call { dst: u32, nret: u32, callee: Callee, args: Vec<Opnd>, aw: Vec<u32>, rw: u32 },
    FBin { op: u8, w: u32, dst: u32, a: Opnd, b: Opnd },
    FNeg { w: u32, dst: u32, a: Opnd },
    FCmp { p: String, w: u32, dst: u32, a: Opnd, b: Opnd },
    Br(Edge),
    CondBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u32, cases: Vec<(u128, u32)>, edges: Vec<Edge> }, // edges[0] default
    Ret(Vec<Opnd>),
    Unreachable,
    Unsup(String),
}

pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Vec<Ins>>,
    pub dup: Option<u32>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Konst>,
    pub konst: bool,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub gidx: HashMap<String, u32>,
    pub alias: HashMap<String, String>,
    pub intr: Vec<String>,
    pub intr_idx: HashMap<String, u32>,
    pub pool: Vec<(Konst, u32)>,
    pub named: HashMap<String, Ty>,
    pool_idx: HashMap<String, u32>,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    named: &'a HashMap<String, Ty>,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a Tok {
        let r = self.t.get(self.i).unwrap_or_else(|| panic!("unexpected end of tokens {:?}", &self.t[..self.t.len().min(12)]));
        self.i += 1;
        r
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.peek(), &self.t[..self.t.len().min(60)]);
        }
    }
    fn skip_paren(&mut self) {
        // current is '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "metadata" | "label" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.i += 1;
                        self.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" => Ty::FOther(16),
                "fp128" => Ty::FOther(128),
                "x86_fp80" => Ty::FOther(128),
                "metadata" => Ty::Meta,
                "label" | "token" => Ty::Meta,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
            },
            Tok::P('{') => {
                let f = self.tylist('}');
                Ty::Struct(f, false)
            }
            Tok::P('[') => {
                let n = self.num();
                self.i += 1; // x
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let f = self.tylist('}');
                    self.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num();
                    self.i += 1;
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::Loc(n) => self.named.get(n).cloned().unwrap_or_else(|| panic!("named type {n}")),
            x => panic!("type? {:?}", x),
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap(),
            x => panic!("num? {:?}", x),
        }
    }
    fn tylist(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return v;
            }
            v.push(self.ty());
            self.eat(',');
        }
    }
    /// skip attributes/words until a type starts
    fn skip_to_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            match self.next() {
                Tok::Word(w) => {
                    if self.isp('(') {
                        self.skip_paren();
                    } else if w == "align" {
                        self.i += 1;
                    }
                }
                Tok::P('(') => {
                    self.i -= 1;
                    self.skip_paren();
                }
                _ => {}
            }
        }
    }
    /// skip parameter attributes until an operand
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let operandish = matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "none" | "splat" | "ptrtoaddr"
                            | "nan" | "qnan" | "inf" | "xor" | "bitcast" | "asm"
                    );
                    if operandish {
                        return;
                    }
                    let isalign = w == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_paren();
                    } else if isalign {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr(_)) | Some(Tok::Str(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> Konst {
        match self.next() {
            Tok::Num(s) => {
                if matches!(ty, Ty::F64 | Ty::F32 | Ty::FOther(_)) {
                    return Konst::Int(parse_fp(s, ty));
                }
                let w = match ty {
                    Ty::Int(n) => *n,
                    _ => 64,
                };
                let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                let v = if let Some(r) = s.strip_prefix('-') {
                    (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                } else {
                    s.parse::<u128>().unwrap_or_else(|_| panic!("int const {s}"))
                };
                Konst::Int(v & m)
            }
            Tok::P(c) if *c == '+' || *c == '-' => {
                let neg = *c == '-';
                let w = match self.next() {
                    Tok::Word(w) => w.clone(),
                    x => panic!("fp {:?}", x),
                };
                Konst::Int(fp_word(&w, neg, ty))
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Konst::Int(1),
                "false" => Konst::Int(0),
                "null" => Konst::Int(0),
                "undef" | "poison" => Konst::Undef(ty.nleaves() as u64),
                "zeroinitializer" => Konst::Zero(ty.size()),
                "none" => Konst::Int(0),
                "nan" | "qnan" | "inf" => Konst::Int(fp_word(w, false, ty)),
                "getelementptr" => {
                    while !self.isp('(') {
                        // inbounds nuw / inrange(..)
                        if self.isw("inrange") {
                            self.i += 1;
                            self.skip_paren();
                        } else {
                            self.i += 1;
                        }
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    self.skip_to_type();
                    let pt = self.ty();
                    let base = self.konst(&pt);
                    let mut off = 0i64;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let k = self.konst(&it);
                        let iw = match it {
                            Ty::Int(n) => n,
                            _ => 64,
                        };
                        let v = match k {
                            Konst::Int(v) => {
                                if iw == 64 {
                                    v as u64 as i64
                                } else {
                                    ((v as u64) << (64 - iw)) as i64 >> (64 - iw)
                                }
                            }
                            _ => panic!("gep idx"),
                        };
                        if first {
                            off += v * t.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(v as usize) as i64;
                            cur = cur.elem(v as usize);
                        }
                    }
                    self.expect(')');
                    Konst::Add(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" => {
                    self.expect('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    self.eatw("to");
                    let t2 = self.ty();
                    self.expect(')');
                    if w == "trunc" {
                        let n = match t2 {
                            Ty::Int(n) => n,
                            _ => 64,
                        };
                        Konst::Trunc(Box::new(k), n)
                    } else {
                        k
                    }
                }
                "sub" | "add" | "xor" => {
                    let op = w.clone();
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expect(')');
                    if op == "sub" {
                        Konst::Sub(Box::new(a), Box::new(b))
                    } else if op == "add" {
                        match (&a, &b) {
                            (_, Konst::Int(v)) => Konst::Add(Box::new(a), *v as i64),
                            (Konst::Int(v), _) => Konst::Add(Box::new(b), *v as i64),
                            // a + b = a - (0 - b)
                            _ => Konst::Sub(Box::new(a), Box::new(Konst::Sub(Box::new(Konst::Int(0)), Box::new(b)))),
                        }
                    } else {
                        Konst::Xor(Box::new(a), Box::new(b))
                    }
                }
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    self.expect(')');
                    let n = ty.nleaves();
                    Konst::Agg(vec![k; n])
                }
                x => {
                    // fp word like f0x...
                    if let Some(h) = x.strip_prefix("f0x") {
                        return Konst::Int(u128::from_str_radix(h, 16).unwrap());
                    }
                    panic!("const word {x} in {:?}", &self.t[..self.t.len().min(30)])
                }
            },
            Tok::Glob(n) => Konst::Glob(n.clone()),
            Tok::CStr(b) => Konst::Bytes(b.clone()),
            Tok::P('[') | Tok::P('{') => {
                let mut v = vec![];
                loop {
                    if self.eat(']') || self.eat('}') {
                        break;
                    }
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat(',');
                }
                Konst::Agg(v)
            }
            Tok::P('<') => {
                let brace = self.eat('{');
                let mut v = vec![];
                loop {
                    if self.eat('}') || self.eat('>') {
                        break;
                    }
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat(',');
                }
                if brace {
                    self.expect('>');
                }
                Konst::Agg(v)
            }
            x => panic!("konst? {:?}", x),
        }
    }
}
fn fp_word(w: &str, neg: bool, ty: &Ty) -> u128 {
    let v = match w {
        "inf" => f64::INFINITY,
        _ => f64::NAN,
    };
    let v = if neg { -v } else { v };
    match ty {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => {
            let mut b = v.to_bits();
            if w != "inf" {
                b = 0x7ff8000000000000 | ((neg as u64) << 63);
            }
            b as u128
        }
    }
}
fn parse_fp(s: &str, ty: &Ty) -> u128 {
    if let Some(h) = s.strip_prefix("0x") {
        let h = h.trim_start_matches(|c: char| "KLMHR".contains(c));
        let bits = u128::from_str_radix(h, 16).unwrap();
        if *ty == Ty::F32 {
            return (f64::from_bits(bits as u64) as f32).to_bits() as u128;
        }
        return bits;
    }
    let (neg, r) = match s.as_bytes()[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if r.starts_with("inf") || r.starts_with("nan") || r.starts_with("qnan") {
        return fp_word(if r.starts_with("inf") { "inf" } else { "nan" }, neg, ty);
    }
    let v: f64 = s.parse().unwrap_or_else(|_| panic!("fp const {s}"));
    match ty {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    }
}

#[derive(Clone)]
struct VReg {
    base: u32,
    ty: Ty,
}

struct FB<'m> {
    m: &'m mut Module,
    regs: HashMap<String, VReg>,
    n: u32,
    blocks: HashMap<String, u32>,
}

impl Module {
    fn pool(&mut self, k: Konst, w: u32) -> u32 {
        let key = format!("{:?}/{}", k, w);
        if let Some(&i) = self.pool_idx.get(&key) {
            return i;
        }
        let i = self.pool.len() as u32;
        self.pool.push((k, w));
        self.pool_idx.insert(key, i);
        i
    }
    fn intrinsic(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.intr_idx.get(n) {
            return i;
        }
        let i = self.intr.len() as u32;
        self.intr.push(n.to_string());
        self.intr_idx.insert(n.to_string(), i);
        i
    }
}

impl<'m> FB<'m> {
    fn flat_konst(&mut self, k: &Konst, ty: &Ty, out: &mut Vec<Opnd>) {
        match (k, ty) {
            (Konst::Agg(v), _) => {
                for (i, x) in v.iter().enumerate() {
                    let t = ty.elem(i);
                    self.flat_konst(x, &t, out);
                }
            }
            (Konst::Zero(_), _) | (Konst::Undef(_), _) => {
                let mut l = vec![];
                ty.leaves(0, &mut l);
                for (_, w, _) in l {
                    let i = self.m.pool(Konst::Int(0), w);
                    out.push(Opnd::K(i));
                }
            }
            (Konst::Bytes(b), _) => {
                for x in b {
                    let i = self.m.pool(Konst::Int(*x as u128), 8);
                    out.push(Opnd::K(i));
                }
            }
            _ => {
                let mut l = vec![];
                ty.leaves(0, &mut l);
                let w = l.first().map(|x| x.1).unwrap_or(64);
                let i = self.m.pool(k.clone(), w);
                out.push(Opnd::K(i));
            }
        }
    }
    fn opnd(&mut self, p: &mut P, ty: &Ty) -> Vec<Opnd> {
        if let Some(Tok::Loc(n)) = p.peek() {
            p.i += 1;
            let r = self.regs.get(n).unwrap_or_else(|| panic!("reg {n}")).clone();
            let nl = r.ty.nleaves() as u32;
            return (0..nl).map(|i| Opnd::R(r.base + i)).collect();
        }
        let k = p.konst(ty);
        let mut v = vec![];
        self.flat_konst(&k, ty, &mut v);
        v
    }
    fn one(&mut self, p: &mut P, ty: &Ty) -> Opnd {
        let mut v = self.opnd(p, ty);
        if v.len() != 1 {
            panic!("expected single leaf for {:?}", ty);
        }
        v.pop().unwrap()
    }
    fn def(&mut self, n: &str, ty: Ty) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return r.base;
        }
        let b = self.n;
        self.n += ty.nleaves().max(1) as u32;
        self.regs.insert(n.to_string(), VReg { base: b, ty });
        b
    }
}

fn width(t: &Ty) -> u32 {
    match t {
        Ty::Int(n) => *n,
        Ty::Ptr | Ty::F64 => 64,
        Ty::F32 => 32,
        Ty::FOther(n) => *n,
        _ => 0,
    }
}

fn parse_call(p: &mut P) -> (Ty, String, Vec<(Ty, usize, usize)>, bool) {
    // after 'call'; returns ret type, callee token name ("" + indirect flag), args token ranges
    p.skip_to_type();
    let mut rt = p.ty();
    // optional fn type  "ret (args...)" for varargs
    if p.isp('(') {
        // could be function type: check it is followed by callee after paren
        p.skip_paren();
    }
    let mut ind = false;
    let name = match p.next() {
        Tok::Glob(n) => n.clone(),
        Tok::Loc(n) => {
            ind = true;
            n.clone()
        }
        Tok::Word(w) if w == "asm" => {
            rt = rt.clone();
            "asm".to_string()
        }
        x => panic!("callee {:?}", x),
    };
    let mut args = vec![];
    if name == "asm" && !ind {
        return (rt, name, args, false);
    }
    p.expect('(');
    loop {
        if p.eat(')') {
            break;
        }
        let t = p.ty();
        if t == Ty::Meta {
            // skip operand
            let mut d = 0;
            loop {
                match p.peek() {
                    Some(Tok::P('(')) => d += 1,
                    Some(Tok::P(')')) if d == 0 => break,
                    Some(Tok::P(')')) => d -= 1,
                    Some(Tok::P(',')) if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            p.eat(',');
            continue;
        }
        p.skip_attrs();
        let s = p.i;
        // find end of operand
        let mut d = 0i32;
        loop {
            match p.peek() {
                Some(Tok::P('(')) | Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => d += 1,
                Some(Tok::P(')')) if d == 0 => break,
                Some(Tok::P(')')) | Some(Tok::P(']')) | Some(Tok::P('}')) | Some(Tok::P('>')) => d -= 1,
                Some(Tok::P(',')) if d == 0 => break,
                None => panic!("call args"),
                _ => {}
            }
            p.i += 1;
        }
        args.push((t, s, p.i));
        p.eat(',');
    }
    (rt, name, args, ind)
}

pub fn parse(src: &str) -> Module {
    let mut m = Module {
        globals: vec![],
        funcs: vec![],
        fidx: HashMap::new(),
        gidx: HashMap::new(),
        alias: HashMap::new(),
        intr: vec![],
        intr_idx: HashMap::new(),
        pool: vec![],
        named: HashMap::new(),
        pool_idx: HashMap::new(),
    };
    let lines: Vec<&str> = src.lines().collect();
    // pass 1: named types, globals, function headers
    let mut i = 0;
    let mut bodies: Vec<(String, usize, usize)> = vec![];
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l);
            if let Tok::Loc(n) = &t[0] {
                let named = m.named.clone();
                let mut p = P { t: &t, i: 3, named: &named };
                if !p.isw("opaque") {
                    let ty = p.ty();
                    m.named.insert(n.clone(), ty);
                }
            }
        }
    }
    let named = m.named.clone();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let t = lex(l);
            let name = match &t[0] {
                Tok::Glob(n) => n.clone(),
                _ => unreachable!(),
            };
            let mut p = P { t: &t, i: 2, named: &named };
            let mut konst = false;
            let mut external = false;
            let mut is_alias = false;
            loop {
                match p.peek() {
                    Some(Tok::Word(w)) => {
                        let w = w.clone();
                        if w == "constant" {
                            konst = true;
                            p.i += 1;
                            break;
                        }
                        if w == "global" {
                            p.i += 1;
                            break;
                        }
                        if w == "alias" {
                            is_alias = true;
                            p.i += 1;
                            break;
                        }
                        if w == "external" || w == "extern_weak" {
                            external = true;
                        }
                        p.i += 1;
                        if p.isp('(') {
                            p.skip_paren();
                        }
                    }
                    _ => {
                        p.i += 1;
                    }
                }
            }
            if is_alias {
                // type, ptr @target
                let mut tgt = None;
                while let Some(t) = p.peek() {
                    if let Tok::Glob(n) = t {
                        tgt = Some(n.clone());
                    }
                    p.i += 1;
                }
                m.alias.insert(name, tgt.expect("alias target"));
            } else {
                let ty = p.ty();
                let init = if external { None } else { Some(p.konst(&ty)) };
                m.gidx.insert(name.clone(), m.globals.len() as u32);
                m.globals.push(Global { name, ty, init, konst });
            }
        } else if l.starts_with("define ") {
            let st = i;
            let at = l.find('@').unwrap();
            let t = lex(&l[at..]);
            let name = match &t[0] {
                Tok::Glob(n) => n.clone(),
                _ => unreachable!(),
            };
            let mut e = i + 1;
            while lines[e] != "}" {
                e += 1;
            }
            m.fidx.insert(name.clone(), bodies.len() as u32);
            bodies.push((name, st, e));
            i = e;
        }
        i += 1;
    }
    for (name, s, e) in bodies {
        // a function this reader cannot take in is only a problem where it is called
        let f = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_fn(&mut m, &named, &name, &lines[s..e]))) {
            Ok(f) => f,
            Err(x) => {
                let why = x.downcast_ref::<String>().cloned().or_else(|| x.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Func { name: name.clone(), nargs: 0, nregs: 0, blocks: vec![vec![Ins::Unsup(format!("unreadable: {why}"))]], dup: None }
            }
        };
        m.funcs.push(f);
    }
    m
}

fn parse_fn(m: &mut Module, named: &HashMap<String, Ty>, name: &str, lines: &[&str]) -> Func {
    let at = lines[0].find('@').unwrap();
    let ht = lex(&lines[0][at..]);
    let mut fb = FB { m, regs: HashMap::new(), n: 0, blocks: HashMap::new() };
    // args
    {
        let mut p = P { t: &ht, i: 1, named };
        p.expect('(');
        let mut k = 0;
        loop {
            if p.eat(')') {
                break;
            }
            if matches!(p.peek(), Some(Tok::Dots)) {
                p.i += 1;
                continue;
            }
            let t = p.ty();
            p.skip_attrs();
            let n = if let Some(Tok::Loc(n)) = p.peek() {
                p.i += 1;
                n.clone()
            } else {
                k.to_string()
            };
            k += 1;
            let b = fb.n;
            fb.n += t.nleaves() as u32;
            fb.regs.insert(n, VReg { base: b, ty: t });
            p.eat(',');
        }
    }
    let nargs = fb.n;
    // join multi-line instrs (switch), split into blocks
    let mut blocks: Vec<(String, Vec<Vec<Tok>>)> = vec![];
    let mut i = 1;
    while i < lines.len() {
        let l = lines[i];
        let tl = l.trim_start();
        if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = l.split(':').next().unwrap();
            let lab = if l.starts_with('"') { l[1..].split("\":").next().unwrap() } else { lab };
            blocks.push((lab.to_string(), vec![]));
            i += 1;
            continue;
        }
        if blocks.is_empty() {
            blocks.push((format!("{}", "0entry"), vec![]));
        }
        let mut s = l.to_string();
        if tl.starts_with("switch ") && tl.ends_with('[') {
            loop {
                i += 1;
                s.push(' ');
                s.push_str(lines[i].trim());
                if lines[i].trim_start().starts_with(']') {
                    break;
                }
            }
        }
        blocks.last_mut().unwrap().1.push(lex(&s));
        i += 1;
    }
    for (k, (n, _)) in blocks.iter().enumerate() {
        fb.blocks.insert(n.clone(), k as u32);
    }
    // pass A: define result registers (need types)
    for (_, ins) in &blocks {
        for t in ins {
            if let (Tok::Loc(n), Some(Tok::P('='))) = (&t[0], t.get(1)) {
                let mut p = P { t, i: 2, named };
                let ty = result_type(&mut p, &fb);
                fb.def(n, ty);
            }
        }
    }
    // phis: block -> list (dst base, nleaves, [(opnds, pred)])
    let mut phis: HashMap<u32, Vec<(u32, Vec<(Vec<Opnd>, u32)>)>> = HashMap::new();
    for (bi, (_, ins)) in blocks.iter().enumerate() {
        for t in ins {
            if let (Tok::Loc(n), Some(Tok::P('=')), Some(Tok::Word(w))) = (&t[0], t.get(1), t.get(2)) {
                if w == "phi" {
                    let mut p = P { t, i: 3, named };
                    p.skip_to_type_fm();
                    let ty = p.ty();
                    let mut inc = vec![];
                    loop {
                        p.expect('[');
                        let v = fb.opnd(&mut p, &ty);
                        p.expect(',');
                        let pb = match p.next() {
                            Tok::Loc(n) => *fb.blocks.get(n).or_else(|| if n == "0" || n.is_empty() { Some(&0) } else { None }).unwrap_or(&0),
                            x => panic!("phi {:?}", x),
                        };
                        p.expect(']');
                        inc.push((v, pb));
                        if !p.eat(',') {
                            break;
                        }
                        if !p.isp('[') {
                            break;
                        }
                    }
                    let base = fb.regs[n].base;
                    phis.entry(bi as u32).or_default().push((base, inc));
                }
            }
        }
    }
    let mk_edge = |from: u32, to: u32| -> Edge {
        let mut copies = vec![];
        if let Some(v) = phis.get(&to) {
            for (base, inc) in v {
                if let Some((ops, _)) = inc.iter().find(|(_, pb)| *pb == from) {
                    for (i, o) in ops.iter().enumerate() {
                        copies.push((base + i as u32, o.clone()));
                    }
                }
            }
        }
        Edge { to, copies }
    };
    let mut out = vec![];
    for (bi, (_, ins)) in blocks.iter().enumerate() {
        let bi = bi as u32;
        let mut code = vec![];
        for t in ins {
            let (dst, st) = match (&t[0], t.get(1)) {
                (Tok::Loc(n), Some(Tok::P('='))) => (fb.regs[n].base, 2),
                _ => (0, 0),
            };
            let mut p = P { t, i: st, named };
            let w = match p.next() {
                Tok::Word(w) => w.clone(),
                x => panic!("instr {:?} in {}", x, name),
            };
            match w.as_str() {
                "phi" => {}
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    let a = fb.opnd(&mut p, &ty);
                    p.expect(',');
                    let b = fb.opnd(&mut p, &ty);
                    let op = match w.as_str() {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "udiv" => BinOp::UDiv,
                        "sdiv" => BinOp::SDiv,
                        "urem" => BinOp::URem,
                        "srem" => BinOp::SRem,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        "xor" => BinOp::Xor,
                        "shl" => BinOp::Shl,
                        "lshr" => BinOp::LShr,
                        _ => BinOp::AShr,
                    };
                    let ew = elem_width(&ty);
                    for (k, (x, y)) in a.into_iter().zip(b).enumerate() {
                        code.push(Ins::Bin { op, w: ew, dst: dst + k as u32, a: x, b: y });
                    }
                }
                "icmp" => {
                    if p.isw("samesign") {
                        p.i += 1;
                    }
                    let pr = match p.next() {
                        Tok::Word(w) => match w.as_str() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            x => panic!("pred {x}"),
                        },
                        x => panic!("{:?}", x),
                    };
                    let ty = p.ty();
                    let a = fb.opnd(&mut p, &ty);
                    p.expect(',');
                    let b = fb.opnd(&mut p, &ty);
                    let ew = elem_width(&ty);
                    for (k, (x, y)) in a.into_iter().zip(b).enumerate() {
                        code.push(Ins::Icmp { p: pr, w: ew, dst: dst + k as u32, a: x, b: y });
                    }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    let a = fb.opnd(&mut p, &ty);
                    let ty2 = if w == "freeze" {
                        ty.clone()
                    } else {
                        p.eatw("to");
                        p.ty()
                    };
                    let (f, t2) = (elem_width(&ty), elem_width(&ty2));
                    if w == "bitcast" && ty.nleaves() != ty2.nleaves() {
                        code.push(Ins::Unsup("bitcast vector".into()));
                        continue;
                    }
                    let k = match w.as_str() {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        "fptoui" => CastK::FpToUi,
                        "fptosi" => CastK::FpToSi,
                        "uitofp" => CastK::UiToFp,
                        "sitofp" => CastK::SiToFp,
                        "fpext" => CastK::FpExt,
                        "fptrunc" => CastK::FpTrunc,
                        "ptrtoint" if t2 < 64 => CastK::Trunc,
                        "inttoptr" if f < 64 => CastK::ZExt,
                        _ => CastK::Copy,
                    };
                    for (i, x) in a.into_iter().enumerate() {
                        code.push(Ins::Cast { k, from: f, to: t2, dst: dst + i as u32, a: x });
                    }
                }
                "select" => {
                    p.skip_to_type();
                    let ct = p.ty();
                    let c = fb.opnd(&mut p, &ct);
                    p.expect(',');
                    let ty = p.ty();
                    let a = fb.opnd(&mut p, &ty);
                    p.expect(',');
                    let ty2 = p.ty();
                    let b = fb.opnd(&mut p, &ty2);
                    let mut l = vec![];
                    ty.leaves(0, &mut l);
                    if c.len() == 1 {
                        code.push(Ins::Select { n: a.len() as u32, dst, c: c[0].clone(), a, b, w: l.iter().map(|x| x.1).collect() });
                    } else {
                        for k in 0..c.len() {
                            code.push(Ins::Select { n: 1, dst: dst + k as u32, c: c[k].clone(), a: vec![a[k].clone()], b: vec![b[k].clone()], w: vec![l[k].1] });
                        }
                    }
                }
                "load" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    p.expect(',');
                    let pt = p.ty();
                    let a = fb.one(&mut p, &pt);
                    let mut l = vec![];
                    ty.leaves(0, &mut l);
                    code.push(Ins::Load { dst, leaves: l.iter().map(|x| (x.0, x.1)).collect(), p: a });
                }
                "store" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    let v = fb.opnd(&mut p, &ty);
                    p.expect(',');
                    let pt = p.ty();
                    let a = fb.one(&mut p, &pt);
                    let mut l = vec![];
                    ty.leaves(0, &mut l);
                    code.push(Ins::Store { vals: v, leaves: l.iter().map(|x| (x.0, x.1)).collect(), p: a });
                }
                "getelementptr" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    p.expect(',');
                    let pt = p.ty();
                    let base = fb.one(&mut p, &pt);
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = ty.clone();
                    let mut first = true;
                    while p.eat(',') {
                        if !p.is_type_start() {
                            break;
                        }
                        let it = p.ty();
                        let iw = width(&it);
                        // constant?
                        let scale_ty;
                        let is_const = !matches!(p.peek(), Some(Tok::Loc(_)));
                        if is_const {
                            let k = p.konst(&it);
                            let v = match k {
                                Konst::Int(v) => {
                                    if iw >= 64 {
                                        v as u64 as i64
                                    } else {
                                        ((v as u64) << (64 - iw)) as i64 >> (64 - iw)
                                    }
                                }
                                _ => 0,
                            };
                            if first {
                                off += v.wrapping_mul(ty.size() as i64);
                            } else {
                                off += cur.field_off(v as usize) as i64;
                                cur = cur.elem(v as usize);
                            }
                        } else {
                            let o = fb.one(&mut p, &it);
                            if first {
                                scale_ty = ty.clone();
                            } else {
                                scale_ty = cur.elem(0);
                                cur = scale_ty.clone();
                            }
                            idx.push((o, iw, scale_ty.size() as i64));
                        }
                        first = false;
                    }
                    code.push(Ins::Gep { dst, base, off, idx });
                }
                "alloca" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    code.push(Ins::Alloca { dst, size: ty.size() });
                }
                "extractvalue" => {
                    let ty = p.ty();
                    let v = fb.opnd(&mut p, &ty);
                    let mut path = vec![];
                    while p.eat(',') {
                        match p.peek() {
                            Some(Tok::Num(_)) => path.push(p.num()),
                            _ => break,
                        }
                    }
                    let (b, t) = ty.leaf_path(&path);
                    let n = t.nleaves();
                    code.push(Ins::Mov { dst, src: v[b..b + n].to_vec() });
                }
                "insertvalue" => {
                    let ty = p.ty();
                    let mut v = fb.opnd(&mut p, &ty);
                    p.expect(',');
                    let t2 = p.ty();
                    let x = fb.opnd(&mut p, &t2);
                    let mut path = vec![];
                    while p.eat(',') {
                        match p.peek() {
                            Some(Tok::Num(_)) => path.push(p.num()),
                            _ => break,
                        }
                    }
                    let (b, t) = ty.leaf_path(&path);
                    for k in 0..t.nleaves() {
                        v[b + k] = x[k].clone();
                    }
                    code.push(Ins::Mov { dst, src: v });
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    let a = fb.one(&mut p, &ty);
                    p.expect(',');
                    let b = fb.one(&mut p, &ty);
                    let op = match w.as_str() {
                        "fadd" => 0,
                        "fsub" => 1,
                        "fmul" => 2,
                        "fdiv" => 3,
                        _ => 4,
                    };
                    code.push(Ins::FBin { op, w: width(&ty), dst, a, b });
                }
                "fneg" => {
                    p.skip_to_type();
                    let ty = p.ty();
                    let a = fb.one(&mut p, &ty);
                    code.push(Ins::FNeg { w: width(&ty), dst, a });
                }
                "fcmp" => {
                    let mut pr = String::new();
                    while !p.is_type_start() {
                        if let Tok::Word(w) = p.next() {
                            pr = w.clone();
                        }
                    }
                    let ty = p.ty();
                    let a = fb.one(&mut p, &ty);
                    p.expect(',');
                    let b = fb.one(&mut p, &ty);
                    code.push(Ins::FCmp { p: pr, w: width(&ty), dst, a, b });
                }
                "tail" | "musttail" | "notail" | "call" => {
                    if w != "call" {
                        p.i += 1;
                    }
                    let (rt, cn, args, ind) = parse_call(&mut p);
                    if cn == "asm" && !ind {
                        code.push(Ins::Unsup("inline asm".into()));
                        continue;
                    }
                    if !ind && (cn.starts_with("llvm.lifetime") || cn.starts_with("llvm.experimental.noalias") || cn.starts_with("llvm.dbg") || cn.starts_with("llvm.donothing")) {
                        continue;
                    }
                    let mut av = vec![];
                    let mut aw = vec![];
                    for (t, s, e) in &args {
                        let sub = &p.t[*s..*e];
                        let mut sp = P { t: sub, i: 0, named };
                        let v = fb.opnd(&mut sp, t);
                        let mut l = vec![];
                        t.leaves(0, &mut l);
                        for (o, (_, w, _)) in v.into_iter().zip(l) {
                            av.push(o);
                            aw.push(w);
                        }
                    }
                    let mut l = vec![];
                    rt.leaves(0, &mut l);
                    let callee = if ind {
                        Callee::Ind(Opnd::R(fb.regs[&cn].base))
                    } else {
                        let mut n = cn.clone();
                        while let Some(a) = fb.m.alias.get(&n) {
                            n = a.clone();
                        }
                        let is_override = matches!(n.as_str(), "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen");
                        if let (Some(&f), false) = (fb.m.fidx.get(&n), is_override) {
                            Callee::Fn(f)
                        } else {
                            Callee::Intr(fb.m.intrinsic(&n))
                        }
                    };
                    code.push(Ins::Call { dst, nret: l.len() as u32, callee, args: av, aw, rw: l.first().map(|x| x.1).unwrap_or(0) });
                }
                "br" => {
                    if p.isw("label") {
                        p.i += 1;
                        let to = lab(&mut p, &fb.blocks);
                        code.push(Ins::Br(mk_edge(bi, to)));
                    } else {
                        let ty = p.ty();
                        let c = fb.one(&mut p, &ty);
                        p.expect(',');
                        p.eatw("label");
                        let t1 = lab(&mut p, &fb.blocks);
                        p.expect(',');
                        p.eatw("label");
                        let t2 = lab(&mut p, &fb.blocks);
                        code.push(Ins::CondBr { c, t: mk_edge(bi, t1), f: mk_edge(bi, t2) });
                    }
                }
                "switch" => {
                    let ty = p.ty();
                    let v = fb.one(&mut p, &ty);
                    p.expect(',');
                    p.eatw("label");
                    let d = lab(&mut p, &fb.blocks);
                    p.expect('[');
                    let mut edges = vec![mk_edge(bi, d)];
                    let mut emap: HashMap<u32, u32> = HashMap::new();
                    emap.insert(d, 0);
                    let mut cases = vec![];
                    while !p.eat(']') {
                        let t = p.ty();
                        let k = match p.konst(&t) {
                            Konst::Int(v) => v,
                            x => panic!("case {:?}", x),
                        };
                        p.expect(',');
                        p.eatw("label");
                        let to = lab(&mut p, &fb.blocks);
                        let ei = *emap.entry(to).or_insert_with(|| {
                            edges.push(mk_edge(bi, to));
                            edges.len() as u32 - 1
                        });
                        cases.push((k, ei));
                    }
                    code.push(Ins::Switch { v, w: width(&ty), cases, edges });
                }
                "ret" => {
                    let ty = p.ty();
                    if ty == Ty::Void {
                        code.push(Ins::Ret(vec![]));
                    } else {
                        let v = fb.opnd(&mut p, &ty);
                        code.push(Ins::Ret(v));
                    }
                }
                "unreachable" => code.push(Ins::Unreachable),
                x => code.push(Ins::Unsup(format!("{x}"))),
            }
        }
        out.push(code);
    }
    Func { name: name.to_string(), nargs, nregs: fb.n, blocks: out, dup: None }
}
fn elem_width(t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, t) => width(t),
        t => width(t),
    }
}
fn lab(p: &mut P, b: &HashMap<String, u32>) -> u32 {
    match p.next() {
        Tok::Loc(n) => *b.get(n).unwrap_or_else(|| panic!("label {n}")),
        x => panic!("label {:?}", x),
    }
}
impl<'a> P<'a> {
    fn skip_to_type_fm(&mut self) {
        self.skip_to_type()
    }
}

fn result_type(p: &mut P, fb: &FB) -> Ty {
    let w = match p.next() {
        Tok::Word(w) => w.clone(),
        x => panic!("{:?}", x),
    };
    match w.as_str() {
        "icmp" | "fcmp" => {
            while !p.is_type_start() {
                p.i += 1;
            }
            match p.ty() {
                Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
            // find " to " word at depth 0, then type
            let mut k = p.i;
            let mut d = 0;
            loop {
                match &p.t[k] {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    Tok::Word(x) if x == "to" && d == 0 => break,
                    _ => {}
                }
                k += 1;
            }
            p.i = k + 1;
            p.ty()
        }
        "getelementptr" | "alloca" => Ty::Ptr,
        "select" => {
            p.skip_to_type();
            let _c = p.ty();
            // skip cond operand
            while !p.eat(',') {
                p.i += 1;
            }
            p.ty()
        }
        "extractvalue" => {
            let ty = p.ty();
            // operand
            let mut d = 0;
            loop {
                match p.next() {
                    Tok::P('{') | Tok::P('[') | Tok::P('<') | Tok::P('(') => d += 1,
                    Tok::P('}') | Tok::P(']') | Tok::P('>') | Tok::P(')') => d -= 1,
                    Tok::P(',') if d == 0 => break,
                    _ => {}
                }
            }
            let mut path = vec![p.num()];
            while p.eat(',') {
                match p.peek() {
                    Some(Tok::Num(_)) => path.push(p.num()),
                    _ => break,
                }
            }
            ty.leaf_path(&path).1
        }
        "insertvalue" => p.ty(),
        "tail" | "musttail" | "notail" | "call" => {
            if w != "call" {
                p.i += 1;
            }
            p.skip_to_type();
            p.ty()
        }
        "freeze" | "load" | "phi" | "fneg" => {
            p.skip_to_type();
            p.ty()
        }
        _ => {
            let _ = fb;
            p.skip_to_type();
            p.ty()
        }
    }
}
