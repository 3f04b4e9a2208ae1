//! Symbolic interpreter for the decoded IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val {
    pub v: u64,
    pub e: u32,
}
pub const WIDE: u32 = u32::MAX;
#[inline]
pub fn cv(v: u64) -> Val {
    Val { v, e: 0 }
}

pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>,
    pub kind: u8, // 0 heap 1 stack 2 global
    pub align: u32,
}
impl Clone for Obj {
    fn clone(&self) -> Obj {
        Obj { data: self.data.clone(), sym: self.sym.clone(), kind: self.kind, align: self.align }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub base: u32,
    pub dst: u32,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Val>,
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free_stack: Vec<u32>,
    pub doms: Vec<Dom>,
    pub multi: Vec<Id>,
    pub multi_sup: u64,
    /// symbolic bytes created so far; a donated path condition presets `doms`
    /// (and `multi`) for bytes that are created later
    pub nvars: u32,
    pub steps: u64,
    pub outs: Vec<Val>,
    pub covers: u64,
    pub pending: Option<u32>,
    pub heap: u64,
    /// float texts seen on this path and whether they were made concrete
    pub floats: Vec<(Vec<Id>, bool)>,
}

#[derive(Clone, Default)]
pub struct Pc {
    pub doms: Vec<Dom>,
    pub nodes: Vec<XNode>,
    pub luts: Vec<Vec<u64>>,
    pub multi: Vec<u32>,
}

pub enum Alt {
    Dom(u32, Dom),
    Cond(Id),
}
pub enum Step {
    Next,
    Jump,
    Fork(Vec<Alt>),
    End(End),
}
#[derive(Clone, Debug)]
pub enum End {
    Done,
    Assume,
    Viol { kind: String, msg: String },
    Unsup(String),
}
pub enum Truth {
    T,
    F,
    U(Alt, Alt),
}

pub const FN_BASE: u64 = 0x4000_0000;

/// Immutable, shared across threads
pub struct Image {
    pub m: Module,
    pub pool: Vec<Val>, // e==WIDE marks index into wide_init
    pub wide_init: Vec<(Val, Val)>,
    pub globals: Vec<GlobObj>,
    pub entry: std::collections::HashMap<String, u32>,
    pub panic_fn: Vec<u8>, // 1 panicking, 2 nounwind, 3 float from_str
    pub intr: Vec<Intr>,
    pub float_model: Option<u32>,
    pub nmut: u32,
}
pub struct GlobObj {
    pub data: Vec<u8>,
    pub konst: bool,
    pub mutidx: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    OvAdd(bool),
    OvSub(bool),
    OvMul(bool),
    SatAdd(bool),
    SatSub(bool),
    Min(bool),
    Max(bool),
    Cmp(bool),
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Assume,
    Expect,
    LoadRel,
    Trap,
    SymU8,
    SymChoice,
    SymAssume,
    SymAssert,
    SymOut,
    SymParam,
    SymCover,
    SymAlloc,
    SymRealloc,
    SymFree,
    SymPanic,
    SymIsSym,
    FAbs,
    FSat(bool),
    FCopysign,
    IsConst,
    FTrunc,
    Unknown,
}

fn intr_of(n: &str) -> Intr {
    use Intr::*;
    let is = |p: &str| n.starts_with(p);
    if n.contains("rust_no_alloc_shim_is_unstable") {
        return Nop;
    }
    match n {
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "memcmp" | "bcmp" => return Memcmp,
        "sym_u8" => return SymU8,
        "sym_choice" => return SymChoice,
        "sym_assume" => return SymAssume,
        "sym_assert" => return SymAssert,
        "sym_out" => return SymOut,
        "sym_param" => return SymParam,
        "sym_cover" => return SymCover,
        "sym_alloc" => return SymAlloc,
        "sym_realloc" => return SymRealloc,
        "sym_free" => return SymFree,
        "sym_panic" => return SymPanic,
        "sym_is_symbolic" => return SymIsSym,
        _ => {}
    }
    if is("llvm.memcpy") || is("llvm.memmove") {
        Memcpy
    } else if is("llvm.memset") {
        Memset
    } else if is("llvm.sadd.with") {
        OvAdd(true)
    } else if is("llvm.uadd.with") {
        OvAdd(false)
    } else if is("llvm.ssub.with") {
        OvSub(true)
    } else if is("llvm.usub.with") {
        OvSub(false)
    } else if is("llvm.smul.with") {
        OvMul(true)
    } else if is("llvm.umul.with") {
        OvMul(false)
    } else if is("llvm.uadd.sat") {
        SatAdd(false)
    } else if is("llvm.usub.sat") {
        SatSub(false)
    } else if is("llvm.sadd.sat") {
        SatAdd(true)
    } else if is("llvm.ssub.sat") {
        SatSub(true)
    } else if is("llvm.umin") {
        Min(false)
    } else if is("llvm.smin") {
        Min(true)
    } else if is("llvm.umax") {
        Max(false)
    } else if is("llvm.smax") {
        Max(true)
    } else if is("llvm.ucmp") {
        Cmp(false)
    } else if is("llvm.scmp") {
        Cmp(true)
    } else if is("llvm.abs") {
        Abs
    } else if is("llvm.ctlz") {
        Ctlz
    } else if is("llvm.cttz") {
        Cttz
    } else if is("llvm.ctpop") {
        Ctpop
    } else if is("llvm.bswap") {
        Bswap
    } else if is("llvm.bitreverse") {
        Bitrev
    } else if is("llvm.fshl") {
        Fshl
    } else if is("llvm.fshr") {
        Fshr
    } else if is("llvm.assume") {
        Assume
    } else if is("llvm.expect") {
        Expect
    } else if is("llvm.load.relative") {
        LoadRel
    } else if is("llvm.trap") || is("llvm.ubsantrap") {
        Trap
    } else if is("llvm.fabs") {
        FAbs
    } else if is("llvm.fptosi.sat") {
        FSat(true)
    } else if is("llvm.fptoui.sat") {
        FSat(false)
    } else if is("llvm.copysign") {
        FCopysign
    } else if is("llvm.is.constant") {
        IsConst
    } else if is("llvm.trunc.f64") {
        FTrunc
    } else if n.contains("rust_alloc_error_handler") {
        SymPanic
    } else {
        Unknown
    }
}

pub fn build_image(m: Module) -> Image {
    let mut im = Image {
        pool: vec![],
        wide_init: vec![],
        globals: vec![],
        entry: Default::default(),
        panic_fn: vec![],
        intr: m.intr.iter().map(|n| intr_of(n)).collect(),
        float_model: m.fidx.get("sym_model_f64_from_str").copied(),
        m,
        nmut: 0,
    };
    let m = &im.m;
    // global id g+1 -> address (g+1)<<32
    fn addr(m: &Module, n: &str) -> i128 {
        let mut n = n.to_string();
        while let Some(a) = m.alias.get(&n) {
            n = a.clone();
        }
        if let Some(g) = m.gidx.get(&n) {
            return ((*g as i128) + 1) << 32;
        }
        if let Some(f) = m.fidx.get(&n) {
            return ((FN_BASE + *f as u64) as i128) << 32;
        }
        // undefined external: give it a function-like poisonous address
        (0x7f00_0000i128) << 32
    }
    fn ev(m: &Module, k: &Konst) -> u128 {
        match k {
            Konst::Int(v) => *v,
            Konst::Glob(n) => addr(m, n) as u128,
            Konst::Add(a, o) => (ev(m, a) as u64).wrapping_add(*o as u64) as u128,
            Konst::Sub(a, b) => (ev(m, a) as u64).wrapping_sub(ev(m, b) as u64) as u128,
            Konst::Xor(a, b) => ev(m, a) ^ ev(m, b),
            Konst::Trunc(a, w) => ev(m, a) & ((1u128 << w) - 1),
            Konst::Zero(_) | Konst::Undef(_) => 0,
            x => panic!("ev {:?}", x),
        }
    }
    let mut pool = vec![];
    let mut wide = vec![];
    for (k, w) in &m.pool {
        let v = ev(m, k);
        if *w > 64 {
            wide.push((cv(v as u64), cv((v >> 64) as u64)));
            pool.push(Val { v: wide.len() as u64 - 1, e: WIDE });
        } else {
            pool.push(cv(v as u64 & mask(*w as u8)));
        }
    }
    fn fill(m: &Module, k: &Konst, t: &Ty, off: usize, data: &mut [u8], rel: &std::collections::HashMap<String, i128>) {
        match k {
            Konst::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    fill(m, x, &t.elem(i), off + t.field_off(i) as usize, data, rel);
                }
            }
            Konst::Bytes(b) => data[off..off + b.len()].copy_from_slice(b),
            Konst::Zero(_) | Konst::Undef(_) => {}
            // relative offsets between objects do not fit 32 bits in this address space: keep the target's object id
            Konst::Trunc(inner, 32) if matches!(**inner, Konst::Sub(..)) => {
                if let Konst::Sub(a, _) = &**inner {
                    let tgt = ev(m, a) as u64;
                    let id = (tgt >> 32) as u32;
                    data[off..off + 4].copy_from_slice(&id.to_le_bytes());
                }
            }
            _ => {
                let v = ev(m, k);
                let n = t.size() as usize;
                data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    let mut nm = 0;
    let rel = Default::default();
    let mut globs = vec![];
    for g in &m.globals {
        let mut data = vec![0u8; g.ty.size() as usize];
        if let Some(k) = &g.init {
            fill(m, k, &g.ty, 0, &mut data, &rel);
        }
        globs.push(GlobObj { data, konst: g.konst, mutidx: nm });
        if !g.konst {
            nm += 1;
        }
    }
    im.panic_fn = m
        .funcs
        .iter()
        .map(|f| {
            let n = &f.name;
            if n.contains("4core9panicking") {
                if n.contains("nounwind") {
                    2
                } else {
                    1
                }
            } else if n.contains("FromStr8from_str") && (n.contains("dec2flt") || n.contains("float_parse")) {
                if n.contains("IeeeFloat") { 0 } else { 3 }
            } else {
                0
            }
        })
        .collect();
    for (n, i) in &m.fidx {
        im.entry.insert(n.clone(), *i);
    }
    im.pool = pool;
    im.wide_init = wide;
    im.globals = globs;
    im.nmut = nm;
    im
}

pub struct Eng {
    pub im: &'static Image,
    pub s: Store,
    pub z: Z3,
    pub wide: Vec<(Val, Val)>,
    pub visited: Vec<bool>,
    pub params: Vec<u64>,
    pub float_limit: u64,
    pub max_steps: u64,
    pub qcache: FxMap<Vec<u64>, bool>,
    pub cert: FxMap<(Id, Dom), bool>,
    pub forks: u64,
    pub total_steps: u64,
    pub cache_hits: u64,
    pub unknowns: u64,
    pub max_objs: usize,
}

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(s) => return s,
        }
    };
}

fn viol(kind: &str, msg: String) -> Step {
    Step::End(End::Viol { kind: kind.into(), msg })
}
fn unsup<T>(m: &str) -> Result<T, Step> {
    Err(Step::End(End::Unsup(m.into())))
}

impl Eng {
    pub fn new(im: &'static Image) -> Eng {
        Eng {
            im,
            s: Store::new(),
            z: Z3::new(),
            wide: im.wide_init.clone(),
            visited: vec![false; im.m.funcs.len()],
            params: vec![],
            max_steps: 3_000_000,
            float_limit: std::env::var("SYMEX_FLOATS").ok().and_then(|x| x.parse().ok()).unwrap_or(1000),
            qcache: Default::default(),
            cert: Default::default(),
            forks: 0,
            total_steps: 0,
            cache_hits: 0,
            unknowns: 0,
            max_objs: 200_000,
        }
    }
    pub fn initial(&self, entry: u32) -> State {
        let mut objs: Vec<Option<Rc<Obj>>> = vec![];
        for g in &self.im.globals {
            if !g.konst {
                objs.push(Some(Rc::new(Obj { data: g.data.clone(), sym: vec![], kind: 2, align: 16 })));
            }
        }
        let f = &self.im.m.funcs[entry as usize];
        State {
            stack: vec![cv(0); f.nregs as usize],
            frames: vec![Frame { f: entry, blk: 0, ip: 0, base: 0, dst: 0, allocas: vec![] }],
            objs,
            free_stack: vec![],
            doms: vec![],
            multi: vec![],
            multi_sup: 0,
            floats: vec![],
            nvars: 0,
            steps: 0,
            outs: vec![],
            covers: 0,
            pending: None,
            heap: 0,
        }
    }

    // ---- values ----
    pub fn ex(&mut self, v: Val, w: u8) -> Id {
        if v.e == 0 {
            self.s.konst(w, v.v)
        } else {
            debug_assert_eq!(self.s.w(v.e), w);
            v.e
        }
    }
    fn of(&self, e: Id) -> Val {
        match self.s.as_const(e) {
            Some(k) => cv(k),
            None => Val { v: 0, e },
        }
    }
    fn mkwide(&mut self, lo: Val, hi: Val) -> Val {
        self.wide.push((lo, hi));
        Val { v: self.wide.len() as u64 - 1, e: WIDE }
    }
    fn wide_of(&self, v: Val) -> (Val, Val) {
        if v.e == WIDE {
            self.wide[v.v as usize]
        } else {
            (v, cv(0))
        }
    }
    fn wide_u128(&self, v: Val) -> Option<u128> {
        let (l, h) = self.wide_of(v);
        if l.e == 0 && h.e == 0 {
            Some(l.v as u128 | (h.v as u128) << 64)
        } else {
            None
        }
    }
    fn from_u128(&mut self, v: u128, w: u32) -> Val {
        let m = if w >= 128 { !0 } else { (1u128 << w) - 1 };
        let v = v & m;
        self.mkwide(cv(v as u64), cv((v >> 64) as u64))
    }

    // ---- solver ----
    fn slice(&self, st: &State, sup: u64) -> (u64, Vec<Id>) {
        let mut sup = sup;
        if sup & st.multi_sup == 0 {
            return (sup, vec![]);
        }
        let mut used = vec![false; st.multi.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in st.multi.iter().enumerate() {
                if !used[i] && self.s.node(c).sup & sup != 0 {
                    used[i] = true;
                    sup |= self.s.node(c).sup;
                    out.push(c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        (sup, out)
    }
    /// is cond (single i1 expr) satisfiable together with the path condition?
    pub fn feasible(&mut self, st: &State, cond: Id) -> bool {
        if let Some(k) = self.s.as_const(cond) {
            return k != 0;
        }
        let (sup, mut conds) = self.slice(st, self.s.node(cond).sup);
        let mut doms = vec![];
        for v in 0..64u32 {
            if sup >> v & 1 != 0 {
                doms.push((v, st.doms[v as usize]));
            }
        }
        conds.push(cond);
        let mut key: Vec<u64> = Vec::with_capacity(conds.len() + doms.len() * 5);
        for c in &conds {
            key.push(*c as u64);
        }
        for (v, d) in &doms {
            key.push(1 << 63 | *v as u64);
            key.extend_from_slice(&d.0);
        }
        if let Some(&r) = self.qcache.get(&key) {
            self.cache_hits += 1;
            return r;
        }
        let r = match self.z.check(&self.s, &doms, &conds, None) {
            Some(b) => b,
            None => {
                self.unknowns += 1;
                true
            }
        };
        self.qcache.insert(key, r);
        r
    }
    /// certify with the solver that domain d forces the single-byte predicate e to `val`
    fn certify(&mut self, v: u32, d: Dom, e: Id, val: bool) {
        let c = if val { self.s.not(e) } else { e };
        if self.s.as_const(c).is_some() {
            return;
        }
        if let Some(_) = self.cert.get(&(c, d)) {
            self.cache_hits += 1;
            return;
        }
        let r = self.z.check(&self.s, &[(v, d)], &[c], None);
        match r {
            Some(false) => {}
            None => self.unknowns += 1,
            Some(true) => panic!("solver disagrees with value table"),
        }
        self.cert.insert((c, d), true);
    }
    pub fn truth(&mut self, st: &State, e: Id) -> Truth {
        let n = self.s.node(e);
        if n.op == Op::Const {
            return if n.k != 0 { Truth::T } else { Truth::F };
        }
        if let Some(v) = self.s.single(e) {
            let bits = match &self.s.node(e).tab {
                Tab::Bit(b) => *b,
                _ => unreachable!(),
            };
            let d = st.doms[v as usize];
            let (t, f) = (d.and(&bits), d.minus(&bits));
            if t.empty() {
                self.certify(v, d, e, false);
                return Truth::F;
            }
            if f.empty() {
                self.certify(v, d, e, true);
                return Truth::T;
            }
            if st.multi_sup >> v & 1 != 0 {
                let ne = self.s.not(e);
                if !self.feasible(st, e) {
                    return Truth::F;
                }
                if !self.feasible(st, ne) {
                    return Truth::T;
                }
            }
            return Truth::U(Alt::Dom(v, t), Alt::Dom(v, f));
        }
        let ne = self.s.not(e);
        for &c in &st.multi {
            if c == e {
                return Truth::T;
            }
            if c == ne {
                return Truth::F;
            }
        }
        let n = self.s.node(e).clone();
        match n.op {
            Op::And => match self.truth(st, n.a) {
                Truth::F => return Truth::F,
                Truth::T => return self.truth(st, n.b),
                u => {
                    if let Truth::F = self.truth(st, n.b) {
                        return Truth::F;
                    }
                    return u;
                }
            },
            Op::Or => match self.truth(st, n.a) {
                Truth::T => return Truth::T,
                Truth::F => return self.truth(st, n.b),
                u => {
                    if let Truth::T = self.truth(st, n.b) {
                        return Truth::T;
                    }
                    return u;
                }
            },
            Op::Xor => {
                if self.s.as_const(n.b) == Some(1) {
                    return match self.truth(st, n.a) {
                        Truth::T => Truth::F,
                        Truth::F => Truth::T,
                        u => u,
                    };
                }
                match self.truth(st, n.a) {
                    u @ Truth::U(..) => return u,
                    a => {
                        let av = matches!(a, Truth::T);
                        return match self.truth(st, n.b) {
                            Truth::T => {
                                if av {
                                    Truth::F
                                } else {
                                    Truth::T
                                }
                            }
                            Truth::F => {
                                if av {
                                    Truth::T
                                } else {
                                    Truth::F
                                }
                            }
                            u => u,
                        };
                    }
                }
            }
            Op::Ite => match self.truth(st, n.a) {
                Truth::T => return self.truth(st, n.b),
                Truth::F => return self.truth(st, n.c),
                u => return u,
            },
            _ => {}
        }
        if !self.feasible(st, e) {
            return Truth::F;
        }
        if !self.feasible(st, ne) {
            return Truth::T;
        }
        Truth::U(Alt::Cond(e), Alt::Cond(ne))
    }
    /// the path condition of a state, free of this engine's expression ids
    pub fn export(&self, st: &State) -> Pc {
        let mut x = Export::default();
        let multi = st.multi.iter().map(|c| self.s.export(*c, &mut x)).collect();
        Pc { doms: st.doms.clone(), nodes: x.nodes, luts: x.luts, multi }
    }
    /// start over under a path condition that another engine exported
    pub fn import(&mut self, st: &mut State, pc: &Pc) {
        st.doms = pc.doms.clone();
        let ids = self.s.import(&pc.nodes, &pc.luts);
        for m in &pc.multi {
            self.add_cond(st, ids[*m as usize]);
        }
    }
    pub fn apply(&mut self, st: &mut State, a: &Alt) {
        match a {
            Alt::Dom(v, d) => {
                let x = &mut st.doms[*v as usize];
                *x = x.and(&d.0);
            }
            Alt::Cond(c) => self.add_cond(st, *c),
        }
    }
    fn add_cond(&mut self, st: &mut State, c: Id) {
        if self.s.as_const(c).is_some() {
            return;
        }
        if let Some(v) = self.s.single(c) {
            if let Tab::Bit(b) = &self.s.node(c).tab {
                let b = *b;
                let x = &mut st.doms[v as usize];
                *x = x.and(&b);
            }
            return;
        }
        let n = self.s.node(c).clone();
        if n.op == Op::And {
            self.add_cond(st, n.a);
            self.add_cond(st, n.b);
            return;
        }
        if !st.multi.contains(&c) {
            st.multi.push(c);
            st.multi_sup |= n.sup;
        }
    }
    /// concrete value of v, or a fork over its feasible values
    fn conc(&mut self, st: &State, v: Val, w: u8) -> Result<u64, Step> {
        if v.e == 0 {
            return Ok(v.v);
        }
        if v.e == WIDE {
            return unsup("concretise wide");
        }
        let e = v.e;
        let n = self.s.node(e).clone();
        if let Some(var) = self.s.single(e) {
            let d = st.doms[var as usize];
            let mut groups: Vec<(u64, Dom)> = vec![];
            for b in d.iter() {
                let x = n.tab.get(b as usize);
                match groups.binary_search_by_key(&x, |g| g.0) {
                    Ok(i) => groups[i].1.set(b),
                    Err(i) => {
                        let mut dd = Dom([0; 4]);
                        dd.set(b);
                        groups.insert(i, (x, dd));
                    }
                }
            }
            let all = groups.len();
            if groups.len() > 1 && st.multi_sup >> var & 1 != 0 {
                let mut keep = vec![];
                for g in groups {
                    let k = self.s.konst(w, g.0);
                    let c = self.s.bin(Op::Eq, e, k);
                    if self.feasible(st, c) {
                        keep.push(g);
                    }
                }
                groups = keep;
            }
            if groups.len() == 1 {
                let k = self.s.konst(w, groups[0].0);
                if all == 1 {
                    let c = self.s.bin(Op::Eq, e, k);
                    self.certify(var, d, c, true);
                }
                return Ok(groups[0].0);
            }
            if groups.is_empty() {
                return Err(Step::End(End::Assume));
            }
            return Err(Step::Fork(groups.into_iter().map(|g| Alt::Dom(var, g.1)).collect()));
        }
        // Ite with decidable condition
        if n.op == Op::Ite {
            match self.truth(st, n.a) {
                Truth::T => {
                    let x = self.of(n.b);
                    return self.conc(st, x, w);
                }
                Truth::F => {
                    let x = self.of(n.c);
                    return self.conc(st, x, w);
                }
                Truth::U(a, b) => return Err(Step::Fork(vec![a, b])),
            }
        }
        // several bytes: split on the bytes' classes through the solver
        let (sup, conds) = self.slice(st, n.sup);
        let doms: Vec<(u32, Dom)> = (0..64u32).filter(|v| sup >> v & 1 != 0).map(|v| (v, st.doms[v as usize])).collect();
        let mut model = vec![];
        match self.z.check(&self.s, &doms, &conds, Some(&mut model)) {
            Some(true) => {}
            Some(false) => return Err(Step::End(End::Assume)),
            None => return unsup("solver unknown"),
        }
        let mut asg = vec![0u8; st.doms.len()];
        for (v, b) in model {
            asg[v as usize] = b;
        }
        let mut memo = Default::default();
        let val = self.s.eval(e, &asg, &mut memo);
        let k = self.s.konst(w, val);
        let c = self.s.bin(Op::Eq, e, k);
        match self.truth(st, c) {
            Truth::U(a, b) => Err(Step::Fork(vec![a, b])),
            Truth::T => Ok(val),
            Truth::F => unsup("concretise: model value infeasible"),
        }
    }

    // ---- memory ----
    fn newobj(&mut self, st: &mut State, size: u64, kind: u8, align: u32) -> u64 {
        let o = Rc::new(Obj { data: vec![if kind == 0 { 0xA5 } else { 0 }; size as usize], sym: vec![], kind, align });
        let idx = if kind == 1 {
            if let Some(i) = st.free_stack.pop() {
                st.objs[i as usize] = Some(o);
                i
            } else {
                st.objs.push(Some(o));
                st.objs.len() as u32 - 1
            }
        } else {
            st.objs.push(Some(o));
            st.objs.len() as u32 - 1
        };
        ((self.im.globals.len() as u64 + 1 + idx as u64) << 32) as u64
    }
    /// (Some(state obj idx) | global idx, offset)
    #[inline]
    fn locate(&self, st: &State, addr: u64, n: u64) -> Result<(bool, usize, usize), Step> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let ng = self.im.globals.len() as u64;
        if id == 0 || id >= FN_BASE {
            return Err(viol("memory", format!("access to invalid address {:#x} (len {})", addr, n)));
        }
        if id <= ng {
            let g = &self.im.globals[id as usize - 1];
            if off + n > g.data.len() as u64 {
                return Err(viol("memory", format!("out of bounds access to global (off {} len {} size {})", off as u32 as i32, n, g.data.len())));
            }
            if g.konst {
                return Ok((true, id as usize - 1, off as usize));
            }
            return Ok((false, g.mutidx as usize, off as usize));
        }
        let i = (id - ng - 1) as usize;
        match st.objs.get(i) {
            Some(Some(o)) => {
                if off + n > o.data.len() as u64 {
                    return Err(viol("memory", format!("out of bounds access (off {} len {} size {} kind {})", off as u32 as i32, n, o.data.len(), o.kind)));
                }
                Ok((false, i, off as usize))
            }
            Some(None) => Err(viol("memory", "use after free".into())),
            None => Err(viol("memory", format!("access to invalid address {:#x}", addr))),
        }
    }
    #[inline]
    fn rd(data: &[u8], off: usize, n: usize) -> u64 {
        match n {
            1 => data[off] as u64,
            8 => u64::from_le_bytes(data[off..off + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(data[off..off + 4].try_into().unwrap()) as u64,
            2 => u16::from_le_bytes(data[off..off + 2].try_into().unwrap()) as u64,
            _ => {
                let mut r = 0u64;
                for i in 0..n {
                    r |= (data[off + i] as u64) << (8 * i);
                }
                r
            }
        }
    }
    fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> Result<Val, Step> {
        let (g, i, off) = self.locate(st, addr, n as u64)?;
        if g {
            return Ok(cv(Self::rd(&self.im.globals[i].data, off, n)));
        }
        let o = st.objs[i].as_ref().unwrap();
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            return Ok(cv(Self::rd(&o.data, off, n)));
        }
        if n == 1 {
            return Ok(Val { v: 0, e: o.sym[off] });
        }
        let mut acc: Id = 0;
        for k in (0..n).rev() {
            let b = if o.sym[off + k] != 0 { o.sym[off + k] } else { self.s.konst(8, o.data[off + k] as u64) };
            acc = if acc == 0 { b } else { self.s.concat(acc, b) };
        }
        Ok(self.of(acc))
    }
    fn load(&mut self, st: &State, addr: u64, w: u32) -> Result<Val, Step> {
        if w > 64 {
            let n = (w as usize + 7) / 8;
            let lo = self.load_bytes(st, addr, 8)?;
            let hi = self.load_bytes(st, addr + 8, n - 8)?;
            let hi = if hi.e != 0 && n < 16 {
                let e = self.s.zext(hi.e, 64);
                self.of(e)
            } else {
                hi
            };
            return Ok(self.mkwide(lo, hi));
        }
        let n = (w as usize + 7) / 8;
        let v = self.load_bytes(st, addr, n)?;
        if w as usize == n * 8 {
            return Ok(v);
        }
        if v.e == 0 {
            Ok(cv(v.v & mask(w as u8)))
        } else {
            let e = self.s.extract(v.e, 0, w as u8);
            Ok(self.of(e))
        }
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, v: Val, n: usize) -> Result<(), Step> {
        let (g, i, off) = self.locate(st, addr, n as u64)?;
        if g {
            return Err(viol("memory", "write to constant".into()));
        }
        let o = Rc::make_mut(st.objs[i].as_mut().unwrap());
        if v.e == 0 {
            let b = v.v.to_le_bytes();
            o.data[off..off + n].copy_from_slice(&b[..n]);
            if !o.sym.is_empty() {
                for x in &mut o.sym[off..off + n] {
                    *x = 0;
                }
            }
        } else {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            if n == 1 {
                o.sym[off] = v.e;
            } else {
                for k in 0..n {
                    let b = self.s.extract(v.e, 8 * k as u8, 8);
                    match self.s.as_const(b) {
                        Some(c) => {
                            o.data[off + k] = c as u8;
                            o.sym[off + k] = 0;
                        }
                        None => o.sym[off + k] = b,
                    }
                }
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u32) -> Result<(), Step> {
        if w > 64 {
            let (lo, hi) = self.wide_of(v);
            self.store_bytes(st, addr, lo, 8)?;
            let n = (w as usize + 7) / 8 - 8;
            let hi = if hi.e != 0 && n < 8 {
                let e = self.s.extract(hi.e, 0, 8 * n as u8);
                self.of(e)
            } else {
                hi
            };
            return self.store_bytes(st, addr + 8, hi, n);
        }
        let n = (w as usize + 7) / 8;
        let mut v = v;
        if v.e != 0 && w as usize != n * 8 {
            let e = self.s.zext(v.e, (n * 8) as u8);
            v = self.of(e);
        }
        self.store_bytes(st, addr, v, n)
    }
    /// load through a symbolic address
    fn load_sym(&mut self, st: &State, a: Val, w: u32) -> Result<Val, Step> {
        let n = self.s.node(a.e).clone();
        let nb = (w as usize + 7) / 8;
        if w <= 64 && w % 8 == 0 {
            if let Some(var) = self.s.single(a.e) {
                let d = st.doms[var as usize];
                let mut lo = u64::MAX;
                let mut hi = 0;
                let mut cnt = 0;
                let mut last = None;
                for b in d.iter() {
                    let x = n.tab.get(b as usize);
                    lo = lo.min(x);
                    hi = hi.max(x);
                    if last != Some(x) {
                        cnt += 1;
                        last = Some(x);
                    }
                }
                if cnt > 1 && lo >> 32 == hi >> 32 && hi - lo < 65536 {
                    if let (Ok((g, i, off)), Ok(_)) = (self.locate(st, lo, nb as u64), self.locate(st, hi, nb as u64)) {
                        let range = (hi - lo) as usize + nb;
                        let data: Option<&[u8]> = if g {
                            Some(&self.im.globals[i].data[off..off + range])
                        } else {
                            let o = st.objs[i].as_ref().unwrap();
                            if o.sym.is_empty() || o.sym[off..off + range].iter().all(|x| *x == 0) {
                                Some(&o.data[off..off + range])
                            } else {
                                None
                            }
                        };
                        if let Some(data) = data {
                            let mut vals = vec![0u64; (hi - lo) as usize + 1];
                            for b in d.iter() {
                                let x = (n.tab.get(b as usize) - lo) as usize;
                                vals[x] = Self::rd(data, x, nb);
                            }
                            let k = self.s.konst(64, lo);
                            let ix = self.s.bin(Op::Sub, a.e, k);
                            let l = self.s.lut(ix, vals, w as u8);
                            return Ok(self.of(l));
                        }
                    }
                }
            } else {
                // several bytes: whole constant table if the address provably stays inside it
                let (sup, conds) = self.slice(st, n.sup);
                let doms: Vec<(u32, Dom)> = (0..64u32).filter(|v| sup >> v & 1 != 0).map(|v| (v, st.doms[v as usize])).collect();
                let mut model = vec![];
                if self.z.check(&self.s, &doms, &conds, Some(&mut model)) == Some(true) {
                    let mut asg = vec![0u8; st.doms.len()];
                    for (v, b) in model {
                        asg[v as usize] = b;
                    }
                    let mut memo = Default::default();
                    let val = self.s.eval(a.e, &asg, &mut memo);
                    if let Ok((true, gi, _)) = self.locate(st, val, nb as u64) {
                        let base = val >> 32 << 32;
                        let sz = self.im.globals[gi].data.len();
                        if sz <= 8192 {
                            let kb = self.s.konst(64, base);
                            let ix = self.s.bin(Op::Sub, a.e, kb);
                            let lim = self.s.konst(64, (sz - nb) as u64);
                            let oob = self.s.bin(Op::Ult, lim, ix);
                            if !self.feasible(st, oob) {
                                let data = &self.im.globals[gi].data;
                                let vals: Vec<u64> = (0..=sz - nb).map(|o| Self::rd(data, o, nb)).collect();
                                let l = self.s.lut(ix, vals, w as u8);
                                return Ok(self.of(l));
                            }
                        }
                    }
                }
            }
        }
        let ad = self.conc(st, a, 64)?;
        self.load(st, ad, w)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Result<(), Step> {
        if n == 0 {
            return Ok(());
        }
        let (g, i, off) = self.locate(st, s, n as u64)?;
        let (data, sym): (Vec<u8>, Vec<u32>) = if g {
            (self.im.globals[i].data[off..off + n].to_vec(), vec![])
        } else {
            let o = st.objs[i].as_ref().unwrap();
            (o.data[off..off + n].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() })
        };
        let (g, i, off) = self.locate(st, d, n as u64)?;
        if g {
            return Err(viol("memory", "write to constant".into()));
        }
        let o = Rc::make_mut(st.objs[i].as_mut().unwrap());
        o.data[off..off + n].copy_from_slice(&data);
        if sym.iter().any(|x| *x != 0) {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + n] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn cstr(&mut self, st: &State, p: u64, n: usize) -> String {
        let mut s = vec![];
        for i in 0..n.min(300) {
            match self.load_bytes(st, p + i as u64, 1) {
                Ok(v) if v.e == 0 => s.push(v.v as u8),
                _ => s.push(b'?'),
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }
    pub fn where_am_i(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(6) {
            v.push(self.im.m.funcs[f.f as usize].name.clone());
        }
        v.join(" < ")
    }

    fn panic_end(&mut self, st: &State, fi: u32, args: &[Val]) -> Step {
        let kind = if self.im.panic_fn[fi as usize] == 2 { "ub-check" } else { "panic" };
        let name = self.im.m.funcs[fi as usize].name.clone();
        // location: last pointer argument with {ptr,len,line,col}
        let mut loc = String::new();
        for a in args.iter().rev() {
            if a.e == 0 {
                if let (Ok(p), Ok(l), Ok(lc)) = (self.load(st, a.v, 64), self.load(st, a.v + 8, 64), self.load(st, a.v + 16, 64)) {
                    if p.e == 0 && l.e == 0 && lc.e == 0 && l.v < 400 && p.v >> 32 != 0 && self.locate(st, p.v, l.v).is_ok() {
                        let f = self.cstr(st, p.v, l.v as usize);
                        if f.contains(".rs") {
                            loc = format!("{}:{}:{}", f, lc.v as u32, lc.v >> 32);
                            break;
                        }
                    }
                }
            }
        }
        let mut msg = String::new();
        if name.contains("panic_fmt") || name.contains("panic_nounwind_fmt") || name.ends_with("5panic") || name.ends_with("14panic_nounwind") {
            if args.len() >= 2 && args[0].e == 0 && args[1].e == 0 {
                let l = if name.ends_with("_fmt") {
                    if args[1].v & 1 == 1 {
                        Some(args[1].v >> 1)
                    } else {
                        None
                    }
                } else {
                    Some(args[1].v)
                };
                if let Some(l) = l {
                    if l < 1000 {
                        msg = self.cstr(st, args[0].v, l as usize);
                    }
                }
            }
        }
        let short = name.split("9panicking").nth(1).unwrap_or(&name).to_string();
        viol(kind, format!("{} {} at {}", short, msg, loc))
    }

    // ---- main interpreter ----
    /// run until fork or end. On fork the current instruction is not executed.
    pub fn run(&mut self, st: &mut State) -> Step {
        let im = self.im;
        loop {
            let (fi, blk, mut ip, base) = {
                let f = st.frames.last().unwrap();
                (f.f, f.blk, f.ip as usize, f.base as usize)
            };
            let code: &'static [Ins] = &im.m.funcs[fi as usize].blocks[blk as usize];
            let start_ip = ip;
            let r = loop {
                let ins = &code[ip];
                match self.step(st, ins, base) {
                    Step::Next => ip += 1,
                    x => break x,
                }
            };
            let n = (ip - start_ip + 1) as u64;
            st.steps += n;
            self.total_steps += n;
            match r {
                Step::Jump => {
                    // frame position already updated by step (branch/call/ret); for calls the
                    // caller's ip must be advanced
                    if st.frames.is_empty() {
                        return Step::End(End::Done);
                    }
                    // mark return ip for caller if a call was made
                    if let Some(c) = st.frames.len().checked_sub(2) {
                        let fr = &mut st.frames[c];
                        if fr.f == fi && fr.base as usize == base && fr.ip == u32::MAX {
                            fr.ip = ip as u32 + 1;
                        }
                    }
                    if st.steps > self.max_steps {
                        return viol("nontermination", format!("step budget {} exhausted in {}", self.max_steps, self.where_am_i(st)));
                    }
                    if st.objs.len() > self.max_objs || st.heap > (1 << 28) {
                        return viol("nontermination", format!("memory budget exhausted in {}", self.where_am_i(st)));
                    }
                }
                Step::Fork(a) => {
                    st.frames.last_mut().unwrap().ip = ip as u32;
                    return Step::Fork(a);
                }
                Step::End(e) => {
                    st.frames.last_mut().unwrap().ip = ip as u32;
                    let e = match e {
                        End::Viol { kind, msg } => End::Viol { kind, msg: format!("{} [in {}]", msg, self.where_am_i(st)) },
                        End::Unsup(m) => End::Unsup(format!("{} [in {}]", m, self.where_am_i(st))),
                        e => e,
                    };
                    return Step::End(e);
                }
                Step::Next => unreachable!(),
            }
        }
    }
    #[inline(always)]
    fn get(&self, st: &State, base: usize, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.stack[base + *r as usize],
            Opnd::K(k) => self.im.pool[*k as usize],
        }
    }
    fn take_edge(&mut self, st: &mut State, base: usize, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.get(st, base, &e.copies[0].1);
                st.stack[base + e.copies[0].0 as usize] = v;
            }
            _ => {
                let mut tmp: [Val; 16] = [cv(0); 16];
                let n = e.copies.len();
                if n <= 16 {
                    for (i, c) in e.copies.iter().enumerate() {
                        tmp[i] = self.get(st, base, &c.1);
                    }
                    for (i, c) in e.copies.iter().enumerate() {
                        st.stack[base + c.0 as usize] = tmp[i];
                    }
                } else {
                    let vals: Vec<Val> = e.copies.iter().map(|c| self.get(st, base, &c.1)).collect();
                    for (c, v) in e.copies.iter().zip(vals) {
                        st.stack[base + c.0 as usize] = v;
                    }
                }
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.blk = e.to;
        f.ip = 0;
    }
    fn step(&mut self, st: &mut State, ins: &'static Ins, base: usize) -> Step {
        match ins {
            Ins::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                let r = if x.e | y.e == 0 && *w <= 64 {
                    let w8 = *w as u8;
                    if y.v == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                        return viol("ub-check", "division by zero".into());
                    }
                    cv(eval_op(bop(*op), w8, w8, w8, x.v, y.v, 0, 0))
                } else {
                    tri!(self.bin(st, *op, *w, x, y))
                };
                st.stack[base + *dst as usize] = r;
                Step::Next
            }
            Ins::Icmp { p, w, dst, a, b } => {
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                let r = if x.e | y.e == 0 {
                    let w8 = *w as u8;
                    cv(match p {
                        Pred::Eq => x.v == y.v,
                        Pred::Ne => x.v != y.v,
                        Pred::Ult => x.v < y.v,
                        Pred::Ule => x.v <= y.v,
                        Pred::Ugt => x.v > y.v,
                        Pred::Uge => x.v >= y.v,
                        Pred::Slt => sx(x.v, w8) < sx(y.v, w8),
                        Pred::Sle => sx(x.v, w8) <= sx(y.v, w8),
                        Pred::Sgt => sx(x.v, w8) > sx(y.v, w8),
                        Pred::Sge => sx(x.v, w8) >= sx(y.v, w8),
                    } as u64)
                } else {
                    tri!(self.icmp(*p, *w, x, y))
                };
                st.stack[base + *dst as usize] = r;
                Step::Next
            }
            Ins::Cast { k, from, to, dst, a } => {
                let x = self.get(st, base, a);
                let r = tri!(self.cast(st, *k, *from, *to, x));
                st.stack[base + *dst as usize] = r;
                Step::Next
            }
            Ins::Select { n, dst, c, a, b, w } => {
                let cvv = self.get(st, base, c);
                if cvv.e == 0 {
                    let src = if cvv.v & 1 != 0 { a } else { b };
                    if *n == 1 {
                        let v = self.get(st, base, &src[0]);
                        st.stack[base + *dst as usize] = v;
                    } else {
                        let vals: Vec<Val> = src.iter().map(|o| self.get(st, base, o)).collect();
                        for (i, v) in vals.into_iter().enumerate() {
                            st.stack[base + *dst as usize + i] = v;
                        }
                    }
                } else {
                    // decide on this path if possible
                    let e = cvv.e;
                    let t = self.truth_quick(st, e);
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let (x, y) = (self.get(st, base, &a[i]), self.get(st, base, &b[i]));
                        let v = match t {
                            Some(true) => x,
                            Some(false) => y,
                            None => {
                                if x == y {
                                    x
                                } else if x.e == WIDE || y.e == WIDE || w[i] > 64 {
                                    let (xl, xh) = self.wide_of(x);
                                    let (yl, yh) = self.wide_of(y);
                                    let (a, b) = (self.ex(xl, 64), self.ex(yl, 64));
                                    let l = self.s.ite(e, a, b);
                                    let (a, b) = (self.ex(xh, 64), self.ex(yh, 64));
                                    let h = self.s.ite(e, a, b);
                                    let (l, h) = (self.of(l), self.of(h));
                                    self.mkwide(l, h)
                                } else {
                                    let (x, y) = (self.ex(x, w[i] as u8), self.ex(y, w[i] as u8));
                                    let r = self.s.ite(e, x, y);
                                    self.of(r)
                                }
                            }
                        };
                        out.push(v);
                    }
                    for (i, v) in out.into_iter().enumerate() {
                        st.stack[base + *dst as usize + i] = v;
                    }
                }
                Step::Next
            }
            Ins::Load { dst, leaves, p } => {
                let a = self.get(st, base, p);
                if leaves.len() == 1 && a.e == 0 {
                    let v = tri!(self.load(st, a.v.wrapping_add(leaves[0].0), leaves[0].1));
                    st.stack[base + *dst as usize] = v;
                } else if leaves.len() == 1 {
                    let v = tri!(self.load_sym(st, a, leaves[0].1));
                    st.stack[base + *dst as usize] = v;
                } else {
                    let ad = tri!(self.conc(st, a, 64));
                    for (i, (o, w)) in leaves.iter().enumerate() {
                        let v = tri!(self.load(st, ad + o, *w));
                        st.stack[base + *dst as usize + i] = v;
                    }
                }
                Step::Next
            }
            Ins::Store { vals, leaves, p } => {
                let a = self.get(st, base, p);
                let ad = if a.e == 0 { a.v } else { tri!(self.conc(st, a, 64)) };
                for (i, (o, w)) in leaves.iter().enumerate() {
                    let v = self.get(st, base, &vals[i]);
                    tri!(self.store(st, ad + o, v, *w));
                }
                Step::Next
            }
            Ins::Gep { dst, base: b, off, idx } => {
                let bv = self.get(st, base, b);
                let mut acc = if bv.e == 0 {
                    cv(bv.v.wrapping_add(*off as u64))
                } else {
                    let k = self.s.konst(64, *off as u64);
                    let e = self.s.bin(Op::Add, bv.e, k);
                    self.of(e)
                };
                for (o, w, scale) in idx {
                    let i = self.get(st, base, o);
                    if i.e == 0 && acc.e == 0 {
                        acc = cv(acc.v.wrapping_add((sx(i.v, *w as u8)).wrapping_mul(*scale) as u64));
                    } else {
                        let ie = self.ex(i, *w as u8);
                        let ie = self.s.sext(ie, 64);
                        let k = self.s.konst(64, *scale as u64);
                        let t = self.s.bin(Op::Mul, ie, k);
                        let ae = self.ex(acc, 64);
                        let e = self.s.bin(Op::Add, ae, t);
                        acc = self.of(e);
                    }
                }
                st.stack[base + *dst as usize] = acc;
                Step::Next
            }
            Ins::Alloca { dst, size } => {
                let a = self.newobj(st, *size, 1, 16);
                let idx = ((a >> 32) - self.im.globals.len() as u64 - 1) as u32;
                st.frames.last_mut().unwrap().allocas.push(idx);
                st.stack[base + *dst as usize] = cv(a);
                Step::Next
            }
            Ins::Mov { dst, src } => {
                if src.len() == 1 {
                    let v = self.get(st, base, &src[0]);
                    st.stack[base + *dst as usize] = v;
                } else {
                    let vals: Vec<Val> = src.iter().map(|o| self.get(st, base, o)).collect();
                    for (i, v) in vals.into_iter().enumerate() {
                        st.stack[base + *dst as usize + i] = v;
                    }
                }
                Step::Next
            }
            Ins::Br(e) => {
                self.take_edge(st, base, e);
                Step::Jump
            }
            Ins::CondBr { c, t, f } => {
                let v = self.get(st, base, c);
                let b = if v.e == 0 {
                    v.v & 1 != 0
                } else {
                    match self.truth(st, v.e) {
                        Truth::T => true,
                        Truth::F => false,
                        Truth::U(a, b) => return Step::Fork(vec![a, b]),
                    }
                };
                self.take_edge(st, base, if b { t } else { f });
                Step::Jump
            }
            Ins::Switch { v, w, cases, edges } => {
                let x = self.get(st, base, v);
                let mut ei = 0u32;
                if x.e == 0 {
                    for (k, e) in cases {
                        if *k as u64 == x.v {
                            ei = *e;
                            break;
                        }
                    }
                } else if x.e == WIDE {
                    return Step::End(End::Unsup("switch wide".into()));
                } else if let Some(var) = self.s.single(x.e) {
                    let d = st.doms[var as usize];
                    let n = self.s.node(x.e);
                    let mut groups: Vec<Dom> = vec![Dom([0; 4]); edges.len()];
                    for b in d.iter() {
                        let val = n.tab.get(b as usize);
                        let mut t = 0;
                        for (k, e) in cases {
                            if *k as u64 == val {
                                t = *e;
                                break;
                            }
                        }
                        groups[t as usize].set(b);
                    }
                    let mut alts: Vec<(u32, Dom)> = groups.into_iter().enumerate().filter(|g| !g.1.empty()).map(|(i, g)| (i as u32, g)).collect();
                    let all = alts.len();
                    if alts.len() > 1 && st.multi_sup >> var & 1 != 0 {
                        let mut keep = vec![];
                        for (i, g) in alts {
                            // membership of the byte in g as an expression
                            let vb = self.s.var(var);
                            let vals: Vec<u64> = (0..256).map(|b| g.has(b as u8) as u64).collect();
                            let c = self.s.lut(vb, vals, 1);
                            if self.feasible(st, c) {
                                keep.push((i, g));
                            }
                        }
                        alts = keep;
                    }
                    match alts.len() {
                        0 => return Step::End(End::Assume),
                        1 => {
                            ei = alts[0].0;
                            // certificate: the domain forces this target (else the solver just said so)
                            let vb = x.e;
                            let mut c = self.s.konst(1, 0);
                            let mut other = self.s.konst(1, 0);
                            for (k, e) in cases {
                                let kk = self.s.konst(*w as u8, *k as u64);
                                let q = self.s.bin(Op::Eq, vb, kk);
                                if *e == ei {
                                    c = self.s.or1(c, q);
                                } else {
                                    other = self.s.or1(other, q);
                                }
                            }
                            if ei == 0 {
                                if all == 1 && self.s.as_const(other).is_none() {
                                    self.certify(var, d, other, false);
                                }
                            } else if all == 1 && self.s.as_const(c).is_none() {
                                self.certify(var, d, c, true);
                            }
                        }
                        _ => return Step::Fork(alts.into_iter().map(|a| Alt::Dom(var, a.1)).collect()),
                    }
                } else {
                    let mut done = false;
                    for i in 1..edges.len() as u32 {
                        let mut c = self.s.konst(1, 0);
                        for (k, e) in cases {
                            if *e == i {
                                let kk = self.s.konst(*w as u8, *k as u64);
                                let q = self.s.bin(Op::Eq, x.e, kk);
                                c = self.s.or1(c, q);
                            }
                        }
                        match self.truth(st, c) {
                            Truth::T => {
                                ei = i;
                                done = true;
                            }
                            Truth::F => {}
                            Truth::U(a, b) => return Step::Fork(vec![a, b]),
                        }
                        if done {
                            break;
                        }
                    }
                }
                let e = &edges[ei as usize];
                self.take_edge(st, base, e);
                Step::Jump
            }
            Ins::Ret(vals) => {
                let fr = st.frames.pop().unwrap();
                for i in fr.allocas.iter() {
                    st.objs[*i as usize] = None;
                    st.free_stack.push(*i);
                }
                if let Some(c) = st.frames.last() {
                    let cb = c.base as usize;
                    if vals.len() == 1 {
                        let v = self.get(st, base, &vals[0]);
                        st.stack[cb + fr.dst as usize] = v;
                    } else if !vals.is_empty() {
                        let vs: Vec<Val> = vals.iter().map(|o| self.get(st, base, o)).collect();
                        for (i, v) in vs.into_iter().enumerate() {
                            st.stack[cb + fr.dst as usize + i] = v;
                        }
                    }
                }
                st.stack.truncate(fr.base as usize);
                Step::Jump
            }
            Ins::Unreachable => viol("ub-check", "reached unreachable".into()),
            Ins::Unsup(s) => Step::End(End::Unsup(s.clone())),
            Ins::Call { dst, nret, callee, args, aw, rw } => {
                let mut av: [Val; 12] = [cv(0); 12];
                let n = args.len();
                let big: Vec<Val>;
                let argv: &[Val] = if n <= 12 {
                    for (i, a) in args.iter().enumerate() {
                        av[i] = self.get(st, base, a);
                    }
                    &av[..n]
                } else {
                    big = args.iter().map(|a| self.get(st, base, a)).collect();
                    &big
                };
                let fi = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let p = self.get(st, base, o);
                        let p = tri!(self.conc(st, p, 64));
                        let id = p >> 32;
                        if id < FN_BASE || id - FN_BASE >= self.im.m.funcs.len() as u64 || p & 0xffff_ffff != 0 {
                            return viol("memory", format!("call through invalid pointer {:#x}", p));
                        }
                        (id - FN_BASE) as u32
                    }
                    Callee::Intr(i) => {
                        let k = self.im.intr[*i as usize];
                        return self.intrinsic(st, k, *i, base, *dst, *nret, argv, aw, *rw);
                    }
                };
                let mut fi = fi;
                let pf = self.im.panic_fn[fi as usize];
                if pf != 0 {
                    if pf <= 2 {
                        return self.panic_end(st, fi, argv);
                    }
                    // f64::from_str on symbolic text: use the harness' model
                    if argv.len() >= 3 && argv[1].e == 0 && argv[2].e == 0 {
                        // few values: every one of them with the real function
                        let mut key = vec![];
                        let mut prod = 1u64;
                        let mut bs = vec![];
                        for k in 0..argv[2].v {
                            if let Ok(b) = self.load_bytes(st, argv[1].v + k, 1) {
                                key.push(if b.e != 0 { b.e } else { b.v as Id | 1 << 31 });
                                if b.e != 0 {
                                    bs.push(b);
                                    prod = prod.saturating_mul(match self.s.single(b.e) {
                                        Some(v) => st.doms[v as usize].iter().count() as u64,
                                        None => 1 << 32,
                                    });
                                }
                            }
                        }
                        let real = match st.floats.iter().find(|f| f.0 == key) {
                            Some(f) => f.1,
                            None => bs.is_empty() || prod <= self.float_limit,
                        };
                        if real {
                            for b in &bs {
                                tri!(self.conc(st, *b, 8));
                            }
                        }
                        if !bs.is_empty() && !st.floats.iter().any(|f| f.0 == key) {
                            st.floats.push((key, real));
                        }
                        if !real {
                            match self.im.float_model {
                                Some(m) => fi = m,
                                None => return Step::End(End::Unsup("f64::from_str on symbolic text".into())),
                            }
                        }
                    }
                }
                let f = &self.im.m.funcs[fi as usize];
                self.visited[fi as usize] = true;
                if f.nargs as usize != n {
                    return Step::End(End::Unsup(format!("arity mismatch calling {}", f.name)));
                }
                if st.frames.len() > 1500 {
                    return viol("stack-overflow", format!("call depth over 1500 in {}", f.name));
                }
                let nb = st.stack.len();
                st.stack.resize(nb + f.nregs as usize, cv(0));
                st.stack[nb..nb + n].copy_from_slice(argv);
                st.frames.last_mut().unwrap().ip = u32::MAX; // patched by run()
                st.frames.push(Frame { f: fi, blk: 0, ip: 0, base: nb as u32, dst: *dst, allocas: vec![] });
                Step::Jump
            }
            Ins::FBin { op, w, dst, a, b } => {
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                let (x, y) = (tri!(self.conc(st, x, *w as u8)), tri!(self.conc(st, y, *w as u8)));
                let r = if *w == 64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    match op {
                        0 => x + y,
                        1 => x - y,
                        2 => x * y,
                        3 => x / y,
                        _ => x % y,
                    }
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match op {
                        0 => x + y,
                        1 => x - y,
                        2 => x * y,
                        3 => x / y,
                        _ => x % y,
                    }
                    .to_bits() as u64
                };
                st.stack[base + *dst as usize] = cv(r);
                Step::Next
            }
            Ins::FNeg { w, dst, a } => {
                let x = self.get(st, base, a);
                let s = 1u64 << (*w - 1);
                let r = if x.e == 0 {
                    cv(x.v ^ s)
                } else {
                    let k = self.s.konst(*w as u8, s);
                    let e = self.s.bin(Op::Xor, x.e, k);
                    self.of(e)
                };
                st.stack[base + *dst as usize] = r;
                Step::Next
            }
            Ins::FCmp { p, w, dst, a, b } => {
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                if x.e != 0 || y.e != 0 {
                    let r = tri!(self.fcmp_sym(p, *w, x, y));
                    st.stack[base + *dst as usize] = r;
                    return Step::Next;
                }
                let (x, y) = if *w == 64 { (f64::from_bits(x.v), f64::from_bits(y.v)) } else { (f32::from_bits(x.v as u32) as f64, f32::from_bits(y.v as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => !un && x == y,
                    "one" => !un && x != y,
                    "olt" => !un && x < y,
                    "ole" => !un && x <= y,
                    "ogt" => !un && x > y,
                    "oge" => !un && x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "true" => true,
                    _ => false,
                };
                st.stack[base + *dst as usize] = cv(r as u64);
                Step::Next
            }
        }
    }
    /// comparisons of symbolic doubles that reduce to bit tests
    fn fcmp_sym(&mut self, p: &str, w: u32, x: Val, y: Val) -> Result<Val, Step> {
        if w != 64 {
            return unsup("fcmp f32 symbolic");
        }
        let xe = self.ex(x, 64);
        let ye = self.ex(y, 64);
        let isnan = |s: &mut Store, e: Id| -> Id {
            let m = s.konst(64, 0x7fff_ffff_ffff_ffff);
            let a = s.bin(Op::And, e, m);
            let k = s.konst(64, 0x7ff0_0000_0000_0000);
            s.bin(Op::Ult, k, a)
        };
        let nx = isnan(&mut self.s, xe);
        let ny = isnan(&mut self.s, ye);
        let un = self.s.or1(nx, ny);
        let beq = self.s.bin(Op::Eq, xe, ye);
        // +0 == -0
        let m = self.s.konst(64, 0x7fff_ffff_ffff_ffff);
        let ax = self.s.bin(Op::And, xe, m);
        let ay = self.s.bin(Op::And, ye, m);
        let z = self.s.konst(64, 0);
        let zx = self.s.bin(Op::Eq, ax, z);
        let zy = self.s.bin(Op::Eq, ay, z);
        let zz = self.s.and1(zx, zy);
        let eq = self.s.or1(beq, zz);
        let nun = self.s.not(un);
        let r = match p {
            "uno" => un,
            "ord" => nun,
            "oeq" => self.s.and1(nun, eq),
            "une" => {
                let t = self.s.and1(nun, eq);
                self.s.not(t)
            }
            _ => return unsup("fcmp symbolic"),
        };
        Ok(self.of(r))
    }
    /// cheap decision for select conditions (no solver call for multi-byte conditions)
    fn truth_quick(&mut self, st: &State, e: Id) -> Option<bool> {
        if let Some(v) = self.s.single(e) {
            if let Tab::Bit(b) = &self.s.node(e).tab {
                let b = *b;
                let d = st.doms[v as usize];
                if d.and(&b).empty() {
                    self.certify(v, d, e, false);
                    return Some(false);
                }
                if d.minus(&b).empty() {
                    self.certify(v, d, e, true);
                    return Some(true);
                }
            }
            return None;
        }
        if st.multi.contains(&e) {
            return Some(true);
        }
        None
    }
    fn bin(&mut self, st: &State, op: BinOp, w: u32, x: Val, y: Val) -> Result<Val, Step> {
        if w > 64 {
            if let (Some(a), Some(b)) = (self.wide_u128(x), self.wide_u128(y)) {
                let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                let sxw = |v: u128| -> i128 { ((v << (128 - w)) as i128) >> (128 - w) };
                if b == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    return Err(viol("ub-check", "division by zero".into()));
                }
                let r = match op {
                    BinOp::Add => a.wrapping_add(b),
                    BinOp::Sub => a.wrapping_sub(b),
                    BinOp::Mul => a.wrapping_mul(b),
                    BinOp::UDiv => a / b,
                    BinOp::URem => a % b,
                    BinOp::SDiv => sxw(a).wrapping_div(sxw(b)) as u128,
                    BinOp::SRem => sxw(a).wrapping_rem(sxw(b)) as u128,
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                    BinOp::Shl => {
                        if b >= w as u128 {
                            0
                        } else {
                            a << b
                        }
                    }
                    BinOp::LShr => {
                        if b >= w as u128 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    BinOp::AShr => (sxw(a) >> (b.min(w as u128 - 1))) as u128,
                };
                return Ok(self.from_u128(r & m, w));
            }
            let (xl, xh) = self.wide_of(x);
            let (yl, yh) = self.wide_of(y);
            match op {
                BinOp::And | BinOp::Or | BinOp::Xor => {
                    let (a, b) = (self.ex(xl, 64), self.ex(yl, 64));
                    let l = self.s.bin(bop(op), a, b);
                    let (a, b) = (self.ex(xh, 64), self.ex(yh, 64));
                    let h = self.s.bin(bop(op), a, b);
                    let (l, h) = (self.of(l), self.of(h));
                    return Ok(self.mkwide(l, h));
                }
                BinOp::Shl | BinOp::LShr if yl.e == 0 && yh.e == 0 => {
                    let k = yl.v;
                    let (l, h) = (self.ex(xl, 64), self.ex(xh, 64));
                    let (nl, nh);
                    let z = self.s.konst(64, 0);
                    if op == BinOp::Shl {
                        if k >= 64 {
                            let kk = self.s.konst(64, k - 64);
                            nh = self.s.bin(Op::Shl, l, kk);
                            nl = z;
                        } else if k == 0 {
                            nl = l;
                            nh = h;
                        } else {
                            let kk = self.s.konst(64, k);
                            let kr = self.s.konst(64, 64 - k);
                            nl = self.s.bin(Op::Shl, l, kk);
                            let a = self.s.bin(Op::Shl, h, kk);
                            let b = self.s.bin(Op::LShr, l, kr);
                            nh = self.s.bin(Op::Or, a, b);
                        }
                    } else if k >= 64 {
                        let kk = self.s.konst(64, k - 64);
                        nl = self.s.bin(Op::LShr, h, kk);
                        nh = z;
                    } else if k == 0 {
                        nl = l;
                        nh = h;
                    } else {
                        let kk = self.s.konst(64, k);
                        let kr = self.s.konst(64, 64 - k);
                        nh = self.s.bin(Op::LShr, h, kk);
                        let a = self.s.bin(Op::LShr, l, kk);
                        let b = self.s.bin(Op::Shl, h, kr);
                        nl = self.s.bin(Op::Or, a, b);
                    }
                    let nh = if w < 128 {
                        let m = self.s.konst(64, mask((w - 64) as u8));
                        self.s.bin(Op::And, nh, m)
                    } else {
                        nh
                    };
                    let (l, h) = (self.of(nl), self.of(nh));
                    return Ok(self.mkwide(l, h));
                }
                BinOp::Add | BinOp::Sub => {
                    let (a, b) = (self.ex(xl, 64), self.ex(yl, 64));
                    let o = bop(op);
                    let l = self.s.bin(o, a, b);
                    let c = if op == BinOp::Add { self.s.bin(Op::Ult, l, a) } else { self.s.bin(Op::Ult, a, b) };
                    let c = self.s.zext(c, 64);
                    let (a, b) = (self.ex(xh, 64), self.ex(yh, 64));
                    let h = self.s.bin(o, a, b);
                    let h = self.s.bin(o, h, c);
                    let (l, h) = (self.of(l), self.of(h));
                    return Ok(self.mkwide(l, h));
                }
                BinOp::Mul => {
                    // only when both high parts are zero: 64x64 -> 128 via 32-bit limbs
                    if xh == cv(0) && yh == cv(0) {
                        let (a, b) = (self.ex(xl, 64), self.ex(yl, 64));
                        let (l, h) = self.mul128(a, b);
                        let (l, h) = (self.of(l), self.of(h));
                        return Ok(self.mkwide(l, h));
                    }
                    return unsup("wide mul");
                }
                _ => return unsup("symbolic wide op"),
            }
        }
        let w8 = w as u8;
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            if y.e != 0 {
                let z = self.s.konst(w8, 0);
                let c = self.s.bin(Op::Eq, y.e, z);
                match self.truth(st, c) {
                    Truth::F => {}
                    Truth::T => return Err(viol("ub-check", "division by zero".into())),
                    Truth::U(a, b) => return Err(Step::Fork(vec![a, b])),
                }
            } else if y.v == 0 {
                return Err(viol("ub-check", "division by zero".into()));
            }
        }
        let (a, b) = (self.ex(x, w8), self.ex(y, w8));
        let r = self.s.bin(bop(op), a, b);
        Ok(self.of(r))
    }
    fn mul128(&mut self, a: Id, b: Id) -> (Id, Id) {
        let s = &mut self.s;
        let lo = s.bin(Op::Mul, a, b);
        let m32 = s.konst(64, 0xffff_ffff);
        let k32 = s.konst(64, 32);
        let (al, ah) = (s.bin(Op::And, a, m32), s.bin(Op::LShr, a, k32));
        let (bl, bh) = (s.bin(Op::And, b, m32), s.bin(Op::LShr, b, k32));
        let ll = s.bin(Op::Mul, al, bl);
        let lh = s.bin(Op::Mul, al, bh);
        let hl = s.bin(Op::Mul, ah, bl);
        let hh = s.bin(Op::Mul, ah, bh);
        let t1 = s.bin(Op::LShr, ll, k32);
        let lhl = s.bin(Op::And, lh, m32);
        let hll = s.bin(Op::And, hl, m32);
        let mid = s.bin(Op::Add, t1, lhl);
        let mid = s.bin(Op::Add, mid, hll);
        let c = s.bin(Op::LShr, mid, k32);
        let lhh = s.bin(Op::LShr, lh, k32);
        let hlh = s.bin(Op::LShr, hl, k32);
        let h = s.bin(Op::Add, hh, lhh);
        let h = s.bin(Op::Add, h, hlh);
        let h = s.bin(Op::Add, h, c);
        (lo, h)
    }
    fn icmp(&mut self, p: Pred, w: u32, x: Val, y: Val) -> Result<Val, Step> {
        if w > 64 {
            if let (Some(a), Some(b)) = (self.wide_u128(x), self.wide_u128(y)) {
                let sxw = |v: u128| -> i128 { ((v << (128 - w)) as i128) >> (128 - w) };
                let (sa, sb) = (sxw(a), sxw(b));
                return Ok(cv(match p {
                    Pred::Eq => a == b,
                    Pred::Ne => a != b,
                    Pred::Ult => a < b,
                    Pred::Ule => a <= b,
                    Pred::Ugt => a > b,
                    Pred::Uge => a >= b,
                    Pred::Slt => sa < sb,
                    Pred::Sle => sa <= sb,
                    Pred::Sgt => sa > sb,
                    Pred::Sge => sa >= sb,
                } as u64));
            }
            let (xl, xh) = self.wide_of(x);
            let (yl, yh) = self.wide_of(y);
            let (xl, xh, yl, yh) = (self.ex(xl, 64), self.ex(xh, 64), self.ex(yl, 64), self.ex(yh, 64));
            let el = self.s.bin(Op::Eq, xl, yl);
            let eh = self.s.bin(Op::Eq, xh, yh);
            let eq = self.s.and1(el, eh);
            let r = match p {
                Pred::Eq => eq,
                Pred::Ne => self.s.not(eq),
                Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge => {
                    let (al, ah, bl, bh) = if matches!(p, Pred::Ult | Pred::Ule) { (xl, xh, yl, yh) } else { (yl, yh, xl, xh) };
                    let hl = self.s.bin(Op::Ult, ah, bh);
                    let lo = self.s.bin(if matches!(p, Pred::Ult | Pred::Ugt) { Op::Ult } else { Op::Ule }, al, bl);
                    let t = self.s.and1(eh, lo);
                    self.s.or1(hl, t)
                }
                _ => return unsup("signed wide compare"),
            };
            return Ok(self.of(r));
        }
        let w8 = w as u8;
        let (a, b) = (self.ex(x, w8), self.ex(y, w8));
        let s = &mut self.s;
        let r = match p {
            Pred::Eq => s.bin(Op::Eq, a, b),
            Pred::Ne => {
                let e = s.bin(Op::Eq, a, b);
                s.not(e)
            }
            Pred::Ult => s.bin(Op::Ult, a, b),
            Pred::Ule => s.bin(Op::Ule, a, b),
            Pred::Ugt => s.bin(Op::Ult, b, a),
            Pred::Uge => s.bin(Op::Ule, b, a),
            Pred::Slt => s.bin(Op::Slt, a, b),
            Pred::Sle => s.bin(Op::Sle, a, b),
            Pred::Sgt => s.bin(Op::Slt, b, a),
            Pred::Sge => s.bin(Op::Sle, b, a),
        };
        Ok(self.of(r))
    }
    fn cast(&mut self, st: &State, k: CastK, from: u32, to: u32, x: Val) -> Result<Val, Step> {
        match k {
            CastK::Copy => Ok(x),
            CastK::Trunc => {
                if from > 64 {
                    let (l, h) = self.wide_of(x);
                    if to <= 64 {
                        if l.e == 0 {
                            return Ok(cv(l.v & mask(to as u8)));
                        }
                        let e = self.s.extract(l.e, 0, to as u8);
                        return Ok(self.of(e));
                    }
                    let h = if h.e == 0 {
                        cv(h.v & mask((to - 64) as u8))
                    } else {
                        let m = self.s.konst(64, mask((to - 64) as u8));
                        let e = self.s.bin(Op::And, h.e, m);
                        self.of(e)
                    };
                    return Ok(self.mkwide(l, h));
                }
                if x.e == 0 {
                    Ok(cv(x.v & mask(to as u8)))
                } else {
                    let e = self.s.extract(x.e, 0, to as u8);
                    Ok(self.of(e))
                }
            }
            CastK::ZExt => {
                if to > 64 {
                    if from > 64 {
                        return Ok(x);
                    }
                    let lo = if x.e == 0 {
                        x
                    } else {
                        let e = self.s.zext(x.e, 64);
                        self.of(e)
                    };
                    return Ok(self.mkwide(lo, cv(0)));
                }
                if x.e == 0 {
                    Ok(x)
                } else {
                    let e = self.s.zext(x.e, to as u8);
                    Ok(self.of(e))
                }
            }
            CastK::SExt => {
                if to > 64 {
                    if from > 64 {
                        return unsup("wide sext");
                    }
                    if x.e == 0 {
                        let v = sx(x.v, from as u8) as i128 as u128;
                        return Ok(self.from_u128(v, to));
                    }
                    let lo = self.s.sext(x.e, 64);
                    let k = self.s.konst(64, 63);
                    let hi = self.s.bin(Op::AShr, lo, k);
                    let (l, h) = (self.of(lo), self.of(hi));
                    return Ok(self.mkwide(l, h));
                }
                if x.e == 0 {
                    Ok(cv(sx(x.v, from as u8) as u64 & mask(to as u8)))
                } else {
                    let e = self.s.sext(x.e, to as u8);
                    Ok(self.of(e))
                }
            }
            _ => {
                if from > 64 || to > 64 {
                    // concrete wide int -> float
                    if let (Some(u), CastK::UiToFp) = (self.wide_u128(x), k) {
                        return Ok(cv((u as f64).to_bits()));
                    }
                    return unsup("wide fp cast");
                }
                let v = self.conc(st, x, from as u8)?;
                let r = match k {
                    CastK::UiToFp => {
                        if to == 64 {
                            (v as f64).to_bits()
                        } else {
                            (v as f32).to_bits() as u64
                        }
                    }
                    CastK::SiToFp => {
                        let s = sx(v, from as u8);
                        if to == 64 {
                            (s as f64).to_bits()
                        } else {
                            (s as f32).to_bits() as u64
                        }
                    }
                    CastK::FpToUi | CastK::FpToSi => {
                        let f = if from == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                        if k == CastK::FpToUi {
                            f as u64 & mask(to as u8)
                        } else {
                            f as i64 as u64 & mask(to as u8)
                        }
                    }
                    CastK::FpExt => (f32::from_bits(v as u32) as f64).to_bits(),
                    CastK::FpTrunc => (f64::from_bits(v) as f32).to_bits() as u64,
                    _ => unreachable!(),
                };
                Ok(cv(r))
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, idx: u32, base: usize, dst: u32, nret: u32, a: &[Val], aw: &[u32], rw: u32) -> Step {
        use Intr::*;
        let d = base + dst as usize;
        let _ = nret;
        let w = aw.first().copied().unwrap_or(0);
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                st.stack[d] = v;
                return Step::Next;
            }};
        }
        match k {
            Nop => Step::Next,
            Memcpy => {
                let n = tri!(self.conc(st, a[2], aw[2] as u8));
                if n > (1 << 30) {
                    return viol("memory", format!("memcpy of {} bytes", n));
                }
                let (dd, ss) = (tri!(self.conc(st, a[0], 64)), tri!(self.conc(st, a[1], 64)));
                tri!(self.copy(st, dd, ss, n as usize));
                if nret == 1 {
                    st.stack[d] = a[0];
                }
                Step::Next
            }
            Memset => {
                let n = tri!(self.conc(st, a[2], aw[2] as u8));
                let dd = tri!(self.conc(st, a[0], 64));
                let mut v = a[1];
                if aw[1] > 8 {
                    if v.e == 0 {
                        v.v &= 0xff
                    } else {
                        let e = self.s.extract(v.e, 0, 8);
                        v = self.of(e);
                    }
                }
                if n > 0 {
                    let (g, i, off) = tri!(self.locate(st, dd, n));
                    if g {
                        return viol("memory", "write to constant".into());
                    }
                    let o = Rc::make_mut(st.objs[i].as_mut().unwrap());
                    let n = n as usize;
                    if v.e == 0 {
                        o.data[off..off + n].fill(v.v as u8);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n].fill(0);
                        }
                    } else {
                        if o.sym.is_empty() {
                            o.sym = vec![0; o.data.len()];
                        }
                        o.sym[off..off + n].fill(v.e);
                    }
                }
                if nret == 1 {
                    st.stack[d] = a[0];
                }
                Step::Next
            }
            Memcmp => {
                let n = tri!(self.conc(st, a[2], aw[2] as u8));
                let (p, q) = (tri!(self.conc(st, a[0], 64)), tri!(self.conc(st, a[1], 64)));
                if n > 0 {
                    tri!(self.locate(st, p, n));
                    tri!(self.locate(st, q, n));
                }
                let mut pend: Vec<(Id, Id)> = vec![];
                let mut tail = cv(0);
                for i in 0..n {
                    let x = tri!(self.load_bytes(st, p + i, 1));
                    let y = tri!(self.load_bytes(st, q + i, 1));
                    if x == y {
                        continue;
                    }
                    if x.e == 0 && y.e == 0 {
                        tail = cv(if x.v < y.v { mask(rw as u8) } else { 1 });
                        break;
                    }
                    let (xe, ye) = (self.ex(x, 8), self.ex(y, 8));
                    pend.push((xe, ye));
                }
                let mut acc = self.ex(tail, rw as u8);
                let one = self.s.konst(rw as u8, 1);
                let neg = self.s.konst(rw as u8, mask(rw as u8));
                for (x, y) in pend.into_iter().rev() {
                    let lt = self.s.bin(Op::Ult, x, y);
                    let ne = self.s.ite(lt, neg, one);
                    let eq = self.s.bin(Op::Eq, x, y);
                    acc = self.s.ite(eq, acc, ne);
                }
                ret!(self.of(acc))
            }
            OvAdd(sg) | OvSub(sg) | OvMul(sg) => {
                let (x, y) = (a[0], a[1]);
                if w > 64 {
                    if let (Some(x), Some(y), false) = (self.wide_u128(x), self.wide_u128(y), sg) {
                        let (r, o) = match k {
                            OvAdd(_) => x.overflowing_add(y),
                            OvSub(_) => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        let v = self.from_u128(r, w);
                        st.stack[d] = v;
                        st.stack[d + 1] = cv(o as u64);
                        return Step::Next;
                    }
                    return Step::End(End::Unsup("wide overflow op".into()));
                }
                let w8 = w as u8;
                if x.e | y.e == 0 {
                    let (r, o) = ov(k, w8, x.v, y.v);
                    st.stack[d] = cv(r);
                    st.stack[d + 1] = cv(o as u64);
                    return Step::Next;
                }
                let (xe, ye) = (self.ex(x, w8), self.ex(y, w8));
                let (r, o) = self.ov_sym(k, w8, xe, ye);
                st.stack[d] = self.of(r);
                st.stack[d + 1] = self.of(o);
                Step::Next
            }
            SatAdd(sg) | SatSub(sg) => {
                let w8 = w as u8;
                let ok = if matches!(k, SatAdd(_)) { OvAdd(sg) } else { OvSub(sg) };
                let (xe, ye) = (self.ex(a[0], w8), self.ex(a[1], w8));
                if sg {
                    return Step::End(End::Unsup("signed saturating".into()));
                }
                let (r, o) = self.ov_sym(ok, w8, xe, ye);
                let lim = self.s.konst(w8, if matches!(k, SatAdd(_)) { mask(w8) } else { 0 });
                let e = self.s.ite(o, lim, r);
                ret!(self.of(e))
            }
            Min(sg) | Max(sg) => {
                let w8 = w as u8;
                if w > 64 {
                    return Step::End(End::Unsup("wide min/max".into()));
                }
                let (xe, ye) = (self.ex(a[0], w8), self.ex(a[1], w8));
                let lt = self.s.bin(if sg { Op::Slt } else { Op::Ult }, xe, ye);
                let e = if matches!(k, Min(_)) { self.s.ite(lt, xe, ye) } else { self.s.ite(lt, ye, xe) };
                ret!(self.of(e))
            }
            Cmp(sg) => {
                let w8 = w as u8;
                let (xe, ye) = (self.ex(a[0], w8), self.ex(a[1], w8));
                let lt = self.s.bin(if sg { Op::Slt } else { Op::Ult }, xe, ye);
                let eq = self.s.bin(Op::Eq, xe, ye);
                let (m1, z, one) = (self.s.konst(rw as u8, mask(rw as u8)), self.s.konst(rw as u8, 0), self.s.konst(rw as u8, 1));
                let t = self.s.ite(eq, z, one);
                let e = self.s.ite(lt, m1, t);
                ret!(self.of(e))
            }
            Abs => {
                let w8 = w as u8;
                let xe = self.ex(a[0], w8);
                let z = self.s.konst(w8, 0);
                let n = self.s.bin(Op::Sub, z, xe);
                let lt = self.s.bin(Op::Slt, xe, z);
                let e = self.s.ite(lt, n, xe);
                ret!(self.of(e))
            }
            Ctlz | Cttz | Ctpop | Bswap | Bitrev => {
                if w > 64 {
                    if let Some(x) = self.wide_u128(a[0]) {
                        let r = match k {
                            Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                            Cttz => (x.trailing_zeros().min(w)) as u128,
                            Ctpop => x.count_ones() as u128,
                            Bswap => x.swap_bytes() >> (128 - w),
                            _ => x.reverse_bits() >> (128 - w),
                        };
                        let v = self.from_u128(r, w);
                        ret!(v)
                    }
                    return Step::End(End::Unsup("wide bit op".into()));
                }
                if a[0].e == 0 {
                    let x = a[0].v;
                    let r = match k {
                        Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                        Cttz => x.trailing_zeros().min(w) as u64,
                        Ctpop => x.count_ones() as u64,
                        Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    ret!(cv(r))
                }
                let w8 = w as u8;
                let x = a[0].e;
                match k {
                    Ctlz | Cttz => {
                        let mut acc = self.s.konst(w8, w as u64);
                        let order: Vec<u8> = if k == Ctlz { (0..w8).collect() } else { (0..w8).rev().collect() };
                        for i in order {
                            let b = self.s.extract(x, i, 1);
                            let v = if k == Ctlz { (w8 - 1 - i) as u64 } else { i as u64 };
                            let kk = self.s.konst(w8, v);
                            acc = self.s.ite(b, kk, acc);
                        }
                        ret!(self.of(acc))
                    }
                    Ctpop => {
                        let mut acc = self.s.konst(w8, 0);
                        for i in 0..w8 {
                            let b = self.s.extract(x, i, 1);
                            let z = self.s.zext(b, w8);
                            acc = self.s.bin(Op::Add, acc, z);
                        }
                        ret!(self.of(acc))
                    }
                    Bswap => {
                        let mut acc = 0;
                        for i in 0..w8 / 8 {
                            let b = self.s.extract(x, 8 * i, 8);
                            acc = if acc == 0 { b } else { self.s.concat(acc, b) };
                        }
                        ret!(self.of(acc))
                    }
                    _ => {
                        let mut acc = 0;
                        for i in 0..w8 {
                            let b = self.s.extract(x, i, 1);
                            acc = if acc == 0 { b } else { self.s.concat(acc, b) };
                        }
                        ret!(self.of(acc))
                    }
                }
            }
            Fshl | Fshr => {
                if w > 64 {
                    return Step::End(End::Unsup("wide funnel shift".into()));
                }
                let w8 = w as u8;
                let sh = tri!(self.conc(st, a[2], w8)) % w as u64;
                let sh = if k == Fshl { sh } else { (w as u64 - sh) % w as u64 };
                // fshl: high w bits of (a:b) << sh ; fshr by s == fshl by w-s (s!=0), else b
                if sh == 0 {
                    ret!(if k == Fshl { a[0] } else { a[1] })
                }
                let (xe, ye) = (self.ex(a[0], w8), self.ex(a[1], w8));
                let k1 = self.s.konst(w8, sh);
                let k2 = self.s.konst(w8, w as u64 - sh);
                let h = self.s.bin(Op::Shl, xe, k1);
                let l = self.s.bin(Op::LShr, ye, k2);
                let e = self.s.bin(Op::Or, h, l);
                ret!(self.of(e))
            }
            Assume => {
                let v = a[0];
                let b = if v.e == 0 {
                    v.v & 1 != 0
                } else {
                    match self.truth(st, v.e) {
                        Truth::T => true,
                        Truth::F => false,
                        Truth::U(x, y) => return Step::Fork(vec![x, y]),
                    }
                };
                if !b {
                    return viol("ub-check", "compiler assumption violated (undefined behaviour)".into());
                }
                Step::Next
            }
            Expect => ret!(a[0]),
            IsConst => ret!(cv(0)),
            LoadRel => {
                let (p, off) = (tri!(self.conc(st, a[0], 64)), tri!(self.conc(st, a[1], 64)));
                let v = tri!(self.load(st, p.wrapping_add(off), 32));
                let v = tri!(self.conc(st, v, 32));
                ret!(cv(v << 32))
            }
            Trap => viol("ub-check", "trap".into()),
            SymU8 => {
                let v = st.nvars;
                if v >= 64 {
                    return Step::End(End::Unsup("more than 64 symbolic bytes".into()));
                }
                st.nvars += 1;
                if v as usize == st.doms.len() {
                    st.doms.push(Dom::FULL);
                }
                let e = self.s.var(v);
                ret!(Val { v: 0, e })
            }
            SymChoice => {
                let n = tri!(self.conc(st, a[0], w as u8));
                let var = match st.pending {
                    Some(v) => v,
                    None => {
                        let v = st.nvars;
                        if v >= 64 || n == 0 || n > 256 {
                            return Step::End(End::Unsup("bad choice".into()));
                        }
                        let mut dd = Dom([0; 4]);
                        for i in 0..n {
                            dd.set(i as u8);
                        }
                        st.nvars += 1;
                        if v as usize == st.doms.len() {
                            st.doms.push(dd);
                        } else {
                            let x = &mut st.doms[v as usize];
                            *x = x.and(&dd.0);
                        }
                        st.pending = Some(v);
                        v
                    }
                };
                let dm = st.doms[var as usize];
                let vals: Vec<u8> = dm.iter().collect();
                if vals.len() == 1 {
                    st.pending = None;
                    ret!(cv(vals[0] as u64))
                }
                Step::Fork(
                    vals.iter()
                        .map(|b| {
                            let mut x = Dom([0; 4]);
                            x.set(*b);
                            Alt::Dom(var, x)
                        })
                        .collect(),
                )
            }
            SymAssume => {
                let v = a[0];
                if v.e == 0 {
                    return if v.v & 1 != 0 { Step::Next } else { Step::End(End::Assume) };
                }
                let e = self.s.extract(v.e, 0, 1);
                let e = if self.s.w(v.e) == 1 { v.e } else { e };
                match self.truth(st, e) {
                    Truth::T => Step::Next,
                    Truth::F => Step::End(End::Assume),
                    Truth::U(x, _) => {
                        if let Alt::Dom(..) = &x {
                            // single-byte leaf of a possibly larger condition
                            let multi = self.s.single(e).is_none();
                            if multi {
                                if !self.feasible(st, e) {
                                    return Step::End(End::Assume);
                                }
                                self.add_cond(st, e);
                                return Step::Next;
                            }
                        }
                        match x {
                            Alt::Dom(..) => {
                                self.apply(st, &x);
                            }
                            Alt::Cond(_) => {
                                self.add_cond(st, e);
                            }
                        }
                        Step::Next
                    }
                }
            }
            SymAssert => {
                let v = a[0];
                let b = if v.e == 0 {
                    v.v & 1 != 0
                } else {
                    let e = if self.s.w(v.e) == 1 { v.e } else { self.s.extract(v.e, 0, 1) };
                    // one query for the negated assertion; only fork when it can fail
                    let ne = self.s.not(e);
                    if self.s.as_const(e) == Some(1) {
                        true
                    } else if !self.feasible(st, ne) {
                        true
                    } else {
                        match self.truth(st, e) {
                            Truth::T => true,
                            Truth::F => false,
                            Truth::U(x, y) => return Step::Fork(vec![x, y]),
                        }
                    }
                };
                if b {
                    return Step::Next;
                }
                let m = if a.len() >= 3 && a[1].e == 0 && a[2].e == 0 { self.cstr(st, a[1].v, a[2].v as usize) } else { String::new() };
                viol("assert", m)
            }
            SymOut => {
                st.outs.push(a[0]);
                Step::Next
            }
            SymParam => {
                let i = tri!(self.conc(st, a[0], 64));
                let v = self.params.get(i as usize).copied().unwrap_or(0);
                ret!(cv(v))
            }
            SymCover => {
                let i = tri!(self.conc(st, a[0], 64));
                st.covers |= 1 << (i & 63);
                Step::Next
            }
            SymIsSym => {
                let s = a[0].e != 0;
                ret!(cv(s as u64))
            }
            SymAlloc => {
                let n = tri!(self.conc(st, a[0], 64));
                if n > (1 << 26) {
                    return viol("nontermination", format!("allocation of {} bytes", n));
                }
                st.heap += n;
                let p = self.newobj(st, n, 0, 16);
                ret!(cv(p))
            }
            SymRealloc => {
                // (ptr, old, align, new)
                let n = tri!(self.conc(st, a[3], 64));
                let old = tri!(self.conc(st, a[1], 64));
                let p = tri!(self.conc(st, a[0], 64));
                if n > (1 << 26) {
                    return viol("nontermination", format!("allocation of {} bytes", n));
                }
                let (_, i, off) = tri!(self.locate(st, p, 0));
                let size = st.objs[i].as_ref().unwrap().data.len() as u64;
                if off != 0 || size != old {
                    return viol("memory", "realloc with wrong layout".into());
                }
                st.heap += n;
                let np = self.newobj(st, n, 0, 16);
                tri!(self.copy(st, np, p, old.min(n) as usize));
                st.objs[i] = None;
                ret!(cv(np))
            }
            SymFree => {
                let p = tri!(self.conc(st, a[0], 64));
                let sz = tri!(self.conc(st, a[1], 64));
                let (g, i, off) = tri!(self.locate(st, p, 0));
                if g || off != 0 {
                    return viol("memory", "free of invalid pointer".into());
                }
                let o = st.objs[i].as_ref().unwrap();
                if o.kind != 0 || o.data.len() as u64 != sz {
                    return viol("memory", "free with wrong layout".into());
                }
                st.objs[i] = None;
                Step::Next
            }
            SymPanic => viol("panic", "allocation failure or explicit panic".into()),
            FAbs => {
                let m = mask((w - 1) as u8);
                if a[0].e == 0 {
                    ret!(cv(a[0].v & m))
                }
                let k = self.s.konst(w as u8, m);
                let e = self.s.bin(Op::And, a[0].e, k);
                ret!(self.of(e))
            }
            FCopysign => {
                let (x, y) = (tri!(self.conc(st, a[0], w as u8)), tri!(self.conc(st, a[1], w as u8)));
                let m = mask((w - 1) as u8);
                ret!(cv((x & m) | (y & !m & mask(w as u8))))
            }
            FSat(sg) => {
                let x = tri!(self.conc(st, a[0], w as u8));
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let r = match (sg, rw) {
                    (true, 64) => f as i64 as u64,
                    (true, 32) => f as i32 as u32 as u64,
                    (true, 16) => f as i16 as u16 as u64,
                    (true, 8) => f as i8 as u8 as u64,
                    (false, 64) => f as u64,
                    (false, 32) => f as u32 as u64,
                    (false, 16) => f as u16 as u64,
                    (false, 8) => f as u8 as u64,
                    _ => return Step::End(End::Unsup("fptoi.sat width".into())),
                };
                ret!(cv(r))
            }
            FTrunc => {
                let x = tri!(self.conc(st, a[0], 64));
                ret!(cv(f64::from_bits(x).trunc().to_bits()))
            }
            Unknown => Step::End(End::Unsup(format!("unknown external {}", self.im.m.intr[idx as usize]))),
        }
    }
    fn ov_sym(&mut self, k: Intr, w: u8, x: Id, y: Id) -> (Id, Id) {
        let s = &mut self.s;
        match k {
            Intr::OvAdd(false) => {
                let r = s.bin(Op::Add, x, y);
                let o = s.bin(Op::Ult, r, x);
                (r, o)
            }
            Intr::OvSub(false) => {
                let r = s.bin(Op::Sub, x, y);
                let o = s.bin(Op::Ult, x, y);
                (r, o)
            }
            Intr::OvAdd(true) => {
                let r = s.bin(Op::Add, x, y);
                let z = s.konst(w, 0);
                let sxn = s.bin(Op::Slt, x, z);
                let syn = s.bin(Op::Slt, y, z);
                let srn = s.bin(Op::Slt, r, z);
                let same = s.bin(Op::Eq, sxn, syn);
                let d = s.bin(Op::Xor, sxn, srn);
                let o = s.and1(same, d);
                (r, o)
            }
            Intr::OvSub(true) => {
                let r = s.bin(Op::Sub, x, y);
                let z = s.konst(w, 0);
                let sxn = s.bin(Op::Slt, x, z);
                let syn = s.bin(Op::Slt, y, z);
                let srn = s.bin(Op::Slt, r, z);
                let diff = s.bin(Op::Xor, sxn, syn);
                let d = s.bin(Op::Xor, sxn, srn);
                let o = s.and1(diff, d);
                (r, o)
            }
            Intr::OvMul(sg) => {
                if w <= 32 {
                    let (a, b) = if sg { (s.sext(x, 2 * w), s.sext(y, 2 * w)) } else { (s.zext(x, 2 * w), s.zext(y, 2 * w)) };
                    let p = s.bin(Op::Mul, a, b);
                    let r = s.extract(p, 0, w);
                    let e = if sg { s.sext(r, 2 * w) } else { s.zext(r, 2 * w) };
                    let q = s.bin(Op::Eq, p, e);
                    let o = s.not(q);
                    (r, o)
                } else if !sg {
                    let (l, h) = self.mul128(x, y);
                    let z = self.s.konst(64, 0);
                    let q = self.s.bin(Op::Eq, h, z);
                    let o = self.s.not(q);
                    (l, o)
                } else {
                    // |x|*|y| with sign rules
                    let z = s.konst(64, 0);
                    let (sxn, syn) = (s.bin(Op::Slt, x, z), s.bin(Op::Slt, y, z));
                    let (nx, ny) = (s.bin(Op::Sub, z, x), s.bin(Op::Sub, z, y));
                    let ax = s.ite(sxn, nx, x);
                    let ay = s.ite(syn, ny, y);
                    let neg = s.bin(Op::Xor, sxn, syn);
                    let r = s.bin(Op::Mul, x, y);
                    let (l, h) = self.mul128(ax, ay);
                    let s = &mut self.s;
                    let hz = s.bin(Op::Eq, h, z);
                    let hn = s.not(hz);
                    let lim = s.konst(64, 1 << 63);
                    let big_pos = s.bin(Op::Ule, lim, l);
                    let big_neg = s.bin(Op::Ult, lim, l);
                    let big = s.ite(neg, big_neg, big_pos);
                    let o = s.or1(hn, big);
                    (r, o)
                }
            }
            _ => unreachable!(),
        }
    }
}

fn ov(k: Intr, w: u8, x: u64, y: u64) -> (u64, bool) {
    let m = mask(w) as u128;
    match k {
        Intr::OvAdd(false) => {
            let r = x as u128 + y as u128;
            ((r & m) as u64, r > m)
        }
        Intr::OvSub(false) => (x.wrapping_sub(y) & m as u64, x < y),
        Intr::OvMul(false) => {
            let r = x as u128 * y as u128;
            ((r & m) as u64, r > m)
        }
        _ => {
            let (a, b) = (sx(x, w) as i128, sx(y, w) as i128);
            let r = match k {
                Intr::OvAdd(_) => a + b,
                Intr::OvSub(_) => a - b,
                _ => a * b,
            };
            let lo = -(1i128 << (w - 1));
            let hi = (1i128 << (w - 1)) - 1;
            ((r as u128 & m) as u64, r < lo || r > hi)
        }
    }
}
fn bop(o: BinOp) -> Op {
    match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
    }
}
