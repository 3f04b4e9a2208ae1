//! Minimal z3 binding: translates expression DAGs to bit-vector terms and decides them.
#![allow(non_camel_case_types, dead_code)]
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::*;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, id: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: P);
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Dom(pub [u64; 4]);
impl Dom {
    pub const FULL: Dom = Dom([!0; 4]);
    pub fn and(&self, o: &[u64; 4]) -> Dom {
        Dom([self.0[0] & o[0], self.0[1] & o[1], self.0[2] & o[2], self.0[3] & o[3]])
    }
    pub fn minus(&self, o: &[u64; 4]) -> Dom {
        Dom([self.0[0] & !o[0], self.0[1] & !o[1], self.0[2] & !o[2], self.0[3] & !o[3]])
    }
    pub fn empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn has(&self, v: u8) -> bool {
        self.0[v as usize >> 6] >> (v & 63) & 1 != 0
    }
    pub fn set(&mut self, v: u8) {
        self.0[v as usize >> 6] |= 1 << (v & 63);
    }
    pub fn iter(&self) -> impl Iterator<Item = u8> + '_ {
        (0..=255u8).filter(move |v| self.has(*v))
    }
    pub fn pick(&self) -> u8 {
        // prefer printable
        for v in [b'a', b'0', b' '] {
            if self.has(v) {
                return v;
            }
        }
        for v in 0x21..0x7f {
            if self.has(v) {
                return v;
            }
        }
        self.iter().next().unwrap_or(0)
    }
}

pub struct Z3 {
    c: P,
    s: P,
    vars: Vec<P>,
    ast: FxMap<Id, P>,
    domast: FxMap<(u32, Dom), P>,
    pub queries: u64,
    pub time: f64,
    pub maxt: f64,
    pub dump: Option<String>,
    pub dumped: u64,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("20000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, vars: vec![], ast: Default::default(), domast: Default::default(), queries: 0, time: 0.0, maxt: 0.0, dump: None, dumped: 0 }
        }
    }
    fn var(&mut self, i: u32) -> P {
        while self.vars.len() <= i as usize {
            unsafe {
                let n = CString::new(format!("b{}", self.vars.len())).unwrap();
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                let t = Z3_mk_bv_sort(self.c, 8);
                self.vars.push(Z3_mk_const(self.c, s, t));
            }
        }
        self.vars[i as usize]
    }
    fn num(&mut self, w: u8, v: u64) -> P {
        unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w as c_uint)) }
    }
    fn b2bv(&mut self, b: P) -> P {
        let (one, zero) = (self.num(1, 1), self.num(1, 0));
        unsafe { Z3_mk_ite(self.c, b, one, zero) }
    }
    fn tr(&mut self, st: &Store, e: Id) -> P {
        if let Some(&p) = self.ast.get(&e) {
            return p;
        }
        let n = st.node(e).clone();
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Var => self.var(n.k as u32),
                Op::Const => self.num(n.w, n.k),
                Op::Lut => {
                    let ix = self.tr(st, n.a);
                    let iw = st.w(n.a);
                    let vals = st.luts[n.k as usize].vals.clone();
                    // group by value into ranges
                    let mut r = self.num(n.w, 0);
                    let mut i = 0usize;
                    let mut runs: Vec<(usize, usize, u64)> = vec![];
                    while i < vals.len() {
                        let mut j = i;
                        while j + 1 < vals.len() && vals[j + 1] == vals[i] {
                            j += 1;
                        }
                        runs.push((i, j, vals[i]));
                        i = j + 1;
                    }
                    for (lo, hi, v) in runs.into_iter().rev() {
                        if iw < 64 && (lo as u64) >> iw != 0 {
                            continue;
                        }
                        let hi = (hi as u64).min(mask(iw));
                        let (l, h, vv) = (self.num(iw, lo as u64), self.num(iw, hi), self.num(n.w, v));
                        let cond = if lo as u64 == hi {
                            Z3_mk_eq(c, ix, l)
                        } else {
                            let a = [Z3_mk_bvule(c, l, ix), Z3_mk_bvule(c, ix, h)];
                            Z3_mk_and(c, 2, a.as_ptr())
                        };
                        r = Z3_mk_ite(c, cond, vv, r);
                    }
                    r
                }
                Op::Ite => {
                    let x = self.tr(st, n.a);
                    let one = self.num(1, 1);
                    let b = Z3_mk_eq(c, x, one);
                    let y = self.tr(st, n.b);
                    let z = self.tr(st, n.c);
                    Z3_mk_ite(c, b, y, z)
                }
                Op::ZExt => {
                    let x = self.tr(st, n.a);
                    Z3_mk_zero_ext(c, (n.w - st.w(n.a)) as c_uint, x)
                }
                Op::SExt => {
                    let x = self.tr(st, n.a);
                    Z3_mk_sign_ext(c, (n.w - st.w(n.a)) as c_uint, x)
                }
                Op::Extract => {
                    let x = self.tr(st, n.a);
                    Z3_mk_extract(c, (n.k as u8 + n.w - 1) as c_uint, n.k as c_uint, x)
                }
                _ => {
                    let x = self.tr(st, n.a);
                    let y = self.tr(st, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::Eq => {
                            let t = Z3_mk_eq(c, x, y);
                            self.b2bv(t)
                        }
                        Op::Ult => {
                            let t = Z3_mk_bvult(c, x, y);
                            self.b2bv(t)
                        }
                        Op::Ule => {
                            let t = Z3_mk_bvule(c, x, y);
                            self.b2bv(t)
                        }
                        Op::Slt => {
                            let t = Z3_mk_bvslt(c, x, y);
                            self.b2bv(t)
                        }
                        Op::Sle => {
                            let t = Z3_mk_bvsle(c, x, y);
                            self.b2bv(t)
                        }
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast.insert(e, p);
        p
    }
    fn dom(&mut self, v: u32, d: &Dom) -> Option<P> {
        if *d == Dom::FULL {
            return None;
        }
        if let Some(&p) = self.domast.get(&(v, *d)) {
            return Some(p);
        }
        let x = self.var(v);
        let mut alts: Vec<P> = vec![];
        let mut i = 0u32;
        while i < 256 {
            if d.has(i as u8) {
                let mut j = i;
                while j + 1 < 256 && d.has((j + 1) as u8) {
                    j += 1;
                }
                let (l, h) = (self.num(8, i as u64), self.num(8, j as u64));
                unsafe {
                    alts.push(if i == j {
                        Z3_mk_eq(self.c, x, l)
                    } else {
                        let a = [Z3_mk_bvule(self.c, l, x), Z3_mk_bvule(self.c, x, h)];
                        Z3_mk_and(self.c, 2, a.as_ptr())
                    });
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
        let p = unsafe { Z3_mk_or(self.c, alts.len() as c_uint, alts.as_ptr()) };
        self.domast.insert((v, *d), p);
        Some(p)
    }
    /// Some(true)=sat, Some(false)=unsat, None=unknown. `model` receives values for listed vars.
    pub fn check(&mut self, st: &Store, doms: &[(u32, Dom)], conds: &[Id], model: Option<&mut Vec<(u32, u8)>>) -> Option<bool> {
        let t0 = Instant::now();
        let mut parts: Vec<P> = vec![];
        for (v, d) in doms {
            if let Some(p) = self.dom(*v, d) {
                parts.push(p);
            }
        }
        for &e in conds {
            let x = self.tr(st, e);
            let one = self.num(1, 1);
            parts.push(unsafe { Z3_mk_eq(self.c, x, one) });
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for p in &parts {
                Z3_solver_assert(self.c, self.s, *p);
            }
            let r = Z3_solver_check(self.c, self.s);
            if r == 1 {
                if let Some(m) = model {
                    let mm = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, mm);
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, mm, x, true, &mut out) {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.c, out, &mut u);
                            m.push((*v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, mm);
                }
            }
            if let Some(d) = &self.dump {
                // keep a bounded sample of queries for cross-checking with a second solver
                if self.dumped < 40 && (self.queries % 7 == 0) {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let res = if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" };
                    let f = format!("{}.{}.smt2", d, self.dumped);
                    let _ = std::fs::write(&f, format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", res, s));
                    self.dumped += 1;
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.maxt {
            self.maxt = dt;
        }
        match r {
            1 => Some(true),
            -1 => Some(false),
            _ => None,
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
