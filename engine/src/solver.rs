//! z3 back end (C API of the system libz3). One context per worker.
use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_c: P, _e: c_int) {}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}.{}", a, b, c, d)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,  // bit-vector form per expression
    bast: Vec<P>, // boolean form (width 1)
    vars: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub secs: f64,
    pub max_secs: f64,
    cache: FxMap<Vec<u64>, (Res, Vec<(u16, u64)>)>,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                ast: vec![],
                bast: vec![],
                vars: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cache_hits: 0,
                secs: 0.0,
                max_secs: 0.0,
                cache: Default::default(),
            }
        }
    }
    unsafe fn num(&self, w: u32, v: u128) -> P {
        let s = Z3_mk_bv_sort(self.c, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    unsafe fn var(&mut self, p: &Pool, v: usize) -> P {
        while self.vars.len() <= v {
            let i = self.vars.len();
            let w = if i < p.vinfo.len() { p.vinfo[i].w } else { 0 };
            if w == 0 {
                // variant not declared (yet): leave a hole
                self.vars.push(std::ptr::null_mut());
                continue;
            }
            let s = Z3_mk_bv_sort(self.c, w);
            let x = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), s);
            self.vars.push(x);
        }
        if self.vars[v].is_null() {
            let s = Z3_mk_bv_sort(self.c, p.vinfo[v].w);
            self.vars[v] = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), s);
        }
        self.vars[v]
    }
    unsafe fn in_mask(&mut self, p: &Pool, v: usize, m: &Mask) -> P {
        let x = self.var(p, v);
        let mut parts = vec![];
        let mut i = 0u64;
        while i < 256 {
            if !mask_has(m, i) {
                i += 1;
                continue;
            }
            let st = i;
            while i < 256 && mask_has(m, i) {
                i += 1
            }
            let en = i - 1;
            let a = self.num(8, st as u128);
            let b = self.num(8, en as u128);
            if st == en {
                parts.push(Z3_mk_eq(self.c, x, a));
            } else if st == 0 {
                parts.push(Z3_mk_bvule(self.c, x, b));
            } else if en == 255 {
                parts.push(Z3_mk_bvule(self.c, a, x));
            } else {
                let q = [Z3_mk_bvule(self.c, a, x), Z3_mk_bvule(self.c, x, b)];
                parts.push(Z3_mk_and(self.c, 2, q.as_ptr()));
            }
        }
        if parts.len() == 1 {
            parts[0]
        } else {
            Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr())
        }
    }
    /// table as nested ite over runs of (const) or (v + const)
    unsafe fn table(&mut self, p: &Pool, v: usize, t: u32, w: u32) -> P {
        let x = self.var(p, v);
        let tb = &p.tables[t as usize].v;
        let m = mask(w) as u64;
        let dom = p.vinfo[v].dom;
        let mut runs: Vec<(u64, u8, u64)> = vec![]; // start, kind, k  (kind 0 const, 1 affine)
        let mut i = 0usize;
        while i < 256 {
            // longest const or affine run; values outside the initial domain are don't-care
            let mut jc = i;
            let cval = (i..256).find(|k| mask_has(&dom, *k as u64)).map(|k| tb[k]).unwrap_or(0);
            while jc < 256 && (!mask_has(&dom, jc as u64) || tb[jc] == cval) {
                jc += 1
            }
            let mut ja = i;
            let aval = (i..256).find(|k| mask_has(&dom, *k as u64)).map(|k| tb[k].wrapping_sub(k as u64) & m).unwrap_or(0);
            if w >= 8 {
                while ja < 256 && (!mask_has(&dom, ja as u64) || tb[ja].wrapping_sub(ja as u64) & m == aval) {
                    ja += 1
                }
            }
            if ja > jc {
                runs.push((i as u64, 1, aval));
                i = ja;
            } else {
                runs.push((i as u64, 0, cval));
                i = jc;
            }
        }
        let xw = if w > 8 {
            Z3_mk_zero_ext(self.c, w - 8, x)
        } else if w < 8 {
            Z3_mk_extract(self.c, w - 1, 0, x)
        } else {
            x
        };
        self.runs(x, xw, w, &runs)
    }
    unsafe fn runs(&mut self, x: P, xw: P, w: u32, r: &[(u64, u8, u64)]) -> P {
        if r.len() == 1 {
            let (_, k, c) = r[0];
            let n = self.num(w, c as u128);
            return if k == 0 {
                n
            } else if c == 0 {
                xw
            } else {
                Z3_mk_bvadd(self.c, xw, n)
            };
        }
        let h = r.len() / 2;
        let a = self.runs(x, xw, w, &r[..h]);
        let b = self.runs(x, xw, w, &r[h..]);
        let k = self.num(8, r[h].0 as u128);
        Z3_mk_ite(self.c, Z3_mk_bvult(self.c, x, k), a, b)
    }
    unsafe fn list(&mut self, idx: P, iw: u32, w: u32, vals: &[u64]) -> P {
        // runs of constant / affine(idx)
        let m = mask(w) as u64;
        let mut runs: Vec<(u64, u8, u64)> = vec![];
        let mut i = 0usize;
        let n = vals.len();
        while i < n {
            let mut jc = i;
            while jc < n && vals[jc] == vals[i] {
                jc += 1
            }
            let mut ja = i;
            let av = vals[i].wrapping_sub(i as u64) & m;
            if w <= iw {
                while ja < n && vals[ja].wrapping_sub(ja as u64) & m == av {
                    ja += 1
                }
            }
            if ja > jc {
                runs.push((i as u64, 1, av));
                i = ja;
            } else {
                runs.push((i as u64, 0, vals[i]));
                i = jc;
            }
        }
        let xw = if w < iw { Z3_mk_extract(self.c, w - 1, 0, idx) } else { idx };
        self.runs2(idx, iw, xw, w, &runs)
    }
    unsafe fn runs2(&mut self, x: P, iw: u32, xw: P, w: u32, r: &[(u64, u8, u64)]) -> P {
        if r.len() == 1 {
            let (_, k, c) = r[0];
            let n = self.num(w, c as u128);
            return if k == 0 { n } else { Z3_mk_bvadd(self.c, xw, n) };
        }
        let h = r.len() / 2;
        let a = self.runs2(x, iw, xw, w, &r[..h]);
        let b = self.runs2(x, iw, xw, w, &r[h..]);
        let k = self.num(iw, r[h].0 as u128);
        Z3_mk_ite(self.c, Z3_mk_bvult(self.c, x, k), a, b)
    }

    unsafe fn boolean(&mut self, p: &Pool, e: E) -> P {
        if self.bast.len() <= e as usize {
            self.bast.resize(p.len(), std::ptr::null_mut());
        }
        if !self.bast[e as usize].is_null() {
            return self.bast[e as usize];
        }
        let c = self.c;
        let r = match p.k[e as usize] {
            K::Ut { var, t } => {
                let m = p.tables[t as usize].mask;
                let d = p.vinfo[var as usize].dom;
                // choose the sparser description
                self.in_mask(p, var as usize, &mask_and(&m, &d))
            }
            K::Bin(BinOp::And, a, b) => {
                let q = [self.boolean(p, a), self.boolean(p, b)];
                Z3_mk_and(c, 2, q.as_ptr())
            }
            K::Bin(BinOp::Or, a, b) => {
                let q = [self.boolean(p, a), self.boolean(p, b)];
                Z3_mk_or(c, 2, q.as_ptr())
            }
            K::Bin(BinOp::Xor, a, b) if p.as_const(b) == Some(1) => {
                let x = self.boolean(p, a);
                Z3_mk_not(c, x)
            }
            K::Bin(op @ (BinOp::Eq | BinOp::Ult | BinOp::Ule | BinOp::Slt | BinOp::Sle), a, b) => {
                let x = self.bv(p, a);
                let y = self.bv(p, b);
                match op {
                    BinOp::Eq => Z3_mk_eq(c, x, y),
                    BinOp::Ult => Z3_mk_bvult(c, x, y),
                    BinOp::Ule => Z3_mk_bvule(c, x, y),
                    BinOp::Slt => Z3_mk_bvslt(c, x, y),
                    _ => Z3_mk_bvsle(c, x, y),
                }
            }
            K::Ite(q, a, b) => {
                let q = self.boolean(p, q);
                let a = self.boolean(p, a);
                let b = self.boolean(p, b);
                Z3_mk_ite(c, q, a, b)
            }
            _ => {
                let x = self.bv(p, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, x, one)
            }
        };
        self.bast[e as usize] = r;
        r
    }
    unsafe fn bv(&mut self, p: &Pool, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(p.len(), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let c = self.c;
        let w = p.width(e);
        let r = match p.k[e as usize] {
            K::Const(v) => self.num(w, v),
            K::Ut { var, t } => self.table(p, var as usize, t, w),
            K::Var(v) => self.var(p, v as usize),
            K::Bin(op, a, b) => {
                if matches!(op, BinOp::Eq | BinOp::Ult | BinOp::Ule | BinOp::Slt | BinOp::Sle | BinOp::Ne) {
                    let q = self.boolean(p, e);
                    let one = self.num(1, 1);
                    let z = self.num(1, 0);
                    Z3_mk_ite(c, q, one, z)
                } else {
                    let x = self.bv(p, a);
                    let y = self.bv(p, b);
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        _ => Z3_mk_bvashr(c, x, y),
                    }
                }
            }
            K::Ite(q, a, b) => {
                let q = self.boolean(p, q);
                let a = self.bv(p, a);
                let b = self.bv(p, b);
                Z3_mk_ite(c, q, a, b)
            }
            K::Zext(a) => {
                let x = self.bv(p, a);
                Z3_mk_zero_ext(c, w - p.width(a), x)
            }
            K::Sext(a) => {
                let x = self.bv(p, a);
                Z3_mk_sign_ext(c, w - p.width(a), x)
            }
            K::Extract(a, lo) => {
                let x = self.bv(p, a);
                Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
            }
            K::Concat(h, l) => {
                let x = self.bv(p, h);
                let y = self.bv(p, l);
                Z3_mk_concat(c, x, y)
            }
            K::Lookup(l, i) => {
                let x = self.bv(p, i);
                let vals = p.lists[l as usize].1.clone();
                self.list(x, p.width(i), w, &vals)
            }
        };
        self.ast[e as usize] = r;
        r
    }

    /// check: AND of `cons` (boolean expressions) with variable domains; returns model values for `vars`
    pub fn check(&mut self, p: &Pool, cons: &[E], vars: &[u16], doms: &[Mask]) -> (Res, Vec<(u16, u64)>) {
        let mut key: Vec<u64> = Vec::with_capacity(cons.len() + vars.len() * 5);
        for c in cons {
            key.push(*c as u64);
        }
        key[..].sort();
        for v in vars {
            key.push(1 << 40 | *v as u64);
            if p.vinfo[*v as usize].w == 8 {
                key.extend_from_slice(&doms[pos(*v)]);
            }
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let out = unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for v in vars {
                if p.vinfo[*v as usize].w == 8 {
                    let m = doms[pos(*v)];
                    let a = self.in_mask(p, *v as usize, &m);
                    Z3_solver_assert(c, self.s, a);
                }
            }
            for e in cons {
                let a = self.boolean(p, *e);
                Z3_solver_assert(c, self.s, a);
            }
            let err = Z3_get_error_code(c);
            let r = Z3_solver_check(c, self.s);
            let mut res = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if err != 0 || Z3_get_error_code(c) != 0 {
                res = Res::Unknown;
            }
            let mut mv = vec![];
            if res == Res::Sat {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                for v in vars {
                    let x = self.var(p, *v as usize);
                    let mut o: P = std::ptr::null_mut();
                    let mut n = 0u64;
                    if !Z3_model_eval(c, m, x, true, &mut o) || !Z3_get_numeral_uint64(c, o, &mut n) {
                        res = Res::Unknown;
                        break;
                    }
                    mv.push((*v, n));
                }
                Z3_model_dec_ref(c, m);
            }
            Z3_solver_pop(c, self.s, 1);
            (res, mv)
        };
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.max_secs {
            self.max_secs = dt;
        }
        self.queries += 1;
        match out.0 {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        if self.cache.len() < 200_000 {
            self.cache.insert(key, out.clone());
        }
        out
    }
}
