//! z3 through its C API: slicing, caching and model construction.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(Rc<Vec<(u32, u8)>>),
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    hard: P,
    bv: Vec<P>,
    bl: Vec<P>,
    cache: FxMap<Vec<E>, Res>,
    sorts: Vec<P>,
    pub queries: u64,
    pub hits: u64,
    /// Refuted by range analysis.
    pub quick: u64,
    paranoid: bool,
    dump: u32,
    pub sat: u64,
    pub unsat: u64,
    pub nanos: u64,
    pub max_nanos: u64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(seed: u64) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let s = if std::env::var("SYMEX_SIMPLE").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let qn = CString::new("qfbv").unwrap();
            let t = Z3_mk_tactic(c, qn.as_ptr());
            Z3_tactic_inc_ref(c, t);
            let hard = Z3_mk_solver_from_tactic(c, t);
            Z3_solver_inc_ref(c, hard);
            for (s, ms) in [(s, 60_000u32), (hard, 120_000)] {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                for (k, v) in [("timeout", ms), ("random_seed", seed as u32)] {
                    let k = CString::new(k).unwrap();
                    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), v);
                }
                Z3_solver_set_params(c, s, p);
            }
            let mut sorts = vec![];
            for i in 0..=256 {
                let so = if i == 0 { std::ptr::null_mut() } else { Z3_mk_bv_sort(c, i) };
                if i > 0 {
                    Z3_inc_ref(c, so);
                }
                sorts.push(so);
            }
            Solver {
                c,
                s,
                hard,
                bv: vec![],
                bl: vec![],
                cache: Default::default(),
                sorts,
                queries: 0,
                hits: 0,
                quick: 0,
                dump: std::env::var("SYMEX_DUMPQ").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
                paranoid: std::env::var("SYMEX_PARANOID").is_ok(),
                sat: 0,
                unsat: 0,
                nanos: 0,
                max_nanos: 0,
            }
        }
    }
    fn room(&mut self, ar: &Arena) {
        let n = ar.n.len();
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bl.resize(n, std::ptr::null_mut());
        }
    }
    unsafe fn tbv(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let c = self.c;
        let w = ar.w[i];
        let r = match ar.n[i] {
            N::Const(w, v) => {
                if w <= 64 {
                    Z3_mk_unsigned_int64(c, v as u64, self.sorts[w as usize])
                } else {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), self.sorts[w as usize])
                }
            }
            N::Var(k) => Z3_mk_const(c, Z3_mk_int_symbol(c, k as c_int), self.sorts[8]),
            N::Cmp(..) => {
                let b = self.tbl(ar, e);
                Z3_mk_ite(
                    c,
                    b,
                    Z3_mk_unsigned_int64(c, 1, self.sorts[1]),
                    Z3_mk_unsigned_int64(c, 0, self.sorts[1]),
                )
            }
            N::Bin(op, a, b) => {
                let x = self.tbv(ar, a);
                let y = self.tbv(ar, b);
                (match op {
                    B::Add => Z3_mk_bvadd,
                    B::Sub => Z3_mk_bvsub,
                    B::Mul => Z3_mk_bvmul,
                    B::UDiv => Z3_mk_bvudiv,
                    B::URem => Z3_mk_bvurem,
                    B::SDiv => Z3_mk_bvsdiv,
                    B::SRem => Z3_mk_bvsrem,
                    B::And => Z3_mk_bvand,
                    B::Or => Z3_mk_bvor,
                    B::Xor => Z3_mk_bvxor,
                    B::Shl => Z3_mk_bvshl,
                    B::LShr => Z3_mk_bvlshr,
                    B::AShr => Z3_mk_bvashr,
                })(c, x, y)
            }
            N::Not(a) => Z3_mk_bvnot(c, self.tbv(ar, a)),
            N::ZExt(a, _) => {
                let x = self.tbv(ar, a);
                Z3_mk_zero_ext(c, (w - ar.width(a)) as c_uint, x)
            }
            N::SExt(a, _) => {
                let x = self.tbv(ar, a);
                Z3_mk_sign_ext(c, (w - ar.width(a)) as c_uint, x)
            }
            N::Extract(a, lo, w) => {
                let x = self.tbv(ar, a);
                Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x)
            }
            N::Concat(a, b) => {
                let x = self.tbv(ar, a);
                let y = self.tbv(ar, b);
                Z3_mk_concat(c, x, y)
            }
            N::Ite(q, a, b) => {
                let p = self.tbl(ar, q);
                let x = self.tbv(ar, a);
                let y = self.tbv(ar, b);
                Z3_mk_ite(c, p, x, y)
            }
        };
        Z3_inc_ref(c, r);
        self.bv[i] = r;
        r
    }
    unsafe fn tbl(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        assert_eq!(ar.w[i], 1);
        let c = self.c;
        let r = match ar.n[i] {
            N::Const(_, v) => {
                if v != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            N::Cmp(op, a, b) => {
                let x = self.tbv(ar, a);
                let y = self.tbv(ar, b);
                (match op {
                    C::Eq => Z3_mk_eq,
                    C::Ult => Z3_mk_bvult,
                    C::Ule => Z3_mk_bvule,
                    C::Slt => Z3_mk_bvslt,
                    C::Sle => Z3_mk_bvsle,
                })(c, x, y)
            }
            N::Bin(B::And, a, b) => {
                let v = [self.tbl(ar, a), self.tbl(ar, b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            N::Bin(B::Or, a, b) => {
                let v = [self.tbl(ar, a), self.tbl(ar, b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            N::Bin(B::Xor, a, b) => {
                let x = self.tbl(ar, a);
                let y = self.tbl(ar, b);
                Z3_mk_xor(c, x, y)
            }
            N::Not(a) => Z3_mk_not(c, self.tbl(ar, a)),
            N::Ite(q, a, b) => {
                let p = self.tbl(ar, q);
                let x = self.tbl(ar, a);
                let y = self.tbl(ar, b);
                Z3_mk_ite(c, p, x, y)
            }
            _ => {
                let x = self.tbv(ar, e);
                Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, self.sorts[1]))
            }
        };
        Z3_inc_ref(c, r);
        self.bl[i] = r;
        r
    }

    unsafe fn ask(&mut self, ar: &mut Arena, s: P, key: &[E], vars: &[u64]) -> Res {
        let t0 = std::time::Instant::now();
        let c = self.c;
        if s == self.hard {
            Z3_solver_reset(c, s);
        } else {
            Z3_solver_push(c, s);
        }
        for &e in key {
            let b = self.tbl(ar, e);
            Z3_solver_assert(c, s, b);
        }
        let r = Z3_solver_check(c, s);
        if self.dump > 0 && t0.elapsed().as_millis() >= 20 {
            self.dump -= 1;
            let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
            eprintln!("QUERY {} {:?}\n{}", r, t0.elapsed(), t);
        }
        let res = match r {
            -1 => Res::Unsat,
            1 => {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for (i, word) in vars.iter().enumerate() {
                    let mut wd = *word;
                    while wd != 0 {
                        let k = i as u32 * 64 + wd.trailing_zeros();
                        wd &= wd - 1;
                        let ve = ar.var(k);
                        self.room(ar);
                        let t = self.tbv(ar, ve);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, t, true, &mut o);
                        let mut v = 0u64;
                        Z3_inc_ref(c, o);
                        Z3_get_numeral_uint64(c, o, &mut v);
                        out.push((k, v as u8));
                    }
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(Rc::new(out))
            }
            _ => Res::Unknown,
        };
        if s != self.hard {
            Z3_solver_pop(c, s, 1);
        }
        res
    }
    /// Is `cons /\ cond` satisfiable? `cons` alone is known satisfiable.
    pub fn query(&mut self, ar: &mut Arena, cons: &[E], cond: E) -> Res {
        if let Some(v) = ar.k(cond) {
            return if v == 0 { Res::Unsat } else { Res::Sat(Rc::new(vec![])) };
        }
        // Slice to the constraints sharing variables (transitively) with cond.
        let mut vars: Vec<u64> = (*ar.support(cond)).clone();
        let mut pending: Vec<(E, Rc<Vec<u64>>)> =
            cons.iter().map(|&e| (e, ar.support(e))).collect();
        let mut key: Vec<E> = vec![cond];
        loop {
            let mut changed = false;
            pending.retain(|(e, s)| {
                let hit = s.iter().zip(vars.iter()).any(|(a, b)| a & b != 0);
                if hit {
                    key.push(*e);
                    if vars.len() < s.len() {
                        vars.resize(s.len(), 0);
                    }
                    for (i, x) in s.iter().enumerate() {
                        vars[i] |= x
                    }
                    changed = true;
                }
                !hit
            });
            if !changed {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.hits += 1;
            return r.clone();
        }
        key.retain(|e| *e != cond);
        let easy = ar.implied_false(&key, cond);
        key.push(cond);
        key.sort_unstable();
        if easy {
            self.quick += 1;
            if !self.paranoid {
                self.cache.insert(key, Res::Unsat);
                return Res::Unsat;
            }
        }
        let t0 = std::time::Instant::now();
        self.room(ar);
        let res = unsafe {
            let r = self.ask(ar, self.s, &key, &vars);
            match r {
                // harder: the non-incremental bit-blasting strategy
                Res::Unknown => self.ask(ar, self.hard, &key, &vars),
                r => r,
            }
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.nanos += dt;
        self.max_nanos = self.max_nanos.max(dt);
        if easy && !matches!(res, Res::Unsat) {
            panic!("range analysis contradicts the solver");
        }
        self.queries += 1;
        match &res {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            _ => {}
        }
        self.cache.insert(key, res.clone());
        res
    }
}
