//! Symbolic interpreter for the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const STACK_BASE: u64 = 0x2000_0000_0000;
const MAX_OBJ: u64 = 1 << (SLOT_BITS - 1);

#[derive(Clone, Debug)]
pub enum Val {
    I(u16, u64),
    E(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Default)]
pub struct Obj {
    pub c: Vec<u8>,
    pub s: Option<Vec<u32>>, // expr id + 1, 0 = concrete
    pub heap: bool,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { c: vec![0; n], s: None, heap: false }
    }
    #[inline]
    fn sym(&self, i: usize) -> u32 {
        match &self.s {
            None => 0,
            Some(v) => v[i],
        }
    }
    fn put(&mut self, i: usize, b: Byte) {
        match b {
            Byte::C(v) => {
                self.c[i] = v;
                if let Some(s) = &mut self.s {
                    s[i] = 0
                }
            }
            Byte::S(e) => {
                let n = self.c.len();
                self.s.get_or_insert_with(|| vec![0; n])[i] = e + 1;
            }
        }
    }
    fn get(&self, i: usize) -> Byte {
        match self.sym(i) {
            0 => Byte::C(self.c[i]),
            e => Byte::S(e - 1),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Byte {
    C(u8),
    S(E),
}

#[derive(Clone)]
pub struct Frame {
    func: &'static Func,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    stack_mark: usize,
    dst: u32,
}

#[derive(Clone)]
pub struct State {
    pub job: usize,
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    stack: Vec<Rc<Obj>>,
    gl: Vec<(usize, Rc<Obj>)>,
    pub cons: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    out: Rc<Vec<Byte>>,
    pub steps: u64,
    covers: Rc<Vec<u32>>,
    pub depth: u32,
    pub live: i64,
    /// Bytes that may be live at most (0: no limit set).
    pub heap_max: i64,
}

pub enum Stop {
    Done,
    Killed,
    Fail(String),
    Engine(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intr {
    None,
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Nop,
    Panic,
    NoUnwindPanic,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    SymMake,
    SymAssume,
    SymFail,
    SymCover,
    SymOut,
    SymParam,
    SymConc,
    SymIs,
    SymHeap,
    Trap,
    MinMax(u8),
    Abs,
    Ovf(u8),
    Sat(u8),
    Fsh(bool),
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    BitRev,
    CmpI(bool),
    IsConst,
    Tls,
    Expect,
    Movmsk,
    Reduce(u8),
    ObjSize,
    Errno,
    RetZero,
}

pub struct Job {
    pub name: String,
    pub params: Vec<u64>,
}

#[derive(Clone)]
pub struct Sample {
    pub job: usize,
    pub bytes: Vec<u8>,
    pub out: Vec<u8>,
    pub msg: String,
    pub trace: String,
}

#[derive(Default)]
pub struct Stats {
    pub done: Vec<u64>,
    pub killed: Vec<u64>,
    pub forks: u64,
    pub steps: u64,
    pub max_path_steps: u64,
    pub covers: BTreeMap<(usize, u32), u64>,
    pub funcs: BTreeSet<u32>,
    pub seen: Vec<u64>,
    pub samples: Vec<Sample>,
    pub fails: Vec<Sample>,
    pub errors: Vec<String>,
    pub concs: u64,
    pub max_cons: usize,
    pub max_vars: u32,
}

pub struct Engine {
    pub m: &'static Module,
    pub ar: Arena,
    pub so: Solver,
    kinds: Vec<Option<Intr>>,
    funcs: Vec<Option<&'static Func>>,
    gc: Vec<Option<Rc<Obj>>>,
    pub pending: Vec<State>,
    pub st: Stats,
    pub jobs: Vec<Job>,
    pub max_steps: u64,
    pub nsamples: usize,
    rng: u64,
    pub verbose: bool,
    pub prof: FxMap<(u32, u32, u32), u64>,
}

fn lane_bits(t: &Ty) -> u16 {
    match t {
        Ty::Vec(_, e) => e.bits() as u16,
        t => t.bits() as u16,
    }
}

impl Engine {
    pub fn new(m: &'static Module, jobs: Vec<Job>, seed: u64) -> Engine {
        let n = m.funcs.len();
        let g = m.globals.len();
        let nj = jobs.len();
        Engine {
            m,
            ar: Arena::new(),
            so: Solver::new(seed),
            kinds: vec![None; n],
            funcs: vec![None; n],
            gc: vec![None; g],
            pending: vec![],
            st: Stats {
                done: vec![0; nj],
                killed: vec![0; nj],
                seen: vec![0; nj],
                ..Default::default()
            },
            jobs,
            max_steps: 80_000_000,
            nsamples: 4,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            verbose: false,
            prof: Default::default(),
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn start(&mut self, job: usize) {
        let name = self.jobs[job].name.clone();
        let fi = *self
            .m
            .findex
            .get(name.as_str())
            .unwrap_or_else(|| panic!("no harness {}", name));
        let f = self.func(fi);
        let fr = Frame {
            func: f,
            bb: 0,
            ip: 0,
            regs: vec![Val::I(1, 0); f.nregs as usize],
            stack_mark: 0,
            dst: u32::MAX,
        };
        self.st.funcs.insert(fi as u32);
        self.pending.push(State {
            job,
            frames: vec![Rc::new(fr)],
            heap: vec![],
            stack: vec![],
            gl: vec![],
            cons: Rc::new(vec![]),
            model: Rc::new(vec![]),
            nvars: 0,
            out: Rc::new(vec![]),
            steps: 0,
            covers: Rc::new(vec![]),
            depth: 0,
            live: 0,
            heap_max: 0,
        });
    }
    fn func(&mut self, fi: usize) -> &'static Func {
        if let Some(f) = self.funcs[fi] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.m.parse_fn(fi)));
        self.funcs[fi] = Some(f);
        f
    }
    fn kind(&mut self, fi: usize) -> Intr {
        if let Some(k) = self.kinds[fi] {
            return k;
        }
        let n: &str = &self.m.funcs[fi].name;
        let k = Self::classify(n);
        self.kinds[fi] = Some(k);
        k
    }
    fn classify(n: &str) -> Intr {
        use Intr::*;
        if n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("panic_with_hook")) {
            return Panic;
        }
        if n.contains("7___rustc") {
            if n.ends_with("12___rust_alloc") {
                return Alloc;
            }
            if n.ends_with("19___rust_alloc_zeroed") {
                return AllocZ;
            }
            if n.ends_with("14___rust_realloc") {
                return Realloc;
            }
            if n.ends_with("14___rust_dealloc") {
                return Dealloc;
            }
            if n.contains("no_alloc_shim") {
                return Nop;
            }
            if n.ends_with("17rust_begin_unwind") {
                return Panic;
            }
            if n.contains("alloc_error_handler") {
                return Trap;
            }
        }
        match n {
            "__rust_alloc" | "malloc" => return Alloc,
            "__rust_alloc_zeroed" => return AllocZ,
            "__rust_realloc" => return Realloc,
            "__rust_dealloc" => return Dealloc,
            "rust_begin_unwind" => return Panic,
            "memcpy" | "memmove" => return Memcpy,
            "memset" => return Memset,
            "memcmp" => return Memcmp,
            "bcmp" => return Bcmp,
            "strlen" => return Strlen,
            "abort" | "llvm.trap" | "llvm.ubsantrap" => return Trap,
            "sym_make" => return SymMake,
            "sym_assume" => return SymAssume,
            "sym_fail" => return SymFail,
            "sym_cover" => return SymCover,
            "sym_out" => return SymOut,
            "sym_param" => return SymParam,
            "sym_concrete" => return SymConc,
            "sym_is_engine" => return SymIs,
            "sym_heap" => return SymHeap,
            "llvm.x86.sse2.pause" => return Nop,
            "llvm.threadlocal.address.p0" => return Tls,
            "__cxa_thread_atexit_impl" => return RetZero,
            "__errno_location" => return Errno,
            _ => {}
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            let p = |s: &str| r.starts_with(s);
            if p("memcpy") || p("memmove") {
                return Memcpy;
            }
            if p("memset") {
                return Memset;
            }
            if p("umin") {
                return MinMax(0);
            }
            if p("umax") {
                return MinMax(1);
            }
            if p("smin") {
                return MinMax(2);
            }
            if p("smax") {
                return MinMax(3);
            }
            if p("abs.") {
                return Abs;
            }
            for (i, s) in ["uadd", "usub", "umul", "sadd", "ssub", "smul"].iter().enumerate() {
                if p(&format!("{}.with.overflow", s)) {
                    return Ovf(i as u8);
                }
                if p(&format!("{}.sat", s)) {
                    return Sat(i as u8);
                }
            }
            if p("fshl") {
                return Fsh(true);
            }
            if p("fshr") {
                return Fsh(false);
            }
            if p("ctpop") {
                return Ctpop;
            }
            if p("ctlz") {
                return Ctlz;
            }
            if p("cttz") {
                return Cttz;
            }
            if p("bswap") {
                return Bswap;
            }
            if p("bitreverse") {
                return BitRev;
            }
            if p("ucmp") {
                return CmpI(false);
            }
            if p("scmp") {
                return CmpI(true);
            }
            if p("is.constant") {
                return IsConst;
            }
            if p("expect") {
                return Expect;
            }
            if p("x86.sse2.pmovmskb") {
                return Movmsk;
            }
            if p("vector.reduce.or") {
                return Reduce(0);
            }
            if p("vector.reduce.and") {
                return Reduce(1);
            }
            if p("vector.reduce.add") {
                return Reduce(2);
            }
            if p("vector.reduce.xor") {
                return Reduce(3);
            }
            if p("vector.reduce.umax") {
                return Reduce(4);
            }
            if p("objectsize") {
                return ObjSize;
            }
        }
        Intr::None
    }

    // ---- values ----
    fn kval(&mut self, k: &K) -> Val {
        match k {
            K::Int(w, v) if *w <= 64 => Val::I(*w as u16, *v as u64),
            K::Int(w, v) => Val::E(self.ar.c(*w as u16, *v)),
            K::Agg(v) => Val::A(Rc::new(v.iter().map(|x| self.kval(x)).collect())),
        }
    }
    #[inline]
    fn opv(&mut self, f: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => f.regs[*r as usize].clone(),
            Opd::I(w, v) => Val::I(*w, *v),
            Opd::K(k) => self.kval(&k.clone()),
        }
    }
    fn to_e(&mut self, v: &Val) -> E {
        match v {
            Val::I(w, v) => self.ar.c(*w, *v as u128),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        let w = self.ar.width(e);
        match self.ar.k(e) {
            Some(v) if w <= 64 => Val::I(w, v as u64),
            _ => Val::E(e),
        }
    }
    fn bin(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> Val {
        let bop = match op {
            BinOp::Add => B::Add,
            BinOp::Sub => B::Sub,
            BinOp::Mul => B::Mul,
            BinOp::UDiv => B::UDiv,
            BinOp::URem => B::URem,
            BinOp::SDiv => B::SDiv,
            BinOp::SRem => B::SRem,
            BinOp::And => B::And,
            BinOp::Or => B::Or,
            BinOp::Xor => B::Xor,
            BinOp::Shl => B::Shl,
            BinOp::LShr => B::LShr,
            BinOp::AShr => B::AShr,
        };
        match (a, b) {
            (Val::I(_, x), Val::I(_, y)) => {
                let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(*y),
                    BinOp::Sub => x.wrapping_sub(*y),
                    BinOp::Mul => x.wrapping_mul(*y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    _ => Arena::binop(bop, w, *x as u128, *y as u128) as u64,
                };
                Val::I(w, r & m)
            }
            (Val::A(x), Val::A(y)) => {
                let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, w, p, q)).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                let x = self.to_e(a);
                let y = self.to_e(b);
                let r = self.ar.bin(bop, x, y);
                self.from_e(r)
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(_, x), Val::I(_, y)) => {
                let (sx_, sy) = (sx(*x as u128, w) as i64, sx(*y as u128, w) as i64);
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx_ > sy,
                    Pred::Sge => sx_ >= sy,
                    Pred::Slt => sx_ < sy,
                    Pred::Sle => sx_ <= sy,
                };
                Val::I(1, r as u64)
            }
            (Val::A(x), Val::A(y)) => {
                let v: Vec<Val> = x.iter().zip(y.iter()).map(|(s, t)| self.icmp(p, w, s, t)).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                let x = self.to_e(a);
                let y = self.to_e(b);
                let r = match p {
                    Pred::Eq => self.ar.cmp(C::Eq, x, y),
                    Pred::Ne => {
                        let e = self.ar.cmp(C::Eq, x, y);
                        self.ar.not(e)
                    }
                    Pred::Ult => self.ar.cmp(C::Ult, x, y),
                    Pred::Ule => self.ar.cmp(C::Ule, x, y),
                    Pred::Ugt => self.ar.cmp(C::Ult, y, x),
                    Pred::Uge => self.ar.cmp(C::Ule, y, x),
                    Pred::Slt => self.ar.cmp(C::Slt, x, y),
                    Pred::Sle => self.ar.cmp(C::Sle, x, y),
                    Pred::Sgt => self.ar.cmp(C::Slt, y, x),
                    Pred::Sge => self.ar.cmp(C::Sle, y, x),
                };
                self.from_e(r)
            }
        }
    }
    fn cast(&mut self, op: CastOp, fw: u16, tw: u16, v: &Val) -> Val {
        match v {
            Val::A(x) => {
                let r: Vec<Val> = x.iter().map(|y| self.cast(op, fw, tw, y)).collect();
                Val::A(Rc::new(r))
            }
            Val::I(_, x) if tw <= 64 => match op {
                CastOp::Trunc => Val::I(tw, x & mask(tw) as u64),
                CastOp::ZExt | CastOp::Same => Val::I(tw, *x),
                CastOp::SExt => Val::I(tw, sx(*x as u128, fw) as u64 & mask(tw) as u64),
            },
            _ => {
                let e = self.to_e(v);
                let r = match op {
                    CastOp::Trunc => self.ar.extract(e, 0, tw),
                    CastOp::ZExt => self.ar.zext(e, tw),
                    CastOp::SExt => self.ar.sext(e, tw),
                    CastOp::Same => e,
                };
                self.from_e(r)
            }
        }
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, veccond: bool) -> Val {
        match c {
            Val::I(_, x) => {
                if *x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::A(cs) if veccond => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let v: Vec<Val> = (0..cs.len()).map(|i| self.select(&cs[i], &x[i], &y[i], false)).collect();
                    Val::A(Rc::new(v))
                } else {
                    panic!("select")
                }
            }
            Val::E(e) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let v: Vec<Val> =
                        (0..x.len()).map(|i| self.select(&Val::E(*e), &x[i], &y[i], false)).collect();
                    Val::A(Rc::new(v))
                }
                _ => {
                    let x = self.to_e(a);
                    let y = self.to_e(b);
                    let r = self.ar.ite(*e, x, y);
                    self.from_e(r)
                }
            },
            _ => panic!("select"),
        }
    }

    // ---- constraints ----
    fn add_cons(&mut self, st: &mut State, e: E) {
        if let N::Bin(B::And, a, b) = self.ar.n[e as usize] {
            if self.ar.width(e) == 1 {
                self.add_cons(st, a);
                self.add_cons(st, b);
                return;
            }
        }
        if self.ar.k(e).is_some() {
            return;
        }
        if !st.cons.contains(&e) {
            Rc::make_mut(&mut st.cons).push(e);
        }
    }
    fn patched(&mut self, model: &Rc<Vec<u8>>, p: &[(u32, u8)]) -> Rc<Vec<u8>> {
        let mut m = (**model).clone();
        for (k, v) in p {
            if m.len() <= *k as usize {
                m.resize(*k as usize + 1, 0)
            }
            m[*k as usize] = *v;
        }
        Rc::new(m)
    }
    fn sat(&mut self, st: &State, cond: E) -> R<Option<Rc<Vec<u8>>>> {
        if st.cons.contains(&cond) {
            return Ok(Some(st.model.clone()));
        }
        let n = self.ar.not(cond);
        if st.cons.contains(&n) {
            return Ok(None);
        }
        self.ar_check(st, cond)
    }
    fn ar_check(&mut self, st: &State, cond: E) -> R<Option<Rc<Vec<u8>>>> {
        let cons = st.cons.clone();
        match self.so.query(&mut self.ar, &cons, cond) {
            Res::Unsat => Ok(None),
            Res::Sat(p) => {
                let m = self.patched(&st.model, &p);
                if self.ar.eval(cond, &m) == 0 {
                    return Err(Stop::Engine("solver model does not satisfy the query".into()));
                }
                Ok(Some(m))
            }
            Res::Unknown => Err(Stop::Engine("solver returned unknown".into())),
        }
    }
    /// Decide a symbolic condition.  Returns the side the current state takes
    /// and, when the other is feasible too, its model; constraints are added.
    fn decide(&mut self, st: &mut State, c: E) -> R<(bool, Option<State>)> {
        let v = self.ar.eval(c, &st.model) != 0;
        let nc = self.ar.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if st.cons.contains(&mine) {
            return Ok((v, None));
        }
        match self.sat(st, other)? {
            None => Ok((v, None)),
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                o.depth += 1;
                self.add_cons(&mut o, other);
                self.add_cons(st, mine);
                st.depth += 1;
                self.st.forks += 1;
                Ok((v, Some(o)))
            }
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(_, x) => Ok(*x),
            Val::E(e) => {
                let e = *e;
                let x = self.ar.eval(e, &st.model);
                let w = self.ar.width(e);
                let k = self.ar.c(w, x);
                let c = self.ar.cmp(C::Eq, e, k);
                if self.ar.k(c).is_some() {
                    return Ok(x as u64);
                }
                let (_, o) = self.decide(st, c)?;
                if let Some(o) = o {
                    self.st.concs += 1;
                    if self.verbose {
                        let f = st.frames.last().unwrap();
                        *self.prof.entry((f.func.id, f.bb, f.ip)).or_insert(0) += 1;
                    }
                    self.pending.push(o);
                }
                Ok(x as u64)
            }
            Val::A(_) => panic!("conc agg"),
        }
    }

    // ---- memory ----
    fn gobj(&mut self, gi: usize) -> Rc<Obj> {
        if self.gc[gi].is_none() {
            let c = self.m.global_bytes(gi);
            self.gc[gi] = Some(Rc::new(Obj { c, s: None, heap: false }));
        }
        self.gc[gi].clone().unwrap()
    }
    fn get_obj(&mut self, st: &State, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let off = (addr & ((1 << SLOT_BITS) - 1)) as usize;
        let o = if addr >= FUNC_BASE {
            None
        } else if addr >= GLOBAL_BASE {
            let gi = ((addr - GLOBAL_BASE) >> SLOT_BITS) as usize;
            if gi < self.m.globals.len() {
                match st.gl.iter().find(|x| x.0 == gi) {
                    Some(x) => Some(x.1.clone()),
                    None => Some(self.gobj(gi)),
                }
            } else {
                None
            }
        } else if addr >= STACK_BASE {
            st.stack.get(((addr - STACK_BASE) >> SLOT_BITS) as usize).cloned()
        } else if addr >= HEAP_BASE {
            st.heap.get(((addr - HEAP_BASE) >> SLOT_BITS) as usize).cloned().flatten()
        } else {
            None
        };
        match o {
            Some(o) if off + n as usize <= o.c.len() => Ok((o, off)),
            Some(o) => Err(Stop::Fail(format!(
                "memory: access of {} bytes at offset {} of an object of {} bytes",
                n,
                off,
                o.c.len()
            ))),
            None => Err(Stop::Fail(format!("memory: invalid address {:#x}", addr))),
        }
    }
    fn with_mut<F: FnOnce(&mut Obj, usize)>(&mut self, st: &mut State, addr: u64, n: u64, f: F) -> R<()> {
        let off = (addr & ((1 << SLOT_BITS) - 1)) as usize;
        let o: Option<&mut Rc<Obj>> = if addr >= FUNC_BASE {
            None
        } else if addr >= GLOBAL_BASE {
            let gi = ((addr - GLOBAL_BASE) >> SLOT_BITS) as usize;
            if gi < self.m.globals.len() && !self.m.globals[gi].constant {
                if !st.gl.iter().any(|x| x.0 == gi) {
                    let o = self.gobj(gi);
                    st.gl.push((gi, o));
                }
                st.gl.iter_mut().find(|x| x.0 == gi).map(|x| &mut x.1)
            } else {
                None
            }
        } else if addr >= STACK_BASE {
            st.stack.get_mut(((addr - STACK_BASE) >> SLOT_BITS) as usize)
        } else if addr >= HEAP_BASE {
            match st.heap.get_mut(((addr - HEAP_BASE) >> SLOT_BITS) as usize) {
                Some(Some(o)) => Some(o),
                _ => None,
            }
        } else {
            None
        };
        match o {
            Some(o) if off + n as usize <= o.c.len() => {
                f(Rc::make_mut(o), off);
                Ok(())
            }
            Some(o) => Err(Stop::Fail(format!(
                "memory: write of {} bytes at offset {} of an object of {} bytes",
                n,
                off,
                o.c.len()
            ))),
            None => Err(Stop::Fail(format!("memory: invalid write address {:#x}", addr))),
        }
    }
    fn bytes_val(&mut self, b: &[Byte], w: u16) -> Val {
        // little endian
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < b.len() {
            let e = match b[i] {
                Byte::S(e) => {
                    i += 1;
                    e
                }
                Byte::C(_) => {
                    let s = i;
                    let mut v = 0u128;
                    while i < b.len() {
                        if let Byte::C(x) = b[i] {
                            v |= (x as u128) << (8 * (i - s));
                            i += 1;
                        } else {
                            break;
                        }
                    }
                    self.ar.c(((i - s) * 8) as u16, v)
                }
            };
            acc = Some(match acc {
                None => e,
                Some(a) => self.ar.concat(e, a),
            });
        }
        let mut e = acc.unwrap();
        let ew = self.ar.width(e);
        if ew > w {
            e = self.ar.extract(e, 0, w);
        }
        self.from_e(e)
    }
    fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> R<Val> {
        let n = (ty.bits() + 7) / 8;
        let (o, off) = self.get_obj(st, addr, n)?;
        self.load_from(&o, ty, off)
    }
    fn load_from(&mut self, o: &Obj, ty: &Ty, off: usize) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits() as u16;
                let n = ((w + 7) / 8) as usize;
                let symb = match &o.s {
                    None => false,
                    Some(s) => s[off..off + n].iter().any(|&x| x != 0),
                };
                if !symb {
                    if w <= 64 {
                        let mut v = 0u64;
                        for i in (0..n).rev() {
                            v = v << 8 | o.c[off + i] as u64;
                        }
                        return Ok(Val::I(w, v & mask(w) as u64));
                    }
                    if w > 128 {
                        return Err(Stop::Engine(format!("load of i{}", w)));
                    }
                    let mut v = 0u128;
                    for i in (0..n).rev() {
                        v = v << 8 | o.c[off + i] as u128;
                    }
                    return Ok(Val::E(self.ar.c(w, v)));
                }
                if w > 128 {
                    return Err(Stop::Engine(format!("load of i{}", w)));
                }
                let b: Vec<Byte> = (off..off + n).map(|i| o.get(i)).collect();
                Ok(self.bytes_val(&b, w))
            }
            Ty::Arr(n, t) => {
                let s = t.size() as usize;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    v.push(self.load_from(o, t, off + i * s)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let s = (t.bits() / 8) as usize;
                if t.bits() % 8 != 0 {
                    let it = Ty::Int((n * t.bits()) as _);
                    let x = self.load_from(o, &it, off)?;
                    return self.bitcast(&it, ty, &x);
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    v.push(self.load_from(o, t, off + i * s)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load_from(o, t, off + ty.offsets(i) as usize)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Engine(format!("load of {:?}", ty))),
        }
    }
    fn val_bytes(&mut self, ty: &Ty, v: &Val, out: &mut Vec<(usize, Byte)>, off: usize) {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), Val::I(_, x)) => {
                let n = ((ty.bits() + 7) / 8) as usize;
                for i in 0..n {
                    out.push((off + i, Byte::C((x >> (8 * i)) as u8)));
                }
            }
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), Val::E(e)) => {
                let w = self.ar.width(*e);
                let n = (w + 7) / 8;
                let e = if w % 8 != 0 { self.ar.zext(*e, n * 8) } else { *e };
                for i in 0..n {
                    let b = self.ar.extract(e, i * 8, 8);
                    let b = match self.ar.k(b) {
                        Some(v) => Byte::C(v as u8),
                        None => Byte::S(b),
                    };
                    out.push((off + i as usize, b));
                }
            }
            (Ty::Arr(_, t), Val::A(x)) => {
                let s = t.size() as usize;
                for (i, y) in x.iter().enumerate() {
                    self.val_bytes(t, y, out, off + i * s);
                }
            }
            (Ty::Vec(_, t), Val::A(x)) => {
                let s = (t.bits() / 8) as usize;
                assert!(s > 0, "bit vector inside an aggregate");
                for (i, y) in x.iter().enumerate() {
                    self.val_bytes(t, y, out, off + i * s);
                }
            }
            (Ty::Struct(f, _), Val::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    self.val_bytes(&f[i], y, out, off + ty.offsets(i) as usize);
                }
            }
            _ => panic!("store {:?} {:?}", ty, v),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, addr: u64) -> R<()> {
        if let (Ty::Int(_) | Ty::Ptr, Val::I(w, x)) = (ty, v) {
            let n = ((*w + 7) / 8) as usize;
            let x = *x;
            return self.with_mut(st, addr, n as u64, |o, off| {
                for i in 0..n {
                    o.c[off + i] = (x >> (8 * i)) as u8;
                }
                if let Some(s) = &mut o.s {
                    for i in 0..n {
                        s[off + i] = 0;
                    }
                }
            });
        }
        if let Ty::Vec(k, t) = ty {
            if t.bits() % 8 != 0 {
                let it = Ty::Int((k * t.bits()) as _);
                let x = self.bitcast(ty, &it, v)?;
                return self.store(st, &it, &x, addr);
            }
        }
        let mut b = vec![];
        self.val_bytes(ty, v, &mut b, 0);
        let n = (ty.bits() + 7) / 8;
        self.with_mut(st, addr, n, |o, off| {
            for (i, x) in b {
                o.put(off + i, x);
            }
        })
    }
    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Byte>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.get_obj(st, addr, n)?;
        Ok((off..off + n as usize).map(|i| o.get(i)).collect())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.get_obj(st, s, n)?;
        let n_ = n as usize;
        self.with_mut(st, d, n, |p, poff| {
            p.c[poff..poff + n_].copy_from_slice(&o.c[off..off + n_]);
            match (&o.s, &mut p.s) {
                (None, None) => {}
                (None, Some(t)) => t[poff..poff + n_].iter_mut().for_each(|x| *x = 0),
                (Some(u), t) => {
                    if t.is_some() || u[off..off + n_].iter().any(|&x| x != 0) {
                        let l = p.c.len();
                        t.get_or_insert_with(|| vec![0; l])[poff..poff + n_]
                            .copy_from_slice(&u[off..off + n_]);
                    }
                }
            }
        })
    }
    /// The size of an allocation: first whether it can be too large at all,
    /// then which of the sizes that are not.
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        if let Val::E(e) = v {
            let room = if st.heap_max > 0 { (st.heap_max - st.live).max(0) as u64 + 1 } else { MAX_OBJ };
            let k = self.ar.c(self.ar.width(*e), room.min(MAX_OBJ) as u128);
            let c = self.ar.cmp(C::Ult, *e, k);
            if self.ar.k(c).is_none() {
                let (fits, o) = self.decide(st, c)?;
                if let Some(o) = o {
                    self.pending.push(o);
                }
                if !fits {
                    return Err(Stop::Fail("allocation too large".into()));
                }
            }
        }
        self.conc(st, v)
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n >= MAX_OBJ || (st.heap_max > 0 && st.live + n as i64 > st.heap_max) {
            return Err(Stop::Fail(format!("allocation too large ({} bytes)", n)));
        }
        let i = st.heap.len() as u64;
        if i >= 1 << 18 {
            return Err(Stop::Engine("too many allocations on one path".into()));
        }
        let mut o = Obj::new(n as usize);
        o.heap = true;
        st.heap.push(Some(Rc::new(o)));
        st.live += n as i64;
        Ok(HEAP_BASE + (i << SLOT_BITS))
    }
    fn table_load(&mut self, st: &mut State, ty: &Ty, p: E) -> R<Option<Val>> {
        // Symbolic index into a constant table.
        let n = match ty {
            Ty::Int(8) => 1u64,
            Ty::Int(16) => 2,
            Ty::Int(32) => 4,
            Ty::Int(64) => 8,
            _ => return Ok(None),
        };
        let a = self.ar.eval(p, &st.model) as u64;
        if !(GLOBAL_BASE..FUNC_BASE).contains(&a) {
            return Ok(None);
        }
        let gi = ((a - GLOBAL_BASE) >> SLOT_BITS) as usize;
        if gi >= self.m.globals.len() || !self.m.globals[gi].constant {
            return Ok(None);
        }
        let o = self.gobj(gi);
        if o.c.len() > 4096 || (o.c.len() as u64) < n {
            return Ok(None);
        }
        let base = GLOBAL_BASE + ((gi as u64) << SLOT_BITS);
        let kb = self.ar.c(64, base as u128);
        let off = self.ar.bin(B::Sub, p, kb);
        let lim = self.ar.c(64, (o.c.len() as u64 - n) as u128);
        let oob = self.ar.cmp(C::Ult, lim, off);
        if self.sat(st, oob)?.is_some() {
            return Ok(None);
        }
        if n > 1 {
            let l = self.ar.extract(off, 0, n.trailing_zeros() as u16);
            if self.ar.k(l) != Some(0) {
                return Ok(None);
            }
        }
        let cnt = o.c.len() as u64 / n;
        let w = (n * 8) as u16;
        let vals: Vec<u64> = (0..cnt)
            .map(|i| {
                let mut v = 0u64;
                for k in (0..n).rev() {
                    v = v << 8 | o.c[(i * n + k) as usize] as u64;
                }
                v
            })
            .collect();
        // run-length boundaries
        let mut runs: Vec<(u64, u64)> = vec![]; // start index, value
        for (i, v) in vals.iter().enumerate() {
            if runs.last().map(|r| r.1) != Some(*v) {
                runs.push((i as u64, *v));
            }
        }
        fn build(ar: &mut Arena, runs: &[(u64, u64)], off: E, n: u64, w: u16) -> E {
            if runs.len() == 1 {
                return ar.c(w, runs[0].1 as u128);
            }
            let m = runs.len() / 2;
            let k = ar.c(64, (runs[m].0 * n) as u128);
            let c = ar.cmp(C::Ult, off, k);
            let a = build(ar, &runs[..m], off, n, w);
            let b = build(ar, &runs[m..], off, n, w);
            ar.ite(c, a, b)
        }
        let e = build(&mut self.ar, &runs, off, n, w);
        Ok(Some(self.from_e(e)))
    }

    // ---- control ----
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = f.bb;
        let blk = &f.func.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = match o {
                    Opd::R(r) => f.regs[*r as usize].clone(),
                    Opd::I(w, v) => Val::I(*w, *v),
                    Opd::K(k) => self.kval(k),
                };
                vals.push(v);
            }
            for (p, v) in blk.phis.iter().zip(vals) {
                f.regs[p.dst as usize] = v;
            }
        }
        f.bb = to;
        f.ip = 0;
    }
    pub fn trace(&self, st: &State) -> String {
        let v: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(14)
            .map(|f| f.func.name.to_string())
            .collect();
        v.join(" < ")
    }
    fn model_bytes(&self, st: &State) -> Vec<u8> {
        let mut b = (*st.model).clone();
        b.resize(st.nvars as usize, 0);
        b
    }
    fn out_bytes(&mut self, st: &State) -> Vec<u8> {
        let o = st.out.clone();
        let m = st.model.clone();
        o.iter()
            .map(|b| match b {
                Byte::C(v) => *v,
                Byte::S(e) => self.ar.eval(*e, &m) as u8,
            })
            .collect()
    }
    /// Run one state to the end of its path.
    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        self.st.max_path_steps = self.st.max_path_steps.max(st.steps);
        self.st.max_cons = self.st.max_cons.max(st.cons.len());
        self.st.max_vars = self.st.max_vars.max(st.nvars);
        let j = st.job;
        match r {
            Stop::Done => {
                self.st.done[j] += 1;
                for c in st.covers.iter() {
                    *self.st.covers.entry((j, *c)).or_insert(0) += 1;
                }
                self.st.seen[j] += 1;
                let n = self.st.seen[j];
                let have = self.st.samples.iter().filter(|s| s.job == j).count();
                let k = self.rand() % n;
                if have < self.nsamples || (k as usize) < self.nsamples {
                    let s = Sample {
                        job: j,
                        bytes: self.model_bytes(&st),
                        out: self.out_bytes(&st),
                        msg: "ok".into(),
                        trace: String::new(),
                    };
                    if have < self.nsamples {
                        self.st.samples.push(s);
                    } else {
                        let idx: Vec<usize> = (0..self.st.samples.len())
                            .filter(|i| self.st.samples[*i].job == j)
                            .collect();
                        let i = idx[k as usize];
                        self.st.samples[i] = s;
                    }
                }
            }
            Stop::Killed => self.st.killed[j] += 1,
            Stop::Fail(msg) => {
                let n = self.st.fails.iter().filter(|s| s.job == j && s.msg == msg).count();
                if n < 3 {
                    let s = Sample {
                        job: j,
                        bytes: self.model_bytes(&st),
                        out: self.out_bytes(&st),
                        msg,
                        trace: self.trace(&st),
                    };
                    self.st.fails.push(s);
                }
            }
            Stop::Engine(m) => {
                let t = self.trace(&st);
                let msg = format!("{}: {} in {}", self.jobs[j].name, m, t);
                if self.st.errors.len() < 20 {
                    self.st.errors.push(msg);
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.st.steps += 1;
        if st.steps > self.max_steps {
            return Err(Stop::Fail("hang: step limit reached".into()));
        }
        let (func, bb, ip) = {
            let f = st.frames.last().unwrap();
            (f.func, f.bb, f.ip)
        };
        let (dst, ins) = &func.blocks[bb as usize].ins[ip as usize];
        let dst = *dst;
        macro_rules! fr {
            () => {
                st.frames.last().unwrap()
            };
        }
        macro_rules! val {
            ($o:expr) => {{
                match $o {
                    Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Opd::I(w, v) => Val::I(*w, *v),
                    Opd::K(k) => self.kval(k),
                }
            }};
        }
        let res: Val = match ins {
            Ins::Bin(op, t, a, b) => {
                let (x, y) = (val!(a), val!(b));
                self.bin(*op, lane_bits(t), &x, &y)
            }
            Ins::Icmp(p, t, a, b) => {
                let (x, y) = (val!(a), val!(b));
                self.icmp(*p, lane_bits(t), &x, &y)
            }
            Ins::Cast(op, f, t, a) => {
                let x = val!(a);
                self.cast(*op, lane_bits(f), lane_bits(t), &x)
            }
            Ins::Bitcast(f, t, a) => {
                let x = val!(a);
                self.bitcast(f, t, &x)?
            }
            Ins::Load(t, p) => {
                let pv = val!(p);
                if let Val::E(e) = pv {
                    if let Some(v) = self.table_load(st, t, e)? {
                        self.finish(st, dst, v);
                        return Ok(());
                    }
                }
                let a = self.conc(st, &pv)?;
                self.load(st, t, a)?
            }
            Ins::Store(t, v, p) => {
                let pv = val!(p);
                let a = self.conc(st, &pv)?;
                let v = val!(v);
                self.store(st, t, &v, a)?;
                Val::I(1, 0)
            }
            Ins::Gep { base, off, idx } => {
                let mut b = val!(base);
                if *off != 0 {
                    b = self.bin(BinOp::Add, 64, &b, &Val::I(64, *off as u64));
                }
                for (o, w, sz) in idx {
                    let mut i = val!(o);
                    if *w < 64 {
                        i = self.cast(CastOp::SExt, *w as u16, 64, &i);
                    } else if *w > 64 {
                        i = self.cast(CastOp::Trunc, *w as u16, 64, &i);
                    }
                    if *sz != 1 {
                        i = self.bin(BinOp::Mul, 64, &i, &Val::I(64, *sz));
                    }
                    b = self.bin(BinOp::Add, 64, &b, &i);
                }
                b
            }
            Ins::Alloca(sz, cnt) => {
                let c = val!(cnt);
                let c = self.conc(st, &c)?;
                let i = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new((*sz * c) as usize)));
                Val::I(64, STACK_BASE + (i << SLOT_BITS))
            }
            Ins::Call { callee, args, ret, .. } => {
                let fi = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Reg(o) => {
                        let v = val!(o);
                        let a = self.conc(st, &v)?;
                        if a < FUNC_BASE || (a & 15) != 0 {
                            return Err(Stop::Fail(format!("call of invalid function pointer {:#x}", a)));
                        }
                        let i = ((a - FUNC_BASE) >> 4) as usize;
                        if i >= self.m.funcs.len() {
                            return Err(Stop::Fail("call of invalid function pointer".into()));
                        }
                        i
                    }
                    Callee::Asm => {
                        // `black_box` and friends: an empty asm.
                        self.finish(st, dst, Val::I(1, 0));
                        return Ok(());
                    }
                };
                let k = self.kind(fi);
                let av: Vec<Val> = args.iter().map(|(_, o)| val!(o)).collect();
                if k != Intr::None {
                    let v = self.intrinsic(st, k, &av, args, ret, fi)?;
                    self.finish(st, dst, v);
                    return Ok(());
                }
                if self.m.funcs[fi].body.is_none() {
                    return Err(Stop::Engine(format!("call to undefined function {}", self.m.funcs[fi].name)));
                }
                let f = self.func(fi);
                self.st.funcs.insert(fi as u32);
                if st.frames.len() > 3000 {
                    return Err(Stop::Fail("hang: call depth limit reached".into()));
                }
                let mut regs = av;
                regs.truncate(f.nparams as usize);
                regs.resize(f.nregs as usize, Val::I(1, 0));
                {
                    let cf = Rc::make_mut(st.frames.last_mut().unwrap());
                    cf.ip += 1;
                }
                let mark = st.stack.len();
                st.frames.push(Rc::new(Frame { func: f, bb: 0, ip: 0, regs, stack_mark: mark, dst }));
                return Ok(());
            }
            Ins::Select(_, c, a, b, vc) => {
                let c = val!(c);
                let (x, y) = (val!(a), val!(b));
                self.select(&c, &x, &y, *vc)
            }
            Ins::ExtractValue(a, ix) => {
                let mut v = val!(a);
                for i in ix {
                    let n = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                    v = n;
                }
                v
            }
            Ins::InsertValue(a, x, ix) => {
                fn ins(v: &Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(f) => {
                            let mut f = (**f).clone();
                            f[ix[0] as usize] = ins(&f[ix[0] as usize], x, &ix[1..]);
                            Val::A(Rc::new(f))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let v = val!(a);
                let x = val!(x);
                ins(&v, x, ix)
            }
            Ins::ExtractElt(a, i) => {
                let i = val!(i);
                let i = self.conc(st, &i)?;
                match val!(a) {
                    Val::A(x) => x[i as usize].clone(),
                    _ => panic!(),
                }
            }
            Ins::InsertElt(a, x, i) => {
                let i = val!(i);
                let i = self.conc(st, &i)?;
                let x = val!(x);
                match val!(a) {
                    Val::A(f) => {
                        let mut f = (*f).clone();
                        f[i as usize] = x;
                        Val::A(Rc::new(f))
                    }
                    _ => panic!(),
                }
            }
            Ins::Shuffle(a, b, m, n) => {
                let (x, y) = (val!(a), val!(b));
                match (x, y) {
                    (Val::A(x), Val::A(y)) => {
                        let v: Vec<Val> = m
                            .iter()
                            .map(|&i| {
                                let i = i as u64;
                                if i < *n {
                                    x[i as usize].clone()
                                } else {
                                    y[(i - n) as usize].clone()
                                }
                            })
                            .collect();
                        Val::A(Rc::new(v))
                    }
                    _ => panic!(),
                }
            }
            Ins::Br(t) => {
                self.jump(st, *t);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let t = match val!(c) {
                    Val::I(_, x) => x != 0,
                    Val::E(e) => {
                        let (v, o) = self.decide(st, e)?;
                        if let Some(mut o) = o {
                            if self.verbose {
                                *self.prof.entry((func.id, bb, ip)).or_insert(0) += 1;
                            }
                            self.jump(&mut o, if v { *b } else { *a });
                            self.pending.push(o);
                        }
                        v
                    }
                    _ => panic!(),
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Ins::Switch(w, v, d, cases) => {
                match val!(v) {
                    Val::I(_, x) => {
                        let t = cases.iter().find(|c| c.0 == x as u128).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, t);
                    }
                    Val::E(e) => {
                        // One condition per distinct target.
                        let mut targets: Vec<(u32, E)> = vec![];
                        let mut any: Option<E> = None;
                        for (k, t) in cases {
                            let c = self.ar.c(*w as u16, *k);
                            let q = self.ar.cmp(C::Eq, e, c);
                            any = Some(match any {
                                None => q,
                                Some(a) => self.ar.bin(B::Or, a, q),
                            });
                            if let Some(x) = targets.iter_mut().find(|x| x.0 == *t) {
                                x.1 = self.ar.bin(B::Or, x.1, q);
                            } else {
                                targets.push((*t, q));
                            }
                        }
                        let none = match any {
                            Some(a) => self.ar.not(a),
                            None => self.ar.c(1, 1),
                        };
                        if let Some(x) = targets.iter_mut().find(|x| x.0 == *d) {
                            x.1 = self.ar.bin(B::Or, x.1, none);
                        } else {
                            targets.push((*d, none));
                        }
                        let mut mine = None;
                        let mut others = vec![];
                        for (t, q) in targets {
                            if self.ar.eval(q, &st.model) != 0 {
                                mine = Some((t, q));
                            } else if let Some(m) = self.sat(st, q)? {
                                others.push((t, q, m));
                            }
                        }
                        let (mt, mq) = mine.expect("switch side");
                        if !others.is_empty() {
                            if self.verbose {
                                *self.prof.entry((func.id, bb, ip)).or_insert(0) += others.len() as u64;
                            }
                            for (t, q, m) in others {
                                let mut o = st.clone();
                                o.model = m;
                                o.depth += 1;
                                self.add_cons(&mut o, q);
                                self.st.forks += 1;
                                self.jump(&mut o, t);
                                self.pending.push(o);
                            }
                            self.add_cons(st, mq);
                            st.depth += 1;
                        }
                        self.jump(st, mt);
                    }
                    _ => panic!(),
                }
                return Ok(());
            }
            Ins::Ret(v) => {
                let v = match v {
                    Some(o) => val!(o),
                    None => Val::I(1, 0),
                };
                let f = st.frames.pop().unwrap();
                st.stack.truncate(f.stack_mark);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if f.dst != u32::MAX {
                    let c = Rc::make_mut(st.frames.last_mut().unwrap());
                    c.regs[f.dst as usize] = v;
                }
                return Ok(());
            }
            Ins::Unreachable => return Err(Stop::Fail("unreachable code executed".into())),
            Ins::Freeze(a) => val!(a),
            Ins::CmpXchg(t, p, a, b) => {
                let pv = val!(p);
                let ad = self.conc(st, &pv)?;
                let old = self.load(st, t, ad)?;
                let (x, y) = (val!(a), val!(b));
                let eq = self.icmp(Pred::Eq, t.bits() as u16, &old, &x);
                let new = self.select(&eq, &y, &old, false);
                self.store(st, t, &new, ad)?;
                Val::A(Rc::new(vec![old, eq]))
            }
            Ins::Rmw(op, t, p, v) => {
                let pv = val!(p);
                let ad = self.conc(st, &pv)?;
                let old = self.load(st, t, ad)?;
                let x = val!(v);
                let w = t.bits() as u16;
                let new = match op.as_str() {
                    "add" => self.bin(BinOp::Add, w, &old, &x),
                    "sub" => self.bin(BinOp::Sub, w, &old, &x),
                    "and" => self.bin(BinOp::And, w, &old, &x),
                    "or" => self.bin(BinOp::Or, w, &old, &x),
                    "xor" => self.bin(BinOp::Xor, w, &old, &x),
                    "xchg" => x,
                    o => return Err(Stop::Engine(format!("atomicrmw {}", o))),
                };
                self.store(st, t, &new, ad)?;
                old
            }
            Ins::Nop => Val::I(1, 0),
            Ins::Unsupported(s) => {
                let _ = fr!();
                return Err(Stop::Engine(format!("unsupported instruction {}", s)));
            }
        };
        self.finish(st, dst, res);
        Ok(())
    }
    #[inline]
    fn finish(&mut self, st: &mut State, dst: u32, v: Val) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            f.regs[dst as usize] = v;
        }
        f.ip += 1;
    }
    fn bitcast(&mut self, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        if f.bits() == 64 && t.bits() == 64 && !matches!(f, Ty::Vec(..)) && !matches!(t, Ty::Vec(..)) {
            return Ok(v.clone());
        }
        // go through bits
        let mut bits: Vec<E> = vec![]; // little-endian lanes
        match (f, v) {
            (Ty::Vec(..), Val::A(x)) => {
                for y in x.iter() {
                    bits.push(self.to_e(y));
                }
            }
            _ => bits.push(self.to_e(v)),
        }
        if bits.iter().map(|e| self.ar.width(*e) as u32).sum::<u32>() > 128 {
            return Err(Stop::Engine("bitcast wider than 128 bits".into()));
        }
        let mut acc = bits[0];
        for e in &bits[1..] {
            acc = self.ar.concat(*e, acc);
        }
        match t {
            Ty::Vec(n, e) => {
                let w = e.bits() as u16;
                let v: Vec<Val> = (0..*n)
                    .map(|i| {
                        let x = self.ar.extract(acc, i as u16 * w, w);
                        self.from_e(x)
                    })
                    .collect();
                Ok(Val::A(Rc::new(v)))
            }
            _ => Ok(self.from_e(acc)),
        }
    }
    fn lanes1<F: Fn(&mut Self, E) -> E + Copy>(&mut self, a: &Val, f: F) -> Val {
        match a {
            Val::A(x) => {
                let v: Vec<Val> = x.iter().map(|y| self.lanes1(y, f)).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                let e = self.to_e(a);
                let r = f(self, e);
                self.from_e(r)
            }
        }
    }
    fn lanes2<F: Fn(&mut Self, E, E) -> E + Copy>(&mut self, a: &Val, b: &Val, f: F) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(z)) => {
                let v: Vec<Val> = x.iter().zip(z.iter()).map(|(y, w)| self.lanes2(y, w, f)).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                let e = self.to_e(a);
                let g = self.to_e(b);
                let r = f(self, e, g);
                self.from_e(r)
            }
        }
    }
    fn ovf(&mut self, k: u8, a: E, b: E) -> R<(E, E)> {
        let w = self.ar.width(a);
        Ok(match k {
            0 => {
                let r = self.ar.bin(B::Add, a, b);
                // carry: computed one bit wider, which simplifies well
                let ov = if w < 128 {
                    let x = self.ar.zext(a, w + 1);
                    let y = self.ar.zext(b, w + 1);
                    let s = self.ar.bin(B::Add, x, y);
                    let lim = self.ar.c(w + 1, mask(w));
                    self.ar.cmp(C::Ult, lim, s)
                } else {
                    self.ar.cmp(C::Ult, r, a)
                };
                (r, ov)
            }
            1 => {
                let r = self.ar.bin(B::Sub, a, b);
                let ov = self.ar.cmp(C::Ult, a, b);
                (r, ov)
            }
            2 | 5 => {
                let ww = w * 2;
                if ww > 128 {
                    if let (Some(x), Some(y)) = (self.ar.k(a), self.ar.k(b)) {
                        let (r, o) = if k == 2 {
                            x.overflowing_mul(y)
                        } else {
                            let (r, o) = (x as i128).overflowing_mul(y as i128);
                            (r as u128, o)
                        };
                        return Ok((self.ar.c(w, r), self.ar.c(1, o as u128)));
                    }
                    return Err(Stop::Engine("symbolic 128-bit multiplication overflow".into()));
                }
                let (x, y) = if k == 2 {
                    (self.ar.zext(a, ww), self.ar.zext(b, ww))
                } else {
                    (self.ar.sext(a, ww), self.ar.sext(b, ww))
                };
                let p = self.ar.bin(B::Mul, x, y);
                let r = self.ar.bin(B::Mul, a, b);
                let ov = if k == 2 {
                    let h = self.ar.extract(p, w, w);
                    let z = self.ar.c(w, 0);
                    let e = self.ar.cmp(C::Eq, h, z);
                    self.ar.not(e)
                } else {
                    let s = self.ar.sext(r, ww);
                    let e = self.ar.cmp(C::Eq, s, p);
                    self.ar.not(e)
                };
                (r, ov)
            }
            _ => {
                let op = if k == 3 { B::Add } else { B::Sub };
                let r = self.ar.bin(op, a, b);
                if w >= 128 {
                    return Err(Stop::Engine("i128 signed overflow".into()));
                }
                let x = self.ar.sext(a, w + 1);
                let y = self.ar.sext(b, w + 1);
                let p = self.ar.bin(op, x, y);
                let s = self.ar.sext(r, w + 1);
                let e = self.ar.cmp(C::Eq, s, p);
                (r, self.ar.not(e))
            }
        })
    }
    fn bswap(&mut self, e: E) -> E {
        let w = self.ar.width(e);
        let n = w / 8;
        let mut acc = self.ar.extract(e, 0, 8);
        for i in 1..n {
            let b = self.ar.extract(e, i * 8, 8);
            acc = self.ar.concat(acc, b);
        }
        acc
    }

    /// A fill of symbolic length or place, without splitting the path: every
    /// byte that may be written becomes a conditional.  `None`: not applicable.
    fn memset_sym(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<Option<Val>> {
        let ex = |s: &mut Self, x: &Val| match x {
            Val::I(w, k) => s.ar.c(*w, *k as u128),
            Val::E(e) => *e,
            _ => panic!(),
        };
        let (de, ne) = (ex(self, d), ex(self, n));
        let at = self.ar.eval(de, &st.model) as u64;
        let (o, off) = match self.get_obj(st, at, 0) {
            Ok(x) => x,
            Err(_) => return Ok(None),
        };
        let base = at - off as u64;
        let len = o.c.len() as u64;
        if len > 65536 {
            return Ok(None);
        }
        // relative start and end, both within the object on this path
        let be = self.ar.c(64, base as u128);
        let s0 = self.ar.bin(B::Sub, de, be);
        let e0 = self.ar.bin(B::Add, s0, ne);
        let le = self.ar.c(64, len as u128);
        let c1 = self.ar.cmp(C::Ult, le, s0);
        let room = self.ar.bin(B::Sub, le, s0);
        let c2 = self.ar.cmp(C::Ult, room, ne);
        for c in [c1, c2] {
            if self.ar.k(c) == Some(0) {
                continue;
            }
            if self.ar.eval(c, &st.model) != 0 || self.sat(st, c)?.is_some() {
                return Ok(None);
            }
        }
        let lo = self.ar.range(s0).0.min(len as u128) as u64;
        let old = self.read_bytes(st, base + lo, len - lo)?;
        let new = match v {
            Val::I(_, x) => Byte::C(*x as u8),
            Val::E(e) => Byte::S(self.ar.extract(*e, 0, 8)),
            _ => return Ok(None),
        };
        let mut w = Vec::new();
        for (i, b) in old.iter().enumerate() {
            if *b == new {
                continue;
            }
            let be = |s: &mut Self, b: Byte| match b {
                Byte::C(v) => s.ar.c(8, v as u128),
                Byte::S(e) => e,
            };
            let (x, y) = (be(self, new), be(self, *b));
            let k = self.ar.c(64, (lo + i as u64) as u128);
            let c = self.ar.cmp(C::Ule, s0, k);
            let c2 = self.ar.cmp(C::Ult, k, e0);
            let r = self.ar.ite(c2, x, y);
            let r = self.ar.ite(c, r, y);
            let b = match self.ar.k(r) {
                Some(v) => Byte::C(v as u8),
                None => Byte::S(r),
            };
            w.push((i, b));
        }
        if !w.is_empty() {
            self.with_mut(st, base + lo, len - lo, |o, off| {
                for (i, b) in w {
                    o.put(off + i, b);
                }
            })?;
        }
        Ok(Some(d.clone()))
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, a: &[Val], args: &[(Ty, Opd)], ret: &Ty, fi: usize) -> R<Val> {
        let unit = Val::I(1, 0);
        Ok(match k {
            Intr::None => unreachable!(),
            Intr::Nop => unit,
            Intr::RetZero => Val::I(ret.bits() as u16, 0),
            Intr::Alloc | Intr::AllocZ => {
                let n = self.alloc_size(st, &a[0])?;
                Val::I(64, self.alloc(st, n)?)
            }
            Intr::Dealloc => {
                let p = self.conc(st, &a[0])?;
                self.free(st, p)?;
                unit
            }
            Intr::Realloc => {
                let p = self.conc(st, &a[0])?;
                let old = self.conc(st, &a[1])?;
                let n = self.alloc_size(st, &a[3])?;
                let q = self.alloc(st, n)?;
                self.copy(st, q, p, old.min(n))?;
                self.free(st, p)?;
                Val::I(64, q)
            }
            Intr::Panic => return Err(Stop::Fail("panic".into())),
            Intr::NoUnwindPanic => return Err(Stop::Fail("panic".into())),
            Intr::Trap => return Err(Stop::Fail("abort".into())),
            Intr::Memcpy => {
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let d = self.conc(st, &a[0])?;
                    let s = self.conc(st, &a[1])?;
                    self.copy(st, d, s, n)?;
                }
                a[0].clone()
            }
            Intr::Memset => {
                if matches!(a[2], Val::E(_)) {
                    if let Some(r) = self.memset_sym(st, &a[0], &a[1], &a[2])? {
                        return Ok(r);
                    }
                }
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let d = self.conc(st, &a[0])?;
                    let b = match &a[1] {
                        Val::I(_, v) => Byte::C(*v as u8),
                        Val::E(e) => Byte::S(self.ar.extract(*e, 0, 8)),
                        _ => panic!(),
                    };
                    self.with_mut(st, d, n, |o, off| {
                        for i in 0..n as usize {
                            o.put(off + i, b);
                        }
                    })?;
                }
                a[0].clone()
            }
            Intr::Memcmp | Intr::Bcmp => {
                let n = self.conc(st, &a[2])?;
                let (p, q) = if n > 0 {
                    (self.conc(st, &a[0])?, self.conc(st, &a[1])?)
                } else {
                    (0, 0)
                };
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let tw = ret.bits() as u16;
                let mut r = self.ar.c(tw, 0);
                for i in (0..n as usize).rev() {
                    let (l, m) = (x[i], y[i]);
                    if l == m {
                        continue;
                    }
                    let be = |s: &mut Self, b: Byte| match b {
                        Byte::C(v) => s.ar.c(8, v as u128),
                        Byte::S(e) => e,
                    };
                    let l = be(self, l);
                    let m = be(self, m);
                    let eq = self.ar.cmp(C::Eq, l, m);
                    let one = self.ar.c(tw, 1);
                    let ne = if k == Intr::Bcmp {
                        one
                    } else {
                        let lt = self.ar.cmp(C::Ult, l, m);
                        let neg = self.ar.c(tw, u128::MAX);
                        self.ar.ite(lt, neg, one)
                    };
                    r = self.ar.ite(eq, r, ne);
                }
                self.from_e(r)
            }
            Intr::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.read_bytes(st, p + n, 1)?[0] {
                        Byte::C(0) => break,
                        Byte::C(_) => n += 1,
                        _ => return Err(Stop::Engine("strlen of symbolic".into())),
                    }
                }
                Val::I(64, n)
            }
            Intr::SymMake => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let s = st.nvars;
                st.nvars += n as u32;
                let vs: Vec<E> = (0..n as u32).map(|i| self.ar.var(s + i)).collect();
                if n > 0 {
                    self.with_mut(st, p, n, |o, off| {
                        for (i, v) in vs.iter().enumerate() {
                            o.put(off + i, Byte::S(*v));
                        }
                    })?;
                }
                unit
            }
            Intr::SymAssume => {
                match &a[0] {
                    Val::I(_, 0) => return Err(Stop::Killed),
                    Val::I(..) => {}
                    Val::E(e) => {
                        let w = self.ar.width(*e);
                        let z = self.ar.c(w, 0);
                        let q = self.ar.cmp(C::Eq, *e, z);
                        let c = self.ar.not(q);
                        if self.ar.eval(c, &st.model) == 0 {
                            match self.sat(st, c)? {
                                None => return Err(Stop::Killed),
                                Some(m) => st.model = m,
                            }
                        }
                        self.add_cons(st, c);
                    }
                    _ => panic!(),
                }
                unit
            }
            Intr::SymFail => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let b = self.read_bytes(st, p, n)?;
                let s: Vec<u8> = b
                    .iter()
                    .map(|x| match x {
                        Byte::C(v) => *v,
                        _ => b'?',
                    })
                    .collect();
                return Err(Stop::Fail(format!("assert: {}", String::from_utf8_lossy(&s))));
            }
            Intr::SymCover => {
                let id = self.conc(st, &a[0])? as u32;
                if !st.covers.contains(&id) {
                    Rc::make_mut(&mut st.covers).push(id);
                }
                unit
            }
            Intr::SymOut => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let b = self.read_bytes(st, p, n)?;
                Rc::make_mut(&mut st.out).extend(b);
                unit
            }
            Intr::SymParam => {
                let i = self.conc(st, &a[0])? as usize;
                match self.jobs[st.job].params.get(i) {
                    Some(v) => Val::I(64, *v),
                    None => return Err(Stop::Engine(format!("missing harness parameter {}", i))),
                }
            }
            Intr::SymConc => {
                let v = self.conc(st, &a[0])?;
                Val::I(ret.bits() as u16, v)
            }
            Intr::SymIs => Val::I(ret.bits() as u16, 1),
            Intr::SymHeap => {
                let n = self.conc(st, &a[0])?;
                st.heap_max = if n == 0 { 0 } else { st.live + n as i64 };
                unit
            }
            Intr::MinMax(m) => self.lanes2(&a[0], &a[1], |s, x, y| {
                let c = match m {
                    0 => s.ar.cmp(C::Ult, x, y),
                    1 => s.ar.cmp(C::Ult, y, x),
                    2 => s.ar.cmp(C::Slt, x, y),
                    _ => s.ar.cmp(C::Slt, y, x),
                };
                s.ar.ite(c, x, y)
            }),
            Intr::Abs => self.lanes1(&a[0], |s, x| {
                let w = s.ar.width(x);
                let z = s.ar.c(w, 0);
                let n = s.ar.bin(B::Sub, z, x);
                let c = s.ar.cmp(C::Slt, x, z);
                s.ar.ite(c, n, x)
            }),
            Intr::Ovf(op) => {
                let x = self.to_e(&a[0]);
                let y = self.to_e(&a[1]);
                let (r, o) = self.ovf(op, x, y)?;
                Val::A(Rc::new(vec![self.from_e(r), self.from_e(o)]))
            }
            Intr::Sat(op) => {
                if op >= 3 {
                    return Err(Stop::Engine("signed saturating op".into()));
                }
                self.lanes2(&a[0], &a[1], |s, x, y| {
                    let w = s.ar.width(x);
                    if op == 1 {
                        let c = s.ar.cmp(C::Ult, x, y);
                        let r = s.ar.bin(B::Sub, x, y);
                        let z = s.ar.c(w, 0);
                        s.ar.ite(c, z, r)
                    } else {
                        let (r, o) = match s.ovf(op, x, y) {
                            Ok(p) => p,
                            Err(_) => panic!("sat"),
                        };
                        let m = s.ar.c(w, u128::MAX);
                        s.ar.ite(o, m, r)
                    }
                })
            }
            Intr::Fsh(left) => {
                if let Val::A(_) = a[0] {
                    return Err(Stop::Engine("vector funnel shift".into()));
                }
                let x = self.to_e(&a[0]);
                let y = self.to_e(&a[1]);
                let s = self.to_e(&a[2]);
                let w = self.ar.width(x);
                match self.ar.k(s) {
                    Some(s) => {
                        let s = (s % w as u128) as u16;
                        let r = if s == 0 {
                            if left {
                                x
                            } else {
                                y
                            }
                        } else {
                            let s = if left { w - s } else { s };
                            // (x:y) >> s, low w bits
                            let lo = self.ar.extract(y, s, w - s);
                            let hi = self.ar.extract(x, 0, s);
                            self.ar.concat(hi, lo)
                        };
                        self.from_e(r)
                    }
                    None => {
                        let wm = self.ar.c(w, w as u128);
                        let s = self.ar.bin(B::URem, s, wm);
                        let inv = self.ar.bin(B::Sub, wm, s);
                        let (p, q) = if left {
                            (self.ar.bin(B::Shl, x, s), self.ar.bin(B::LShr, y, inv))
                        } else {
                            (self.ar.bin(B::Shl, x, inv), self.ar.bin(B::LShr, y, s))
                        };
                        let r = self.ar.bin(B::Or, p, q);
                        self.from_e(r)
                    }
                }
            }
            Intr::Ctpop => self.lanes1(&a[0], |s, x| {
                let w = s.ar.width(x);
                let mut acc = s.ar.c(w, 0);
                for i in 0..w {
                    let b = s.ar.extract(x, i, 1);
                    let b = s.ar.zext(b, w);
                    acc = s.ar.bin(B::Add, acc, b);
                }
                acc
            }),
            Intr::Ctlz | Intr::Cttz => self.lanes1(&a[0], |s, x| {
                let w = s.ar.width(x);
                let mut acc = s.ar.c(w, w as u128);
                for i in 0..w {
                    // lowest priority first
                    let (bit, cnt) = if k == Intr::Ctlz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    let b = s.ar.extract(x, bit, 1);
                    let c = s.ar.c(w, cnt as u128);
                    acc = s.ar.ite(b, c, acc);
                }
                acc
            }),
            Intr::Bswap => self.lanes1(&a[0], |s, x| s.bswap(x)),
            Intr::BitRev => self.lanes1(&a[0], |s, x| {
                let w = s.ar.width(x);
                let mut acc = s.ar.extract(x, 0, 1);
                for i in 1..w {
                    let b = s.ar.extract(x, i, 1);
                    acc = s.ar.concat(acc, b);
                }
                acc
            }),
            Intr::CmpI(signed) => {
                let x = self.to_e(&a[0]);
                let y = self.to_e(&a[1]);
                let w = ret.bits() as u16;
                let op = if signed { C::Slt } else { C::Ult };
                let lt = self.ar.cmp(op, x, y);
                let gt = self.ar.cmp(op, y, x);
                let z = self.ar.c(w, 0);
                let p = self.ar.c(w, 1);
                let n = self.ar.c(w, u128::MAX);
                let r = self.ar.ite(gt, p, z);
                let r = self.ar.ite(lt, n, r);
                self.from_e(r)
            }
            Intr::IsConst => Val::I(1, 0),
            Intr::Expect | Intr::Tls => a[0].clone(),
            Intr::Movmsk => match &a[0] {
                Val::A(x) => {
                    let mut acc: Option<E> = None;
                    for y in x.iter() {
                        let e = self.to_e(y);
                        let w = self.ar.width(e);
                        let b = self.ar.extract(e, w - 1, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(p) => self.ar.concat(b, p),
                        });
                    }
                    let r = self.ar.zext(acc.unwrap(), 32);
                    self.from_e(r)
                }
                _ => panic!(),
            },
            Intr::Reduce(op) => match &a[0] {
                Val::A(x) => {
                    let w = lane_bits(&args[0].0);
                    let mut acc = x[0].clone();
                    for y in x[1..].iter() {
                        acc = match op {
                            0 => self.bin(BinOp::Or, w, &acc, y),
                            1 => self.bin(BinOp::And, w, &acc, y),
                            2 => self.bin(BinOp::Add, w, &acc, y),
                            3 => self.bin(BinOp::Xor, w, &acc, y),
                            _ => {
                                let c = self.icmp(Pred::Ult, w, &acc, y);
                                self.select(&c, y, &acc, false)
                            }
                        };
                    }
                    acc
                }
                _ => panic!(),
            },
            Intr::ObjSize => Val::I(64, u64::MAX),
            Intr::Errno => return Err(Stop::Engine(format!("system call path: {}", self.m.funcs[fi].name))),
        })
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p < HEAP_BASE || p >= STACK_BASE || p & ((1 << SLOT_BITS) - 1) != 0 {
            return Err(Stop::Fail(format!("free of invalid pointer {:#x}", p)));
        }
        let i = ((p - HEAP_BASE) >> SLOT_BITS) as usize;
        match st.heap.get_mut(i) {
            Some(o @ Some(_)) => {
                st.live -= o.as_ref().unwrap().c.len() as i64;
                *o = None;
                // Reuse trailing slots' space only by shrinking the table.
                Ok(())
            }
            _ => Err(Stop::Fail("double free".into())),
        }
    }
}
