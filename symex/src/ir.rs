//! Parser for the textual LLVM IR that `llvm-dis` prints.  Function bodies are
//! parsed lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(n) | Ty::Float(n) => *n as u64,
            Ty::Ptr => 64,
            _ => self.size() * 8,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(n) => *n as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(f, _) => {
                let o = self.offsets(f.len());
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    /// Offset of field `i` (or the unpadded end when `i` is the field count).
    pub fn offsets(&self, i: usize) -> u64 {
        if let Ty::Struct(f, packed) = self {
            let mut o = 0;
            for (k, t) in f.iter().enumerate() {
                if !packed {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                }
                if k == i {
                    return o;
                }
                o += t.size();
            }
            o
        } else {
            panic!("offsets of non-struct")
        }
    }
}

/// Constants.
#[derive(Clone, Debug)]
pub enum K {
    Int(u32, u128),
    Agg(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Rc<K>),
    /// Small scalar constants: (width, value)
    I(u16, u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Same,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),
    Reg(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Cast(CastOp, Ty, Ty, Opd),
    Bitcast(Ty, Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, u64)> },
    Alloca(u64, Opd),
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, slot: usize },
    Select(Ty, Opd, Opd, Opd, bool),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElt(Opd, Opd),
    InsertElt(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>, u64),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Freeze(Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Rmw(String, Ty, Opd, Opd),
    Nop,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<(u32, Ins)>, // dst (u32::MAX none)
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub id: u32,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<String>,
    pub constant: bool,
    pub weak: bool,
}

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gindex: HashMap<Rc<str>, usize>,
    /// function name -> (id, text range if defined)
    pub funcs: Vec<FuncDecl>,
    pub findex: HashMap<Rc<str>, usize>,
    pub text: Rc<String>,
    pub aliases: HashMap<String, String>,
}
pub struct FuncDecl {
    pub name: Rc<str>,
    pub body: Option<(usize, usize)>,
    pub weak: bool,
}

pub const GLOBAL_BASE: u64 = 0x3000_0000_0000;
pub const FUNC_BASE: u64 = 0x4000_0000_0000;
pub const SLOT_BITS: u32 = 26;

#[derive(Clone, PartialEq, Debug)]
enum T {
    W(String),      // word or number
    L(String),      // %local
    G(String),      // @global
    S(Vec<u8>),     // "string" or c"string"
    P(char),        // punctuation
    Dots,
}

fn ident(b: &[u8], mut i: usize) -> (String, usize) {
    if i < b.len() && b[i] == b'"' {
        let s = i + 1;
        i = s;
        while b[i] != b'"' {
            i += 1
        }
        (String::from_utf8_lossy(&b[s..i]).into_owned(), i + 1)
    } else {
        let s = i;
        while i < b.len()
            && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-'))
        {
            i += 1
        }
        (String::from_utf8_lossy(&b[s..i]).into_owned(), i)
    }
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' => {
                let (x, j) = ident(b, i + 1);
                out.push(T::L(x));
                i = j;
            }
            b'@' => {
                let (x, j) = ident(b, i + 1);
                out.push(T::G(x));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = string(b, i + 2);
                out.push(T::S(v));
                i = j;
            }
            b'"' => {
                let (v, j) = string(b, i + 1);
                out.push(T::S(v));
                i = j;
            }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' && b[i + 2] == b'.' => {
                out.push(T::Dots);
                i += 3;
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
            }
            b'!' => {
                // metadata: `!name`, `!123`, `!{`...
                i += 1;
                let s0 = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'-')) {
                    i += 1
                }
                let _ = s0;
                out.push(T::P('!'));
            }
            c if c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'+' || c == b'$' || c == b'.' => {
                let s0 = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'-' | b'$' | b'+'))
                {
                    i += 1
                }
                out.push(T::W(s[s0..i].to_string()));
            }
            c => {
                out.push(T::P(c as char));
                i += 1
            }
        }
    }
    out
}
fn string(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    while i < b.len() && b[i] != b'"' {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' {
            if i + 2 >= b.len() {
                break;
            }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            v.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

struct Cur<'a> {
    t: &'a [T],
    i: usize,
    m: &'a Module,
    regs: Option<&'a HashMap<String, u32>>,
    blocks: Option<&'a HashMap<String, u32>>,
}

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.t.get(self.i..(self.i + 6).min(self.t.len())), self.t)
        }
    }
    fn word(&mut self) -> String {
        match self.peek() {
            Some(T::W(w)) => {
                self.i += 1;
                w.clone()
            }
            x => panic!("expected word, got {:?} in {:?}", x, self.t),
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                Some(T::P('(')) => d += 1,
                Some(T::P(')')) => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                None => panic!("unbalanced"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "metadata" | "label" | "x86_fp80" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('<')) | Some(T::P('[')) => true,
            Some(T::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        // parameter / return attributes
        loop {
            if self.at_type() && !self.isp('<') && !self.isp('{') && !self.isp('[') {
                return;
            }
            match self.peek() {
                Some(T::W(w)) => {
                    let c = w.as_bytes()[0];
                    if c.is_ascii_digit() || c == b'-' || c == b'+' {
                        return;
                    }
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                            | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add"
                            | "sub" | "xor" | "asm" | "none" | "ptrtoaddr"
                    ) {
                        return;
                    }
                    if w == "align" {
                        self.i += 1;
                        if self.isp('(') {
                            self.skip_paren();
                        } else {
                            self.i += 1;
                        }
                        continue;
                    }
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_paren();
                    }
                }
                Some(T::S(_)) => {
                    // string attribute "k"="v"
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.peek() {
            Some(T::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.isw("addrspace") {
                            self.i += 1;
                            self.skip_paren();
                        }
                        Ty::Ptr
                    }
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(80),
                    "metadata" => Ty::Meta,
                    "label" | "token" => Ty::Label,
                    _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} in {:?}", w, self.t))),
                }
            }
            Some(T::L(n)) => {
                self.i += 1;
                self.m.types[n].clone()
            }
            Some(T::P('[')) => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n, Rc::new(t))
            }
            Some(T::P('<')) => {
                self.i += 1;
                if self.isp('{') {
                    self.i += 1;
                    let f = self.fields();
                    self.exp('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Some(T::P('{')) => {
                self.i += 1;
                let f = self.fields();
                Ty::Struct(Rc::new(f), false)
            }
            x => panic!("type? {:?} in {:?}", x, self.t),
        };
        t
    }
    fn fields(&mut self) -> Vec<Ty> {
        let mut f = vec![];
        while !self.eat('}') {
            f.push(self.ty());
            self.eat(',');
        }
        f
    }
    fn zero(t: &Ty) -> K {
        match t {
            Ty::Int(n) => K::Int(*n, 0),
            Ty::Ptr => K::Int(64, 0),
            Ty::Float(n) => K::Int(*n, 0),
            Ty::Arr(n, e) | Ty::Vec(n, e) => K::Agg((0..*n).map(|_| Self::zero(e)).collect()),
            Ty::Struct(f, _) => K::Agg(f.iter().map(Self::zero).collect()),
            _ => K::Int(1, 0),
        }
    }
    fn konst(&mut self, t: &Ty) -> K {
        match self.peek() {
            Some(T::W(w)) => {
                let w = w.clone();
                self.i += 1;
                match w.as_str() {
                    "true" => K::Int(1, 1),
                    "false" => K::Int(1, 0),
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(t),
                    "splat" => {
                        self.exp('(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        self.exp(')');
                        if let Ty::Vec(n, _) = t {
                            K::Agg((0..*n).map(|_| v.clone()).collect())
                        } else {
                            panic!("splat")
                        }
                    }
                    "getelementptr" => {
                        while !self.isp('(') {
                            self.i += 1;
                            if self.isp('(')
                                && matches!(self.t.get(self.i - 1), Some(T::W(x)) if x == "inrange")
                            {
                                self.skip_paren();
                            }
                        }
                        self.exp('(');
                        let st = self.ty();
                        self.exp(',');
                        let pt = self.ty();
                        let base = self.konst(&pt).int();
                        let mut off: i128 = 0;
                        let mut cur = st;
                        let mut first = true;
                        while self.eat(',') {
                            let it = self.ty();
                            let v = self.konst(&it).int();
                            let v = crate::expr::sx(v, it.bits() as u16);
                            if first {
                                off += v * cur.size() as i128;
                                first = false;
                            } else {
                                let (d, n) = step(&cur, v as u64);
                                off += match n {
                                    Some(sz) => v * sz as i128,
                                    None => d.1 as i128,
                                };
                                cur = d.0;
                            }
                        }
                        self.exp(')');
                        K::Int(64, (base as u64).wrapping_add(off as u64) as u128)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                        self.exp('(');
                        let st = self.ty();
                        let v = self.konst(&st);
                        assert!(self.eatw("to"));
                        let dt = self.ty();
                        self.exp(')');
                        if let (Ty::Int(_) | Ty::Ptr, Ty::Int(_) | Ty::Ptr) = (&st, &dt) {
                            let n = dt.bits();
                            K::Int(n as u32, v.int() & crate::expr::mask(n as u16))
                        } else {
                            v
                        }
                    }
                    "add" | "sub" | "xor" => {
                        while !self.isp('(') {
                            self.i += 1;
                        }
                        self.exp('(');
                        let st = self.ty();
                        let a = self.konst(&st).int();
                        self.exp(',');
                        let st2 = self.ty();
                        let b = self.konst(&st2).int();
                        self.exp(')');
                        let n = st.bits() as u16;
                        let r = match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        };
                        K::Int(n as u32, r & crate::expr::mask(n))
                    }
                    _ => {
                        let n = t.bits() as u16;
                        if let Ty::Float(_) = t {
                            // 0x hex double or decimal
                            if let Some(h) = w.strip_prefix("0x") {
                                let v = u64::from_str_radix(h, 16).unwrap_or(0);
                                return K::Int(n as u32, v as u128);
                            }
                            let f: f64 = w.parse().unwrap_or(0.0);
                            let v = if n == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                            return K::Int(n as u32, v);
                        }
                        let v: i128 = match w.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => w
                                .parse::<u128>()
                                .unwrap_or_else(|_| panic!("const {:?} in {:?}", w, self.t))
                                as i128,
                        };
                        K::Int(n as u32, v as u128 & crate::expr::mask(n))
                    }
                }
            }
            Some(T::G(n)) => {
                self.i += 1;
                K::Int(64, self.m.address(n) as u128)
            }
            Some(T::S(v)) => {
                self.i += 1;
                K::Agg(v.iter().map(|&b| K::Int(8, b as u128)).collect())
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => {
                let mut packed = false;
                let open = if let Some(T::P(c)) = self.peek() { *c } else { ' ' };
                self.i += 1;
                let mut close = match open {
                    '[' => ']',
                    '{' => '}',
                    _ => '>',
                };
                if open == '<' && self.eat('{') {
                    packed = true;
                    close = '}';
                }
                let mut v = vec![];
                while !self.eat(close) {
                    let et = self.ty();
                    v.push(self.konst(&et));
                    self.eat(',');
                }
                if packed {
                    self.exp('>');
                }
                K::Agg(v)
            }
            x => panic!("const? {:?} ty {:?} in {:?}", x, t, self.t),
        }
    }
    fn opd(&mut self, t: &Ty) -> Opd {
        if let Some(T::L(n)) = self.peek() {
            self.i += 1;
            return Opd::R(
                *self
                    .regs
                    .unwrap()
                    .get(n)
                    .unwrap_or_else(|| panic!("unknown local %{} in {:?}", n, self.t)),
            );
        }
        match self.konst(t) {
            K::Int(w, v) if w <= 64 => Opd::I(w as u16, v as u64),
            k => Opd::K(Rc::new(k)),
        }
    }
    fn topd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        assert!(self.eatw("label"));
        self.bare_label()
    }
    fn bare_label(&mut self) -> u32 {
        match self.peek() {
            Some(T::L(n)) => {
                self.i += 1;
                *self.blocks.unwrap().get(n).unwrap_or_else(|| panic!("label {}", n))
            }
            x => panic!("label? {:?}", x),
        }
    }
}
impl K {
    pub fn int(&self) -> u128 {
        match self {
            K::Int(_, v) => *v,
            _ => panic!("int const"),
        }
    }
}

/// One GEP step into `t` by index: ((subtype, fixed offset), Some(elem size) when scaled)
fn step(t: &Ty, i: u64) -> ((Ty, u64), Option<u64>) {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => (((**e).clone(), 0), Some(e.size())),
        Ty::Struct(f, _) => ((f[i as usize].clone(), t.offsets(i as usize)), None),
        _ => panic!("gep into {:?}", t),
    }
}

impl Module {
    pub fn address(&self, n: &str) -> u64 {
        if let Some(&i) = self.gindex.get(n) {
            if self.globals[i].weak {
                return 0;
            }
            return GLOBAL_BASE + ((i as u64) << SLOT_BITS);
        }
        if let Some(&i) = self.findex.get(n) {
            if self.funcs[i].weak && self.funcs[i].body.is_none() {
                return 0;
            }
            return FUNC_BASE + ((i as u64) << 4);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.address(a);
        }
        panic!("unknown global @{}", n)
    }
    pub fn load(text: String) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            types: HashMap::new(),
            globals: vec![],
            gindex: HashMap::new(),
            funcs: vec![],
            findex: HashMap::new(),
            text: text.clone(),
            aliases: HashMap::new(),
        };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut glines = vec![];
        while pos < bytes.len() {
            let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..end];
            if line.starts_with("define") {
                let close = text[end..].find("\n}").map(|x| end + x + 1).unwrap();
                let name = fname(line);
                m.add_fn(name, Some((pos, close)), line.contains("extern_weak"));
                pos = close;
                continue;
            } else if line.starts_with("declare") {
                let name = fname(line);
                m.add_fn(name, None, line.contains("extern_weak"));
            } else if line.starts_with('@') {
                glines.push((pos, end));
            } else if line.starts_with('%') {
                let t = lex(line);
                if let T::L(n) = &t[0] {
                    let n = n.clone();
                    let mut c = Cur { t: &t, i: 3, m: &m, regs: None, blocks: None };
                    if !c.isw("opaque") {
                        let ty = c.ty();
                        m.types.insert(n, ty);
                    }
                }
            }
            pos = end + 1;
        }
        for (s, e) in glines {
            let line = &text[s..e];
            let (name, j) = ident(line.as_bytes(), 1);
            let rest = line[j..].trim_start().trim_start_matches('=').trim_start();
            // find keyword
            let words: Vec<&str> = rest.split(' ').take(12).collect();
            if words.iter().any(|w| *w == "alias") {
                let at = rest.rfind('@').unwrap();
                let (tgt, _) = ident(rest.as_bytes(), at + 1);
                m.aliases.insert(name, tgt);
                continue;
            }
            let kw = words
                .iter()
                .position(|w| *w == "global" || *w == "constant")
                .unwrap_or_else(|| panic!("global line {}", line));
            let constant = words[kw] == "constant";
            let external = words[..kw].iter().any(|w| *w == "external" || *w == "extern_weak");
            let weak = words[..kw].iter().any(|w| *w == "extern_weak");
            let off: usize = words[..=kw].iter().map(|w| w.len() + 1).sum();
            let body = &rest[off..];
            let name: Rc<str> = name.into();
            let i = m.globals.len();
            m.gindex.insert(name.clone(), i);
            // Parse type lazily but we need it for the size: do so now.
            let toks_ty = {
                // cheap: lex the prefix only
                let t = lex(&body[..body.len().min(4096)].to_string());
                let mut c = Cur { t: &t, i: 0, m: &m, regs: None, blocks: None };
                c.ty()
            };
            m.globals.push(Global {
                name,
                ty: toks_ty,
                init: if external { None } else { Some(body.to_string()) },
                constant,
                weak,
            });
        }
        m
    }
    fn add_fn(&mut self, name: String, body: Option<(usize, usize)>, weak: bool) {
        let name: Rc<str> = name.into();
        let i = self.funcs.len();
        self.findex.insert(name.clone(), i);
        self.funcs.push(FuncDecl { name, body, weak });
    }
    /// Initial bytes of a global.
    pub fn global_bytes(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let size = g.ty.size() as usize;
        let mut out = vec![0u8; size];
        if let Some(s) = &g.init {
            let t = lex(s);
            let mut c = Cur { t: &t, i: 0, m: self, regs: None, blocks: None };
            let ty = c.ty();
            let k = c.konst(&ty);
            fill(&ty, &k, &mut out, 0);
        }
        out
    }
    pub fn parse_fn(&self, fi: usize) -> Func {
        let d = &self.funcs[fi];
        let (s, e) = d.body.unwrap();
        let text = &self.text[s..e];
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let ht = lex(head);
        // find @name then '('
        let gi = ht.iter().position(|t| matches!(t, T::G(_))).unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut c = Cur { t: &ht, i: gi + 1, m: self, regs: None, blocks: None };
        c.exp('(');
        let mut np = 0u32;
        while !c.eat(')') {
            if let Some(T::Dots) = c.peek() {
                c.i += 1;
                continue;
            }
            let _t = c.ty();
            // attributes then name
            loop {
                match c.peek() {
                    Some(T::L(n)) => {
                        regs.insert(n.clone(), np);
                        np += 1;
                        c.i += 1;
                        break;
                    }
                    Some(T::P('(')) => c.skip_paren(),
                    Some(T::P(',')) | Some(T::P(')')) => {
                        regs.insert(np.to_string(), np);
                        np += 1;
                        break;
                    }
                    _ => c.i += 1,
                }
            }
            c.eat(',');
        }
        // Split into blocks of logical lines.
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut cur: Option<String> = None;
        for l in lines {
            let t = l.trim_end();
            if t.is_empty() {
                continue;
            }
            if let Some(c) = cur.as_mut() {
                c.push(' ');
                c.push_str(t);
                if t.trim() == "]" || t.trim_start().starts_with("], !") {
                    let c = cur.take().unwrap();
                    blocks.last_mut().unwrap().1.push(c);
                }
                continue;
            }
            if !t.starts_with(' ') {
                // label
                let lab = label_name(t);
                blocks.push((lab, vec![]));
                continue;
            }
            let tt = t.trim_start();
            if tt.starts_with("#dbg") || tt.starts_with(';') {
                continue;
            }
            if blocks.is_empty() {
                let un = regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
                blocks.push((un.to_string(), vec![]));
            }
            if tt.starts_with("switch ") && t.ends_with('[') {
                cur = Some(t.to_string());
                continue;
            }
            blocks.last_mut().unwrap().1.push(t.to_string());
        }
        let mut bi: HashMap<String, u32> = HashMap::new();
        for (i, b) in blocks.iter().enumerate() {
            bi.insert(b.0.clone(), i as u32);
        }
        let mut n = np;
        let toks: Vec<Vec<Vec<T>>> = blocks
            .iter()
            .map(|b| b.1.iter().map(|l| lex(l)).collect())
            .collect();
        for b in &toks {
            for l in b {
                if let (Some(T::L(x)), Some(T::P('='))) = (l.get(0), l.get(1)) {
                    regs.insert(x.clone(), n);
                    n += 1;
                }
            }
        }
        let mut slot = 0usize;
        let out = toks
            .iter()
            .map(|b| {
                let mut blk = Block { phis: vec![], ins: vec![] };
                for l in b {
                    let mut c = Cur { t: l, i: 0, m: self, regs: Some(&regs), blocks: Some(&bi) };
                    let dst = if let (Some(T::L(x)), Some(T::P('='))) = (l.get(0), l.get(1)) {
                        c.i = 2;
                        regs[x]
                    } else {
                        u32::MAX
                    };
                    if c.eatw("phi") {
                        let ty = c.ty();
                        let mut inc = vec![];
                        loop {
                            if !c.eat('[') {
                                break;
                            }
                            let v = c.opd(&ty);
                            c.exp(',');
                            let b = c.bare_label();
                            c.exp(']');
                            inc.push((b, v));
                            if !c.eat(',') {
                                break;
                            }
                        }
                        blk.phis.push(Phi { dst, inc });
                        continue;
                    }
                    let ins = c.instr(&mut slot);
                    if let Ins::Nop = ins {
                        continue;
                    }
                    blk.ins.push((dst, ins));
                }
                blk
            })
            .collect();
        Func { name: d.name.clone(), nregs: n, nparams: np, blocks: out, id: fi as u32 }
    }
}

fn label_name(t: &str) -> String {
    let b = t.as_bytes();
    if b[0] == b'"' {
        let e = t[1..].find('"').unwrap() + 1;
        t[1..e].to_string()
    } else {
        t[..t.find(':').unwrap_or_else(|| panic!("label line {}", t))].to_string()
    }
}

fn fname(line: &str) -> String {
    // First '@' outside of parentheses attributes is the name.
    let i = line.find('@').unwrap();
    ident(line.as_bytes(), i + 1).0
}

pub fn fill(ty: &Ty, k: &K, out: &mut [u8], off: usize) {
    match (ty, k) {
        (Ty::Int(_) | Ty::Ptr | Ty::Float(_), K::Int(_, v)) => {
            let n = ((ty.bits() + 7) / 8) as usize;
            for j in 0..n {
                out[off + j] = (v >> (8 * j)) as u8;
            }
        }
        (Ty::Arr(_, e), K::Agg(v)) => {
            let s = e.size() as usize;
            for (j, x) in v.iter().enumerate() {
                fill(e, x, out, off + j * s);
            }
        }
        (Ty::Vec(_, e), K::Agg(v)) => {
            let s = (e.bits() / 8) as usize;
            for (j, x) in v.iter().enumerate() {
                fill(e, x, out, off + j * s);
            }
        }
        (Ty::Struct(f, _), K::Agg(v)) => {
            for (j, x) in v.iter().enumerate() {
                fill(&f[j], x, out, off + ty.offsets(j) as usize);
            }
        }
        _ => panic!("fill {:?} {:?}", ty, k),
    }
}

impl<'a> Cur<'a> {
    fn instr(&mut self, slot: &mut usize) -> Ins {
        while self.isw("tail") || self.isw("musttail") || self.isw("notail") {
            self.i += 1;
        }
        let op = self.word();
        let flags = |c: &mut Self| {
            while let Some(T::W(w)) = c.peek() {
                if matches!(
                    w.as_str(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw"
                        | "volatile" | "atomic" | "weak"
                ) {
                    c.i += 1;
                    if c.isp('(') {
                        c.skip_paren()
                    }
                } else {
                    break;
                }
            }
        };
        let bin = |s: &str| {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "urem" => BinOp::URem,
                "sdiv" => BinOp::SDiv,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            flags(self);
            let t = self.ty();
            let x = self.opd(&t);
            self.exp(',');
            let y = self.opd(&t);
            return Ins::Bin(b, t, x, y);
        }
        match op.as_str() {
            "icmp" => {
                flags(self);
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let t = self.ty();
                let x = self.opd(&t);
                self.exp(',');
                let y = self.opd(&t);
                Ins::Icmp(p, t, x, y)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                flags(self);
                let (t, x) = self.topd();
                assert!(self.eatw("to"));
                let d = self.ty();
                match op.as_str() {
                    "trunc" => Ins::Cast(CastOp::Trunc, t, d, x),
                    "zext" => Ins::Cast(CastOp::ZExt, t, d, x),
                    "sext" => Ins::Cast(CastOp::SExt, t, d, x),
                    "bitcast" => Ins::Bitcast(t, d, x),
                    _ => {
                        let (a, b) = (t.bits(), d.bits());
                        if a == b {
                            Ins::Cast(CastOp::Same, t, d, x)
                        } else if a > b {
                            Ins::Cast(CastOp::Trunc, t, d, x)
                        } else {
                            Ins::Cast(CastOp::ZExt, t, d, x)
                        }
                    }
                }
            }
            "load" => {
                flags(self);
                let t = self.ty();
                self.exp(',');
                let (_, p) = self.topd();
                Ins::Load(t, p)
            }
            "store" => {
                flags(self);
                let (t, v) = self.topd();
                self.exp(',');
                let (_, p) = self.topd();
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                flags(self);
                let st = self.ty();
                self.exp(',');
                let (pt, base) = self.topd();
                if let Ty::Vec(..) = pt {
                    return Ins::Unsupported("vector gep".into());
                }
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                while self.eat(',') {
                    if self.isp('!') {
                        break;
                    }
                    let (it, o) = self.topd();
                    let kv = match &o {
                        Opd::I(w, v) => Some(crate::expr::sx(*v as u128, *w) as i64),
                        _ => None,
                    };
                    if first {
                        first = false;
                        let sz = cur.size();
                        match kv {
                            Some(v) => off = off.wrapping_add(v.wrapping_mul(sz as i64)),
                            None => idx.push((o, it.bits() as u32, sz)),
                        }
                    } else {
                        let (d, n) = step(&cur, kv.unwrap_or(0) as u64);
                        match (n, kv) {
                            (Some(sz), Some(v)) => off = off.wrapping_add(v.wrapping_mul(sz as i64)),
                            (Some(sz), None) => idx.push((o, it.bits() as u32, sz)),
                            (None, _) => off = off.wrapping_add(d.1 as i64),
                        }
                        cur = d.0;
                    }
                }
                Ins::Gep { base, off, idx }
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty();
                let mut cnt = Opd::I(64, 1);
                if self.eat(',') && self.at_type() {
                    cnt = self.topd().1;
                }
                Ins::Alloca(t.size(), cnt)
            }
            "call" => {
                // cc + ret attrs
                loop {
                    if self.at_type() {
                        break;
                    }
                    match self.peek() {
                        Some(T::W(w)) => {
                            let al = w == "align";
                            self.i += 1;
                            if self.isp('(') {
                                self.skip_paren()
                            } else if al {
                                self.i += 1;
                            }
                        }
                        Some(T::S(_)) => {
                            self.i += 1;
                            if self.eat('=') {
                                self.i += 1;
                            }
                        }
                        x => panic!("call? {:?} in {:?}", x, self.t),
                    }
                }
                let ret = self.ty();
                if self.isp('(') {
                    self.skip_paren();
                }
                let callee = match self.peek() {
                    Some(T::G(n)) => {
                        let mut n = n.clone();
                        while let Some(a) = self.m.aliases.get(&n) {
                            n = a.clone();
                        }
                        self.i += 1;
                        Callee::Direct(*self.m.findex.get(n.as_str()).unwrap_or_else(|| panic!("no function {}", n)))
                    }
                    Some(T::L(_)) => Callee::Reg(self.opd(&Ty::Ptr)),
                    Some(T::W(w)) if w == "asm" => {
                        while !self.isp('(') {
                            self.i += 1
                        }
                        Callee::Asm
                    }
                    Some(T::W(_)) => Callee::Reg(self.opd(&Ty::Ptr)),
                    x => panic!("callee {:?} in {:?}", x, self.t),
                };
                if let Callee::Direct(fi) = &callee {
                    let n = &self.m.funcs[*fi].name;
                    for p in [
                        "llvm.lifetime.",
                        "llvm.assume",
                        "llvm.experimental.noalias",
                        "llvm.dbg.",
                        "llvm.donothing",
                        "llvm.prefetch",
                        "llvm.invariant",
                        "llvm.var.annotation",
                    ] {
                        if n.starts_with(p) {
                            return Ins::Nop;
                        }
                    }
                }
                self.exp('(');
                let mut args = vec![];
                while !self.eat(')') {
                    let t = self.ty();
                    if t == Ty::Meta {
                        // skip until , or ) at depth 0
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Some(T::P('(')) | Some(T::P('{')) => d += 1,
                                Some(T::P(')')) if d == 0 => break,
                                Some(T::P(')')) | Some(T::P('}')) => d -= 1,
                                Some(T::P(',')) if d == 0 => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        args.push((Ty::Meta, Opd::I(1, 0)));
                    } else {
                        self.skip_attrs();
                        let o = self.opd(&t);
                        args.push((t, o));
                    }
                    self.eat(',');
                }
                *slot += 1;
                Ins::Call { callee, args, ret, slot: *slot - 1 }
            }
            "select" => {
                while let Some(T::W(w)) = self.peek() {
                    if matches!(w.as_str(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                let (ct, c) = self.topd();
                self.exp(',');
                let (t, a) = self.topd();
                self.exp(',');
                let (_, b) = self.topd();
                Ins::Select(t, c, a, b, matches!(ct, Ty::Vec(..)))
            }
            "extractvalue" => {
                let (_, a) = self.topd();
                let mut ix = vec![];
                while self.eat(',') {
                    if self.isp('!') {
                        break;
                    }
                    ix.push(self.word().parse().unwrap());
                }
                Ins::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.topd();
                self.exp(',');
                let (_, v) = self.topd();
                let mut ix = vec![];
                while self.eat(',') {
                    if self.isp('!') {
                        break;
                    }
                    ix.push(self.word().parse().unwrap());
                }
                Ins::InsertValue(a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.topd();
                self.exp(',');
                let (_, i) = self.topd();
                Ins::ExtractElt(a, i)
            }
            "insertelement" => {
                let (_, a) = self.topd();
                self.exp(',');
                let (_, v) = self.topd();
                self.exp(',');
                let (_, i) = self.topd();
                Ins::InsertElt(a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.topd();
                self.exp(',');
                let (_, b) = self.topd();
                self.exp(',');
                let mt = self.ty();
                let undef_all = self.isw("poison") || self.isw("undef");
                let k = self.konst(&mt);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mv = match k {
                    K::Agg(v) => v.iter().map(|x| if undef_all { 0 } else { x.int() as u32 as i32 }).collect(),
                    _ => panic!(),
                };
                Ins::Shuffle(a, b, mv, n)
            }
            "br" => {
                if self.isw("label") {
                    return Ins::Br(self.label());
                }
                let (_, c) = self.topd();
                self.exp(',');
                let a = self.label();
                self.exp(',');
                let b = self.label();
                Ins::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.topd();
                self.exp(',');
                let d = self.label();
                self.exp('[');
                let mut cases = vec![];
                while !self.eat(']') {
                    let ct = self.ty();
                    let k = self.konst(&ct).int();
                    self.exp(',');
                    let l = self.label();
                    cases.push((k, l));
                }
                Ins::Switch(t.bits() as u32, v, d, cases)
            }
            "ret" => {
                if self.isw("void") {
                    return Ins::Ret(None);
                }
                let (_, v) = self.topd();
                Ins::Ret(Some(v))
            }
            "unreachable" => Ins::Unreachable,
            "freeze" => {
                let (_, v) = self.topd();
                Ins::Freeze(v)
            }
            "fence" => Ins::Nop,
            "cmpxchg" => {
                flags(self);
                let (_, p) = self.topd();
                self.exp(',');
                let (t, a) = self.topd();
                self.exp(',');
                let (_, b) = self.topd();
                Ins::CmpXchg(t, p, a, b)
            }
            "atomicrmw" => {
                flags(self);
                let o = self.word();
                let (_, p) = self.topd();
                self.exp(',');
                let (t, v) = self.topd();
                Ins::Rmw(o, t, p, v)
            }
            _ => Ins::Unsupported(format!("{} ({:?})", op, self.t.iter().take(8).collect::<Vec<_>>())),
        }
    }
}
