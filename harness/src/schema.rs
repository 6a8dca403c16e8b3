//! Independent definition of the typed layer: how values of a described type
//! are represented in each context, and what decoding any document as that type
//! must yield.  Driven by type descriptions, not by the types' own code.
use crate::model::*;
use crate::sym::*;
use fourleaf::de;
use fourleaf::stream::Error as SError;
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::*;
use std::io;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub enum Ty {
    /// Unsigned integer up to a maximum.
    U(u64),
    /// Signed integer within bounds.
    I(i64, i64),
    Bool,
    Char,
    Null,
    Unit,
    /// Owned bytes and text.
    Bytes,
    Str,
    /// The same, borrowed from the input if possible.
    BytesRef,
    StrRef,
    BytesN(usize),
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    /// Sorted and without duplicates / sorted.
    Set(Box<Ty>),
    Heap(Box<Ty>),
    Arr(Box<Ty>, usize),
    Map(Box<Ty>, Box<Ty>),
    /// Fields and whether unknown ones are kept (as a last, extra value).
    Struct(Vec<(u8, Ty)>, bool),
    Enum(Vec<(u64, Ty)>, Option<Box<Ty>>),
    Deleg(Box<Ty>),
    /// Nothing is borrowed.
    Own(Box<Ty>),
    Any,
    Anys,
    /// A value constrained further than its representation.
    With(Box<Ty>, fn(&V) -> bool),
    Rec(fn() -> Ty),
}
#[derive(Clone, PartialEq, Eq)]
pub enum V {
    N(u64),
    B(Vec<u8>),
    L(Vec<V>),
    E(u64, Box<V>),
    /// An unknown field.
    T(u8, Box<V>),
}

// ---- representation -------------------------------------------------------

pub fn int(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 & 0x7f | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
fn list(v: &V) -> &[V] {
    match *v { V::L(ref l) => l, _ => fail("harness: list") }
}
fn num(v: &V) -> u64 {
    match *v { V::N(n) => n, _ => fail("harness: number") }
}
pub fn enc_body(o: &mut Vec<u8>, v: &V, t: &Ty) {
    match *t {
        Ty::Struct(ref fs, open) => {
            let l = list(v);
            for (i, &(tag, ref ft)) in fs.iter().enumerate() {
                enc_field(o, &l[i], ft, tag);
            }
            if open { enc_body(o, &l[fs.len()], &Ty::Anys) } else { o.push(0) }
        }
        Ty::Anys => {
            for e in list(v) {
                match *e { V::T(tag, ref x) => enc_elem(o, x, &Ty::Any, tag), _ => fail("harness: unknown field") }
            }
            o.push(0);
        }
        Ty::Deleg(ref t) | Ty::Own(ref t) | Ty::With(ref t, _) => enc_body(o, v, t),
        Ty::Rec(f) => enc_body(o, v, &f()),
        _ => { enc_field(o, v, t, 1); o.push(0) }
    }
}
pub fn enc_field(o: &mut Vec<u8>, v: &V, t: &Ty, tag: u8) {
    match *t {
        Ty::Opt(ref e) | Ty::Seq(ref e) | Ty::Set(ref e) | Ty::Heap(ref e) | Ty::Arr(ref e, _) => for x in list(v) { enc_elem(o, x, e, tag) },
        Ty::Map(ref k, ref e) => for x in list(v) {
            let l = list(x);
            o.push(0xc0 | tag);
            enc_field(o, &l[0], k, 1);
            enc_field(o, &l[1], e, 2);
            o.push(0);
        },
        Ty::Rec(f) => enc_field(o, v, &f(), tag),
        Ty::Own(ref t) => enc_field(o, v, t, tag),
        _ => enc_elem(o, v, t, tag),
    }
}
pub fn enc_elem(o: &mut Vec<u8>, v: &V, t: &Ty, tag: u8) {
    match *t {
        Ty::U(_) | Ty::I(..) | Ty::Bool | Ty::Char | Ty::Null => { o.push(0x40 | tag); int(o, num(v)) }
        Ty::Unit => { o.push(0xc0 | tag); o.push(0) }
        Ty::Bytes | Ty::Str | Ty::BytesRef | Ty::StrRef | Ty::BytesN(_) => match *v {
            V::B(ref b) => { o.push(0x80 | tag); int(o, b.len() as u64); o.extend_from_slice(b) }
            _ => fail("harness: bytes"),
        },
        Ty::Opt(_) | Ty::Seq(_) | Ty::Set(_) | Ty::Heap(_) | Ty::Arr(..) | Ty::Map(..) => { o.push(0xc0 | tag); enc_field(o, v, t, 1); o.push(0) }
        Ty::Struct(..) | Ty::Anys => { o.push(0xc0 | tag); enc_body(o, v, t) }
        Ty::Enum(ref vs, ref ca) => match *v {
            V::E(d, ref x) => {
                o.push(tag);
                int(o, d);
                let mut bt = match *ca { Some(ref t) => &**t, None => &Ty::Unit };
                for &(vd, ref vt) in vs { if vd == d { bt = vt } }
                enc_body(o, x, bt);
            }
            _ => fail("harness: enum"),
        },
        Ty::Deleg(ref t) | Ty::Own(ref t) | Ty::With(ref t, _) => enc_elem(o, v, t, tag),
        Ty::Any => match *v {
            V::N(n) => { o.push(0x40 | tag); int(o, n) }
            V::B(_) => enc_elem(o, v, &Ty::Bytes, tag),
            V::L(_) => { o.push(0xc0 | tag); enc_body(o, v, &Ty::Anys) }
            V::E(d, ref x) => { o.push(tag); int(o, d); enc_body(o, x, &Ty::Anys) }
            V::T(..) => fail("harness: any"),
        },
        Ty::Rec(f) => enc_elem(o, v, &f(), tag),
    }
}
pub fn enc(v: &V, t: &Ty) -> Vec<u8> {
    let mut o = Vec::new();
    enc_body(&mut o, v, t);
    o
}

// ---- decoding -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    S(E),
    Exc,
    Type,
    Range,
    Rec,
    UnkField(u8, u64),
    UnkVar(u64),
    Few,
    Many,
    Missing,
    Utf8,
    Msg,
    Collect,
    Blob,
    Other,
}
pub fn kind(e: &de::Error) -> K {
    match *e {
        de::Error::Stream(_, ref e) => match *e {
            SError::Exception(_) => K::Exc,
            SError::UnexpectedType(..) => K::Type,
            SError::IntegerOutOfRange(_) => K::Range,
            ref e => K::S(errk(e)),
        },
        de::Error::RecursionLimitExceeded(_) => K::Rec,
        de::Error::UnknownField(_, t, p) => K::UnkField(t, p),
        de::Error::UnknownVariant(_, d) => K::UnkVar(d),
        de::Error::FieldOccursTooFewTimes(..) => K::Few,
        de::Error::FieldOccursTooManyTimes(..) => K::Many,
        de::Error::RequiredFieldMissing(_) => K::Missing,
        de::Error::InvalidValue(..) => K::Utf8,
        de::Error::InvalidValueMsg(..) => K::Msg,
        de::Error::MaxCollectExceeded(_) => K::Collect,
        de::Error::MaxBlobExceeded(_) => K::Blob,
        _ => K::Other,
    }
}
/// The error, and another that may be reported in its place where a value is
/// wrong in two ways at once.
pub type R<T> = Result<T, (K, Option<K>)>;

pub struct Cx<'a> {
    pub m: Model<'a>,
    pub depth: usize,
    pub limit: usize,
    pub strict: bool,
    pub collect: u64,
    pub collected: u64,
    pub blob: u64,
    pub blobbed: u64,
    pub borrow: bool,
    /// The enclosing fields (0 for a delegate) and where they are.
    pub path: Vec<(u8, u64)>,
}
fn bad<T>(k: K) -> R<T> { Err((k, None)) }
struct Acc { n: usize, v: Vec<V> }

impl<'a> Cx<'a> {
    pub fn new(b: &'a [u8], c: &de::Config) -> Self {
        Cx { m: Model::new(b), depth: 0, limit: c.recursion_limit, strict: !c.ignore_unknown_fields,
             collect: c.max_collect as u64, collected: 0, blob: c.max_blob as u64, blobbed: 0, borrow: false, path: Vec::new() }
    }
    fn push(&mut self, tag: u8, pos: u64) -> R<()> {
        if self.depth >= self.limit { return bad(K::Rec) }
        self.path.truncate(self.depth);
        self.path.push((tag, pos));
        self.depth += 1;
        Ok(())
    }
    fn here(&self) -> u64 { self.m.base + self.m.pos }
    fn collect1(&mut self) -> R<()> {
        let total = self.collected + 1;
        if total > self.collect { return bad(K::Collect) }
        self.collected = total;
        Ok(())
    }
    /// The content of a blob; it is left unread.
    fn data(&self, start: u64, len: u64) -> R<Vec<u8>> {
        let start = start - self.m.base;
        let have = self.m.b.len() as u64 - start;
        if len > have { return bad(K::S(E::Trunc(len - have))) }
        let len = concrete(len);
        Ok(self.m.b[start as usize..(start + len) as usize].to_vec())
    }
    fn field(&mut self) -> R<Option<Ev>> {
        match self.m.next_field() {
            Ev::Err(e) => bad(K::S(e)),
            Ev::Exc(..) => bad(K::Exc),
            Ev::EndStruct | Ev::EndDoc => Ok(None),
            e => Ok(Some(e)),
        }
    }
    pub fn body(&mut self, t: &Ty) -> R<V> {
        match *t {
            Ty::Struct(ref fs, open) => self.strct(fs, open).map(V::L),
            Ty::Unit => self.strct(&[], false).map(V::L),
            Ty::Deleg(ref t) => { self.push(0, self.here())?; let r = self.body(t)?; self.depth -= 1; Ok(r) }
            Ty::With(ref t, f) => { let v = self.body(t)?; if f(&v) { Ok(v) } else { bad(K::Msg) } }
            Ty::Rec(f) => self.body(&f()),
            Ty::Own(ref t) => { let b = self.borrow; self.borrow = false; let r = self.body(t); self.borrow = b; r }
            Ty::Anys => self.anys(),
            _ => self.single(t),
        }
    }
    /// A structure whose only field, 1, is the value.
    fn single(&mut self, t: &Ty) -> R<V> {
        let mut acc = Acc { n: 0, v: Vec::new() };
        while let Some(ev) = self.field()? {
            let (tag, pos, depth) = (tag_of(&ev), self.m.fpos, self.m.fdepth);
            if tag == 1 { self.push(tag, pos)?; self.occur(t, &mut acc, ev)?; self.depth -= 1 } else { self.unknown(tag, pos, depth)? }
        }
        self.push(1, self.here())?;
        let r = self.finish(t, acc)?;
        self.depth -= 1;
        Ok(r)
    }
    fn unknown(&mut self, tag: u8, pos: u64, depth: u64) -> R<()> {
        if self.strict { return bad(K::UnkField(tag, pos)) }
        while self.m.depth > depth {
            if let Ev::Err(e) = self.m.next() { return bad(K::S(e)) }
        }
        Ok(())
    }
    fn strct(&mut self, fs: &[(u8, Ty)], open: bool) -> R<Vec<V>> {
        let mut accs: Vec<Acc> = Vec::new();
        for _ in fs { accs.push(Acc { n: 0, v: Vec::new() }) }
        let mut rest = Vec::new();
        while let Some(ev) = self.field()? {
            let (tag, pos, depth) = (tag_of(&ev), self.m.fpos, self.m.fdepth);
            let mut at = fs.len();
            for (i, f) in fs.iter().enumerate() { if f.0 == tag { at = i } }
            if at < fs.len() {
                self.push(tag, pos)?;
                self.occur(&fs[at].1, &mut accs[at], ev)?;
                self.depth -= 1;
            } else if open {
                self.push(tag, pos)?;
                self.collect1()?;
                let v = self.any(ev)?;
                rest.push(V::T(tag, Box::new(v)));
                self.depth -= 1;
            } else {
                self.unknown(tag, pos, depth)?;
            }
        }
        let mut r = Vec::new();
        for (f, a) in fs.iter().zip(accs) {
            self.push(f.0, self.here())?;
            r.push(self.finish(&f.1, a)?);
            self.depth -= 1;
        }
        if open {
            self.push(0, self.here())?;
            self.depth -= 1;
            r.push(V::L(rest));
        }
        Ok(r)
    }
    /// One occurrence of a field of type `t`.
    fn occur(&mut self, t: &Ty, a: &mut Acc, ev: Ev) -> R<()> {
        let max = match *t {
            Ty::Seq(_) | Ty::Set(_) | Ty::Heap(_) | Ty::Map(..) => usize::MAX,
            Ty::Arr(_, n) => n,
            Ty::Rec(f) => return self.occur(&f(), a, ev),
            Ty::Own(ref t) => { let b = self.borrow; self.borrow = false; let r = self.occur(t, a, ev); self.borrow = b; return r }
            _ => 1,
        };
        if max == usize::MAX { self.collect1()? }
        let depth = self.depth;
        let v = match *t {
            Ty::Seq(ref e) | Ty::Set(ref e) | Ty::Heap(ref e) | Ty::Opt(ref e) | Ty::Arr(ref e, _) => self.elem(e, ev),
            Ty::Map(ref k, ref e) => self.pair(k, e, ev),
            _ => self.elem(t, ev),
        };
        if a.n >= max {
            self.depth = depth;
            return Err((K::Many, match v { Ok(_) => None, Err(e) => Some(e.0) }));
        }
        a.n += 1;
        a.v.push(v?);
        Ok(())
    }
    fn pair(&mut self, k: &Ty, e: &Ty, ev: Ev) -> R<V> {
        if let Ev::Struct(_) = ev {} else { return bad(K::Type) }
        let mut a = Acc { n: 0, v: Vec::new() };
        let mut b = Acc { n: 0, v: Vec::new() };
        while let Some(ev) = self.field()? {
            let (tag, pos, depth) = (tag_of(&ev), self.m.fpos, self.m.fdepth);
            if tag == 1 || tag == 2 {
                self.push(tag, pos)?;
                if tag == 1 { self.occur(k, &mut a, ev)? } else { self.occur(e, &mut b, ev)? }
                self.depth -= 1;
            } else { self.unknown(tag, pos, depth)? }
        }
        self.push(1, self.here())?;
        let x = self.finish(k, a)?;
        self.depth -= 1;
        self.push(2, self.here())?;
        let y = self.finish(e, b)?;
        self.depth -= 1;
        Ok(V::L(vec![x, y]))
    }
    fn finish(&mut self, t: &Ty, mut a: Acc) -> R<V> {
        Ok(match *t {
            Ty::Rec(f) => return self.finish(&f(), a),
            Ty::Own(ref t) => return self.finish(t, a),
            Ty::Opt(_) | Ty::Seq(_) => V::L(a.v),
            Ty::Set(_) => {
                let mut s = BTreeSet::new();
                for x in &a.v { s.insert(num(x)); }
                V::L(s.into_iter().map(V::N).collect())
            }
            Ty::Heap(_) => {
                let mut s: Vec<u64> = a.v.iter().map(num).collect();
                s.sort();
                V::L(s.into_iter().map(V::N).collect())
            }
            Ty::Map(..) => {
                // the last value of a key counts
                let mut s = BTreeMap::new();
                for x in &a.v { let l = list(x); s.insert(num(&l[0]), l[1].clone()); }
                V::L(s.into_iter().map(|(k, v)| V::L(vec![V::N(k), v])).collect())
            }
            Ty::Arr(_, n) => {
                if a.n < n { return bad(if a.n == 0 { K::Missing } else { K::Few }) }
                V::L(a.v)
            }
            Ty::BytesN(0) if a.n == 0 => V::B(Vec::new()),
            _ => {
                if a.n == 0 { return bad(K::Missing) }
                a.v.pop().unwrap()
            }
        })
    }
    pub fn elem(&mut self, t: &Ty, ev: Ev) -> R<V> {
        match *t {
            Ty::U(_) | Ty::I(..) | Ty::Bool | Ty::Char | Ty::Null => {
                let n = match ev { Ev::Int(_, n) => n, _ => return bad(K::Type) };
                match *t {
                    Ty::U(max) => if n > max { return bad(K::Range) },
                    Ty::I(lo, hi) => {
                        let z = ((n >> 1) as i64) ^ -((n & 1) as i64);
                        if z < lo || z > hi { return bad(K::Range) }
                    }
                    Ty::Bool => if n > 1 { return bad(K::Range) },
                    Ty::Null => if n > 0 { return bad(K::Range) },
                    _ => {
                        if n > 0xffff_ffff { return bad(K::Range) }
                        if n > 0x10ffff || (n >= 0xd800 && n < 0xe000) { return bad(K::Msg) }
                    }
                }
                Ok(V::N(n))
            }
            Ty::Bytes | Ty::Str | Ty::BytesRef | Ty::StrRef => {
                let (s, n) = match ev { Ev::Blob(_, s, n) => (s, n), _ => return bad(K::Type) };
                let copied = match *t { Ty::Bytes | Ty::Str => true, _ => !self.borrow };
                if copied {
                    match self.blobbed.checked_add(n) {
                        Some(total) if total <= self.blob => self.blobbed = total,
                        _ => return bad(K::Blob),
                    }
                }
                let d = self.data(s, n)?;
                // (the data is consumed when copied, skipped otherwise)
                match *t { Ty::Str | Ty::StrRef => if std::str::from_utf8(&d).is_err() { return bad(K::Utf8) }, _ => () }
                Ok(V::B(d))
            }
            Ty::BytesN(k) => {
                let (s, n) = match ev { Ev::Blob(_, s, n) => (s, n), _ => return bad(K::Type) };
                if n != k as u64 { return bad(K::Msg) }
                match self.data(s, n) { Ok(d) => Ok(V::B(d)), Err((k, _)) => Err((k, Some(K::S(E::Eof)))) }
            }
            Ty::Opt(_) | Ty::Seq(_) | Ty::Set(_) | Ty::Heap(_) | Ty::Arr(..) | Ty::Map(..) | Ty::Struct(..) | Ty::Unit | Ty::Anys => match ev {
                Ev::Struct(_) => self.body(t),
                _ => bad(K::Type),
            },
            Ty::Enum(ref vs, ref ca) => match ev {
                Ev::Enum(_, d) => {
                    for &(vd, ref vt) in vs {
                        if vd == d { return Ok(V::E(d, Box::new(self.body(vt)?))) }
                    }
                    match *ca {
                        Some(ref t) => Ok(V::E(d, Box::new(self.body(t)?))),
                        None => bad(K::UnkVar(d)),
                    }
                }
                _ => bad(K::Type),
            },
            Ty::Deleg(ref t) => { self.push(0, self.m.fpos)?; let r = self.elem(t, ev)?; self.depth -= 1; Ok(r) }
            Ty::With(ref t, f) => { let v = self.elem(t, ev)?; if f(&v) { Ok(v) } else { bad(K::Msg) } }
            Ty::Any => self.any(ev),
            Ty::Rec(f) => self.elem(&f(), ev),
            Ty::Own(ref t) => { let b = self.borrow; self.borrow = false; let r = self.elem(t, ev); self.borrow = b; r }
        }
    }
    fn any(&mut self, ev: Ev) -> R<V> {
        match ev {
            Ev::Int(_, n) => Ok(V::N(n)),
            Ev::Blob(..) => self.elem(&Ty::BytesRef, ev),
            Ev::Struct(_) => self.anys(),
            Ev::Enum(_, d) => Ok(V::E(d, Box::new(self.anys()?))),
            _ => fail("harness: field"),
        }
    }
    fn anys(&mut self) -> R<V> {
        let mut r = Vec::new();
        while let Some(ev) = self.field()? {
            let tag = tag_of(&ev);
            self.push(tag, self.m.fpos)?;
            self.collect1()?;
            let v = self.any(ev)?;
            self.depth -= 1;
            r.push(V::T(tag, Box::new(v)));
        }
        Ok(V::L(r))
    }
}
fn tag_of(e: &Ev) -> u8 {
    match *e { Ev::Int(t, _) | Ev::Blob(t, ..) | Ev::Struct(t) | Ev::Enum(t, _) => t, _ => fail("harness: not a field") }
}

// ---- documents ------------------------------------------------------------

/// `k` elements with tags out of `tags` (0 for markers), integers of one byte
/// (or any), discriminants out of `discs`, blobs of up to `blobs-1` bytes.
pub struct Docs<'t> {
    pub tags: &'t [u8],
    pub discs: &'t [u64],
    pub blobs: usize,
    pub wide: bool,
    /// Markers besides end-of-struct.
    pub specials: bool,
}
impl<'t> Docs<'t> {
    pub fn make(&self, k: usize) -> Vec<u8> {
        let mut b = Vec::new();
        for _ in 0..k {
            // which: 0 end of struct, then tags, then (specials) any other marker
            let w = choose(self.tags.len() + 1 + self.specials as usize);
            if w == 0 { b.push(0); continue }
            if w > self.tags.len() {
                match choose(3) {
                    0 => b.push(0x40),
                    1 => b.push(0xc0),
                    _ => { b.push(0x80); b.push(1); b.push(b'!') }
                }
                continue;
            }
            let tag = self.tags[w - 1];
            match choose(4) {
                0 => {
                    b.push(tag);
                    if self.wide { int(&mut b, u64s()) } else { let d = choose(self.discs.len()); int(&mut b, self.discs[d]) }
                }
                1 => {
                    b.push(0x40 | tag);
                    if self.wide { int(&mut b, u64s()) } else { let v = u8s(); assume(v < 0x80); b.push(v) }
                }
                2 => {
                    b.push(0x80 | tag);
                    let n = choose(self.blobs);
                    int(&mut b, n as u64);
                    b.extend_from_slice(&bytes(n));
                }
                _ => b.push(0xc0 | tag),
            }
        }
        b
    }
}

// ---- the types ------------------------------------------------------------

/// A type, its description, arbitrary values of it, and its values' images.
pub trait Tv: Sized {
    const BYTE: bool = false;
    /// Items are written in an order of our choosing.
    const ORDERED: bool = true;
    /// Restricts the values to ones all handled alike (for long arrays).
    fn tame(&self) {}
    fn ty() -> Ty;
    /// Any value with up to `n` items in each collection.
    fn gen(n: usize) -> Self;
    fn v(&self) -> V;
}
pub fn zz(v: i64) -> u64 {
    if v < 0 { !((v as u64) << 1) } else { (v as u64) << 1 }
}
macro_rules! uints { ($($t:ident $g:ident $b:expr;)*) => {$(
    impl Tv for $t {
        const BYTE: bool = $b;
        fn ty() -> Ty { Ty::U($t::MAX as u64) }
        fn gen(_: usize) -> Self { $g() }
        fn v(&self) -> V { V::N(*self as u64) }
        fn tame(&self) { if !$b { assume(*self >= 1 && *self < 0x80) } }
    }
)*} }
uints! { u8 u8s true; u16 u16s false; u32 u32s false; u64 u64s false; usize usizes false; }
macro_rules! sints { ($($t:ident $g:ident;)*) => {$(
    impl Tv for $t {
        fn ty() -> Ty { Ty::I($t::MIN as i64, $t::MAX as i64) }
        fn gen(_: usize) -> Self { $g() }
        fn v(&self) -> V { V::N(zz(*self as i64)) }
    }
)*} }
sints! { i8 i8s; i16 i16s; i32 i32s; i64 i64s; isize isizes; }
impl Tv for bool {
    fn ty() -> Ty { Ty::Bool }
    fn gen(_: usize) -> Self { bools() }
    fn v(&self) -> V { V::N(*self as u64) }
}
impl Tv for char {
    fn ty() -> Ty { Ty::Char }
    fn gen(_: usize) -> Self {
        let c = u32s();
        match char::from_u32(c) { Some(c) => c, None => { assume(false); ' ' } }
    }
    fn v(&self) -> V { V::N(*self as u32 as u64) }
}
impl<T> Tv for PhantomData<T> {
    fn ty() -> Ty { Ty::Null }
    fn gen(_: usize) -> Self { PhantomData }
    fn v(&self) -> V { V::N(0) }
}
impl Tv for () {
    fn ty() -> Ty { Ty::Unit }
    fn gen(_: usize) -> Self {}
    fn v(&self) -> V { V::L(Vec::new()) }
}
impl Tv for String {
    fn ty() -> Ty { Ty::Str }
    /// ASCII, or one character of two bytes.
    fn gen(n: usize) -> Self {
        let k = choose(n + 1);
        let mut b = bytes(k);
        for x in &b { assume(*x < 0x80) }
        if k == 2 && bools() {
            b[0] = u8s(); b[1] = u8s();
            assume(b[0] >= 0xc2 && b[0] < 0xe0 && b[1] >= 0x80 && b[1] < 0xc0);
        }
        match String::from_utf8(b) { Ok(s) => s, Err(_) => { assume(false); String::new() } }
    }
    fn v(&self) -> V { V::B(self.as_bytes().to_vec()) }
}
impl<T: Tv> Tv for Option<T> {
    fn ty() -> Ty { Ty::Opt(Box::new(T::ty())) }
    fn gen(n: usize) -> Self { if n > 0 && bools() { Some(T::gen(n)) } else { None } }
    fn v(&self) -> V { V::L(self.iter().map(Tv::v).collect()) }
}
fn seq(byte: bool, l: Vec<V>) -> V {
    if byte { V::B(l.iter().map(|x| num(x) as u8).collect()) } else { V::L(l) }
}
fn items<T: Tv>(n: usize) -> Vec<T> {
    let k = choose(n + 1);
    (0..k).map(|_| T::gen(n)).collect()
}
impl<T: Tv> Tv for Vec<T> {
    fn ty() -> Ty { if T::BYTE { Ty::Bytes } else { Ty::Seq(Box::new(T::ty())) } }
    fn gen(n: usize) -> Self { items(n) }
    fn v(&self) -> V { seq(T::BYTE, self.iter().map(Tv::v).collect()) }
}
impl<T: Tv, const N: usize> Tv for [T; N] {
    fn ty() -> Ty { if T::BYTE { Ty::BytesN(N) } else { Ty::Arr(Box::new(T::ty()), N) } }
    const ORDERED: bool = T::ORDERED;
    fn gen(n: usize) -> Self { std::array::from_fn(|_| { let x = T::gen(n); if N > 32 { x.tame() } x }) }
    fn v(&self) -> V { seq(T::BYTE, self.iter().map(Tv::v).collect()) }
}
macro_rules! colls { ($($c:ident $k:ident [$($b:tt)*];)*) => {$(
    impl<T: Tv + $($b)*> Tv for $c<T> {
        fn ty() -> Ty { Ty::$k(Box::new(T::ty())) }
        fn gen(n: usize) -> Self { items(n).into_iter().collect() }
        fn v(&self) -> V { V::L(self.iter().map(Tv::v).collect()) }
    }
)*} }
colls! { VecDeque Seq [Clone]; LinkedList Seq [Clone]; BTreeSet Set [Ord]; }
impl<T: Tv + Ord + Clone> Tv for BinaryHeap<T> {
    const ORDERED: bool = false;
    fn ty() -> Ty { Ty::Heap(Box::new(T::ty())) }
    fn gen(n: usize) -> Self { items(n).into_iter().collect() }
    fn v(&self) -> V { V::L(self.clone().into_sorted_vec().iter().map(Tv::v).collect()) }
}
/// Hashes everything alike.
#[derive(Default, Clone)]
pub struct Flat;
impl std::hash::BuildHasher for Flat {
    type Hasher = Flat;
    fn build_hasher(&self) -> Flat { Flat }
}
impl std::hash::Hasher for Flat {
    fn finish(&self) -> u64 { 7 }
    fn write(&mut self, _: &[u8]) {}
}
impl<T: Tv + Eq + Ord + std::hash::Hash> Tv for HashSet<T, Flat> {
    const ORDERED: bool = false;
    fn ty() -> Ty { Ty::Set(Box::new(T::ty())) }
    fn gen(n: usize) -> Self { items(n).into_iter().collect() }
    fn v(&self) -> V {
        let mut l: Vec<&T> = self.iter().collect();
        l.sort();
        V::L(l.into_iter().map(Tv::v).collect())
    }
}
impl<A: Tv + Ord, B: Tv> Tv for BTreeMap<A, B> {
    fn ty() -> Ty { Ty::Map(Box::new(A::ty()), Box::new(B::ty())) }
    fn gen(n: usize) -> Self { items::<(A, B)>(n).into_iter().collect() }
    fn v(&self) -> V { V::L(self.iter().map(|(a, b)| V::L(vec![a.v(), b.v()])).collect()) }
}
impl<A: Tv + Eq + Ord + std::hash::Hash, B: Tv> Tv for HashMap<A, B, Flat> {
    const ORDERED: bool = false;
    fn ty() -> Ty { Ty::Map(Box::new(A::ty()), Box::new(B::ty())) }
    fn gen(n: usize) -> Self { items::<(A, B)>(n).into_iter().collect() }
    fn v(&self) -> V {
        let mut l: Vec<(&A, &B)> = self.iter().collect();
        l.sort_by(|x, y| x.0.cmp(y.0));
        V::L(l.into_iter().map(|(a, b)| V::L(vec![a.v(), b.v()])).collect())
    }
}
macro_rules! tuples { ($(($($t:ident $n:tt)*);)*) => {$(
    impl<$($t: Tv),*> Tv for ($($t,)*) {
        const ORDERED: bool = $($t::ORDERED)&&*;
        fn ty() -> Ty { Ty::Struct(vec![$(($n + 1, $t::ty())),*], false) }
        fn gen(n: usize) -> Self { ($($t::gen(n),)*) }
        fn v(&self) -> V { V::L(vec![$(self.$n.v()),*]) }
    }
)*} }
tuples! { (A 0); (A 0 B 1); (A 0 B 1 C 2); (A 0 B 1 C 2 D 3); (A 0 B 1 C 2 D 3 E 4);
    (A 0 B 1 C 2 D 3 E 4 F 5); (A 0 B 1 C 2 D 3 E 4 F 5 G 6); (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7);
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8); (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9);
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 L 10); (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 L 10 M 11);
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 L 10 M 11 N 12);
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 L 10 M 11 N 12 O 13);
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 L 10 M 11 N 12 O 13 P 14);
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 L 10 M 11 N 12 O 13 P 14 Q 15);
}
macro_rules! boxes { ($($b:ident)*) => {$(
    impl<T: Tv> Tv for $b<T> {
        fn ty() -> Ty { T::ty() }
        fn gen(n: usize) -> Self { $b::new(T::gen(n)) }
        fn v(&self) -> V { (**self).v() }
    }
)*} }
boxes! { Box Rc Arc }
impl<'a> Tv for Cow<'a, str> {
    fn ty() -> Ty { Ty::StrRef }
    fn gen(n: usize) -> Self { Cow::Owned(String::gen(n)) }
    fn v(&self) -> V { V::B(self.as_bytes().to_vec()) }
}
impl<'a> Tv for Cow<'a, [u8]> {
    fn ty() -> Ty { Ty::BytesRef }
    fn gen(n: usize) -> Self { Cow::Owned(Vec::gen(n)) }
    fn v(&self) -> V { V::B(self.to_vec()) }
}
impl<'a> Tv for &'a str {
    fn ty() -> Ty { Ty::StrRef }
    fn gen(n: usize) -> Self { Box::leak(String::gen(n).into_boxed_str()) }
    fn v(&self) -> V { V::B(self.as_bytes().to_vec()) }
}
impl<'a> Tv for &'a [u8] {
    fn ty() -> Ty { Ty::BytesRef }
    fn gen(n: usize) -> Self { Box::leak(Vec::gen(n).into_boxed_slice()) }
    fn v(&self) -> V { V::B(self.to_vec()) }
}
impl<T: Tv> Tv for fourleaf::adapt::Copied<T> {
    fn ty() -> Ty { Ty::Own(Box::new(T::ty())) }
    fn gen(n: usize) -> Self { fourleaf::adapt::Copied(T::gen(n)) }
    fn v(&self) -> V { self.0.v() }
}
/// A small number or a large one.
fn wide() -> u64 {
    let x = u8s() as u64;
    if bools() { x | 1 << 63 } else { x }
}
impl<'a> Tv for UnknownField<'a> {
    fn ty() -> Ty { Ty::Any }
    fn gen(n: usize) -> Self {
        match choose(if n > 0 { 4 } else { 2 }) {
            0 => UnknownField::Integer(if n > 0 { wide() } else { u64s() }),
            1 => UnknownField::Blob(Cow::Owned(bytes(choose(3)))),
            2 => UnknownField::Struct(UnknownFields::gen(n - 1)),
            _ => UnknownField::Enum(wide(), UnknownFields::gen(n - 1)),
        }
    }
    fn v(&self) -> V {
        match *self {
            UnknownField::Integer(n) => V::N(n),
            UnknownField::Blob(ref b) => V::B(b.to_vec()),
            UnknownField::Struct(ref s) => s.v(),
            UnknownField::Enum(d, ref s) => V::E(d, Box::new(s.v())),
        }
    }
}
impl<'a> Tv for UnknownFields<'a> {
    fn ty() -> Ty { Ty::Anys }
    fn gen(n: usize) -> Self {
        let k = choose(n + 1);
        UnknownFields((0..k).map(|_| { let t = u8s(); assume(t >= 1 && t <= 63); (t, UnknownField::gen(n)) }).collect())
    }
    fn v(&self) -> V { V::L(self.0.iter().map(|&(t, ref f)| V::T(t, Box::new(f.v()))).collect()) }
}
impl Tv for Ipv4Addr {
    fn ty() -> Ty { Ty::Deleg(Box::new(Ty::BytesN(4))) }
    fn gen(_: usize) -> Self { let b = bytes(4); Ipv4Addr::new(b[0], b[1], b[2], b[3]) }
    fn v(&self) -> V { V::B(self.octets().to_vec()) }
}
impl Tv for Ipv6Addr {
    fn ty() -> Ty { Ty::Deleg(Box::new(Ty::BytesN(16))) }
    fn gen(_: usize) -> Self {
        Ipv6Addr::new(u16s(), u16s(), u16s(), u16s(), u16s(), u16s(), u16s(), u16s())
    }
    fn v(&self) -> V {
        // most significant octet first
        let mut b = Vec::new();
        for s in &self.segments() { b.push((*s >> 8) as u8); b.push(*s as u8) }
        V::B(b)
    }
}
impl Tv for IpAddr {
    fn ty() -> Ty { Ty::Enum(vec![(4, Ty::Deleg(Box::new(Ipv4Addr::ty()))), (6, Ty::Deleg(Box::new(Ipv6Addr::ty())))], None) }
    fn gen(n: usize) -> Self { if bools() { IpAddr::V4(Tv::gen(n)) } else { IpAddr::V6(Tv::gen(n)) } }
    fn v(&self) -> V { match *self { IpAddr::V4(ref a) => V::E(4, Box::new(a.v())), IpAddr::V6(ref a) => V::E(6, Box::new(a.v())) } }
}
impl Tv for SocketAddrV4 {
    fn ty() -> Ty { Ty::Struct(vec![(1, Ipv4Addr::ty()), (2, u16::ty())], false) }
    fn gen(n: usize) -> Self { SocketAddrV4::new(Tv::gen(n), u16s()) }
    fn v(&self) -> V { V::L(vec![self.ip().v(), self.port().v()]) }
}
impl Tv for SocketAddrV6 {
    fn ty() -> Ty { Ty::Struct(vec![(1, Ipv6Addr::ty()), (2, u16::ty()), (3, u32::ty()), (4, u32::ty())], false) }
    fn gen(n: usize) -> Self { SocketAddrV6::new(Tv::gen(n), u16s(), u32s(), u32s()) }
    fn v(&self) -> V { V::L(vec![self.ip().v(), self.port().v(), self.flowinfo().v(), self.scope_id().v()]) }
}
impl Tv for SocketAddr {
    fn ty() -> Ty { Ty::Enum(vec![(4, Ty::Deleg(Box::new(SocketAddrV4::ty()))), (6, Ty::Deleg(Box::new(SocketAddrV6::ty())))], None) }
    fn gen(n: usize) -> Self { if bools() { SocketAddr::V4(Tv::gen(n)) } else { SocketAddr::V6(Tv::gen(n)) } }
    fn v(&self) -> V { match *self { SocketAddr::V4(ref a) => V::E(4, Box::new(a.v())), SocketAddr::V6(ref a) => V::E(6, Box::new(a.v())) } }
}
impl Tv for Duration {
    fn ty() -> Ty {
        fn nsec(v: &V) -> bool { num(&list(v)[1]) < 1_000_000_000 }
        Ty::With(Box::new(Ty::Struct(vec![(1, u64::ty()), (2, u32::ty())], false)), nsec)
    }
    fn gen(_: usize) -> Self {
        let (s, n) = (u64s(), u32s());
        assume(n < 1_000_000_000);
        Duration::new(s, n)
    }
    fn v(&self) -> V { V::L(vec![V::N(self.as_secs()), V::N(self.subsec_nanos() as u64)]) }
}
impl<T: Tv, E2: Tv> Tv for Result<T, E2> {
    fn ty() -> Ty { Ty::Enum(vec![(1, Ty::Deleg(Box::new(T::ty()))), (2, Ty::Deleg(Box::new(E2::ty())))], None) }
    fn gen(n: usize) -> Self { if bools() { Ok(T::gen(n)) } else { Err(E2::gen(n)) } }
    fn v(&self) -> V { match *self { Ok(ref t) => V::E(1, Box::new(t.v())), Err(ref e) => V::E(2, Box::new(e.v())) } }
}

// ---- user-defined types ---------------------------------------------------

#[derive(Clone, PartialEq, Eq)]
pub struct P { pub a: u32, pub b: Option<u8>, pub c: Vec<i16> }
fourleaf_retrofit!(struct P : {} {} {
    |_context, this|
    [1] a: u32 = this.a,
    [2] b: Option<u8> = this.b,
    [3] c: Vec<i16> = &this.c,
    { Ok(P { a: a, b: b, c: c }) }
});
impl Tv for P {
    fn ty() -> Ty { Ty::Struct(vec![(1, u32::ty()), (2, Option::<u8>::ty()), (3, Vec::<i16>::ty())], false) }
    fn gen(n: usize) -> Self { P { a: Tv::gen(n), b: Tv::gen(n), c: Tv::gen(n) } }
    fn v(&self) -> V { V::L(vec![self.a.v(), self.b.v(), self.c.v()]) }
}

/// Keeps unknown fields.
#[derive(Clone, PartialEq, Eq)]
pub struct Q<'a> { pub name: Cow<'a, str>, pub id: u64, pub rest: UnknownFields<'a> }
fourleaf_retrofit!(struct Q<'a> : {
    impl<'a> fourleaf::Serialize for Q<'a>
} {
    impl<'a, R : ::std::io::Read, STYLE> fourleaf::Deserialize<R, STYLE> for Q<'a>
    where Cow<'a, str> : fourleaf::Deserialize<R, STYLE>, UnknownFields<'a> : fourleaf::Deserialize<R, STYLE, Accum = UnknownFields<'a>>
} {
    |_context, this|
    [2] name: Cow<'a, str> = &this.name,
    [63] id: u64 = this.id,
    (?) rest: UnknownFields<'a> = &this.rest,
    { Ok(Q { name: name, id: id, rest: rest }) }
});
impl<'a> Tv for Q<'a> {
    fn ty() -> Ty { Ty::Struct(vec![(2, Ty::StrRef), (63, u64::ty())], true) }
    fn gen(n: usize) -> Self {
        let q = Q { name: Tv::gen(n), id: u16s() as u64, rest: UnknownFields::gen(n) };
        for f in &q.rest.0 { assume(f.0 != 2 && f.0 != 63) }
        q
    }
    fn v(&self) -> V { V::L(vec![self.name.v(), self.id.v(), self.rest.v()]) }
}

/// Variants of every kind, and no catch-all.
#[derive(Clone, PartialEq, Eq)]
pub enum N { Zero, One { x: u16, y: Vec<u8> }, Big(P), Nest(Vec<N>) }
fourleaf_retrofit!(enum N : {} {} {
    |_context|
    [0] N::Zero => { { Ok(N::Zero) } },
    [1] N::One { x, ref y } => {
        [1] x: u16 = x,
        [2] y: Vec<u8> = y,
        { Ok(N::One { x: x, y: y }) }
    },
    [0x1_0000_0001] N::Big(ref p) => {
        (*) p: P = p,
        { Ok(N::Big(p)) }
    },
    [2] N::Nest(ref l) => {
        [1] l: Vec<N> = l,
        { Ok(N::Nest(l)) }
    },
});
impl Tv for N {
    fn ty() -> Ty {
        Ty::Enum(vec![
            (0, Ty::Struct(vec![], false)),
            (1, Ty::Struct(vec![(1, u16::ty()), (2, Ty::Bytes)], false)),
            (0x1_0000_0001, Ty::Deleg(Box::new(P::ty()))),
            (2, Ty::Struct(vec![(1, Ty::Seq(Box::new(Ty::Rec(N::ty))))], false)),
        ], None)
    }
    fn gen(n: usize) -> Self {
        match choose(if n > 0 { 4 } else { 3 }) {
            0 => N::Zero,
            1 => N::One { x: Tv::gen(n), y: Tv::gen(n) },
            2 => N::Big(Tv::gen(n)),
            _ => N::Nest({ let k = choose(3); (0..k).map(|_| N::gen(n - 1)).collect() }),
        }
    }
    fn v(&self) -> V {
        match *self {
            N::Zero => V::E(0, Box::new(V::L(vec![]))),
            N::One { ref x, ref y } => V::E(1, Box::new(V::L(vec![x.v(), y.v()]))),
            N::Big(ref p) => V::E(0x1_0000_0001, Box::new(p.v())),
            N::Nest(ref l) => V::E(2, Box::new(V::L(vec![l.v()]))),
        }
    }
}
/// With a catch-all that keeps what it does not know.
#[derive(Clone, PartialEq, Eq)]
pub enum C { One(u32), Other(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum C : {} {} {
    |_context|
    [1] C::One(x) => {
        [1] x: u32 = x,
        { Ok(C::One(x)) }
    },
    (?) C::Other(d, ref f) => {
        (=) d: u64 = d,
        (?) f: fourleaf::adapt::Copied<UnknownFields<'static>> = f,
        { Ok(C::Other(d, f.0)) }
    },
});
impl Tv for C {
    fn ty() -> Ty {
        Ty::Enum(vec![(1, Ty::Struct(vec![(1, u32::ty())], false))], Some(Box::new(Ty::Struct(vec![], true))))
    }
    fn gen(n: usize) -> Self {
        if bools() { C::One(u32s()) } else { let d = u64s(); assume(d != 1); C::Other(d, Tv::gen(n)) }
    }
    fn v(&self) -> V {
        match *self {
            C::One(ref x) => V::E(1, Box::new(V::L(vec![x.v()]))),
            C::Other(d, ref f) => V::E(d, Box::new(V::L(vec![f.v()]))),
        }
    }
}
/// Recursive.
#[derive(Clone, PartialEq, Eq)]
pub struct Tree { pub x: u8, pub kids: Vec<Tree>, pub next: Option<Box<Tree>> }
fourleaf_retrofit!(struct Tree : {} {} {
    |_context, this|
    [1] x: u8 = this.x,
    [2] kids: Vec<Tree> = &this.kids,
    [3] next: Option<Box<Tree>> = &this.next,
    { Ok(Tree { x: x, kids: kids, next: next }) }
});
impl Tv for Tree {
    fn ty() -> Ty {
        Ty::Struct(vec![(1, u8::ty()), (2, Ty::Seq(Box::new(Ty::Rec(Tree::ty)))), (3, Ty::Opt(Box::new(Ty::Rec(Tree::ty))))], false)
    }
    fn gen(n: usize) -> Self {
        Tree { x: u8s(), kids: if n > 0 { let k = choose(2); (0..k).map(|_| Tree::gen(n - 1)).collect() } else { vec![] },
               next: if n > 0 && bools() { Some(Box::new(Tree::gen(n - 1))) } else { None } }
    }
    fn v(&self) -> V { V::L(vec![self.x.v(), self.kids.v(), match self.next { Some(ref t) => V::L(vec![t.v()]), None => V::L(vec![]) }]) }
}
/// Delegates its representation.
#[derive(Clone, PartialEq, Eq)]
pub struct W<T>(pub T);
fourleaf_retrofit!(struct W<T> : {
    impl<T : fourleaf::Serialize> fourleaf::Serialize for W<T>
} {
    impl<R : ::std::io::Read, STYLE, T : fourleaf::Deserialize<R, STYLE>> fourleaf::Deserialize<R, STYLE> for W<T>
} {
    |_context, this|
    (*) inner: T = &this.0,
    { Ok(W(inner)) }
});
impl<T: Tv> Tv for W<T> {
    fn ty() -> Ty { Ty::Deleg(Box::new(T::ty())) }
    fn gen(n: usize) -> Self { W(T::gen(n)) }
    fn v(&self) -> V { self.0.v() }
}

/// The tags and discriminants a type knows, each once.
pub fn known(t: &Ty, tags: &mut Vec<u8>, discs: &mut Vec<u64>, depth: u32) {
    if depth == 0 { return }
    let mut tag = |x: u8| if !tags.contains(&x) { tags.push(x) };
    match *t {
        Ty::Struct(ref fs, _) => {
            for f in fs { tag(f.0) }
            for f in fs { known(&f.1, tags, discs, depth - 1) }
        }
        Ty::Enum(ref vs, ref c) => {
            tag(1);
            for v in vs {
                if !discs.contains(&v.0) { discs.push(v.0) }
                known(&v.1, tags, discs, depth - 1);
            }
            if let Some(ref c) = *c { known(c, tags, discs, depth - 1) }
        }
        Ty::Opt(ref e) | Ty::Seq(ref e) | Ty::Set(ref e) | Ty::Heap(ref e) | Ty::Arr(ref e, _) => { tag(1); known(e, tags, discs, depth - 1) }
        Ty::Map(ref k, ref e) => { tag(1); tag(2); known(k, tags, discs, depth - 1); known(e, tags, discs, depth - 1) }
        Ty::Deleg(ref e) | Ty::Own(ref e) | Ty::With(ref e, _) => known(e, tags, discs, depth),
        Ty::Rec(f) => known(&f(), tags, discs, depth - 1),
        Ty::Any | Ty::Anys => { tag(1); tag(63) }
        _ => tag(1),
    }
}

/// Runs `$f::<T>()` for the `param(0)`th type.
macro_rules! pick {
    ($f:ident; $([$g:literal] $($i:literal $t:ty;)*)*) => { match param(0) { $($(#[cfg(feature = $g)] $i => $f::<$t>(),)*)* _ => fail("harness: no such type") } }
}
/// The types that can be decoded from any reader, in groups.
macro_rules! pick_owned {
    ($f:ident) => { pick! { $f;
        ["ga"] 0 u8; 1 u16; 2 u32; 3 u64; 4 usize; 5 i8; 6 i16; 7 i32; 8 i64; 9 isize;
        10 bool; 11 char; 12 std::marker::PhantomData<u8>; 13 (); 14 String;
        15 Vec<u8>; 16 [u8; 4]; 17 [u8; 0]; 18 [u8; 32]; 19 [u8; 64];
        ["gb"] 20 Option<u32>; 21 Option<Option<u8>>; 22 Vec<u16>; 23 Vec<Vec<u8>>; 24 Vec<Vec<u16>>;
        25 Vec<Option<bool>>; 26 [u16; 2]; 27 [u16; 0]; 28 [u16; 64]; 29 std::collections::VecDeque<u16>;
        30 std::collections::LinkedList<u8>; 31 std::collections::BTreeSet<u8>; 32 std::collections::BinaryHeap<u8>;
        33 std::collections::HashSet<u8, Flat>; 34 std::collections::BTreeMap<u8, u16>;
        35 std::collections::HashMap<u8, bool, Flat>; 36 Vec<()>; 37 [[u8; 2]; 2]; 38 std::collections::BTreeMap<u8, Vec<bool>>;
        ["gt"] 40 (u8,); 41 (u8, String); 42 (bool, Option<u8>, Vec<u16>);
        43 (bool, bool, bool, bool); 44 (bool, bool, bool, bool, bool);
        45 (bool, bool, bool, bool, bool, bool); 46 (bool, bool, bool, bool, bool, bool, bool);
        47 (bool, bool, bool, bool, bool, bool, bool, bool);
        48 (bool, bool, bool, bool, bool, bool, bool, bool, bool);
        49 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        50 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        51 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        52 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        53 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        54 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        55 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        56 ([u8; 1], Vec<u8>); 57 ([u8; 0], Option<[u8; 1]>);
        ["gw"] 60 Box<u16>; 61 std::rc::Rc<Vec<u8>>; 62 std::sync::Arc<String>;
        63 std::borrow::Cow<'static, str>; 64 std::borrow::Cow<'static, [u8]>; 65 fourleaf::adapt::Copied<Vec<u16>>;
        66 W<u32>; 67 W<P>; 68 W<W<Vec<u16>>>; 69 W<N>; 70 (W<Vec<u8>>, Option<W<u8>>); 71 Option<Box<P>>;
        100 Vec<Box<Vec<u16>>>; 101 [std::sync::Arc<Vec<u16>>; 1]; 102 Vec<W<Vec<u8>>>;
        103 Option<fourleaf::adapt::Copied<Vec<u16>>>; 104 Vec<std::rc::Rc<Option<u8>>>; 105 Vec<std::borrow::Cow<'static, [u8]>>;
        106 W<Box<P>>; 107 W<std::rc::Rc<(u8, Option<u8>)>>; 108 Result<std::sync::Arc<P>, fourleaf::adapt::Copied<Vec<u16>>>;
        109 (Result<std::borrow::Cow<'static, str>, Box<Vec<Box<u8>>>>,);
        ["gk"] 72 fourleaf::UnknownFields<'static>; 73 fourleaf::unknown::UnknownField<'static>; 74 Q<'static>; 75 C;
        ["gs"] 80 std::net::Ipv4Addr; 81 std::net::Ipv6Addr; 82 std::net::IpAddr; 83 std::net::SocketAddrV4;
        84 std::net::SocketAddrV6; 85 std::net::SocketAddr; 86 std::time::Duration; 87 Result<u8, String>;
        88 Result<(), u8>; 89 Result<P, N>;
        ["gu"] 90 P; 91 N; 92 Tree; 93 [Option<P>; 2]; 94 Vec<P>; 95 Option<N>; 96 std::collections::BTreeMap<u8, P>; 97 Vec<C>; 98 Q<'static>; 99 C;
    } }
}
