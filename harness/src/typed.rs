//! Schema evolution, borrowed values, transports and error locations.
use crate::de::{agree_with, config, doc};
use crate::model::*;
use crate::schema::*;
use crate::ser::{image, strict};
use crate::sym::*;
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;
use fourleaf::unknown::{UnknownField, UnknownFields};
use fourleaf::Serialize;
use std::borrow::Cow;
use std::collections::*;
use std::io::{self, Read, Write};

pub const TABLE: &[(&str, extern "C" fn())] = table![d_evolve, d_fields, d_variants, d_edit, d_keep, d_borrow, d_seq, d_reader, d_fault, d_text, d_sink];

type Buf = TransparentCursor<&'static [u8]>;
fn leak(b: Vec<u8>) -> &'static [u8] {
    Box::leak(b.into_boxed_slice())
}
fn made<T: Serialize>(v: T) -> &'static [u8] {
    match fourleaf::to_vec(v) { Ok(b) => leak(b), Err(_) => fail("serialisation failed") }
}

// ---- one field changes its type -------------------------------------------

/// What was written as `A` is read as `B`: `f` of the value, or an error.
fn evo<A, B>(f: fn(V) -> Option<V>) where A: Tv + Serialize, B: Tv + Deserialize<Buf, style::Copying> {
    let (a, x) = (A::gen(param(1)), u8s());
    let want = f(a.v());
    let b = made((x, a, x));
    out(b);
    match (de::from_slice_copy::<(u8, B, u8)>(b, &strict()), want) {
        (Ok(r), Some(w)) => {
            cover(1);
            check(r.v() == V::L(vec![x.v(), w, x.v()]), "value changes under a compatible change of type")
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => fail("unrepresentable value accepted"),
        (Err(_), Some(_)) => fail("compatible change of type rejected"),
    }
}
fn same_(v: V) -> Option<V> { Some(v) }
fn one(v: V) -> Option<V> { Some(V::L(vec![v])) }
fn below(v: V, n: u64) -> Option<V> { match v { V::N(x) if x >= n => None, v => Some(v) } }
fn to8(v: V) -> Option<V> { below(v, 1 << 8) }
fn to32(v: V) -> Option<V> { below(v, 1 << 32) }
fn to1(v: V) -> Option<V> { below(v, 2) }
fn atmost(v: V, n: usize) -> Option<V> { match v { V::L(ref l) if l.len() > n => None, _ => Some(v) } }
fn upto1(v: V) -> Option<V> { atmost(v, 1) }
fn single(v: V) -> Option<V> { match v { V::L(ref l) if l.len() == 1 => Some(l[0].clone()), _ => None } }
fn exactly2(v: V) -> Option<V> { match v { V::L(ref l) if l.len() == 2 => Some(v), _ => None } }
fn four(v: V) -> Option<V> { match v { V::B(ref l) if l.len() == 4 => Some(v), _ => None } }
fn utf8(v: V) -> Option<V> { match v { V::B(ref l) if std::str::from_utf8(l).is_ok() => Some(v), _ => None } }
fn set(v: V) -> Option<V> {
    let s: BTreeSet<u64> = match v { V::L(l) => l.iter().map(|x| match *x { V::N(n) => n, _ => 0 }).collect(), _ => return None };
    Some(V::L(s.into_iter().map(V::N).collect()))
}

// ---- a structure or an enum changes ---------------------------------------

macro_rules! st {
    ($n:ident { $($tag:tt $f:ident : $t:ty),* }) => {
        pub struct $n { $(pub $f: $t),* }
        fourleaf_retrofit!(struct $n : {} {} { |_context, this| $([$tag] $f: $t = &this.$f,)* { Ok($n { $($f: $f),* }) } });
        impl Tv for $n {
            fn ty() -> Ty { Ty::Struct(vec![$(($tag, <$t>::ty())),*], false) }
            fn gen(n: usize) -> Self { $n { $($f: Tv::gen(n)),* } }
            fn v(&self) -> V { V::L(vec![$(self.$f.v()),*]) }
        }
    }
}
st! { S1 { 1 a: u16, 3 c: Vec<u16> } }
// adds fields, with tags in any position
st! { S2 { 1 a: u32, 2 b: Option<String>, 3 c: Vec<u16>, 4 d: BTreeMap<u8, u16>, 62 e: Vec<S1> } }

pub enum E1 { A, B(u16) }
fourleaf_retrofit!(enum E1 : {} {} {
    |_context|
    [0] E1::A => { { Ok(E1::A) } },
    [7] E1::B(x) => { [1] x: u16 = x, { Ok(E1::B(x)) } },
});
impl Tv for E1 {
    fn ty() -> Ty { Ty::Enum(vec![(0, Ty::Struct(vec![], false)), (7, Ty::Struct(vec![(1, u16::ty())], false))], None) }
    fn gen(_: usize) -> Self { if bools() { E1::A } else { E1::B(u16s()) } }
    fn v(&self) -> V { match *self { E1::A => V::E(0, Box::new(V::L(vec![]))), E1::B(x) => V::E(7, Box::new(V::L(vec![x.v()]))) } }
}
/// Shares its low half with another.
const CD: u64 = 0x8000_0000_0007;
/// A later version: one more variant, one more field.
pub enum E2 { A, B(u32, Option<u8>), C(S1), D { x: u8, y: Vec<u16> } }
fourleaf_retrofit!(enum E2 : {} {} {
    |_context|
    [0] E2::A => { { Ok(E2::A) } },
    [0x8000_0000_0007] E2::C(ref s) => { (*) s: S1 = s, { Ok(E2::C(s)) } },
    [7] E2::B(x, y) => { [1] x: u32 = x, [2] y: Option<u8> = y, { Ok(E2::B(x, y)) } },
    [5] E2::D { x, ref y } => { [5] x: u8 = x, [6] y: Vec<u16> = y, { Ok(E2::D { x: x, y: y }) } },
});
impl Tv for E2 {
    fn ty() -> Ty {
        Ty::Enum(vec![(0, Ty::Struct(vec![], false)), (7, Ty::Struct(vec![(1, u32::ty()), (2, Option::<u8>::ty())], false)),
            (CD, Ty::Deleg(Box::new(S1::ty()))), (5, Ty::Struct(vec![(5, u8::ty()), (6, Vec::<u16>::ty())], false))], None)
    }
    fn gen(n: usize) -> Self {
        match choose(4) { 0 => E2::A, 1 => E2::B(u32s(), Tv::gen(n)), 2 => E2::C(Tv::gen(n)), _ => E2::D { x: u8s(), y: Tv::gen(n) } }
    }
    fn v(&self) -> V {
        match *self {
            E2::A => V::E(0, Box::new(V::L(vec![]))),
            E2::B(x, ref y) => V::E(7, Box::new(V::L(vec![x.v(), y.v()]))),
            E2::C(ref s) => V::E(CD, Box::new(s.v())),
            E2::D { ref x, ref y } => V::E(5, Box::new(V::L(vec![x.v(), y.v()]))),
        }
    }
}

/// Old software: keeps what it does not know.
pub struct M1 { pub id: u16, pub op: Op1, pub rest: UnknownFields<'static> }
pub enum Op1 { A, Other(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum Op1 : {} {} {
    |_context|
    [1] Op1::A => { { Ok(Op1::A) } },
    (?) Op1::Other(d, ref f) => {
        (=) d: u64 = d,
        (?) f: Copied<UnknownFields<'static>> = f,
        { Ok(Op1::Other(d, f.0)) }
    }
});
fourleaf_retrofit!(struct M1 : {} {} {
    |_context, this|
    [2] id: u16 = this.id,
    [4] op: Op1 = &this.op,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(M1 { id: id, op: op, rest: rest.0 }) }
});
/// In a field old software does not know at all.
pub enum E3 { A, B(bool) }
fourleaf_retrofit!(enum E3 : {} {} {
    |_context|
    [7] E3::A => { { Ok(E3::A) } },
    [0x8000_0000_0007] E3::B(x) => { [9] x: bool = x, { Ok(E3::B(x)) } },
});
impl Tv for E3 {
    fn ty() -> Ty { Ty::Enum(vec![(7, Ty::Struct(vec![], false)), (CD, Ty::Struct(vec![(9, bool::ty())], false))], None) }
    fn gen(_: usize) -> Self { if bools() { E3::A } else { E3::B(bools()) } }
    fn v(&self) -> V { match *self { E3::A => V::E(7, Box::new(V::L(vec![]))), E3::B(x) => V::E(CD, Box::new(V::L(vec![x.v()]))) } }
}
st! { M2 { 1 flag: bool, 2 id: u16, 3 list: Vec<u8>, 4 op: E2, 5 more: E3, 63 sub: Option<S1> } }

// ---- borrowed values ------------------------------------------------------

/// Where the borrowed parts of a value are.
trait Parts { fn parts(&self, _: &mut Vec<(usize, usize)>) {} }
impl<'a> Parts for &'a [u8] { fn parts(&self, o: &mut Vec<(usize, usize)>) { o.push((self.as_ptr() as usize, self.len())) } }
impl<'a> Parts for &'a str { fn parts(&self, o: &mut Vec<(usize, usize)>) { o.push((self.as_ptr() as usize, self.len())) } }
impl<'a> Parts for Cow<'a, [u8]> { fn parts(&self, o: &mut Vec<(usize, usize)>) { o.push((self.as_ptr() as usize, self.len())) } }
impl<'a> Parts for Cow<'a, str> { fn parts(&self, o: &mut Vec<(usize, usize)>) { o.push((self.as_ptr() as usize, self.len())) } }
impl Parts for u8 {}
impl Parts for String {}
impl Parts for Vec<u8> {}
impl<T: Parts> Parts for Option<T> { fn parts(&self, o: &mut Vec<(usize, usize)>) { for x in self { x.parts(o) } } }
impl<T: Parts> Parts for VecDeque<T> { fn parts(&self, o: &mut Vec<(usize, usize)>) { for x in self { x.parts(o) } } }
impl<A: Parts, B: Parts> Parts for (A, B) { fn parts(&self, o: &mut Vec<(usize, usize)>) { self.0.parts(o); self.1.parts(o) } }
impl<'a> Parts for UnknownField<'a> {
    fn parts(&self, o: &mut Vec<(usize, usize)>) {
        match *self {
            UnknownField::Blob(ref b) => b.parts(o),
            UnknownField::Struct(ref s) | UnknownField::Enum(_, ref s) => s.parts(o),
            UnknownField::Integer(_) => (),
        }
    }
}
impl<'a> Parts for UnknownFields<'a> { fn parts(&self, o: &mut Vec<(usize, usize)>) { for x in &self.0 { x.1.parts(o) } } }
impl<'a> Parts for Q<'a> { fn parts(&self, o: &mut Vec<(usize, usize)>) { self.name.parts(o); self.rest.parts(o) } }
impl<T> Parts for Copied<T> {}

fn borrow<T: Tv + Parts + Deserialize<Buf, style::ZeroCopy>>() {
    let b = leak(match param(1) { 0 => bytes(param(2)), _ => doc::<T>(param(2), param(3)) });
    let mut c = config();
    c.max_blob = param(4);
    let mut s = Stream::from_slice(b);
    let r = de::from_stream_borrow::<_, T>(&mut s, &c);
    match (&r, de::from_slice_borrow::<T>(b, &c)) {
        (Ok(x), Ok(ref y)) => check(x.v() == y.v(), "from_slice_borrow differs from from_stream_borrow"),
        (Err(x), Err(ref y)) => check(kind(x) == kind(y), "from_slice_borrow differs from from_stream_borrow"),
        _ => fail("from_slice_borrow differs from from_stream_borrow"),
    }
    if let Ok(ref v) = r {
        let mut p = Vec::new();
        v.parts(&mut p);
        let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
        for (at, n) in p { check(at >= lo && at + n <= hi, "borrowed value lies outside the input") }
    }
    let mut m = Cx::new(b, &c);
    m.borrow = true;
    agree_with(r, &s, &mut m);
}

// ---- transports -----------------------------------------------------------

fn reader<T: Tv + Deserialize<Dev, style::Copying>>() {
    let b = match param(1) { 0 => bytes(param(2)), m => doc::<T>(param(2), m & 8) };
    let c = config();
    let d = Dev::new(&b, 4, 1);
    let mut s = Stream::new(d);
    let r = de::from_stream_copy::<_, T>(&mut s, &c);
    let ok = r.is_ok();
    agree_with(r, &s, &mut Cx::new(&b, &c));
    if ok { check(d.pos() as u64 == s.pos(), "reader position after the value") }
}
fn fault<T: Tv + Deserialize<Failing<'static>, style::Copying>>() {
    let b = leak(doc::<T>(param(1), param(3)));
    let at = choose(param(2)) as u32;
    let kind = any_kind();
    // (told apart from the library's own errors)
    assume(kind != io::ErrorKind::Other && kind != io::ErrorKind::UnexpectedEof);
    let c = config();
    let mut s = Stream::new(Failing { b, pos: 0, at, kind, failed: false });
    let r = de::from_stream_copy::<_, T>(&mut s, &c);
    let failed = {
        let whole = Cx::new(b, &c).body(&T::ty());
        match (&r, whole) {
            (Ok(v), Ok(ref w)) => { cover(1); check(v.v() == *w, "decoded value"); false }
            (Ok(_), Err(_)) => fail("malformed document accepted from a failing reader"),
            (Err(e), w) => match kind_of(e) {
                Some(k) => { cover(2); check(k == kind, "different I/O error"); true }
                None => match w { Ok(_) => fail("I/O error turned into another"), Err(w) => { 
                    let k = crate::schema::kind(e);
                    check(k == w.0 || Some(k) == w.1, "different error");
                    // (a repeated field may be read before it is refused)
                    if k == K::Many { return }
                    false
                } },
            },
        }
    };
    check(failed == s.into_inner().failed, "I/O error lost");
}
fn kind_of(e: &de::Error) -> Option<io::ErrorKind> {
    match crate::schema::kind(e) { K::S(E::Io(k)) => Some(k), _ => None }
}
/// A sink that takes what it likes and may fail.
pub struct Sink { got: Vec<u8>, left: usize, failed: bool, intr: u32, kind: io::ErrorKind }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.intr > 0 && bools() {
            self.intr -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() { return Ok(0) }
        if self.left == 0 { self.failed = true; return Err(self.kind.into()) }
        let m = if b.len() < self.left { b.len() } else { self.left };
        let n = 1 + choose(if m < 3 { m } else { 3 });
        let n = if n > m { m } else { n };
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn sink<T: Tv + Serialize>() {
    let v = T::gen(param(1));
    let b = made(&v);
    let mut k = Sink { got: Vec::new(), left: choose(b.len() + 2), failed: false, intr: 1, kind: any_kind() };
    match fourleaf::to_writer(&mut k, &v) {
        Ok(()) => { cover(1); check(!k.failed && k.got == b, "to_writer lost data") }
        Err(e) => { cover(2); check(k.failed && io_kind(&e) == Some(k.kind), "to_writer fails without cause") }
    }
    check(k.got.len() <= b.len() && k.got[..] == b[..k.got.len()], "to_writer wrote something else");
}
/// Several values one after the other, and an end of document.
fn seq<T: Tv + Serialize + Deserialize<Buf, style::Copying> + Deserialize<Dev, style::Copying>>() {
    let (v, x, u) = (T::gen(param(1)), u8s(), T::gen(param(1)));
    let mut b = Vec::new();
    let mut s = Stream::new(Vec::new());
    check(fourleaf::to_stream(&mut s, &v).is_ok(), "to_stream failed");
    check(fourleaf::to_stream(&mut s, (x,)).is_ok(), "to_stream failed");
    check(fourleaf::to_stream(&mut s, &u).is_ok(), "to_stream failed");
    check(fourleaf::to_writer(&mut b, &v).is_ok(), "to_writer failed");
    check(fourleaf::to_writer(&mut b, (x,)).is_ok(), "to_writer failed");
    check(fourleaf::to_writer(&mut b, &u).is_ok(), "to_writer failed");
    check(s.into_inner() == b, "sequential to_stream differs from to_writer");
    out(&b);
    let c = strict();
    let b = leak(b);
    if param(2) == 0 {
        let mut s = Stream::from_slice(b);
        check(image::<T>(de::from_stream_copy(&mut s, &c)) == v.v(), "first of several values");
        check(image::<(u8,)>(de::from_stream_copy(&mut s, &c)) == (x,).v(), "second of several values");
        check(image::<T>(de::from_stream_copy(&mut s, &c)) == u.v(), "third of several values");
        check(s.pos() == b.len() as u64, "position after the last value");
    } else {
        let r = Dev::new(b, 2, 1);
        check(image::<T>(de::from_reader::<_, T>(r, &c)) == v.v(), "first of several values");
        check(image::<(u8,)>(de::from_reader::<_, (u8,)>(r, &c)) == (x,).v(), "second of several values");
        check(image::<T>(de::from_reader::<_, T>(r, &c)) == u.v(), "third of several values");
        check(r.pos() == b.len(), "reader position after the last value");
    }
    cover(1);
}

// ---- error locations ------------------------------------------------------

st! { L1 { 1 num: u8, 2 sub: Option<L2>, 3 many: Vec<L2> } }
st! { L2 { 1 inner: u8, 2 pair: Option<(u8, bool)> } }
pub struct L3 { num: u8, op: L4, rest: UnknownFields<'static> }
fourleaf_retrofit!(struct L3 : {} {} {
    |_context, this|
    [1] num: u8 = this.num,
    [3] op: L4 = &this.op,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(L3 { num: num, op: op, rest: rest.0 }) }
});
impl Tv for L3 {
    fn ty() -> Ty { Ty::Struct(vec![(1, u8::ty()), (3, L4::ty())], true) }
    fn gen(_: usize) -> Self { fail("harness: not made") }
    fn v(&self) -> V { V::L(vec![self.num.v(), self.op.v(), self.rest.v()]) }
}
pub enum L4 { A { x: u8, y: Vec<u16> }, B(L2) }
fourleaf_retrofit!(enum L4 : {} {} {
    |_context|
    [2] L4::A { x, ref y } => { [1] x: u8 = x, [5] y: Vec<u16> = y, { Ok(L4::A { x: x, y: y }) } },
    [4] L4::B(ref b) => { (*) whole: L2 = b, { Ok(L4::B(whole)) } },
});
impl Tv for L4 {
    fn ty() -> Ty {
        Ty::Enum(vec![(2, Ty::Struct(vec![(1, u8::ty()), (5, Vec::<u16>::ty())], false)), (4, Ty::Deleg(Box::new(L2::ty())))], None)
    }
    fn gen(_: usize) -> Self { fail("harness: not made") }
    fn v(&self) -> V {
        match *self {
            L4::A { ref x, ref y } => V::E(2, Box::new(V::L(vec![x.v(), y.v()]))),
            L4::B(ref b) => V::E(4, Box::new(b.v())),
        }
    }
}
st! { L5 { 2 map: BTreeMap<u8, L6> } }
/// Just an `L2`.
pub struct L6 { held: L2 }
fourleaf_retrofit!(struct L6 : {} {} { |_context, this| (*) held: L2 = &this.held, { Ok(L6 { held: held }) } });
impl Tv for L6 {
    fn ty() -> Ty { Ty::Deleg(Box::new(L2::ty())) }
    fn gen(_: usize) -> Self { fail("harness: not made") }
    fn v(&self) -> V { self.held.v() }
}

harness! {
    fn d_evolve() {
        match param(0) {
            0 => evo::<u8, u16>(same_),
            1 => evo::<u16, u32>(same_),
            2 => evo::<u32, u64>(same_),
            3 => evo::<u32, usize>(same_),
            4 => evo::<i8, i16>(same_),
            5 => evo::<i16, i64>(same_),
            6 => evo::<i32, isize>(same_),
            7 => evo::<bool, u8>(same_),
            8 => evo::<u64, u8>(to8),
            9 => evo::<u64, u32>(to32),
            // ZigZag keeps small numbers small
            10 => evo::<i16, i8>(to8),
            11 => evo::<i64, i32>(to32),
            12 => evo::<u16, bool>(to1),
            13 => evo::<u16, Option<u16>>(one),
            14 => evo::<u16, Vec<u16>>(one),
            15 => evo::<u16, [u16; 1]>(one),
            16 => evo::<u16, VecDeque<u16>>(one),
            17 => evo::<u8, BTreeSet<u8>>(one),
            18 => evo::<String, Vec<String>>(one),
            19 => evo::<S1, Option<S1>>(one),
            20 => evo::<E1, Vec<E1>>(one),
            21 => evo::<Option<u16>, Vec<u16>>(same_),
            22 => evo::<[u16; 2], Vec<u16>>(same_),
            23 => evo::<Vec<u16>, Option<u16>>(upto1),
            24 => evo::<Vec<u16>, u16>(single),
            25 => evo::<Vec<u16>, [u16; 2]>(exactly2),
            26 => evo::<Vec<u16>, LinkedList<u16>>(same_),
            27 => evo::<Vec<u16>, BTreeSet<u16>>(set),
            28 => evo::<BTreeSet<u8>, Vec<u8x>>(same_),
            29 => evo::<BTreeMap<u8, u16>, Vec<(u8, u16)>>(same_),
            30 => evo::<Option<(u8, u16)>, BTreeMap<u8, u16>>(same_),
            31 => evo::<String, Vec<u8>>(same_),
            32 => evo::<Vec<u8>, String>(utf8),
            33 => evo::<Vec<u8>, [u8; 4]>(four),
            34 => evo::<[u8; 4], Vec<u8>>(same_),
            35 => evo::<(u8, Vec<u16>), (u16, VecDeque<u16>)>(same_),
            36 => evo::<u16, Box<u16>>(same_),
            37 => evo::<Vec<(u8, u16)>, Vec<(u16, Option<u16>)>>(|v| match v {
                V::L(l) => Some(V::L(l.into_iter().map(|p| match p { V::L(q) => V::L(vec![q[0].clone(), V::L(vec![q[1].clone()])]), x => x }).collect())),
                _ => None,
            }),
            _ => fail("harness: pair"),
        }
    }
    // Fields are added and deleted.
    fn d_fields() {
        let n = param(0);
        match param(1) {
            // old data, new software; anywhere the structure may be
            0 => {
                let a = S1::gen(n);
                let want = V::L(vec![a.a.v(), V::L(vec![]), a.c.v(), V::L(vec![]), V::L(vec![])]);
                check(image::<S2>(de::from_slice_copy(made(&a), &strict())) == want, "added fields");
                let b = made((1u8, &a, vec![&a]));
                check(image::<(u8, S2, Vec<S2>)>(de::from_slice_copy(b, &strict())) == V::L(vec![V::N(1), want.clone(), V::L(vec![want])]), "added fields, nested");
                cover(1);
            }
            // new data, old software
            1 => {
                let a = S2::gen(n);
                assume(a.a < 0x10000);
                for x in &a.e { small(x) }
                for x in a.d.values() { assume(*x < 128) }
                let want = V::L(vec![a.a.v(), a.c.v()]);
                let same = a.b.is_none() && a.d.is_empty() && a.e.is_empty();
                let b = made(&a);
                check(image::<S1>(de::from_slice_copy(b, &Config::default())) == want, "deleted fields");
                check(de::from_slice_copy::<S1>(b, &strict()).is_ok() == same, "unknown fields are accepted exactly if there are none");
                let b = made((1u8, &a, 2u8));
                check(image::<(u8, S1, u8)>(de::from_slice_copy(b, &Config::default())) == V::L(vec![V::N(1), want, V::N(2)]), "deleted fields, nested");
                cover(1);
                if !same { cover(2) }
            }
            // tuples grow
            2 => {
                let a = (u8s(), Vec::<u16>::gen(n));
                let b = made(&a);
                check(image::<(u8, Vec<u16>, Option<bool>, Vec<u16>)>(de::from_slice_copy(b, &strict()))
                    == V::L(vec![a.0.v(), a.1.v(), V::L(vec![]), V::L(vec![])]), "tuple grows");
                check(image::<(u8,)>(de::from_slice_copy(b, &Config::default())) == V::L(vec![a.0.v()]), "tuple shrinks");
                cover(1);
            }
            _ => fail("harness: mode"),
        }
    }
    fn d_variants() {
        if param(0) == 0 {
            let a = E1::gen(1);
            let want = match a { E1::A => a.v(), E1::B(x) => V::E(7, Box::new(V::L(vec![x.v(), V::L(vec![])]))) };
            check(image::<E2>(de::from_slice_copy(made(&a), &strict())) == want, "added variants");
            check(image::<(bool, E2)>(de::from_slice_copy(made((true, &a)), &strict())) == V::L(vec![V::N(1), want]), "added variants");
            cover(1);
        } else {
            let a = E2::gen(1);
            let b = made(&a);
            let r = de::from_slice_copy::<E1>(b, &Config::default());
            match a {
                E2::A => check(image(r) == a.v(), "kept variant"),
                E2::B(x, _) if x < 0x10000 => check(image(r) == V::E(7, Box::new(V::L(vec![x.v()]))), "kept variant"),
                E2::B(..) => check(r.is_err(), "value out of range accepted"),
                E2::C(_) => { cover(2); check(match r { Err(ref e) => kind(e) == K::UnkVar(CD), _ => false }, "unknown variant not reported") }
                E2::D { .. } => { cover(2); check(match r { Err(ref e) => kind(e) == K::UnkVar(5), _ => false }, "unknown variant not reported") }
            }
            cover(1);
        }
    }
    // Old software edits what new software wrote.
    fn d_edit() {
        let mut a = M2::gen(param(0));
        if let Some(ref x) = a.sub { small(x) }
        match a.op {
            E2::C(ref x) => small(x),
            E2::B(x, _) => assume(x < 128),
            E2::D { ref y, .. } => for x in y { assume(*x < 128) },
            E2::A => (),
        }
        let b = made(&a);
        let c = strict();
        let mut o = match de::from_slice_copy::<M1>(b, &c) { Ok(o) => o, Err(_) => fail("old software cannot read it") };
        check(o.id == a.id, "known field");
        match (&o.op, &a.op) {
            (Op1::A, _) => fail("unknown variant taken for a known one"),
            (Op1::Other(d, _), E2::A) => check(*d == 0, "discriminant"),
            (Op1::Other(d, _), E2::B(..)) => check(*d == 7, "discriminant"),
            (Op1::Other(d, _), E2::C(_)) => check(*d == CD, "discriminant"),
            (Op1::Other(d, _), E2::D { .. }) => { check(*d == 5, "discriminant"); a.op = E2::A; o.op = Op1::Other(0, Default::default()) }
        }
        a.id = u16s();
        o.id = a.id;
        let b = made(&o);
        out(b);
        check(image::<M2>(de::from_slice_copy(b, &c)) == a.v(), "something was lost in an edit by old software");
        cover(1);
    }
    // Whatever a document contains, nothing is lost by a type that keeps unknown fields.
    fn d_keep() {
        let b = leak(match param(0) { 0 => bytes(param(1)), m => doc::<UnknownFields>(param(1), m & 8) });
        let mut s = Stream::from_slice(b);
        if let Ok(u) = de::from_stream_copy::<_, UnknownFields<'static>>(&mut s, &strict()) {
            let e = made(&u);
            out(e);
            let end = s.pos() as usize;
            let (mut m, mut w) = (Model::new(&b[..end]), Model::new(e));
            // element for element the same
            loop {
                let (x, y) = (m.next_field(), w.next_field());
                match (x, y) {
                    (Ev::Blob(t, p, n), Ev::Blob(u, q, k)) => {
                        check(t == u && n == k, "blob changes");
                        check(m.b[p as usize..(p + n) as usize] == w.b[q as usize..(q + n) as usize], "blob changes");
                    }
                    (Ev::EndDoc, Ev::EndStruct) => (),
                    (x, y) => check(x == y, "something was lost"),
                }
                if w.pos as usize == e.len() { break }
                check((m.pos as usize) < end || m.eof, "something was added");
            }
            check(m.pos as usize == end, "something was lost");
            cover(1);
        }
    }
    fn d_borrow() {
        match param(0) {
            0 => borrow::<&'static [u8]>(),
            1 => borrow::<&'static str>(),
            2 => borrow::<Cow<'static, [u8]>>(),
            3 => borrow::<Cow<'static, str>>(),
            4 => borrow::<UnknownFields<'static>>(),
            5 => borrow::<Q<'static>>(),
            6 => borrow::<(&'static str, Vec<u8>)>(),
            7 => borrow::<VecDeque<&'static [u8]>>(),
            8 => borrow::<Option<&'static str>>(),
            9 => borrow::<(String, Cow<'static, [u8]>)>(),
            10 => borrow::<(Option<&'static [u8]>, UnknownField<'static>)>(),
            11 => borrow::<VecDeque<Copied<Kept>>>(),
            _ => fail("harness: type"),
        }
    }
    fn d_seq() {
        match param(0) {
            0 => seq::<u16>(),
            1 => seq::<Vec<u8>>(),
            2 => seq::<(bool, Option<u8>, Vec<u16>)>(),
            3 => seq::<UnknownFields<'static>>(),
            4 => seq::<E1>(),
            5 => seq::<S1>(),
            6 => seq::<W<Vec<u16>>>(),
            _ => fail("harness: type"),
        }
    }
    fn d_reader() {
        match param(0) {
            0 => reader::<u16>(),
            1 => reader::<Vec<u8>>(),
            2 => reader::<(bool, Option<u8>, Vec<u16>)>(),
            3 => reader::<UnknownFields<'static>>(),
            4 => reader::<E2>(),
            5 => reader::<(String, [u8; 2])>(),
            6 => reader::<[u8; 64]>(),
            _ => fail("harness: type"),
        }
    }
    fn d_fault() {
        match param(0) {
            0 => fault::<u16>(),
            1 => fault::<Vec<u8>>(),
            2 => fault::<(bool, Option<u8>, Vec<u16>)>(),
            3 => fault::<UnknownFields<'static>>(),
            4 => fault::<E2>(),
            5 => fault::<(String, [u8; 2])>(),
            _ => fail("harness: type"),
        }
    }
    fn d_sink() {
        match param(0) {
            0 => sink::<u16>(),
            1 => sink::<Vec<u8>>(),
            2 => sink::<(bool, Option<u8>, Vec<u16>)>(),
            3 => sink::<UnknownFields<'static>>(),
            4 => sink::<E2>(),
            5 => sink::<S1>(),
            _ => fail("harness: type"),
        }
    }
    // The location of an error names every enclosing field and its position.
    fn d_text() {
        fn go<T: crate::de::Own>(name: fn(&[(u8, u64)]) -> &'static str) {
            let b = leak(doc::<T>(param(0), param(1)));
            let c = config();
            let mut m = Cx::new(b, &c);
            // where the stream says it is to start with
            m.m.base = if param(3) == 0 { 0 } else { 0xff_ffff_fff8 };
            let want = m.body(&T::ty());
            let mut s = Stream::from_slice(b);
            s.set_pos(m.m.base);
            if let (Err(e), Err(w)) = (de::from_stream_copy::<_, T>(&mut s, &c), want) {
                if kind(&e) != w.0 { return }
                let s = e.to_string();
                // the fields, outermost first, each with where it is
                let mut at = match s.rfind(" at ") { Some(i) => i, None => fail("no location") };
                let depth = m.depth;
                for i in 0..depth {
                    at = after(&s, at, name(&m.path[..i + 1]));
                    at = after(&s, at, &m.path[i].1.to_string());
                }
                if let K::UnkField(_, pos) = w.0 { at = after(&s, at, &pos.to_string()) }
                if let K::UnkField(tag, _) = w.0 { after(&s, 0, &tag.to_string()); }
                cover(1);
                if depth > 2 { cover(2) }
            }
        }
        match param(2) {
            0 => go::<L1>(|p| match (p.len(), p[p.len() - 1].0) {
                (1, 1) => "num", (1, 2) => "sub", (1, _) => "many",
                (2, 1) => "inner", (2, _) => "pair",
                (_, 1) => "0", _ => "1",
            }),
            1 => go::<L3>(|p| match (p[0].0, p.len(), p[p.len() - 1].0) {
                (1, 1, _) => "num",
                (3, 1, _) => "op",
                (3, 2, 1) => "x", (3, 2, 5) => "y", (3, 2, 0) => "whole",
                (3, 3, 1) => "inner", (3, 3, _) => "pair",
                (3, 4, 1) => "0", (3, 4, _) => "1",
                // an unknown field, the fields within it
                (0, 1, _) => "rest",
                (_, _, tag) => TAGS[tag as usize],
            }),
            _ => go::<L5>(|p| match (p.len(), p[p.len() - 1].0) {
                (1, _) => "map",
                (2, 1) => "0", (2, _) => "1",
                (3, _) => "held",
                (4, 1) => "inner", (4, _) => "pair",
                (_, 1) => "0", _ => "1",
            }),
        }
    }
}
const TAGS: [&'static str; 64] = ["00", "01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19",
    "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39", "40", "41", "42", "43", "44",
    "45", "46", "47", "48", "49", "50", "51", "52", "53", "54", "55", "56", "57", "58", "59", "60", "61", "62", "63"];
fn small(x: &S1) {
    assume(x.a < 128);
    for y in &x.c { assume(*y < 128) }
}
/// Where `what` ends in `s`, from `at` on.
fn after(s: &str, at: usize, what: &str) -> usize {
    let b = s.as_bytes();
    let digit = |i: usize| i < b.len() && b[i].is_ascii_digit();
    let mut i = at;
    while i + what.len() <= b.len() {
        let end = i + what.len();
        if &b[i..end] == what.as_bytes()
            && !(digit(i) && i > 0 && digit(i - 1)) && !(digit(end - 1) && digit(end)) { return end }
        i += 1;
    }
    fail("location of an error")
}
/// A one-byte integer that is not written as part of a blob.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct u8x(pub u8);
fourleaf_retrofit!(struct u8x : {} {} { |_context, this| (*) x: u8 = this.0, { Ok(u8x(x)) } });
impl Tv for u8x {
    fn ty() -> Ty { Ty::Deleg(Box::new(u8::ty())) }
    fn gen(_: usize) -> Self { u8x(u8s()) }
    fn v(&self) -> V { self.0.v() }
}
/// Always owned.
pub type Kept = Cow<'static, [u8]>;
