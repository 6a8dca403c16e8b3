//! Decoding arbitrary documents as any type.
use crate::model::*;
use crate::schema::*;
use crate::sym::*;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;
use fourleaf::Serialize;
use std::io::Read;

pub const TABLE: &[(&str, extern "C" fn())] = table![d_bytes, d_docs, d_limits, d_depth, d_dur, d_memory, d_near, d_inside];

pub trait Own: Tv + for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying> {}
impl<T: Tv + for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying>> Own for T {}

/// Compares a result, and where it leaves the stream, with the definition.
pub fn agree_with<T: Tv, R: Read>(got: de::Result<T>, s: &Stream<R>, m: &mut Cx) {
    let want = m.body(&T::ty());
    match (got, want) {
        (Ok(g), Ok(w)) => {
            check(g.v() == w, "decoded value");
            check(s.struct_depth() == m.m.depth, "depth after the value");
            check(s.eof() == m.m.eof, "end-of-document flag after the value");
            check(s.pos() == m.m.base + m.m.pos, "position after the value");
            out(b"ok");
            out64(s.pos());
            cover(1);
        }
        (Ok(_), Err(w)) => match w.0 {
            K::S(_) | K::Exc => fail("malformed document accepted"),
            K::Type => fail("value of the wrong kind accepted"),
            K::Range | K::Msg | K::Utf8 => fail("invalid value accepted"),
            K::Rec => fail("recursion limit not applied"),
            K::UnkField(..) => fail("unknown field accepted"),
            K::UnkVar(_) => fail("unknown variant accepted"),
            K::Few | K::Missing => fail("incomplete value accepted"),
            K::Many => fail("repeated value accepted"),
            K::Collect => fail("collection limit not applied"),
            K::Blob => fail("blob limit not applied"),
            K::Other => fail("harness"),
        },
        (Err(e), Ok(_)) => match kind(&e) {
            K::S(_) | K::Exc => fail("well-formed document rejected"),
            K::Type => fail("value of the right kind rejected"),
            K::Range | K::Msg | K::Utf8 => fail("valid value rejected"),
            K::Rec => fail("recursion limit applied too early"),
            K::UnkField(..) => fail("acceptable field rejected"),
            K::UnkVar(_) => fail("acceptable variant rejected"),
            K::Few | K::Missing => fail("complete value rejected"),
            K::Many => fail("acceptable repetition rejected"),
            K::Collect => fail("collection limit applied too early"),
            K::Blob => fail("blob limit applied too early"),
            K::Other => fail("unknown error"),
        },
        (Err(e), Err(w)) => {
            let k = kind(&e);
            check(k == w.0 || Some(k) == w.1, "different error");
            out(b"err");
            cover(2);
        }
    }
}
/// One or two values out of `b`.
fn decode<T: Own>(b: &[u8], c: &Config, times: usize) {
    let mut m = Cx::new(b, c);
    let mut s = Stream::from_slice(b);
    for _ in 0..times {
        m.collect = c.max_collect as u64;
        m.blob = c.max_blob as u64;
        m.collected = 0;
        m.blobbed = 0;
        m.depth = 0;
        let r = de::from_stream_copy::<_, T>(&mut s, c);
        let ok = r.is_ok();
        agree_with(r, &s, &mut m);
        if !ok { break }
    }
}
pub fn config() -> Config {
    let mut c = Config::default();
    c.ignore_unknown_fields = bools();
    c
}
/// A document made for `T`: `k` elements, then whatever closes it; or (8) one
/// that holds a value with up to `k` items per collection, nearly (`mode >> 4`
/// being the set of edits, all if 0).
pub fn doc<T: Tv>(k: usize, mode: usize) -> Vec<u8> {
    if mode & 8 != 0 { return near::<T>(k, if mode < 16 { 127 } else { mode >> 4 }, 2) }
    let (mut tags, mut discs) = (Vec::new(), Vec::new());
    known(&T::ty(), &mut tags, &mut discs, 4);
    tags.truncate(3);
    tags.push(9);
    discs.push(8);
    let mut b = Docs { tags: &tags, discs: &discs, blobs: 2, wide: mode & 1 != 0, specials: mode & 2 != 0 }.make(k);
    if mode & 4 == 0 {
        b.extend_from_slice(&[0, 0, 0, 0, 0]);
    }
    b
}
/// The elements of a document that holds a value of type `t`, up to `n` items
/// in each collection, down to `d` levels of a recursive type.
pub fn doc_body(o: &mut Vec<Vec<u8>>, t: &Ty, n: usize, d: usize) {
    match *t {
        Ty::Struct(ref fs, open) => {
            let back = fs.len() > 1 && bools();
            // one field of a long tuple is arbitrary, the others are 0 or 1
            let any = if fs.len() > 4 { choose(fs.len()) } else { fs.len() };
            for i in 0..fs.len() {
                let f = &fs[if back { fs.len() - 1 - i } else { i }];
                if any < fs.len() && i != any { o.push(vec![0x40 | f.0, i as u8 & 1]) } else { doc_field(o, &f.1, f.0, n, d) }
            }
            if open { doc_body(o, &Ty::Anys, n, d) } else { o.push(vec![0]) }
        }
        Ty::Unit => o.push(vec![0]),
        Ty::Anys => {
            for _ in 0..choose(n + 1) { doc_elem(o, &Ty::Any, 63, n, d) }
            o.push(vec![0]);
        }
        Ty::Deleg(ref t) | Ty::Own(ref t) | Ty::With(ref t, _) => doc_body(o, t, n, d),
        Ty::Rec(f) => doc_body(o, &f(), n, d),
        _ => { doc_field(o, t, 1, n, d); o.push(vec![0]) }
    }
}
fn doc_field(o: &mut Vec<Vec<u8>>, t: &Ty, tag: u8, n: usize, d: usize) {
    if let Ty::Rec(f) = *t { return doc_field(o, &f(), tag, n, d.saturating_sub(1)) }
    let (k, d) = if d == 0 { (0, 0) } else { (n, d - 1) };
    match *t {
        Ty::Opt(ref e) => if k > 0 && bools() { doc_elem(o, e, tag, n, d) },
        Ty::Seq(ref e) | Ty::Set(ref e) | Ty::Heap(ref e) => for _ in 0..choose(k + 1) { doc_elem(o, e, tag, n, d) },
        Ty::Arr(ref e, k) => for _ in 0..k { doc_elem(o, e, tag, n, d) },
        Ty::Map(ref a, ref b) => for _ in 0..choose(k + 1) {
            o.push(vec![0xc0 | tag]);
            doc_field(o, a, 1, n, d);
            doc_field(o, b, 2, n, d);
            o.push(vec![0]);
        },
        Ty::Own(ref t) => doc_field(o, t, tag, n, d + 1),
        _ => doc_elem(o, t, tag, n, d + 1),
    }
}
fn doc_blob(o: &mut Vec<Vec<u8>>, tag: u8, n: usize, ascii: bool) {
    let mut b = vec![0x80 | tag];
    int(&mut b, n as u64);
    let x = bytes(n);
    if ascii { for x in &x { assume(*x < 0x80) } }
    b.extend_from_slice(&x);
    o.push(b);
}
fn doc_elem(o: &mut Vec<Vec<u8>>, t: &Ty, tag: u8, n: usize, d: usize) {
    match *t {
        Ty::U(_) | Ty::I(..) | Ty::Bool | Ty::Char | Ty::Null => {
            let x = u8s();
            assume(match *t { Ty::Bool => x < 2, Ty::Null => x == 0, _ => x < 0x80 });
            o.push(vec![0x40 | tag, x]);
        }
        Ty::Bytes | Ty::BytesRef => doc_blob(o, tag, choose(n + 1), false),
        Ty::Str | Ty::StrRef => doc_blob(o, tag, choose(n + 1), true),
        Ty::BytesN(k) => doc_blob(o, tag, k, false),
        Ty::Deleg(ref t) | Ty::Own(ref t) | Ty::With(ref t, _) => doc_elem(o, t, tag, n, d),
        Ty::Rec(f) => doc_elem(o, &f(), tag, n, d.saturating_sub(1)),
        Ty::Enum(ref vs, ref ca) => {
            let w = choose(vs.len() + ca.is_some() as usize);
            let mut b = vec![tag];
            int(&mut b, if w < vs.len() { vs[w].0 } else { 8 });
            o.push(b);
            match *ca { Some(ref t) if w == vs.len() => doc_body(o, t, n, d), _ => doc_body(o, &vs[w].1, n, d) }
        }
        Ty::Any => match choose(if d == 0 { 2 } else { 4 }) {
            0 => doc_elem(o, &Ty::U(127), tag, n, d),
            1 => doc_blob(o, tag, n, false),
            2 => { o.push(vec![0xc0 | tag]); doc_body(o, &Ty::Anys, n, d - 1) }
            _ => { o.push(vec![tag, 3]); doc_body(o, &Ty::Anys, n, d - 1) }
        },
        _ => { o.push(vec![0xc0 | tag]); doc_body(o, t, n, d) }
    }
}
/// Behind the field that starts with the `i`th element.
fn behind(o: &[Vec<u8>], i: usize) -> usize {
    let (mut at, mut depth) = (i, 0);
    loop {
        match o[at][0] {
            0 => depth -= 1,
            x if x >> 6 == 0 || x >> 6 == 3 => depth += 1,
            _ => (),
        }
        at += 1;
        if depth <= 0 { return at }
    }
}
/// A document for `T`, changed in one place: `edits` is a set of
/// 1 nothing, 2 an element taken out, 4 a field copied to another place,
/// 8 a field moved, 16 an element put in, 32 an element replaced, 64 the
/// document cut off.
fn near<T: Tv>(n: usize, edits: usize, depth: usize) -> Vec<u8> {
    near_of(&T::ty(), n, edits, depth)
}
fn near_of(ty: &Ty, n: usize, edits: usize, depth: usize) -> Vec<u8> {
    let mut o = Vec::new();
    doc_body(&mut o, ty, n, depth);
    let all: Vec<usize> = (0..7).filter(|e| edits >> e & 1 != 0).collect();
    let e = all[choose(all.len())];
    let i = if e == 0 || e == 6 { 0 } else { choose(o.len()) };
    match e {
        1 => { o.remove(i); }
        2 | 3 => {
            assume(o[i][0] != 0);
            let f: Vec<_> = o[i..behind(&o, i)].to_vec();
            if e == 3 { o.drain(i..i + f.len()); }
            let j = choose(o.len());
            assume(e == 2 || j != i);
            o.splice(j..j, f);
        }
        4 | 5 => {
            let (mut tags, mut discs) = (Vec::new(), Vec::new());
            known(ty, &mut tags, &mut discs, 4);
            tags.truncate(3);
            tags.push(9);
            discs.truncate(1);
            discs.push(8);
            let x = Docs { tags: &tags, discs: &discs, blobs: 2, wide: false, specials: true }.make(1);
            if e == 4 { o.insert(i, x) } else { o[i] = x }
        }
        _ => (),
    }
    let mut b = o.concat();
    if e == 6 { let n = choose(b.len()); b.truncate(n) } else { b.extend_from_slice(&[0, 0]) }
    b
}
/// A value in the middle of a stream that is otherwise read by hand: what
/// comes before and after it, at its level or an outer one, is unaffected.
/// (`element`: the value is the field itself, otherwise what is in it.)
fn inside<T: Own>(n: usize, edits: usize, depth: usize, element: bool) {
    let mut fs = vec![(5, Ty::U(127)), (9, Ty::Deleg(Box::new(T::ty()))), (6, Ty::U(127))];
    if !element {
        fs[1].1 = Ty::Struct(vec![(7, Ty::U(127))], false);
    }
    let outer = Ty::Struct(fs, false);
    let b = if element {
        near_of(&outer, n, edits, depth + 1)
    } else {
        // the body in a structure, or in an enum
        let mut b = vec![0x45, 1];
        if bools() { b.push(0xc9) } else { b.extend_from_slice(&[9, 3]) }
        b.extend_from_slice(&near_of(&T::ty(), n, edits, depth));
        b.extend_from_slice(&[0x46, 1, 0, 0]);
        b
    };
    let c = config();
    let mut m = Cx::new(&b, &c);
    let mut s = Stream::from_slice(&b[..]);
    // (positions that overflow are S09's)
    if param(5) == 1 {
        m.m.base = u64::MAX - 1024;
        s.set_pos(m.m.base);
    }
    for _ in 0..b.len() + 1 {
        let want = m.m.next();
        let mine = match want { Ev::Int(9, _) | Ev::Blob(9, ..) => element, Ev::Struct(9) | Ev::Enum(9, _) => true, _ => false };
        if !mine {
            let got = match s.next_element() { Ok(ref e) => of_element(e), Err(ref e) => Ev::Err(errk(e)) };
            same(got, want);
            if let Ev::Err(_) = got { break }
            agree(&s, &m.m);
            if got == Ev::EndDoc { break }
            continue;
        }
        let mut f = match s.next_field() { Ok(Some(f)) => f, _ => fail("field rejected") };
        m.collected = 0;
        m.blobbed = 0;
        m.depth = 0;
        let (r, w) = if element {
            (T::deserialize_element(&de::Context::top(&c), &mut f), m.elem(&T::ty(), want))
        } else {
            let entered = match want {
                Ev::Enum(_, d) => f.value.to_enum().map(|(e, s)| { check(e == d, "discriminant"); s }),
                _ => f.value.to_struct(),
            };
            match entered {
                Ok(s) => (de::from_stream_copy::<_, T>(s, &c), m.body(&T::ty())),
                Err(_) => fail("structure or enum not entered"),
            }
        };
        drop(f);
        match (r, w) {
            (Ok(g), Ok(w)) => { check(g.v() == w, "decoded value"); cover(1) }
            (Err(e), Err(w)) => {
                let k = kind(&e);
                check(k == w.0 || Some(k) == w.1, "different error");
                cover(2);
                break;
            }
            (Ok(_), Err(_)) => fail("invalid value accepted"),
            (Err(_), Ok(_)) => fail("valid value rejected"),
        }
        // (the field's data, where it has not been consumed, is next)
        if m.m.pend > m.m.pos { if let Ev::Blob(..) = want { continue } }
        agree(&s, &m.m);
    }
    out64(s.pos());
}
/// Bytes the decoder (and the definition) may use for a document of a few
/// bytes, with up to 255 bytes to be copied.
const LIMIT: u64 = 16384;

harness! {
    fn d_bytes() {
        fn go<T: Own>() { decode::<T>(&bytes(param(1)), &config(), param(2)) }
        pick_owned!(go)
    }
    fn d_docs() {
        fn go<T: Own>() { decode::<T>(&doc::<T>(param(1), param(2)), &config(), 1) }
        pick_owned!(go)
    }
    fn d_limits() {
        fn go<T: Own>() {
            let mut c = Config::default();
            c.max_collect = usizes();
            c.max_blob = usizes();
            decode::<T>(&doc::<T>(param(1), param(2)), &c, 1)
        }
        pick_owned!(go)
    }
    fn d_depth() {
        fn go<T: Own>() {
            let mut c = Config::default();
            c.recursion_limit = usizes();
            decode::<T>(&doc::<T>(param(1), param(2)), &c, 1)
        }
        pick_owned!(go)
    }
    // Documents that are nearly a value of the type, with any limits.
    fn d_near() {
        fn go<T: Own>() {
            let mut c = config();
            match param(3) {
                0 => (),
                1 => { c.max_collect = usizes(); c.max_blob = usizes() }
                _ => c.recursion_limit = usizes(),
            }
            decode::<T>(&near::<T>(param(1), param(2), param(4)), &c, 1)
        }
        pick_owned!(go)
    }
    fn d_inside() {
        fn go<T: Own>() { inside::<T>(param(1), param(2), param(3), param(4) == 1) }
        pick_owned!(go)
    }
    // A blob or message that claims any length at all, anywhere in a document:
    // the claim does not make the decoder allocate.
    fn d_memory() {
        fn go<T: Own>() {
            let mut c = config();
            c.max_blob = u8s() as usize;
            let mut b = doc::<T>(param(1), 4);
            let (mut tags, mut discs) = (Vec::new(), Vec::new());
            known(&T::ty(), &mut tags, &mut discs, 4);
            tags.truncate(2);
            tags.extend([9, 0]);
            b.push(0x80 | tags[choose(tags.len())]);
            // one byte, or five or ten bytes (all groups nonzero)
            let n = [1, 5, 10][choose(3)];
            for i in 0..n {
                let x = u8s();
                assume(if i + 1 < n { x > 0x80 } else { x < 0x80 && (n == 1 || x == 1) });
                b.push(x);
            }
            b.extend_from_slice(&bytes(1));
            heap(LIMIT);
            decode::<T>(&b, &c, 1);
            heap(0);
        }
        pick_owned!(go)
    }
    // A duration of any number of nanoseconds, in either order.
    fn d_dur() {
        let (secs, nanos, swap) = (if bools() { u8s() as u64 } else { u64::MAX }, u64s(), bools());
        let mut b = Vec::new();
        for i in 0..2 {
            let first = (i == 0) != swap;
            b.push(if first { 0x41 } else { 0x42 });
            int(&mut b, if first { secs } else { nanos });
        }
        b.push(0);
        decode::<std::time::Duration>(&b, &config(), 1);
    }
}
