//! Typed values of realistic size.  Almost all bytes are concrete; a few, and
//! the limits and amounts, are symbolic.
use crate::big::{around, body, int, Breaks, Fills, Slow};
use crate::de::{agree_with, config};
use crate::model::*;
use crate::schema::{enc, kind, Cx, Tv, Ty, K, P, Tree, V};
use crate::sym::*;
use crate::typed::{u8x, M1};
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;
use fourleaf::unknown::{UnknownField, UnknownFields};
use fourleaf::Serialize;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::*;
use std::io;

pub const TABLE: &[(&str, extern "C" fn())] = table![l_bytes, l_many, l_count, l_nest, l_fields, l_seq, l_sink, l_skip, l_borrow, l_old];

harness! {
    /// Long strings and byte vectors through the typed layer.
    fn l_bytes() {
        fn go<T: Big>(n: usize, ascii: bool) {
            let data = body(n, ascii);
            let mut want = vec![0x41, 5, 0x82];
            int(&mut want, n as u64);
            want.extend_from_slice(&data);
            want.push(0x43);
            want.extend_from_slice(&[6, 0]);
            let v = T::of(data.clone());
            let b = match fourleaf::to_vec((5u8, &v, 6u8)) { Ok(b) => b, Err(_) => fail("serialisation failed") };
            if T::KIND == 0 { check(b == want, "representation") }
            let mut w = Vec::new();
            check(fourleaf::to_writer(&mut w, (5u8, &v, 6u8)).is_ok() && w == b, "to_writer differs from to_vec");
            let mut c = config();
            c.max_blob = around(n);
            let mut s = Stream::from_slice(&b[..]);
            let mut m = Cx::new(&b, &c);
            let r = de::from_stream_copy::<_, (u8, T, u8)>(&mut s, &c);
            if c.max_blob >= n { match r { Ok(ref x) => check(x.1.raw() == data && x.0 == 5 && x.2 == 6, "value does not survive a round trip"), _ => fail("serialised form rejected") } }
            agree_with(r, &s, &mut m);
            let mut x = Slow(&b[..]);
            let r = de::from_reader::<_, (u8, T, u8)>(&mut x, &c);
            match r {
                Ok(x) => check(c.max_blob >= n && x.1.raw() == data, "through a reader"),
                Err(e) => check(c.max_blob < n && kind(&e) == K::Blob, "through a reader"),
            }
        }
        match param(1) {
            0 => go::<Vec<u8>>(param(0), false),
            1 => go::<String>(param(0), true),
            2 => go::<std::borrow::Cow<'static, [u8]>>(param(0), false),
            _ => go::<fourleaf::unknown::UnknownField<'static>>(param(0), false),
        }
    }
    /// Collections of many items, and any limit.
    fn l_many() {
        fn go<T: Tv + Serialize + for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying>>(v: T, ordered: bool) {
            let img = v.v();
            let b = match fourleaf::to_vec(&v) { Ok(b) => b, Err(_) => fail("serialisation failed") };
            if ordered { check(b == enc(&img, &T::ty()), "representation") }
            let mut c = config();
            c.max_collect = u64s() as usize;
            let mut s = Stream::from_slice(&b[..]);
            let r = de::from_stream_copy::<_, T>(&mut s, &c);
            if let Ok(ref x) = r { check(x.v() == img, "value does not survive a round trip") }
            agree_with(r, &s, &mut Cx::new(&b, &c));
        }
        let n = param(0);
        let sy = |i: usize| if i == 0 || i + 1 == n { u8s() as u16 } else { (i * 3) as u16 };
        match param(1) {
            0 => go::<Vec<u16>>((0..n).map(sy).collect(), true),
            1 => go::<VecDeque<u16>>((0..n).map(sy).collect(), true),
            2 => go::<LinkedList<u8x>>((0..n).map(|i| u8x(sy(i) as u8)).collect(), true),
            3 => go::<BTreeMap<u16, bool>>((0..n).map(|i| (i as u16, sy(i) & 1 == 0)).collect(), true),
            4 => go::<BTreeSet<u16>>((0..n).map(|i| i as u16).collect(), true),
            5 => go::<Vec<Vec<u16>>>((0..2).map(|_| (0..n / 2).map(sy).collect()).collect(), true),
            6 => go::<UnknownFields<'static>>(UnknownFields((0..n).map(|i| ((i % 63) as u8 + 1, fourleaf::unknown::UnknownField::Integer(sy(i) as u64))).collect()), true),
            7 => go::<Vec<String>>((0..n).map(|i| if i % 100 == 0 { "ab".to_owned() } else { String::new() }).collect(), true),
            _ => go::<(Vec<u16>, Vec<bool>)>(((0..n).map(sy).collect(), vec![true; 3]), true),
        }
    }
    /// The total of copied bytes over many blobs, and any limit.
    fn l_count() {
        let (n, k) = (param(0), param(1));
        let v: Vec<String> = (0..n).map(|i| body(if i == 0 { 1 } else { k }, true)).map(|b| String::from_utf8(b).unwrap()).collect();
        let b = match fourleaf::to_vec(&v) { Ok(b) => b, Err(_) => fail("serialisation failed") };
        let mut c = config();
        c.max_collect = n;
        c.max_blob = u64s() as usize;
        let mut s = Stream::from_slice(&b[..]);
        let r = de::from_stream_copy::<_, Vec<String>>(&mut s, &c);
        agree_with(r, &s, &mut Cx::new(&b, &c));
    }
    /// A recursive type, deeply nested, and any recursion limit.
    fn l_nest() {
        let n = param(0);
        let mut d = Vec::new();
        for i in 0..n { d.extend_from_slice(&[0x41, i as u8 & 0x7f, if param(1) == 0 { 0xc2 } else { 0xc3 }]) }
        d.extend_from_slice(&[0x41, u8s() & 0x7f]);
        d.extend(vec![0; n + 1]);
        let mut c = config();
        c.max_collect = 1000;
        c.recursion_limit = u64s() as usize;
        let mut s = Stream::from_slice(&d[..]);
        let r = de::from_stream_copy::<_, Tree>(&mut s, &c);
        agree_with(r, &s, &mut Cx::new(&d, &c));
    }
    /// A structure whose fields come in many pieces and any order.
    fn l_fields() {
        let n = param(0);
        let mut d = Vec::new();
        for i in 0..n {
            d.push(0x43);
            int(&mut d, if i == n - 1 { u16s() as u64 } else { i as u64 });
            if i == n / 2 { d.extend_from_slice(&[0x41, u8s() & 0x7f, 0xc9, 0x41, 5, 0x00]) }
            if i == 1 { d.extend_from_slice(&[0x88, 2, u8s(), 0, 0xc0, 0x42, u8s() & 0x7f]) }
        }
        if bools() { d.push(if bools() { 0 } else { 0x40 }) }
        let mut c = config();
        c.max_collect = 2000;
        let mut s = Stream::from_slice(&d[..]);
        if bools() { s.set_graceful_eof(true) }
        let mut m = Cx::new(&d, &c);
        m.m.graceful = s.graceful_eof();
        let r = de::from_stream_copy::<_, P>(&mut s, &c);
        agree_with(r, &s, &mut m);
    }
    /// Many values one after the other; limits apply to each of them.
    fn l_seq() {
        let n = param(0);
        let v = |i: usize| (if i == n / 2 { u16s() } else { i as u16 }, vec![i as u16, 1, 2], "ab".to_owned());
        let all: Vec<_> = (0..n).map(v).collect();
        let mut s = Stream::new(Vec::new());
        for x in &all { check(fourleaf::to_stream(&mut s, x).is_ok(), "to_stream failed") }
        check(s.commit().is_ok(), "commit failed");
        let b = s.into_inner();
        let mut c = config();
        // fields 2 of the items, and the string
        c.max_collect = 3;
        c.max_blob = 2;
        let mut r = &b[..];
        let mut t = Stream::from_slice(&b[..]);
        for x in &all {
            let y = if param(1) == 0 {
                de::from_stream_copy::<_, (u16, Vec<u16>, String)>(&mut t, &c)
            } else {
                de::from_reader::<_, (u16, Vec<u16>, String)>(&mut r, &c)
            };
            match y { Ok(ref y) => check(y == x, "one of several values"), Err(_) => fail("one of several values rejected") }
        }
        if param(1) == 0 { check(t.pos() == b.len() as u64, "position after the last value") } else { check(r.is_empty(), "reader position after the last value") }
        cover(1);
    }
    /// Long values to and from devices that fail.
    fn l_sink() {
        let n = param(0);
        let v = (7u8, body(n, false), vec![300u16; 3]);
        let b = match fourleaf::to_vec(&v) { Ok(b) => b, Err(_) => fail("serialisation failed") };
        let at = match choose(9) { 0 => 0, 1 => 3, 2 => 5, 3 => 260, 4 => n / 2, 5 => n, 6 => b.len() - 1, 7 => b.len(), _ => 8192 };
        if at > b.len() { return }
        let kind = any_kind();
        assume(kind != io::ErrorKind::Other && kind != io::ErrorKind::UnexpectedEof);
        if bools() {
            let mut k = Fills { v: Vec::new(), at, kind: Some(kind) };
            match fourleaf::to_writer(&mut k, &v) {
                Ok(()) => { cover(1); check(k.v == b, "to_writer lost data") }
                Err(e) => { cover(2); check(at < b.len() && io_kind(&e) == Some(kind), "to_writer fails without cause"); check(k.v[..] == b[..at], "to_writer wrote something else") }
            }
        } else {
            let failed = Cell::new(false);
            let mut c = config();
            c.max_blob = n;
            let r = de::from_reader::<_, (u8, Vec<u8>, Vec<u16>)>(Breaks { b: &b, pos: 0, at, kind, failed: &failed }, &c);
            match r {
                Ok(x) => { cover(1); check(at == b.len() && x == v, "value from a failing reader") }
                Err(e) => { cover(2); check(failed.get() && kind_(&e) == Some(kind), "different I/O error") }
            }
        }
    }
    /// Unknown fields of any size are passed over, or refused.
    fn l_skip() {
        let n = param(0);
        let mut d = vec![0x43, 1, 0x41, 5];
        match param(1) {
            // deeply nested
            0 => { d.extend(vec![0xc9; n]); d.extend_from_slice(&[0x43, u8s() & 0x7f]); d.extend(vec![0; n]) }
            // a long blob
            1 => { d.push(0x89); int(&mut d, n as u64); d.extend_from_slice(&body(n, false)) }
            // many
            2 => for i in 0..n { d.extend_from_slice(&[0x49, i as u8 & 0x7f]) },
            // many in one
            3 => { d.extend_from_slice(&[0x09, 3]); for i in 0..n { d.extend_from_slice(&[0xc1, 0x43, i as u8 & 0x7f, 0]) } d.push(0) }
            // long blobs in one
            _ => { d.push(0xc9); for _ in 0..3 { d.push(0x81); int(&mut d, n as u64); d.extend(vec![3; n]) } d.push(0) }
        }
        d.extend_from_slice(&[0x43, u8s() & 0x7f]);
        if bools() { d.extend_from_slice(&[0x88, 2, u8s(), 0]) }
        d.extend_from_slice(&[0, 0x41, 3]);
        let mut c = config();
        c.recursion_limit = 2;
        c.max_blob = 2;
        c.max_collect = 100;
        let mut s = Stream::from_slice(&d[..]);
        let r = de::from_stream_copy::<_, P>(&mut s, &c);
        agree_with(r, &s, &mut Cx::new(&d, &c));
        let mut x = Slow(&d[..]);
        let mut s = Stream::new(&mut x);
        let r = de::from_stream_copy::<_, P>(&mut s, &c);
        agree_with(r, &s, &mut Cx::new(&d, &c));
    }
    /// Long borrowed values.
    fn l_borrow() {
        fn go<'a, T: Deserialize<TransparentCursor<&'a [u8]>, style::ZeroCopy>>(b: &'a [u8], p: usize, n: usize, copy: bool, f: fn(&T) -> &[u8]) {
            let mut c = config();
            c.max_blob = u64s() as usize;
            match de::from_slice_borrow::<(u8, T, u8)>(b, &c) {
                Ok(ref v) => {
                    let x = f(&v.1);
                    check(*x == b[p..p + n], "borrowed value");
                    if copy { check(n <= c.max_blob, "blob limit not applied") } else { check(x.as_ptr() == b[p..].as_ptr(), "borrowed value lies outside the input") }
                    cover(1);
                }
                Err(e) => { check(copy && n > c.max_blob && kind(&e) == K::Blob, "blob limit applied to a borrowed value"); cover(2) }
            }
        }
        let n = param(0);
        let mut b = vec![0x41, 5, 0x82];
        int(&mut b, n as u64);
        let p = b.len();
        b.extend(body(n, true));
        b.extend_from_slice(&[0x43, 6, 0]);
        match param(1) {
            0 => go::<&[u8]>(&b, p, n, false, |x| x),
            1 => go::<&str>(&b, p, n, false, |x| x.as_bytes()),
            2 => go::<Cow<[u8]>>(&b, p, n, false, |x| match *x { Cow::Borrowed(x) => x, _ => fail("copied without need") }),
            3 => go::<Cow<str>>(&b, p, n, false, |x| match *x { Cow::Borrowed(x) => x.as_bytes(), _ => fail("copied without need") }),
            4 => go::<UnknownField>(&b, p, n, false, |x| match *x { UnknownField::Blob(Cow::Borrowed(ref x)) => x, _ => fail("copied without need") }),
            5 => go::<String>(&b, p, n, true, |x| x.as_bytes()),
            _ => go::<Vec<u8>>(&b, p, n, true, |x| x),
        }
    }
    /// Old software edits a large document.
    fn l_old() {
        let n = param(0);
        let mut rest = vec![0x41, 1];
        match param(1) {
            0 => for i in 0..n { rest.extend_from_slice(&[0x43, i as u8 & 0x7f]) },
            1 => { rest.push(0xbf); int(&mut rest, n as u64); rest.extend(body(n, false)) }
            2 => { rest.extend(vec![0xc9; n]); rest.extend_from_slice(&[0x43, u8s() & 0x7f]); rest.extend(vec![0; n]) }
            _ => { rest.extend_from_slice(&[0x05, 9]); for i in 0..n { rest.extend_from_slice(&[0x83, 1, i as u8]) } rest.push(0) }
        }
        let half = rest.len();
        rest.extend_from_slice(&[0x43, u8s() & 0x7f]);
        let id = u8s() & 0x7f;
        let mut d = vec![0x42, id];
        d.extend_from_slice(&rest[..half]);
        d.extend_from_slice(&[0x04, 1, 0]);
        d.extend_from_slice(&rest[half..]);
        d.push(0);
        let mut c = Config::default();
        c.ignore_unknown_fields = false;
        c.recursion_limit = n + 3;
        c.max_collect = 2 * n + 10;
        c.max_blob = 4 * n + 10;
        let mut o = match de::from_slice_copy::<M1>(&d, &c) { Ok(o) => o, Err(_) => fail("old software cannot read it") };
        check(o.id == id as u16, "known field");
        o.id = 300;
        let b = match fourleaf::to_vec(&o) { Ok(b) => b, Err(_) => fail("serialisation failed") };
        let mut want = vec![0x42, 0xac, 2, 0x04, 1, 0];
        want.extend_from_slice(&rest);
        want.push(0);
        check(b == want, "something was lost in an edit by old software");
        cover(1);
    }
}
trait Big: Tv + Serialize + for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying> + for<'a, 'b> Deserialize<&'b mut Slow<'a>, style::Copying> {
    const KIND: u32 = 0;
    fn of(v: Vec<u8>) -> Self;
    fn raw(&self) -> Vec<u8>;
}
impl Big for Vec<u8> { fn of(v: Vec<u8>) -> Self { v } fn raw(&self) -> Vec<u8> { self.clone() } }
impl Big for String { fn of(v: Vec<u8>) -> Self { String::from_utf8(v).unwrap() } fn raw(&self) -> Vec<u8> { self.as_bytes().to_vec() } }
impl Big for std::borrow::Cow<'static, [u8]> { fn of(v: Vec<u8>) -> Self { v.into() } fn raw(&self) -> Vec<u8> { self.to_vec() } }
impl Big for fourleaf::unknown::UnknownField<'static> {
    fn of(v: Vec<u8>) -> Self { fourleaf::unknown::UnknownField::Blob(v.into()) }
    fn raw(&self) -> Vec<u8> { match *self { fourleaf::unknown::UnknownField::Blob(ref b) => b.to_vec(), _ => fail("unknown field changes") } }
}
fn kind_(e: &de::Error) -> Option<io::ErrorKind> {
    match kind(e) { K::S(E::Io(k)) => Some(k), _ => None }
}
