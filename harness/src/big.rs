//! The same guarantees for inputs of realistic size: long blobs, long
//! collections, deep nesting.  Almost all bytes are concrete; a few, and the
//! limits and amounts, are symbolic.
use crate::model::*;
use crate::sym::*;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::cell::Cell;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};

pub const TABLE: &[(&str, extern "C" fn())] = table![l_blob, l_trunc, l_write, l_deep, l_pad, l_align, l_err, l_wdev];

pub fn int(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 & 0x7f | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
/// `n` bytes, most of them known, ASCII if asked for.
pub fn body(n: usize, ascii: bool) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(7) >> (i & 3)) as u8 & if ascii { 0x7f } else { 0xff }).collect();
    for &i in &[0, 127, 255, 256, 4095, 8191, 8192, 65535] {
        if i < n { v[i] = u8s(); if ascii { assume(v[i] < 0x80) } }
    }
    if n > 0 { v[n - 1] = u8s(); if ascii { assume(v[n - 1] < 0x80) } }
    v
}
pub fn around(n: usize) -> usize {
    match choose(3) { 0 => n.saturating_sub(1), 1 => n, _ => n + 1 }
}
/// A field, a structure with a blob or exception of `n` bytes, a field.
fn doc(n: usize) -> (Vec<u8>, usize) {
    let mut d = vec![0xc2, 0x43, u8s() & 0x7f, 0x84];
    int(&mut d, n as u64);
    let at = d.len();
    d.extend_from_slice(&body(n, false));
    d.extend_from_slice(&[0x45, u8s() & 0x7f, 0x00, 0x46, u8s() & 0x7f]);
    (d, at)
}
/// Reads at most 5000 bytes at a time.
pub struct Slow<'a>(pub &'a [u8]);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = if b.len() > 5000 { 5000 } else { b.len() };
        self.0.read(&mut b[..n])
    }
}
/// Delivers `at` bytes, at most 5000 at a time, then fails.
pub struct Breaks<'a> { pub b: &'a [u8], pub pos: usize, pub at: usize, pub kind: io::ErrorKind, pub failed: &'a Cell<bool> }
impl<'a> Read for Breaks<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let end = if self.at < self.b.len() { self.at } else { self.b.len() };
        let mut n = end - self.pos;
        if n == 0 && self.at < self.b.len() {
            self.failed.set(true);
            return Err(self.kind.into());
        }
        if n > 5000 { n = 5000 }
        if n > b.len() { n = b.len() }
        b[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Takes `at` bytes, at most 5000 at a time, then fails or takes no more.
pub struct Fills { pub v: Vec<u8>, pub at: usize, pub kind: Option<io::ErrorKind> }
impl Write for Fills {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = self.at - self.v.len();
        if n == 0 { if let Some(k) = self.kind { return Err(k.into()) } }
        if n > 5000 { n = 5000 }
        if n > b.len() { n = b.len() }
        self.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Reading through a document with a blob of `n` bytes in it.
fn through<R: Read>(mut s: Stream<R>, d: &[u8], at: usize, n: usize) {
    let mut m = Model::new(d);
    check(step(&mut s, &mut m) && step(&mut s, &mut m), "fields before the blob");
    let how = choose(7);
    if how == 6 {
        // the whole structure is passed over
        check(s.skip_up(1).is_ok(), "skip_up failed");
        m.next();
        m.next();
        m.next();
    } else {
        m.next();
        let mut e = match s.next_element() { Ok(e) => e, Err(_) => fail("blob rejected") };
        let data = &d[at..at + n];
        if how == 4 {
            let mut o = Stream::new(Vec::new());
            check(o.write_element(&mut e).is_ok(), "copying failed");
            check(o.pos() == (n + at - 3) as u64, "position after copying");
            check(o.into_inner()[..] == d[3..at + n], "copy");
            cover(1);
        } else if let Element::Field(Field { value: Value::Blob(ref mut b), .. }) = e {
            let mut p = 0;
            match how {
                0 => (),
                1 => {
                    let max = around(n);
                    match b.read_fully(max) {
                        Ok(v) => { check(max >= n && v[..] == *data, "read_fully"); p = n; cover(2) }
                        Err(Error::LargeBlob(x, y)) => { check(max < n && x == max && y == n as u64, "limit"); cover(3) }
                        Err(_) => fail("read_fully failed"),
                    }
                }
                2 => {
                    let max = match choose(6) { 0 => n - 1, 1 => n, 2 => n + 1, 3 => 256, 4 => 8192, _ => 33 };
                    match b.read_or_trunc(max) {
                        Ok(v) => { p = if max < n { max } else { n }; check(v[..] == data[..p], "read_or_trunc") }
                        Err(_) => fail("read_or_trunc failed"),
                    }
                }
                _ => {
                    let mut x = vec![0u8; match choose(3) { 0 => 4096, 1 => 8193, _ => n + 3 }];
                    for _ in 0..1 + choose(3) {
                        match b.read(&mut x[..]) {
                            Ok(k) => {
                                check(k > 0 || p == n, "read stops before the end of the blob");
                                check(k <= n - p && x[..k] == data[p..p + k], "blob data");
                                p += k;
                            }
                            Err(_) => fail("read failed"),
                        }
                    }
                    // and perhaps all the rest
                    if bools() {
                        let mut v = Vec::new();
                        match b.read_to_end(&mut v) { Ok(k) => check(k == n - p && v[..] == data[p..], "blob data"), Err(_) => fail("read failed") }
                        p = n;
                    }
                }
            }
            check(b.len() == n as u64 && b.inner_pos() == p as u64 && b.remaining() == (n - p) as u64 && b.stream_pos() == (at + p) as u64, "position in the blob");
        } else { fail("not a blob") }
    }
    check(s.commit().is_ok(), "commit failed");
    while step(&mut s, &mut m) {}
    check(s.pos() == d.len() as u64, "position at the end");
}

harness! {
    fn l_blob() {
        let n = param(0);
        let (d, at) = doc(n);
        match param(1) {
            0 => through(Stream::from_slice(&d[..]), &d, at, n),
            1 => through(Stream::new(&d[..]), &d, at, n),
            2 => through(Stream::new(Slow(&d[..])), &d, at, n),
            3 => through(Stream::new_seek(BufReader::with_capacity(64, Cursor::new(&d[..]))), &d, at, n),
            _ => through(Stream::new(BufReader::with_capacity(4096, Slow(&d[..]))), &d, at, n),
        }
    }
    /// The same blob cut off somewhere.
    fn l_trunc() {
        let n = param(0);
        let (mut d, at) = doc(n);
        let have = match choose(5) { 0 => n - 1, 1 => n / 2, 2 => 8192, 3 => 255, _ => 0 };
        if have >= n { return }
        d.truncate(at + have);
        fn go<R: Read>(mut s: Stream<R>, d: &[u8], n: usize, have: usize) {
            let mut m = Model::new(d);
            check(step(&mut s, &mut m) && step(&mut s, &mut m), "fields before the blob");
            let missing = (n - have) as u64;
            {
                let mut e = match s.next_element() { Ok(e) => e, Err(_) => fail("blob rejected") };
                let k = choose(4);
                if k == 1 {
                    let mut o = Stream::new(Vec::new());
                    match o.write_element(&mut e) {
                        Err(Error::TruncatedBlob(x)) => check(x == missing, "number of missing bytes"),
                        // or while reading it: also fine, but it must be an error
                        Err(_) => fail("different error"),
                        // (T02, T05)
                        Ok(_) => match o.commit() { Err(Error::IncompleteBlob(x)) => check(x == missing, "number of missing bytes"), _ => fail("truncated blob copied") },
                    }
                    return;
                }
                if let Element::Field(Field { value: Value::Blob(ref mut b), .. }) = e {
                    match k {
                        0 => (),
                        2 => match b.read_fully(n) { Err(Error::TruncatedBlob(x)) => check(x == missing, "number of missing bytes"), Err(_) => fail("different error"), Ok(_) => fail("truncated blob accepted") },
                        _ => { let mut x = [0u8; 300]; check(b.read(&mut x).is_ok(), "read failed") }
                    }
                } else { fail("not a blob") }
            }
            let r = if bools() { s.commit() } else { s.skip_up(0) };
            match r { Err(Error::TruncatedBlob(x)) => { check(x == missing, "number of missing bytes"); cover(1) } Err(_) => fail("different error"), Ok(_) => fail("truncated blob accepted") }
        }
        match param(1) {
            0 => go(Stream::from_slice(&d[..]), &d, n, have),
            1 => go(Stream::new(&d[..]), &d, n, have),
            2 => go(Stream::new(Slow(&d[..])), &d, n, have),
            _ => go(Stream::new_seek(BufReader::with_capacity(64, Cursor::new(&d[..]))), &d, n, have),
        }
    }
    /// Writing a long blob in every way.
    fn l_write() {
        let n = param(0);
        let v = body(n, false);
        let mut want = vec![0x41, 1];
        let mut s = Stream::new_seek(Cursor::new(Vec::new()));
        check(s.write_u64(1, 1).is_ok(), "write failed");
        let how = choose(4);
        let part = [4096, 5000, n][choose(3)];
        match how {
            0 => { want.push(0x82); int(&mut want, n as u64); check(s.write_blob_data(2, &v).is_ok(), "write failed") }
            1 => { want.push(0x80); int(&mut want, n as u64); check(s.write_exception_data(&v).is_ok(), "write failed") }
            2 => {
                want.push(0x82);
                int(&mut want, n as u64);
                let mut b = match s.write_blob_alloc(2, n as u64) { Ok(b) => b, Err(_) => fail("write failed") };
                for c in v.chunks(part) { check(b.write_all(c).is_ok(), "write failed") }
                match b.write(&[1]) { Ok(k) => check(k == 0, "wrote beyond the blob"), Err(_) => fail("write failed") }
            }
            _ => {
                // a length in ten bytes, filled in afterwards
                want.push(0x82);
                let mut x = n as u64;
                for i in 0..10 { want.push(x as u8 & 0x7f | if i < 9 { 0x80 } else { 0 }); x >>= 7 }
                let mut b = match s.write_blob_dynamic(2) { Ok(b) => b, Err(_) => fail("write failed") };
                for c in v.chunks(part) { check(b.write_all(c).is_ok(), "write failed") }
                check(b.len() == n as u64 || how == 3, "length");
            }
        }
        want.extend_from_slice(&v);
        check(s.commit().is_ok(), "commit failed");
        check(s.write_u64(3, 300).is_ok(), "write failed");
        want.extend_from_slice(&[0x43, 0xac, 2]);
        check(s.pos() == want.len() as u64, "position");
        check(s.into_inner().into_inner() == want, "output");
        cover(1);
    }
    /// Many structures inside each other, element by element.
    fn l_deep() {
        let n = param(0);
        let mut d = vec![0xc1; n];
        d[n / 2] = 0x02;
        d.insert(n / 2 + 1, 7);
        d.extend_from_slice(&[0x45, u8s() & 0x7f]);
        d.extend(vec![0; n - 1]);
        d.extend_from_slice(&[0x46, u8s() & 0x7f, 0]);
        let mut s = Stream::from_slice(&d[..]);
        let mut m = Model::new(&d);
        for _ in 0..n { check(step(&mut s, &mut m), "structure rejected") }
        check(s.struct_depth() == m.depth, "depth");
        match choose(3) {
            0 => (),
            1 => {
                let to = [0, 1, n as u64 / 2, 255, 256, n as u64 - 1][choose(6)];
                if to > n as u64 { return }
                let r = s.skip_up(to);
                while m.depth > to {
                    if let Ev::Err(want) = m.next() {
                        match r { Err(ref e) => check(errk(e) == want, "different error"), Ok(_) => fail("malformed document accepted") }
                        return;
                    }
                }
                check(r.is_ok(), "skip_up failed");
            }
            _ => {
                // passing over a field at the top
                s = Stream::from_slice(&d[..]);
                m = Model::new(&d);
                match s.next_field() { Ok(Some(f)) => check(f.skip().is_ok(), "skip failed"), _ => fail("structure rejected") }
                let to = { m.next_field(); m.fdepth };
                while m.depth > to { m.next(); }
            }
        }
        agree(&s, &m);
        while step(&mut s, &mut m) {}
        cover(1);
    }
    /// Long runs of padding before, between and after the fields.
    fn l_pad() {
        let n = param(0);
        let mut d = Vec::new();
        let at = choose(6);
        for i in 0..6 {
            if i == at || bools() { let k = if i == at { n } else { 3 }; d.extend(vec![0xc0; k]) }
            match i {
                0 => d.extend_from_slice(&[0x41, u8s() & 0x7f]),
                1 => d.push(0xc2),
                2 => d.extend_from_slice(&[0x83, 2, 0xc0, u8s()]),
                3 => d.push(0),
                4 => d.extend_from_slice(&[0x04, u8s() & 0x7f]),
                _ => if bools() { d.push(0x40) },
            }
        }
        let mut s = Stream::new(&d[..]);
        let mut m = Model::new(&d);
        m.graceful = bools();
        s.set_graceful_eof(m.graceful);
        if bools() {
            while step(&mut s, &mut m) {}
        } else {
            loop {
                let want = m.next_field();
                let got = match s.next_field() {
                    Ok(Some(f)) => { check(f.pos == m.fpos && f.depth == m.fdepth, "position or depth of the field"); of_field(&f) }
                    Ok(None) => if s.eof() { Ev::EndDoc } else { Ev::EndStruct },
                    Err(ref e) => Ev::Err(errk(e)),
                };
                same(got, want);
                agree(&s, &m);
                match got { Ev::Err(_) | Ev::EndDoc => break, _ => () }
            }
        }
        cover(1);
    }
    /// Alignments to large powers of two.
    fn l_align() {
        let a = 1u64 << param(0);
        let mut s = Stream::new(Vec::new());
        let n = match choose(5) { 0 => 0, 1 => 1, 2 => a as usize - 2, 3 => a as usize - 4, _ => a as usize };
        let mut want = vec![0x81];
        int(&mut want, n as u64);
        want.extend(vec![7; n]);
        check(s.write_blob_data(1, &vec![7u8; n]).is_ok(), "write failed");
        check(s.pad_to_align(a).is_ok(), "padding failed");
        while want.len() as u64 & (a - 1) != 0 { want.push(0xc0) }
        check(s.pos() == want.len() as u64, "position");
        check(s.pad_to_align(a).is_ok(), "padding failed");
        check(s.write_u64(1, 5).is_ok(), "write failed");
        want.extend_from_slice(&[0x41, 5]);
        check(s.into_inner() == want, "output");
        cover(1);
    }
    /// The device fails somewhere in or around a long blob.
    fn l_err() {
        let n = param(0);
        let (d, at) = doc(n);
        let stop = match choose(11) { 0 => 0, 1 => 2, 2 => at - 1, 3 => at, 4 => at + 1, 5 => at + 255, 6 => at + 8192, 7 => at + n / 2, 8 => at + n - 1, 9 => at + n, _ => d.len() };
        if stop > d.len() { return }
        let kind = any_kind();
        let failed = Cell::new(false);
        let mut s = Stream::new(Breaks { b: &d, pos: 0, at: stop, kind, failed: &failed });
        let mut m = Model::new(&d);
        let how = choose(6);
        macro_rules! tried { ($r:expr) => { match $r {
            Ok(x) => { check(!failed.get(), "reader failure lost"); x }
            Err(ref e) => { check(failed.get(), "spurious error"); check(io_kind(e) == Some(kind), "reader failure not reported"); check(stop < d.len(), "spurious error"); cover(1); return }
        } } }
        for i in 0..7 {
            if i == 1 && how == 5 { tried!(s.skip_up(1)); for _ in 0..4 { m.next(); } continue }
            if i > 3 && how == 5 { break }
            if m.eof { break }
            let want = m.next();
            if let Ev::Err(E::Eof) = want { break }
            let mut e = tried!(s.next_element());
            same(of_element(&e), want);
            if let Ev::Blob(_, p, k) = want {
                let data = &d[p as usize..(p + k) as usize];
                if how == 4 {
                    let mut o = Stream::new(Vec::new());
                    tried!(o.write_element(&mut e));
                    check(o.into_inner()[..] == d[3..at + n], "copy");
                } else if let Element::Field(Field { value: Value::Blob(ref mut b), .. }) = e {
                    match how {
                        0 => (),
                        1 => check(tried!(b.read_fully(n))[..] == *data, "read_fully"),
                        2 => check(tried!(b.read_or_trunc(8192))[..] == data[..if n < 8192 { n } else { 8192 }], "read_or_trunc"),
                        _ => { let mut v = vec![0; n]; tried!(b.read_exact(&mut v).map_err(Error::from)); check(v[..] == *data, "data") }
                    }
                } else { fail("not a blob") }
                tried!(s.commit());
            }
        }
        cover(2);
    }
    /// A long blob written to a device that fails or fills up.
    fn l_wdev() {
        let n = param(0);
        let v = body(n, false);
        let mut want = vec![0x41, 1, 0x82];
        int(&mut want, n as u64);
        let st = want.len();
        want.extend_from_slice(&v);
        want.extend_from_slice(&[0x43, 0xac, 2]);
        let at = match choose(9) { 0 => 2, 1 => st - 1, 2 => st, 3 => st + 255, 4 => st + 5000, 5 => st + n - 1, 6 => st + n, 7 => want.len(), _ => want.len() - 1 };
        let kind = if bools() { Some(any_kind()) } else { None };
        let mut s = Stream::new(Fills { v: Vec::new(), at, kind });
        fn put(s: &mut Stream<Fills>, v: &[u8], src: &[u8]) -> Result<(), Error> {
            s.write_u64(1, 1)?;
            match choose(4) {
                0 => { s.write_blob_data(2, v)?; }
                1 => s.write_blob_alloc(2, v.len() as u64)?.write_all(v)?,
                2 => {
                    let mut b = s.write_blob_alloc(2, v.len() as u64)?;
                    for c in v.chunks(4096) { b.write_all(c)? }
                }
                _ => {
                    let mut r = Stream::new(src);
                    r.next_element()?;
                    s.write_element(&mut r.next_element()?)?;
                }
            }
            s.commit()?;
            s.write_u64(3, 300)
        }
        let r = put(&mut s, &v, &want);
        let o = s.into_inner().v;
        match r {
            Ok(()) => { check(o == want, "output"); cover(1) }
            Err(ref e) => {
                check(at < want.len(), "spurious error");
                check(o[..] == want[..at], "output before the failure");
                match kind {
                    Some(k) => check(io_kind(e) == Some(k), "writer failure not reported"),
                    None => match *e { Error::Io(ref x) => check(x.kind() == io::ErrorKind::WriteZero, "different error"), Error::IncompleteBlob(k) => check(k == (st + n - at) as u64, "number of missing bytes"), _ => fail("different error") },
                }
                cover(2);
            }
        }
    }
}
