//! Looking at blobs in place, and editing documents in place.
use crate::model::*;
use crate::parse::elements;
use crate::sym::*;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub const TABLE: &[(&str, extern "C" fn())] = table![s15_slice, s15_mut, t07_blob, t07_field, s16_read, s16_write];

fn blob_of<'a, 'd, R>(e: &'a mut Element<'d, R>) -> Option<&'a mut Blob<'d, R>> {
    match *e {
        Element::Field(Field { value: Value::Blob(ref mut b), .. }) => Some(b),
        Element::Exception(ref mut b) => Some(b),
        _ => None,
    }
}

/// A field, a blob or exception that claims `n` bytes of which `have` are
/// there, and (if they all are) another field.
fn doc(n: usize, have: usize) -> Vec<u8> {
    let mut b = vec![0x42, u8s() & 0x7f, if bools() { 0x81 } else { 0x80 }, n as u8];
    b.extend_from_slice(&bytes(have));
    if have == n {
        b.extend_from_slice(&[0x43, u8s() & 0x7f]);
    }
    b
}

/// Somewhere in the blob: reading on, or reading to the end and back.
fn wander<R: Read>(b: &mut Blob<R>, have: usize, p: &mut usize) {
    let k = choose(have + 1);
    let mut buf = [0u8; 4];
    match b.read_exact(&mut buf[..k]) { Ok(()) => (), Err(_) => fail("read failed") }
    *p += k;
}
fn back<R: Seek>(b: &mut Blob<R>, p: &mut usize) {
    let k = choose(*p + 1);
    match b.seek(SeekFrom::Start(k as u64)) { Ok(q) => check(q == k as u64, "seek result"), Err(_) => fail("seek failed") }
    *p = k;
}
fn sliced(r: Result<&[u8], Error>, d: &[u8], n: usize, p: usize, have: usize) {
    match r {
        Ok(x) => {
            check(have == n, "slice of a truncated blob");
            check(x[..] == d[4 + p..4 + n], "slice is not the unconsumed bytes");
            check(x.is_empty() || x.as_ptr() == d[4 + p..].as_ptr(), "slice is not in place");
            cover(if p == 0 { 1 } else { 2 });
        }
        Err(Error::TruncatedBlob(m)) => {
            check(m == (n - have) as u64, "number of missing bytes");
            cover(3);
        }
        Err(_) => fail("slice failed"),
    }
}
fn where_<R>(b: &Blob<R>, n: usize, p: usize) {
    check(b.len() == n as u64 && b.inner_pos() == p as u64 && b.remaining() == (n - p) as u64, "position changed");
}
/// The element behind the blob.
fn behind<R: Read>(s: &mut Stream<R>, d: &[u8], n: usize, have: usize) {
    let mut m = Model::new(d);
    m.next();
    m.next();
    check(s.struct_depth() == m.depth, "depth");
    m.pos = s.pos();
    step(s, &mut m);
    out64(s.pos());
    let _ = (n, have);
}

/// One round with a stream that can be looked into.
macro_rules! look {
    ($s:expr, $d:expr, $n:expr, $have:expr, $back:expr, $look:expr) => {{
        let mut s = $s;
        let (d, n, have): (&[u8], usize, usize) = ($d, $n, $have);
        let mut p = 0;
        match s.next_element() { Ok(Element::Field(_)) => (), _ => fail("field rejected") }
        {
            let mut e = match s.next_element() { Ok(e) => e, Err(_) => fail("blob rejected") };
            let b = match blob_of(&mut e) { Some(b) => b, None => fail("not a blob") };
            wander(b, have, &mut p);
            $back(b, &mut p);
            $look(b, p);
            where_(b, n, p);
            // the data is still there to be read
            if p < have {
                let mut x = [0u8];
                match b.read(&mut x) { Ok(1) => (), _ => fail("read failed") }
                check(x[0] == d[4 + p], "data after looking at it");
                p += 1;
                $look(b, p);
                where_(b, n, p);
            }
        }
        behind(&mut s, d, n, have);
    }};
}
fn stay<R>(_: &mut Blob<R>, _: &mut usize) {}

harness! {
    /// Slices of a blob are its unconsumed bytes, in place, and looking at
    /// them changes nothing.
    fn s15_slice() {
        let n = param(0);
        let have = choose(n + 1);
        let d = doc(n, have);
        match param(1) {
            0 => look!(Stream::from_slice(&d[..]), &d, n, have, back, |b: &mut Blob<TransparentCursor<&[u8]>>, p| sliced(b.slice(), &d, n, p, have)),
            1 => look!(Stream::from_slice(&d[..]), &d, n, have, back, |b: &mut Blob<TransparentCursor<&[u8]>>, p| sliced(b.ext_slice(), &d, n, p, have)),
            2 => look!(Stream::new(&d[..]), &d, n, have, stay, |b: &mut Blob<&[u8]>, p| sliced(b.slice(), &d, n, p, have)),
            3 => look!(Stream::new(&d[..]), &d, n, have, stay, |b: &mut Blob<&[u8]>, p| sliced(b.ext_slice(), &d, n, p, have)),
            4 => look!(Stream::new_seek(Cursor::new(&d[..])), &d, n, have, back, |b: &mut Blob<Cursor<&[u8]>>, p| sliced(b.ext_slice(), &d, n, p, have)),
            _ => {
                // an owned buffer: the bytes, wherever they are
                let o = d.clone();
                look!(Stream::from_slice(o), &d, n, have, back, |b: &mut Blob<TransparentCursor<Vec<u8>>>, p: usize| match b.slice() {
                    Ok(x) => check(have == n && x[..] == d[4 + p..4 + n], "slice is not the unconsumed bytes"),
                    Err(Error::TruncatedBlob(m)) => check(have < n && m == (n - have) as u64, "number of missing bytes"),
                    Err(_) => fail("slice failed"),
                })
            }
        }
    }
    /// A mutable slice is exactly the unconsumed bytes: what is written to it
    /// is in the blob, and nowhere else.
    fn s15_mut() {
        let n = param(0);
        let have = choose(n + 1);
        let d = doc(n, have);
        let mut img = d.clone();
        let mut own = d.clone();
        let mut s = Stream::from_slice(&mut own[..]);
        match s.next_element() { Ok(Element::Field(_)) => (), _ => fail("field rejected") }
        let mut p = 0;
        {
            let mut e = match s.next_element() { Ok(e) => e, Err(_) => fail("blob rejected") };
            let b = match blob_of(&mut e) { Some(b) => b, None => fail("not a blob") };
            wander(b, have, &mut p);
            back(b, &mut p);
            for _ in 0..2 {
                match b.slice_mut() {
                    Ok(x) => {
                        check(have == n, "slice of a truncated blob");
                        check(x[..] == img[4 + p..4 + n], "slice is not the unconsumed bytes");
                        for i in 0..x.len() {
                            let v = u8s();
                            x[i] = v;
                            img[4 + p + i] = v;
                        }
                        cover(if p == 0 { 1 } else { 2 });
                    }
                    Err(Error::TruncatedBlob(m)) => {
                        check(have < n && m == (n - have) as u64, "number of missing bytes");
                        cover(3);
                    }
                    Err(_) => fail("slice failed"),
                }
                where_(b, n, p);
                if p < have {
                    let mut x = [0u8];
                    match b.read(&mut x) { Ok(1) => (), _ => fail("read failed") }
                    check(x[0] == img[4 + p], "data after changing it");
                    p += 1;
                }
            }
        }
        behind(&mut s, &img, n, have);
        drop(s);
        check(own[..] == img[..], "other bytes changed");
    }
    /// Moving the device by hand and telling the stream.
    fn s16_read() {
        let b = elements(param(0));
        // (any base far enough from the end)
        let base = [0, 1 << 40, u64::MAX - 20_000][choose(3)];
        let mut bounds = vec![b.len()];
        let mut s = Stream::new_seek(Cursor::new(&b[..]));
        s.set_pos(base);
        let mut m = Model::new(&b);
        m.base = base;
        let mut left = param(1);
        loop {
            if m.pend <= m.pos && !bounds.contains(&(m.pos as usize)) { bounds.push(m.pos as usize) }
            // (after the end of document nothing is read)
            if left > 0 && !m.eof && bools() {
                left -= 1;
                // nothing may be pending, or it happens after moving
                let ok = m.pend <= m.b.len() as u64;
                check(s.commit().is_ok() == ok, "commit");
                if !ok { break }
                {
                    let to = bounds[choose(bounds.len())];
                    check(s.get_mut().seek(SeekFrom::Start(to as u64)).is_ok(), "seek");
                    s.set_pos(base + to as u64);
                    m.pos = to as u64;
                    m.pend = 0;
                    check(s.struct_depth() == m.depth && s.pos() == base + to as u64, "state after moving by hand");
                    cover(1);
                }
            }
            let want = m.next();
            {
                let mut e = match s.next_element() {
                    Ok(e) => e,
                    Err(ref e) => { same(Ev::Err(errk(e)), want); break }
                };
                same(of_element(&e), want);
                if let Element::EndOfDoc = e { break }
                if let Some(bl) = blob_of(&mut e) {
                    let n = bl.len() as usize;
                    let at = (bl.start_pos() - base) as usize;
                    let have = if b.len() - at < n { b.len() - at } else { n };
                    // some bytes are read past the stream
                    let k = choose(have + 1);
                    let mut x = [0u8; 4];
                    check(bl.stream_get_mut().read_exact(&mut x[..k]).is_ok(), "read");
                    check(bl.stream_get_ref().position() == (at + k) as u64, "device position");
                    bl.stream_set_pos(base + (at + k) as u64);
                    check(x[..k] == b[at..at + k], "harness: data");
                    check(bl.inner_pos() == k as u64 && bl.remaining() == (n - k) as u64 && bl.len() == n as u64, "position in the blob");
                    check(bl.start_pos() == base + at as u64 && bl.end_pos() == base + (at + n) as u64, "bounds of the blob");
                    m.pos += k as u64;
                    // the rest is read as usual
                    if k < have && bools() {
                        match bl.read(&mut x) { Ok(j) => { check(j > 0 && k + j <= have && x[..j] == b[at + k..at + k + j], "rest of the blob"); m.pos += j as u64; cover(2) } Err(_) => fail("read failed") }
                    }
                }
            }
            check(s.struct_depth() == m.depth && s.pos() == base + m.pos, "position or depth");
        }
        out64(s.pos().wrapping_sub(base));
    }
    /// Writing to the device by hand and telling the stream.
    fn s16_write() {
        let base = choose(2) as u64 * 5;
        let mut want = Vec::new();
        let mut s = Stream::new_seek(Cursor::new(Vec::new()));
        s.set_pos(base);
        for _ in 0..param(0) {
            match choose(4) {
                // serialised elsewhere
                0 => {
                    let v = [0x41, u8s() & 0x7f];
                    check(s.commit().is_ok(), "commit failed");
                    check(s.get_mut().write_all(&v).is_ok(), "write");
                    let p = s.pos() + 2;
                    s.set_pos(p);
                    want.extend_from_slice(&v);
                }
                1 => {
                    check(s.write_u64(2, 5).is_ok(), "write failed");
                    want.extend_from_slice(&[0x42, 5]);
                }
                k => {
                    let d = bytes(3);
                    let by_hand = choose(4);
                    {
                        let mut b = match if k == 2 { s.write_blob_alloc(3, 3) } else { s.write_blob_dynamic(3) } { Ok(b) => b, Err(_) => fail("write failed") };
                        let p = b.stream_pos();
                        check(b.stream_get_mut().write_all(&d[..by_hand]).is_ok(), "write");
                        b.stream_set_pos(p + by_hand as u64);
                        check(b.inner_pos() == by_hand as u64, "position in the blob");
                        check(b.write_all(&d[by_hand..]).is_ok(), "write failed");
                    }
                    want.push(0x83);
                    if k == 2 { want.push(3) } else { want.extend_from_slice(&[0x83, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0]) }
                    want.extend_from_slice(&d);
                }
            }
            check(s.pos() == base + want.len() as u64, "position");
        }
        check(s.commit().is_ok(), "commit failed");
        check(s.pos() == base + want.len() as u64, "position");
        let c = s.into_inner();
        check(c.position() == want.len() as u64, "device position");
        out(c.get_ref());
        check(c.into_inner() == want, "output");
        cover(1);
    }
    /// Reading a document and writing into its blobs on the way.
    fn t07_blob() {
        let b = elements(param(0));
        match param(2) {
            0 => { let mut own = b.clone(); let img = rewrite(Stream::from_slice(&mut own[..]), &b, param(1)); check(own[..] == img[..], "document after editing") }
            1 => { let mut own = Cursor::new(b.clone()); let img = rewrite(Stream::new_seek(&mut own), &b, param(1)); check(own.get_ref()[..] == img[..], "document after editing") }
            _ => { let mut own = b.clone(); let img = rewrite(Stream::new(Cursor::new(&mut own[..])), &b, param(1)); check(own[..] == img[..], "document after editing") }
        }
        cover(1);
    }
    /// Overwriting a field with another of the same size, and reading on.
    fn t07_field() {
        let b = elements(param(0));
        let mut img = b.clone();
        let at = choose(param(0));
        let mut own = Cursor::new(b.clone());
        {
            let mut s = Stream::new_seek(&mut own);
            let mut m = Model::new(&b);
            for _ in 0..at { if !step(&mut s, &mut m) { return } }
            let from = if m.pend > m.pos { m.pend } else { m.pos };
            let before = m.depth;
            let ev = m.next();
            match s.next_element() { Ok(ref e) => same(of_element(e), ev), Err(_) => return }
            let p = from as usize;
            if m.eof { return }
            check(match s.seek(SeekFrom::Start(from)) { Ok(q) => q == from, Err(_) => false }, "seek");
            s.set_struct_depth(before);
            check(s.struct_depth() == before && s.pos() == from, "state after seek");
            let t = 1 + choose(2) as u8 * 62;
            let v = u8s() & 0x7f;
            let ok = match ev {
                Ev::Int(..) => { img[p] = 0x40 | t; img[p + 1] = v; s.write_u64(t, v as u64).is_ok() }
                Ev::Blob(_, _, n) | Ev::Exc(_, n) => {
                    let x = bytes(n as usize);
                    img[p + 2..p + 2 + n as usize].copy_from_slice(&x);
                    if let Ev::Blob(..) = ev { img[p] = 0x80 | t; s.write_blob_data(t, &x).is_ok() } else { s.write_exception_data(&x).is_ok() }
                }
                Ev::Enum(..) => { img[p] = t; img[p + 1] = v; s.write_enum(t, v as u64).is_ok() }
                Ev::Struct(_) => { img[p] = 0xc0 | t; s.write_struct(t).is_ok() }
                Ev::EndStruct => { img[p] = 0xc0; s.write_padding().is_ok() }
                _ => { img[p] = 0x00; s.write_end_struct().is_ok() }
            };
            check(ok, "write failed");
            // writing does not touch the depth; back at the field, reading
            // reports what was written
            check(s.struct_depth() == before, "depth after writing");
            check(match s.seek(SeekFrom::Start(from)) { Ok(q) => q == from, Err(_) => false }, "seek");
            s.set_struct_depth(before);
            let mut m = Model::new(&img);
            m.pos = from;
            m.depth = before;
            while step(&mut s, &mut m) {}
            out64(s.pos());
        }
        check(own.get_ref()[..] == img[..], "document after editing");
        cover(1);
    }
}

/// Reads `b` through `s`; in every blob up to `ops` operations, then reads on
/// wherever the handle was left.  The expected document is returned.
fn rewrite<R: Read + Write + Seek>(mut s: Stream<R>, b: &[u8], ops: usize) -> Vec<u8> {
    let mut img = b.to_vec();
    let mut m = Model::new(b);
    loop {
        let want = m.next();
        {
            let mut e = match s.next_element() {
                Ok(e) => e,
                Err(ref e) => {
                    same(Ev::Err(errk(e)), want);
                    break;
                }
            };
            same(of_element(&e), want);
            if let Element::EndOfDoc = e { break }
            if let Some(bl) = blob_of(&mut e) {
                let n = bl.len() as usize;
                let at = bl.start_pos() as usize;
                let mut p = 0;
                for _ in 0..ops {
                    match choose(3) {
                        0 => {
                            let d = bytes(choose(3));
                            match bl.write(&d) {
                                Ok(k) => {
                                    check(k <= d.len() && k <= n - p, "wrote beyond the blob");
                                    check(k > 0 || d.is_empty() || p == n, "write accepts nothing");
                                    img[at + p..at + p + k].copy_from_slice(&d[..k]);
                                    p += k;
                                }
                                Err(_) => fail("write failed"),
                            }
                        }
                        1 => {
                            let mut x = [0u8; 2];
                            let k = 1 + choose(2);
                            match bl.read(&mut x[..k]) {
                                Ok(k) => {
                                    check(k <= n - p && x[..k] == img[at + p..at + p + k], "data read back");
                                    check(k > 0 || p == n, "read stops before the end of the blob");
                                    p += k;
                                }
                                Err(_) => fail("read failed"),
                            }
                        }
                        _ => {
                            let q = choose(n + 1);
                            let w = if bools() { SeekFrom::End(q as i64 - n as i64) } else { SeekFrom::Current(q as i64 - p as i64) };
                            match bl.seek(w) { Ok(r) => check(r == q as u64, "seek result"), Err(_) => fail("seek failed") }
                            p = q;
                        }
                    }
                    where_(bl, n, p);
                }
                m.pos += p as u64;
            }
        }
        check(s.struct_depth() == m.depth && s.pos() == m.pos, "position or depth");
    }
    img
}
