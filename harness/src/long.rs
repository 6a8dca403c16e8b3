//! Long histories: hundreds of operations on one stream.  Almost all bytes are
//! concrete; a few, and the order in which the operations come, are symbolic.
use crate::big::{body, int, Slow};
use crate::model::*;
use crate::sym::*;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, BufReader, Cursor, Read, Seek, SeekFrom, Write};

pub const TABLE: &[(&str, extern "C" fn())] = table![h_read, h_docs, h_seek, h_write, h_edit, h_copy];

/// `n` elements of every kind.
fn long(n: usize) -> Vec<u8> {
    let mut d = vec![];
    let mut depth = 0;
    for i in 0..n {
        let t = (i % 63 + 1) as u8;
        match (i * 7 + i / 5) % 13 {
            0 | 1 => { d.push(0x40 | t); int(&mut d, (i as u64).wrapping_mul(i as u64).wrapping_mul(0x1234_5678_9abc)) }
            2 => { d.push(0x40 | t); d.push(if i % 3 == 0 && i < 120 { u8s() & 0x7f } else { 3 }) }
            3 => { d.push(0x80 | t); d.push((i % 6) as u8); for j in 0..i % 6 { d.push(if j == 1 && i % 4 == 0 { u8s() } else { j as u8 }) } }
            4 => { d.push(0xc0 | t); depth += 1 }
            5 | 6 => if depth > 0 { d.push(0); depth -= 1 } else { d.push(0xc0) },
            7 => { d.push(t); int(&mut d, (i as u64) << (i % 64)); depth += 1 }
            8 => { d.push(0x80); d.push((i % 4) as u8); for j in 0..i % 4 { d.push(b'a' + j as u8) } }
            9 => for _ in 0..1 + i % 3 { d.push(0xc0) },
            10 => { d.extend_from_slice(&[0x80 | t, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0, 9, i as u8]) }
            11 => { d.push(0x80 | t); int(&mut d, 300); for j in 0..300 { d.push(j as u8) } }
            _ => { d.push(0x40 | t); d.extend_from_slice(&[0x85, 0x80, 0]) }
        }
    }
    for _ in 0..depth { d.push(0) }
    d
}
/// A few bytes at a time, and now and then an interruption.
struct Drip<'a>(&'a [u8], usize);
impl<'a> Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 % 7 == 0 { return Err(io::ErrorKind::Interrupted.into()) }
        let n = if b.len() > self.1 % 3 + 1 { self.1 % 3 + 1 } else { b.len() };
        self.0.read(&mut b[..n])
    }
}
/// One element in one of several ways.  False at the end.
fn some<R: Read>(s: &mut Stream<R>, m: &mut Model, how: usize) -> bool {
    let go = match how % 5 {
        0 => return step(s, m),
        1 => {
            let want = m.next_field();
            match s.next_field() {
                Ok(Some(f)) => { check(f.pos == m.fpos && f.depth == m.fdepth, "position or depth of the field"); same(of_field(&f), want) }
                Ok(None) => match want { Ev::EndStruct => (), Ev::EndDoc => (), _ => fail("end reported") },
                Err(Error::Exception(x)) => match want {
                    Ev::Exc(p, n) => { let k = if n < 256 { n } else { 256 }; check(x.as_bytes() == &m.b[p as usize..(p + k) as usize], "exception message"); m.pos += k }
                    _ => fail("spurious exception"),
                },
                Err(ref e) => { same(Ev::Err(errk(e)), want); return false }
            }
            want != Ev::EndDoc
        }
        how => {
            let want = m.next();
            let mut e = match s.next_element() { Ok(e) => e, Err(ref e) => { same(Ev::Err(errk(e)), want); return false } };
            same(of_element(&e), want);
            if let Ev::Blob(_, _, n) | Ev::Exc(_, n) = want {
                let b = match e { Element::Field(Field { value: Value::Blob(ref mut b), .. }) => b, Element::Exception(ref mut b) => b, _ => fail("not a blob") };
                let data = &m.b[m.pos as usize..(m.pos + n) as usize];
                match how {
                    2 => { let mut x = [0; 2]; let mut r = b.read(&mut x); if let Err(ref e) = r { if e.kind() == io::ErrorKind::Interrupted { r = b.read(&mut x) } } match r { Ok(k) => { check(k as u64 <= n && (k > 0 || n == 0) && x[..k] == data[..k], "data"); m.pos += k as u64 } Err(_) => fail("read failed") } }
                    3 => match b.read_fully(300) { Ok(v) => { check(v == data, "data"); m.pos += n } Err(_) => fail("read_fully failed") },
                    _ => match b.read_or_trunc(2) { Ok(v) => { let k = if n < 2 { n } else { 2 }; check(v == data[..k as usize], "data"); m.pos += k } Err(_) => fail("read_or_trunc failed") },
                }
            }
            want != Ev::EndDoc
        }
    };
    agree(s, m);
    go
}
fn all<R: Read>(mut s: Stream<R>, d: &[u8], off: usize) {
    let mut m = Model::new(d);
    m.graceful = true;
    s.set_graceful_eof(true);
    let mut i = off;
    while some(&mut s, &mut m, i) {
        i += 1 + i / 7 % 2;
        if i % 50 == 49 {
            let to = if m.depth > 1 { m.depth - 1 } else { 0 };
            check(s.skip_up(to).is_ok(), "skip_up failed");
            while m.depth > to { m.next(); }
        }
    }
    check(s.eof() && s.pos() == d.len() as u64, "position at the end");
    cover(1);
}

harness! {
    fn h_read() {
        let d = long(param(0));
        let off = choose(7);
        match param(1) {
            0 => all(Stream::from_slice(&d[..]), &d, off),
            1 => all(Stream::new(&d[..]), &d, off),
            2 => all(Stream::new(Drip(&d, choose(3))), &d, off),
            _ => all(Stream::new_seek(BufReader::with_capacity(64, Cursor::new(&d[..]))), &d, off),
        }
    }
    /// Many documents in one stream.
    fn h_docs() {
        let mut d = Vec::new();
        for i in 0..param(0) { d.extend(long(2 + i % 17)); d.push(0x40) }
        let off = choose(7);
        let mut s = Stream::new(&d[..]);
        let mut m = Model::new(&d);
        let mut i = off;
        for _ in 0..param(0) {
            while some(&mut s, &mut m, i) { i += 1 }
            check(s.eof(), "end of document");
            for _ in 0..2 { match s.next_field() { Ok(None) => (), _ => fail("reading beyond the end of the document") } }
            agree(&s, &m);
            s.clear_eof();
            m.eof = false;
        }
        check(s.pos() == d.len() as u64, "position at the end");
        cover(1);
    }
    /// Going back and forth between the elements of a document.
    fn h_seek() {
        let n = param(0);
        let d = long(n);
        let mut at = vec![];
        {
            let mut m = Model::new(&d);
            m.graceful = true;
            loop {
                let p = if m.pend > m.pos { m.pend } else { m.pos };
                let dep = m.depth;
                if let Ev::EndDoc = m.next() { break }
                at.push((p, dep));
            }
        }
        let off = choose(7);
        let mut s = Stream::from_slice(&d[..]);
        let mut m = Model::new(&d);
        m.graceful = true;
        s.set_graceful_eof(true);
        for i in 0..n {
            let (p, dep) = at[(i * 37 + off) % at.len()];
            // (leaving behind the unread blob before)
            let here = if m.pend > m.pos { m.pend } else { m.pos };
            let w = match i % 3 { 0 => SeekFrom::Start(p), 1 => SeekFrom::End(p as i64 - d.len() as i64), _ => SeekFrom::Current(p as i64 - here as i64) };
            match s.seek(w) { Ok(q) => check(q == p, "seek result"), Err(_) => fail("seek failed") }
            check(s.pos() == p && s.struct_depth() == 0, "state after seek");
            m.pos = p;
            m.pend = 0;
            m.depth = 0;
            if i % 2 == 0 { s.set_struct_depth(dep); m.depth = dep }
            for j in 0..1 + i % 4 { if !some(&mut s, &mut m, i + j) { break } }
            if m.eof { s.clear_eof(); m.eof = false }
        }
        cover(1);
    }
    /// Many write operations.
    fn h_write() {
        let n = param(0);
        let off = choose(12);
        let mut s = Stream::new_seek(Cursor::new(Vec::new()));
        let mut w: Vec<u8> = Vec::new();
        let src = long(60);
        let mut r = Stream::from_slice(&src[..]);
        let mut rm = Model::new(&src);
        rm.graceful = true;
        r.set_graceful_eof(true);
        macro_rules! ok { ($e:expr) => { match $e { Ok(x) => x, Err(_) => fail("write failed") } } }
        for i in 0..n {
            let t = (i % 63 + 1) as u8;
            let v = (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (i % 64);
            let data: Vec<u8> = (0..i % 9).map(|j| if j == 2 && i % 5 == 0 { u8s() } else { (i + j) as u8 }).collect();
            match (i + off + i / 12) % 12 {
                0 => { w.push(0x40 | t); int(&mut w, v); ok!(s.write_u64(t, v)) }
                1 => { w.push(0x40 | t); int(&mut w, (((v as i64) << 1) ^ ((v as i64) >> 63)) as u64); ok!(s.write_i64(t, v as i64)) }
                2 => { w.push(0x80 | t); w.push(data.len() as u8); w.extend(&data); ok!(s.write_blob_data(t, &data)); }
                3 => { w.push(0xc0 | t); ok!(s.write_struct(t)) }
                4 => { w.push(t); int(&mut w, v); ok!(s.write_enum(t, v)) }
                5 => { w.push(0); ok!(s.write_end_struct()) }
                6 => { w.push(0x80); w.push(data.len() as u8); w.extend(&data); ok!(s.write_exception_data(&data)); }
                7 => { let a = 1u64 << (i % 6); while w.len() as u64 & (a - 1) != 0 { w.push(0xc0) } ok!(s.pad_to_align(a)) }
                8 | 9 => {
                    // a length filled in later
                    let exc = i % 3 == 0;
                    w.push(if exc { 0x80 } else { 0x80 | t });
                    let mut x = data.len() as u64;
                    for j in 0..10 { w.push(x as u8 & 0x7f | if j < 9 { 0x80 } else { 0 }); x >>= 7 }
                    w.extend(&data);
                    let mut b = ok!(if exc { s.write_exception_dynamic() } else { s.write_blob_dynamic(t) });
                    for c in data.chunks(3) { ok!(b.write_all(c)) }
                    if i % 2 == 0 && data.len() > 1 {
                        check(b.seek(SeekFrom::Start(1)).is_ok(), "seek");
                        ok!(b.write_all(&data[1..]));
                    }
                }
                10 => {
                    // left unfinished at first
                    w.push(0x80 | t);
                    w.push(data.len() as u8);
                    w.extend(&data);
                    let h = data.len() / 2;
                    ok!(ok!(s.write_blob_alloc(t, data.len() as u64)).write_all(&data[..h]));
                    if h < data.len() {
                        match s.write_u64(1, 1) { Err(Error::IncompleteBlob(k)) => check(k == (data.len() - h) as u64, "number of missing bytes"), _ => fail("unfinished blob accepted") }
                        ok!(s.get_mut().write_all(&data[h..]));
                        let p = s.pos();
                        s.set_pos(p + (data.len() - h) as u64);
                    }
                }
                _ => {
                    // copied from elsewhere
                    let from = if rm.pend > rm.pos { rm.pend } else { rm.pos };
                    let ev = rm.next();
                    let mut e = ok!(r.next_element());
                    same(of_element(&e), ev);
                    match ev {
                        Ev::Int(t, v) => { w.push(0x40 | t); int(&mut w, v) }
                        Ev::Enum(t, v) => { w.push(t); int(&mut w, v) }
                        Ev::Blob(t, p, n) => { w.push(0x80 | t); int(&mut w, n); w.extend(&src[p as usize..(p + n) as usize]); rm.pos = rm.pend }
                        Ev::Exc(p, n) => { w.push(0x80); int(&mut w, n); w.extend(&src[p as usize..(p + n) as usize]); rm.pos = rm.pend }
                        Ev::EndDoc => w.push(0x40),
                        _ => w.push(src[from as usize]),
                    }
                    ok!(s.write_element(&mut e));
                }
            }
            check(s.pos() == w.len() as u64, "position");
        }
        check(s.commit().is_ok(), "commit failed");
        check(s.into_inner().into_inner() == w, "output");
        cover(1);
    }
    /// Every blob of a document is edited in place.
    fn h_edit() {
        let d = long(param(0));
        let off = choose(7);
        let mut img = d.clone();
        let mut own = Cursor::new(d.clone());
        {
            let mut s = Stream::new_seek(&mut own);
            let mut m = Model::new(&d);
            m.graceful = true;
            s.set_graceful_eof(true);
            let mut i = off;
            loop {
                i += 1;
                let ev = m.next();
                let mut e = match s.next_element() { Ok(e) => e, Err(_) => fail("valid element rejected") };
                // (the content of exceptions and blobs is not compared here)
                same(of_element(&e), ev);
                let (p, n) = match ev { Ev::Blob(_, p, n) | Ev::Exc(p, n) => (p as usize, n as usize), Ev::EndDoc => break, _ => continue };
                let b = match e { Element::Field(Field { value: Value::Blob(ref mut b), .. }) => b, Element::Exception(ref mut b) => b, _ => fail("not a blob") };
                let new: Vec<u8> = (0..n).map(|j| if j == 1 && i % 9 == 0 { u8s() } else { (j * 3 + i) as u8 }).collect();
                match i % 6 {
                    0 => (),
                    1 => { check(b.write_all(&new).is_ok(), "write failed"); img[p..p + n].copy_from_slice(&new); m.pos += n as u64 }
                    2 => {
                        // the second half, after reading the first
                        let h = n / 2;
                        let mut x = vec![0; h];
                        check(b.read_exact(&mut x).is_ok() && x[..] == d[p..p + h], "data");
                        check(b.write_all(&new[h..]).is_ok(), "write failed");
                        img[p + h..p + n].copy_from_slice(&new[h..]);
                        match b.write(&[1]) { Ok(0) => (), _ => fail("wrote beyond the blob") }
                        m.pos += n as u64;
                    }
                    3 => {
                        // the first half, and it is left there
                        let h = (n + 1) / 2;
                        check(b.write_all(&new[..h]).is_ok(), "write failed");
                        img[p..p + h].copy_from_slice(&new[..h]);
                        m.pos += h as u64;
                    }
                    4 => {
                        // from the end to the start
                        for j in (0..n).rev() {
                            check(b.seek(SeekFrom::Start(j as u64)).is_ok() && b.write_all(&new[j..j + 1]).is_ok(), "write failed");
                        }
                        img[p..p + n].copy_from_slice(&new);
                        if n > 0 { m.pos += 1 }
                    }
                    _ => {
                        // and read back
                        check(b.write_all(&new).is_ok() && b.seek(SeekFrom::End(-(n as i64))).is_ok(), "write failed");
                        match b.read_fully(n) { Ok(v) => check(v == new, "data"), Err(_) => fail("read failed") }
                        img[p..p + n].copy_from_slice(&new);
                        m.pos += n as u64;
                    }
                }
                agree(&s, &m);
            }
        }
        check(own.get_ref()[..] == img[..], "document after editing");
        cover(1);
    }
    /// A whole document copied element by element.
    fn h_copy() {
        let d = long(param(0));
        let off = choose(7);
        let mut r = Stream::new(&d[..]);
        r.set_graceful_eof(true);
        let mut o = Stream::new(Vec::new());
        for i in off.. {
            if i % 2 == 0 {
                let mut e = match r.next_element() { Ok(e) => e, Err(_) => fail("valid element rejected") };
                if let Element::EndOfDoc = e { break }
                check(o.write_element(&mut e).is_ok(), "copying failed");
            } else {
                let ok = match r.next_element() {
                    Ok(Element::Field(ref mut f)) => o.write_field(f).is_ok(),
                    Ok(Element::EndOfDoc) => break,
                    Ok(ref mut e) => o.write_element(e).is_ok(),
                    Err(_) => fail("valid element rejected"),
                };
                check(ok, "copying failed");
            }
        }
        let c = o.into_inner();
        // the same elements, in the shortest form
        let (mut m, mut w) = (Model::new(&d), Model::new(&c));
        m.graceful = true;
        w.graceful = true;
        loop {
            match (m.next(), w.next()) {
                (Ev::Blob(t, p, n), Ev::Blob(u, q, k)) => check(t == u && n == k && d[p as usize..(p + n) as usize] == c[q as usize..(q + k) as usize], "blob"),
                (Ev::Exc(p, n), Ev::Exc(q, k)) => check(n == k && d[p as usize..(p + n) as usize] == c[q as usize..(q + k) as usize], "exception"),
                (x, y) => { check(x == y, "element"); if let Ev::EndDoc = x { break } }
            }
        }
        cover(1);
    }
}
