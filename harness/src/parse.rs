//! The stream parser on arbitrary bytes.
use crate::model::*;
use crate::sym::*;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom};

pub const TABLE: &[(&str, extern "C" fn())] = table![
    s01_bytes, s01_elems, s04_transport, s05_eof, s05_resume, s06_skip, s06_skipup, s07_exception, s08_padding, s11_trunc, s13_fault, s01_after
];

/// All elements of `b`, compared one by one.
fn drive<R: Read>(s: &mut Stream<R>, m: &mut Model) {
    loop {
        let more = step(s, m);
        if !more {
            break;
        }
    }
    if m.eof {
        // Sticky: no further input is looked at.
        check(step(s, m) == false, "continues after the end of the document");
        cover(2);
    }
    out64(s.pos());
}

/// `k` elements, each of any kind with any tag and a payload of one
/// symbolic byte per integer, blobs of up to three bytes.
pub fn elements(k: usize) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..k {
        let d = u8s();
        b.push(d);
        let special = d & 0x3f == 0;
        let ty = concrete((d >> 6) as u64);
        if special {
            if ty == 2 {
                let at = b.len() + 1;
                blob(&mut b);
                for i in at..b.len() {
                    // messages: ASCII here, arbitrary in S07
                    assume(b[i] < 0x80);
                }
            }
        } else {
            match ty {
                0 | 1 => {
                    let v = u8s();
                    assume(v < 0x80);
                    b.push(v);
                }
                2 => blob(&mut b),
                _ => (),
            }
        }
    }
    b
}
fn blob(b: &mut Vec<u8>) {
    let n = choose(4);
    b.push(n as u8);
    b.extend_from_slice(&bytes(n));
}

harness! {
    /// n arbitrary bytes through the element API over a slice.
    fn s01_bytes() {
        let b = bytes(param(0));
        let graceful = bools();
        let mut s = Stream::from_slice(&b[..]);
        s.set_graceful_eof(graceful);
        let mut m = Model::new(&b);
        m.graceful = graceful;
        drive(&mut s, &mut m);
        cover(1);
    }
    /// n arbitrary bytes and k calls, some of them after an error: still no
    /// panic, no input read twice, and the end of the document is final.
    fn s01_after() {
        let b = bytes(param(0));
        let mut s = Stream::from_slice(&b[..]);
        s.set_graceful_eof(bools());
        let base = if bools() { u64::MAX - 64 } else { 0 };
        s.set_pos(base);
        let mut failed = false;
        for _ in 0..param(1) {
            let (before, ended) = (s.pos(), s.eof());
            let r = match choose(6) {
                0 => match s.next_element() {
                    Ok(ref e) => {
                        match *e {
                            Element::EndOfDoc => (),
                            _ => check(!ended, "element after the end of the document"),
                        }
                        true
                    }
                    Err(_) => false,
                },
                1 => match s.next_field() { Ok(ref f) => { check(f.is_none() || !ended, "field after the end of the document"); true } Err(_) => false },
                2 => match s.next_field() {
                    Ok(Some(mut f)) => match f.value {
                        Value::Blob(ref mut b) => { let mut buf = [0; 2]; b.read(&mut buf).is_ok() }
                        _ => true,
                    },
                    Ok(None) => true,
                    Err(_) => false,
                },
                3 => { let d = s.struct_depth(); s.skip_up(if d > 0 { d - 1 } else { 0 }).is_ok() }
                4 => { s.clear_eof(); true }
                _ => s.commit().is_ok(),
            };
            check(s.pos() >= before, "position goes backwards");
            check(s.pos() - base <= b.len() as u64, "position behind the input");
            if failed { cover(if r { 1 } else { 2 }) }
            failed |= !r;
        }
        out64(s.pos());
    }
    /// Well-formed sequences of k elements of any kind.
    fn s01_elems() {
        let b = elements(param(0));
        let mut s = Stream::from_slice(&b[..]);
        let mut m = Model::new(&b);
        drive(&mut s, &mut m);
        cover(1);
    }
    /// The same bytes through every kind of transport, with the blobs of the
    /// document consumed to any extent.
    fn s04_transport() {
        let b = bytes(param(0));
        let mut m = Model::new(&b);
        m.graceful = bools();
        match param(1) {
            0 => { let mut s = Stream::new(&b[..]); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
            1 => { let mut s = Stream::new_seek(Cursor::new(&b[..])); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
            2 => { let mut s = Stream::new(Chunky::new(&b, 3, 1)); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
            3 => { let mut s = Stream::new_seek(NoSeek(&b[..])); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
            4 => { let mut s = Stream::from_slice(b.clone()); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
            5 => { let mut s = Stream::new(io::BufReader::with_capacity(2, &b[..])); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
            _ => { let mut s = Stream::new_seek(io::BufReader::with_capacity(3, Cursor::new(&b[..]))); s.set_graceful_eof(m.graceful); fields(&mut s, &mut m) }
        }
    }
    /// Input that ends early: graceful only where an element could start.
    fn s05_eof() {
        let b = elements(param(0));
        let cut = choose(b.len() + 1);
        let b = &b[..cut];
        let graceful = bools();
        let mut s = Stream::new(b);
        s.set_graceful_eof(graceful);
        let mut m = Model::new(b);
        m.graceful = graceful;
        let mut n = 0;
        while step(&mut s, &mut m) { n += 1; }
        if s.eof() {
            cover(if n > 0 { 1 } else { 2 });
            check(s.struct_depth() == 0, "depth after the end of the document");
            // The flag is sticky for the field API as well, without any I/O.
            let p = s.pos();
            match s.next_field() { Ok(None) => (), _ => fail("field after the end of the document") }
            check(s.pos() == p, "input read after the end of the document");
        } else {
            cover(3);
        }
    }
    /// After an explicit end of document, clearing the flag resumes exactly
    /// behind it, as a fresh document.
    fn s05_resume() {
        let a = elements(param(0));
        let c = elements(param(1));
        let mut b = a.clone();
        b.push(0x40);
        b.extend_from_slice(&c);
        let mut s = Stream::from_slice(&b[..]);
        let mut m = Model::new(&b);
        let mut rounds = 0;
        loop {
            while step(&mut s, &mut m) {}
            if !m.eof { break; }
            rounds += 1;
            s.clear_eof();
            check(!s.eof(), "clear_eof");
            m.eof = false;
        }
        check(rounds >= 1, "an explicit end of document was not reported");
        cover(1);
        out64(s.pos());
    }
    /// Skipping a field skips exactly its subtree.
    fn s06_skip() {
        let b = elements(param(0));
        let mut s = Stream::from_slice(&b[..]);
        let mut m = Model::new(&b);
        loop {
            // Model: the next field and, if it is skipped, its whole subtree.
            let w = m.next_field();
            let skip = bools();
            match s.next_field() {
                Ok(Some(f)) => {
                    same(of_field(&f), w);
                    check(f.pos == m.fpos && f.depth == m.fdepth, "field position or depth");
                    if skip {
                        let r = f.skip();
                        let mut bad = None;
                        let d = m.fdepth;
                        while m.depth > d {
                            if let Ev::Err(e) = m.next() { bad = Some(e); break; }
                        }
                        match (r, bad) {
                            (Ok(()), None) => cover(1),
                            (Err(ref e), Some(x)) => { check(errk(e) == x, "skip: different error"); cover(2); return }
                            (Ok(()), Some(_)) => fail("skip ignored an error"),
                            (Err(_), None) => fail("skip failed"),
                        }
                    }
                    agree(&s, &m);
                }
                Ok(None) => {
                    check(w == Ev::EndStruct || w == Ev::EndDoc, "field missed");
                    agree(&s, &m);
                    if s.eof() { break; }
                }
                Err(Error::Exception(_)) => check(matches!(w, Ev::Exc(..)), "spurious exception"),
                Err(ref e) => { check(Ev::Err(errk(e)) == w, "different error"); break }
            }
            if let Ev::Exc(..) = w { check(s.struct_depth() == m.depth, "depth after an exception"); }
        }
        out64(s.pos());
    }
    /// skip_up returns to the given depth at the first possible element.
    fn s06_skipup() {
        let b = elements(param(0));
        let mut s = Stream::from_slice(&b[..]);
        let mut m = Model::new(&b);
        let k = choose(param(0));
        for _ in 0..k { if !step(&mut s, &mut m) { return } }
        let to = u64s();
        let mut bad = None;
        while m.depth > to {
            if let Ev::Err(e) = m.next() { bad = Some(e); break }
        }
        match (s.skip_up(to), bad) {
            (Ok(()), None) => { cover(1); agree(&s, &m); while step(&mut s, &mut m) {} }
            (Err(ref e), Some(x)) => { cover(2); check(errk(e) == x, "skip_up: different error") }
            _ => fail("skip_up result"),
        }
    }
    /// Exceptions: message of up to 256 bytes, then parsing resumes behind it.
    fn s07_exception() {
        let n = param(0);
        let cut = param(1); // bytes missing at the end
        let mut b = vec![];
        if bools() { b.push(0xc1); }
        b.push(0x80);
        if n >= 0x80 { b.push((n & 0x7f) as u8 | 0x80); b.push((n >> 7) as u8); } else { b.push(n as u8); }
        let st = b.len();
        // Arbitrary text at the ends (the lossy conversion looks at every byte
        // that might be malformed), ASCII in between.
        let mut body = vec![b'.'; n];
        let k = if n < 2 { n } else { 2 };
        let head = bytes(k);
        body[..k].copy_from_slice(&head);
        if n > 255 { body[255] = u8s(); }
        if n > 256 { body[256] = u8s(); }
        body.truncate(n - cut);
        b.extend_from_slice(&body);
        if cut == 0 { b.extend_from_slice(&[0x42, u8s() & 0x7f, 0x00]); }
        let seekable = bools();
        if seekable { exc(&mut Stream::from_slice(&b[..]), &b, st, n, cut) }
        else if bools() {
            // (in pieces; for long messages ASCII only)
            if n > 3 { for x in &b[st..] { assume(*x < 0x80) } }
            exc(&mut Stream::new(Chunky::new(&b[..], 3, 1)), &b, st, n, cut)
        } else { exc(&mut Stream::new(&b[..]), &b, st, n, cut) }
    }
    /// Padding between elements changes nothing the field API reports, apart
    /// from positions.
    fn s08_padding() {
        let k = param(0);
        let mut a = Vec::new();
        let mut b = Vec::new();
        let mut map = vec![0u64];
        for _ in 0..k {
            let e = elements(1);
            let np = choose(3);
            for _ in 0..np { b.push(0xc0); }
            let off = b.len() - a.len();
            for i in 0..e.len() { let _ = i; map.push(off as u64); }
            a.extend_from_slice(&e);
            b.extend_from_slice(&e);
        }
        let tail = choose(2);
        for _ in 0..tail { b.push(0xc0); }
        let mut s = Stream::from_slice(&a[..]);
        let mut t = Stream::new(&b[..]);
        loop {
            let stop;
            match (s.next_field(), t.next_field()) {
                (Ok(Some(mut f)), Ok(Some(mut g))) => {
                    check(f.tag == g.tag && f.depth == g.depth, "padding changed tag or depth");
                    // the descriptor is found behind the padding
                    check(b[g.pos as usize] & 0x3f == f.tag, "field position with padding");
                    match (&mut f.value, &mut g.value) {
                        (&mut Value::Integer(x), &mut Value::Integer(y)) => check(x == y, "padding changed an integer"),
                        (&mut Value::Struct(_), &mut Value::Struct(_)) => (),
                        (&mut Value::Enum(x, _), &mut Value::Enum(y, _)) => check(x == y, "padding changed a discriminant"),
                        (&mut Value::Blob(ref mut x), &mut Value::Blob(ref mut y)) => {
                            check(x.len() == y.len(), "padding changed a blob length");
                            if let (Ok(p), Ok(q)) = (x.read_fully(8), y.read_fully(8)) { check(p == q, "padding changed a blob") } else { fail("blob") }
                        }
                        _ => fail("padding changed the type of a field"),
                    }
                    stop = false;
                }
                (Ok(None), Ok(None)) => stop = false,
                (Err(Error::Exception(x)), Err(Error::Exception(y))) => { check(x == y, "padding changed an exception"); stop = false }
                (Err(ref e), Err(ref f)) => { check(errk(e) == errk(f), "padding changed an error"); stop = true }
                _ => fail("padding changed the elements"),
            }
            check(s.struct_depth() == t.struct_depth() && s.eof() == t.eof(), "padding changed the state");
            if stop || s.eof() { break }
            cover(1);
        }
    }
    /// A blob whose declared length exceeds the input is never taken as complete.
    fn s11_trunc() {
        let have = param(0);
        let api = param(1);
        let mut b = vec![0x81u8];
        // declared length: up to 14 bits, anything more than what follows
        let (l0, l1) = (u8s(), u8s());
        b.push(l0);
        let dl = if l0 >= 0x80 {
            assume(l1 < 0x80);
            b.push(l1);
            (l0 & 0x7f) as u64 | ((l1 as u64) << 7)
        } else { l0 as u64 };
        assume(dl > have as u64);
        b.extend_from_slice(&bytes(have));
        let graceful = bools();
        match choose(4) {
            0 => { let mut s = Stream::from_slice(&b[..]); s.set_graceful_eof(graceful); trunc(&mut s, dl, have, api) }
            1 => { let mut s = Stream::new(&b[..]); s.set_graceful_eof(graceful); trunc(&mut s, dl, have, api) }
            2 => { let mut s = Stream::new_seek(NoSeek(&b[..])); s.set_graceful_eof(graceful); trunc(&mut s, dl, have, api) }
            _ => { let mut s = Stream::new_seek(Cursor::new(&b[..])); s.set_graceful_eof(graceful); trunc(&mut s, dl, have, api) }
        }
        if api == 5 || api == 6 {
            let mut s = Stream::from_slice(b.clone());
            let mut f = match s.next_field() { Ok(Some(f)) => f, _ => fail("field") };
            let bl = match f.value.to_blob() { Ok(b) => b, _ => fail("blob") };
            let miss = dl - have as u64;
            match if api == 5 { bl.slice().map(|x| x.len()) } else { bl.slice_mut().map(|x| x.len()) } {
                Err(Error::TruncatedBlob(n)) => check(n == miss, "missing bytes"),
                _ => fail("truncated blob accepted by slice"),
            }
            let mut s = Stream::from_slice(&b[..]);
            let mut f = match s.next_field() { Ok(Some(f)) => f, _ => fail("field") };
            let bl = match f.value.to_blob() { Ok(b) => b, _ => fail("blob") };
            match bl.ext_slice() { Err(Error::TruncatedBlob(n)) => check(n == miss, "missing bytes"), _ => fail("truncated blob accepted by ext_slice") }
        }
    }
    /// A failing reader: everything before the failure is right, and the
    /// failure itself is reported, never swallowed.
    fn s13_fault() {
        let b = elements(param(0));
        let at = choose(3 * b.len() + 3) as u32;
        let kind = any_kind();
        let mut m = Model::new(&b);
        m.graceful = bools();
        let g = m.graceful;
        let mut s = Stream::new(Failing { b: &b, pos: 0, at, kind, failed: false });
        s.set_graceful_eof(g);
        let consume = bools();
        loop {
            let want = m.next_field();
            let mut io = None;
            let got = match s.next_field() {
                Ok(Some(mut f)) => {
                    let e = of_field(&f);
                    if consume {
                        if let Value::Blob(ref mut bl) = f.value {
                            match bl.read_fully(100) {
                                Ok(v) => { same(e, want); check(b[m.pos as usize..m.pend as usize] == v[..], "blob data"); m.pos = m.pend; }
                                Err(Error::Io(ref x)) if x.kind() == kind => { cover(3); return }
                                Err(_) => fail("blob error"),
                            }
                        }
                    }
                    e
                }
                Ok(None) => if s.eof() { Ev::EndDoc } else { Ev::EndStruct },
                Err(Error::Exception(_)) => match want { Ev::Exc(..) => want, _ => fail("spurious exception") },
                Err(ref e) => { io = io_kind(e); if s.get_ref().failed { Ev::Pad } else { Ev::Err(errk(e)) } }
            };
            if s.get_ref().failed {
                check(io == Some(kind), "reader failure not reported");
                cover(1);
                return;
            }
            same(got, want);
            match got { Ev::Err(_) | Ev::EndDoc => { cover(2); return } _ => () }
        }
    }
}

fn exc<R: Read>(s: &mut Stream<R>, b: &[u8], st: usize, n: usize, cut: usize) {
    let mut m = Model::new(b);
    let mut w = m.next_field();
    if let Ev::Struct(_) = w {
        match s.next_field() {
            Ok(Some(_)) => (),
            _ => fail("struct"),
        }
        w = m.next_field();
    }
    check(w == Ev::Exc(st as u64, n as u64), "model");
    let avail = n - cut;
    let k = if avail < 256 { avail } else { 256 };
    match s.next_field() {
        Err(Error::Exception(ref t)) => {
            let want = String::from_utf8_lossy(&b[st..st + k]);
            check(t.as_bytes() == want.as_bytes(), "exception message");
            cover(1);
        }
        _ => fail("exception not reported"),
    }
    check(s.struct_depth() == m.depth, "depth after an exception");
    // Subsequent calls continue immediately after the message.
    while step(s, &mut m) {}
    cover(if cut == 0 { 2 } else { 3 });
}

fn trunc<R: Read>(s: &mut Stream<R>, dl: u64, have: usize, api: usize) {
    let miss = dl - have as u64;
    let end;
    {
        let mut f = match s.next_field() {
            Ok(Some(f)) => f,
            _ => fail("field"),
        };
        let b = match f.value.to_blob() {
            Ok(b) => b,
            _ => fail("blob"),
        };
        check(b.len() == dl, "declared length");
        end = b.start_pos() + have as u64;
        match api {
            0 => (),
            1 => match b.read_fully(20000) {
                Ok(_) => fail("read_fully returned a truncated blob as complete"),
                Err(Error::TruncatedBlob(n)) => {
                    check(n == miss, "missing bytes");
                    cover(1);
                    return again(s, miss, end);
                }
                Err(Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => return again(s, miss, end),
                Err(_) => fail("unexpected error"),
            },
            2 => {
                // an explicit partial read is not an error in itself
                match b.read_or_trunc(2) {
                    Ok(v) => check(v.len() == if have < 2 { have } else { 2 }, "partial read"),
                    Err(_) => fail("partial read failed"),
                }
            }
            3 => {
                let mut buf = [0u8; 4];
                let n = if have < 4 { have + 1 } else { 4 };
                let r = b.read_exact(&mut buf[..n]);
                check(r.is_ok() == (have >= n), "read_exact beyond the data");
                if r.is_err() {
                    return again(s, miss, end);
                }
            }
            _ => (),
        }
    }
    let r = match api {
        4 => s.commit(),
        _ => s.next_element().map(|_| ()),
    };
    match r {
        Ok(()) => fail("truncated blob skipped as if complete"),
        Err(Error::TruncatedBlob(n)) => {
            check(n == miss, "missing bytes when skipping");
            cover(2);
            again(s, miss, end);
        }
        Err(_) => fail("truncated blob reported as something else"),
    }
}
/// The truncation is no less reported later on, from the end of the input.
fn again<R: Read>(s: &mut Stream<R>, miss: u64, end: u64) {
    for _ in 0..2 {
        match s.commit() {
            Err(Error::TruncatedBlob(n)) => check(n == miss, "missing bytes when reported again"),
            _ => fail("truncated blob accepted later on"),
        }
        check(s.pos() == end, "position after a truncated blob");
    }
}

/// The field API, consuming each blob to any extent first.
pub fn fields<R: Read>(s: &mut Stream<R>, m: &mut Model) {
    loop {
        let want = m.next_field();
        let mut fin = false;
        match s.next_field() {
            Ok(Some(mut f)) => {
                same(of_field(&f), want);
                check(f.pos == m.fpos && f.depth == m.fdepth, "field position or depth");
                if let Value::Blob(ref mut b) = f.value {
                    let left = m.b.len() as u64 - m.pos;
                    if b.len() <= left {
                        concrete(b.len());
                    }
                    let k = choose(3);
                    let mut buf = [0u8; 2];
                    let avail = { let x = if b.len() < left { b.len() } else { left }; if x < k as u64 { x as usize } else { k } };
                    let r = b.read_exact(&mut buf[..k]);
                    check(r.is_ok() == (avail == k), "reading blob data");
                    if r.is_err() {
                        return;
                    }
                    for i in 0..k {
                        check(buf[i] == m.b[m.pos as usize + i], "blob data");
                    }
                    m.pos += k as u64;
                    check(b.inner_pos() == k as u64, "inner position");
                    cover(1);
                }
            }
            Ok(None) => {
                check(want == Ev::EndStruct || want == Ev::EndDoc, "field missed");
                fin = want == Ev::EndDoc;
                if fin {
                    cover(2);
                }
            }
            Err(Error::Exception(ref t)) => match want {
                Ev::Exc(_, n) => {
                    let st = m.pos as usize;
                    let left = m.b.len() - st;
                    let k = if n < left as u64 { n as usize } else { left };
                    check(t.as_bytes() == String::from_utf8_lossy(&m.b[st..st + k]).as_bytes(), "exception message");
                    m.pos += k as u64;
                    cover(3);
                }
                _ => fail("spurious exception"),
            },
            Err(ref e) => {
                same(Ev::Err(errk(e)), want);
                if let Ev::Err(E::Trunc(_)) = want {
                    cover(4);
                }
                return;
            }
        }
        agree(s, m);
        if fin {
            out64(s.pos());
            return;
        }
    }
}
