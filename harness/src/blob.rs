//! Blob handles: reading, resuming, bounds, seeking; positions.
use crate::model::*;
use crate::parse::elements;
use crate::sym::*;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};

pub const TABLE: &[(&str, extern "C" fn())] = table![
    s02_base, s02_reset, s03_blob, s09_read, s10_seek, s10_write, s14_seek, s11_far, m_stream
];

/// A seekable device of unlimited size whose content is a function of the
/// position; remembers where it is.
pub struct Far {
    pub at: u64,
    pub end: u64,
    /// The first bytes.
    pub head: Vec<u8>,
    pub seeks: u32,
}
impl Read for Far {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = if b.len() > 1 { 1 } else { b.len() };
        if n == 0 || self.at >= self.end {
            return Ok(0);
        }
        let h = self.head.len() as u64;
        b[0] = if self.at < h { self.head[self.at as usize] } else { self.at as u8 };
        self.at += 1;
        Ok(1)
    }
}
impl Write for Far {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.at += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Far {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        match p {
            SeekFrom::Start(p) => self.at = p,
            SeekFrom::Current(d) => {
                let n = self.at.wrapping_add(d as u64);
                check((d >= 0) == (n >= self.at), "device position wraps");
                self.at = n;
            }
            SeekFrom::End(d) => self.at = self.end.wrapping_add(d as u64),
        }
        Ok(self.at)
    }
}

/// One operation on the blob at model position `*p` of `n` bytes of `d`.
fn op<R: BufRead + Seek>(b: &mut Blob<R>, d: &[u8], p: &mut usize, base: u64) {
    let n = d.len();
    match choose(7) {
        0 => {
            let k = choose(3);
            let mut buf = [0xeeu8; 3];
            match b.read(&mut buf[..k]) {
                Ok(m) => {
                    check(m <= k && m <= n - *p, "read beyond the blob");
                    check(m > 0 || k == 0 || *p == n, "read stops before the end of the blob");
                    check(buf[..m] == d[*p..*p + m], "blob data");
                    for i in m..3 {
                        check(buf[i] == 0xee, "buffer written beyond what was reported");
                    }
                    *p += m;
                }
                Err(_) => fail("read failed"),
            }
        }
        1 => {
            let (l, same_) = match b.fill_buf() {
                Ok(x) => (x.len(), x.len() <= n - *p && x[..] == d[*p..*p + x.len()]),
                Err(_) => fail("fill_buf failed"),
            };
            check(l <= n - *p, "fill_buf beyond the blob");
            check(same_, "buffered blob data");
            check(l > 0 || *p == n, "fill_buf stops before the end of the blob");
            let k = choose(l + 1);
            b.consume(k);
            *p += k;
        }
        2 => {
            let max = choose(3);
            match b.read_or_trunc(max) {
                Ok(v) => {
                    let k = if n - *p < max { n - *p } else { max };
                    check(v[..] == d[*p..*p + k], "read_or_trunc data");
                    *p += k;
                }
                Err(_) => fail("read_or_trunc failed"),
            }
        }
        3 => {
            let max = choose(n + 2);
            match b.read_fully(max) {
                Ok(v) => {
                    check(n - *p <= max, "read_fully beyond the maximum");
                    check(v[..] == d[*p..], "read_fully data");
                    *p = n;
                }
                Err(Error::LargeBlob(m, r)) => {
                    check(n - *p > max, "blob within the maximum rejected");
                    check(m == max && r == (n - *p) as u64, "LargeBlob numbers");
                }
                Err(_) => fail("read_fully failed"),
            }
        }
        k => {
            let (w, t) = match k {
                4 => {
                    let x = u64s();
                    (SeekFrom::Start(x), if x <= n as u64 { Some(x as usize) } else { None })
                }
                5 => {
                    let x = i64s();
                    (SeekFrom::End(x), if x <= 0 && x >= -(n as i64) { Some((n as i64 + x) as usize) } else { None })
                }
                _ => {
                    let x = i64s();
                    let lo = -(*p as i64);
                    let hi = (n - *p) as i64;
                    (SeekFrom::Current(x), if x >= lo && x <= hi { Some((*p as i64 + x) as usize) } else { None })
                }
            };
            match (b.seek(w), t) {
                (Ok(q), Some(t)) => {
                    check(q == t as u64, "seek result");
                    *p = concrete(t as u64) as usize;
                }
                (Err(_), None) => (),
                (Ok(_), None) => fail("seek outside the blob accepted"),
                (Err(_), Some(_)) => fail("seek inside the blob rejected"),
            }
        }
    }
    check(b.len() == n as u64, "len changes");
    check(b.inner_pos() == *p as u64, "inner_pos");
    check(b.remaining() == (n - *p) as u64, "remaining");
    check(b.start_pos() == base && b.end_pos() == base + n as u64, "start_pos or end_pos");
    check(b.stream_pos() == base + *p as u64, "stream_pos");
}

fn blob_ops<R: BufRead + Seek>(mut s: Stream<R>, b: &[u8], n: usize, ops: usize, exc: bool) {
    let base = 2u64;
    let mut p = 0;
    {
        let mut e = match s.next_element() {
            Ok(e) => e,
            Err(_) => fail("blob rejected"),
        };
        let bl = match e {
            Element::Field(Field { value: Value::Blob(ref mut bl), .. }) if !exc => bl,
            Element::Exception(ref mut bl) if exc => bl,
            _ => fail("not a blob"),
        };
        check(blob_fresh(bl) == (base, n as u64), "fresh blob");
        for _ in 0..ops {
            op(bl, &b[2..2 + n], &mut p, base);
        }
    }
    cover(if p == 0 { 1 } else if p < n { 2 } else { 3 });
    let mut m = Model::new(b);
    m.next();
    m.pos = base + p as u64;
    if bools() {
        check(s.commit().is_ok(), "commit failed");
        check(s.pos() == base + n as u64, "commit does not reach the end of the blob");
    }
    while step(&mut s, &mut m) {}
    out64(s.pos());
}

harness! {
    /// Any operations on a blob; parsing resumes exactly behind it.
    fn s03_blob() {
        let n = param(0);
        let exc = param(3) == 1;
        let mut b = vec![if exc { 0x80 } else { 0x81 }, n as u8];
        b.extend_from_slice(&bytes(n));
        b.extend_from_slice(&[0x42, u8s() & 0x7f, 0xc3, 0x00, 0x40]);
        match param(2) {
            0 => blob_ops(Stream::from_slice(&b[..]), &b, n, param(1), exc),
            1 => blob_ops(Stream::new(Cursor::new(&b[..])), &b, n, param(1), exc),
            // (the header and part of the blob fill the first buffer)
            k => blob_ops(Stream::new_seek(io::BufReader::with_capacity(k, Cursor::new(&b[..]))), &b, n, param(1), exc),
        }
    }
    /// Positions are relative to whatever the stream's starting offset is.
    fn s02_base() {
        let b = elements(param(0));
        let base = u64s();
        // beyond this, S09
        assume(base <= u64::MAX - 10000);
        let mut s = Stream::new(&b[..]);
        s.set_pos(base);
        let mut m = Model::new(&b);
        m.base = base;
        m.graceful = bools();
        s.set_graceful_eof(m.graceful);
        while step(&mut s, &mut m) {}
        cover(1);
    }
    /// Changing the logical position in mid-stream shifts later positions only.
    fn s02_reset() {
        let b = elements(param(0));
        let k = choose(param(0));
        let mut s = Stream::from_slice(&b[..]);
        let mut m = Model::new(&b);
        for _ in 0..k { if !step(&mut s, &mut m) { return } }
        let p = u64s();
        assume(p <= u64::MAX - 10000);
        match s.reset_pos(p) {
            Ok(()) => {
                if m.pend > m.pos { m.pos = m.pend }
                check(m.pos <= b.len() as u64, "truncated blob");
                check(s.pos() == p, "reset_pos");
                m.base = p.wrapping_sub(m.pos);
                // the model computes with wrapped bases
                let cutoff = m.pos as usize;
                let mut t = Model::new(&b[cutoff..]);
                t.base = p;
                t.depth = m.depth;
                t.eof = m.eof;
                while step(&mut s, &mut t) {}
                cover(1);
            }
            Err(Error::TruncatedBlob(x)) => {
                check(m.pend > b.len() as u64 && x == m.pend - b.len() as u64, "spurious truncation");
                cover(2);
            }
            Err(_) => fail("reset_pos failed"),
        }
    }
    /// No input at any position makes the position wrap.
    fn s09_read() {
        let b = bytes(param(0));
        let base = u64s();
        let mut s = Stream::new(&b[..]);
        s.set_pos(base);
        let mut m = Model::new(&b);
        m.base = base;
        loop {
            let want = m.next_field();
            let got = match s.next_field() {
                Ok(Some(ref f)) => of_field(f),
                Ok(None) => want,
                Err(Error::Exception(_)) => { if let Ev::Exc(_, n) = want {
                    let left = m.b.len() as u64 - m.pos;
                    m.pos += if n < left { n } else { left };
                    want
                } else { fail("spurious exception") } }
                Err(ref e) => Ev::Err(errk(e)),
            };
            // never behind the start, never beyond what was consumed
            check(s.pos() >= base, "position wraps");
            check(s.pos() - base <= b.len() as u64, "position beyond the input");
            if got == Ev::Err(E::Pos) && want != got {
                check(base > u64::MAX - 10000, "position limit reported far from it");
                cover(1);
                return;
            }
            same(got, want);
            match got { Ev::Err(_) => return, _ => () }
            if s.eof() { cover(2); return }
        }
    }
    /// Seeking in a blob of any length at any position.
    fn s10_seek() {
        let len = u64s();
        let base = if param(1) == 0 { 0 } else { u64s() };
        assume(base <= u64::MAX - 20000);
        assume(len <= u64::MAX - 11 - base);
        let mut s = Stream::new(Far { at: 0, end: u64::MAX, head: Vec::new(), seeks: 0 });
        s.set_pos(base);
        let mut b = match s.write_blob_alloc(1, len) { Ok(b) => b, Err(_) => fail("blob of any length") };
        let h = b.stream_get_ref().at;
        check(h >= 2 && h <= 11, "header length");
        check(b.len() == len && b.start_pos() == base + h && b.end_pos() == base + h + len, "bounds");
        let mut p = 0u64;
        for _ in 0..param(0) {
            let x = u64s();
            let i = x as i64;
            let (w, t) = match choose(3) {
                0 => (SeekFrom::Start(x), if x <= len { Some(x) } else { None }),
                1 => (SeekFrom::End(i), if i <= 0 && (i as u64).wrapping_neg() <= len { Some(len.wrapping_add(i as u64)) } else { None }),
                _ => (SeekFrom::Current(i), {
                    let neg = (i as u64).wrapping_neg();
                    if i < 0 { if neg <= p { Some(p - neg) } else { None } }
                    else if x <= len - p { Some(p + x) } else { None } }),
            };
            let old = (b.inner_pos(), b.stream_get_ref().at);
            check(old == (p, p + h), "blob position");
            match b.seek(w) {
                Ok(q) => match t {
                    Some(t) => {
                        check(q == t, "seek result");
                        p = t;
                        cover(1);
                    }
                    None => fail("seek outside the blob accepted"),
                },
                Err(ref e) => match t {
                    None => { check(e.kind() == io::ErrorKind::InvalidInput, "kind of error"); cover(2) }
                    // a displacement no single relative seek can express
                    Some(t) => {
                        let d = if t > p { t - p } else { p - t };
                        check(d > i64::MAX as u64, "seek inside the blob rejected");
                        cover(3);
                    }
                }
            }
            check(b.inner_pos() == p && b.remaining() == len - p, "position after seek");
            check(b.stream_pos() == base + h + p, "stream position after seek");
            check(b.stream_get_ref().at == h + p, "device and blob positions differ");
        }
    }
    /// A blob of any length is passed over exactly, or its truncation reported.
    fn s11_far() {
        let (len, end) = (u64s(), u64s());
        let mut head = vec![0x81];
        int(&mut head, len);
        // (decoding forks on every zero group, which W02 is about)
        for i in 2..head.len() { assume(head[i - 1] & 0x7f != 0) }
        let h = head.len() as u64;
        assume(end >= h && len <= u64::MAX - 16);
        let have = end - h;
        let mut s = Stream::new_seek(Far { at: 0, end, head, seeks: 0 });
        let mut p = 0;
        {
            let mut f = match s.next_field() { Ok(Some(f)) => f, _ => fail("blob of any length rejected") };
            let b = match f.value.to_blob() { Ok(b) => b, _ => fail("not a blob") };
            check(b.len() == len && b.start_pos() == h, "blob of any length");
            // some of it may be read first, at either end
            match param(0) {
                0 => (),
                k => {
                    if k == 2 { p = u8s() as u64; if bools() { p = len.wrapping_sub(p) } assume(p <= len); if b.seek(SeekFrom::Start(p)).is_err() { return } }
                    if k == 3 { match b.seek(SeekFrom::End(0)) { Ok(q) => { check(q == len, "seek to the end"); p = q } Err(_) => return } }
                    let mut buf = [0];
                    if k == 1 || k == 2 {
                        match b.read(&mut buf) {
                            Ok(1) => { check(p < len && p < have && buf[0] == (h + p) as u8, "blob data"); p += 1 }
                            Ok(_) => check(p >= len || p >= have, "blob data missing"),
                            Err(_) => fail("read failed"),
                        }
                    }
                }
            }
            check(b.inner_pos() == p && b.remaining() == len - p, "position in a blob of any length");
        }
        match s.commit() {
            Ok(()) => {
                check(len <= have || p == len, "truncated blob skipped as if complete");
                check(s.pos() == h + len, "position behind the blob");
                check(s.get_ref().at == h + len, "device behind the blob");
                cover(1);
            }
            Err(Error::TruncatedBlob(n)) => {
                check(len > have, "complete blob reported as truncated");
                check(p < have || n == len - p, "missing bytes");
                check(p >= have || n == len - have, "missing bytes");
                if p <= have { check(s.pos() == end && s.get_ref().at == end, "position after a truncated blob") }
                cover(2);
            }
            Err(_) => fail("commit failed"),
        }
    }
    /// Writing never goes beyond the allocated length.
    fn s10_write() {
        let len = param(0);
        let mut s = Stream::new(Cursor::new(Vec::new()));
        let mut img = vec![0u8; len];
        let mut p = 0usize;
        let mut hi = 0usize;
        {
            let mut b = match s.write_blob_alloc(1, len as u64) { Ok(b) => b, Err(_) => fail("write_blob_alloc") };
            check(b.len() == len as u64 && b.remaining() == len as u64 && b.inner_pos() == 0, "fresh output blob");
            for _ in 0..param(1) {
                if bools() {
                    let d = bytes(choose(len + 2));
                    match b.write(&d) {
                        Ok(n) => {
                            check(n <= d.len() && n <= len - p, "wrote beyond the blob");
                            check(n > 0 || d.is_empty() || p == len, "write accepts nothing");
                            img[p..p + n].copy_from_slice(&d[..n]);
                            p += n;
                        }
                        Err(_) => fail("write failed"),
                    }
                } else {
                    let x = i64s();
                    let ok = x >= -(p as i64) && x <= (hi - p) as i64;
                    // only back into what was written
                    assume(x <= (hi - p) as i64);
                    match b.seek(SeekFrom::Current(x)) {
                        Ok(q) => { check(ok, "seek before the blob"); p = concrete(q) as usize }
                        Err(_) => check(!ok, "seek rejected"),
                    }
                }
                if p > hi { hi = p }
                check(b.inner_pos() == p as u64 && b.remaining() == (len - p) as u64, "position while writing");
            }
        }
        let r = s.write_u64(2, 5);
        let v = s.into_inner().into_inner();
        if p == len {
            check(r.is_ok(), "complete blob rejected");
            check(v.len() == 2 + len + 2 && v[0] == 0x81 && v[1] == len as u8, "written header");
            check(v[2..2 + len] == img[..], "written data");
            check(v[2 + len..] == [0x42, 5], "field behind the blob");
            cover(1);
        } else {
            match r {
                Err(Error::IncompleteBlob(n)) => check(n == (len - p) as u64, "missing bytes"),
                _ => fail("incomplete blob accepted"),
            }
            check(v.len() == 2 + hi, "written behind an incomplete blob");
            cover(2);
        }
    }
    /// A blob or exception that claims any length, on a device of any size:
    /// what is allocated depends on what is asked for.
    fn m_stream() {
        let exc = bools();
        let mut b = vec![if exc { 0x80 } else { 0x81 }];
        let n = u64s();
        int(&mut b, n);
        for i in 2..b.len() { assume(b[i - 1] & 0x7f != 0) }
        let end = u64s();
        assume(end >= b.len() as u64);
        let k = choose(4);
        // (messages of other lengths: S07)
        if k == 0 && exc { assume(n > 1 << 20 && end > 1 << 20) }
        let far = Far { at: 0, end, head: b, seeks: 0 };
        let mut s = match param(0) { 0 => Stream::new(far), _ => Stream::new_seek(far) };
        heap(8192);
        match k {
            0 => match s.next_field() { Ok(Some(f)) => { let _ = f.skip(); } Ok(None) => fail("no field"), Err(_) => () },
            k => {
                let mut e = match s.next_element() { Ok(e) => e, Err(Error::Io(_)) => return, Err(_) => fail("blob rejected") };
                let bl = match e {
                    Element::Field(Field { value: Value::Blob(ref mut bl), .. }) => bl,
                    Element::Exception(ref mut bl) => bl,
                    _ => fail("not a blob"),
                };
                match k {
                    1 => match bl.read_fully(1 + choose(3) * 4) {
                        Ok(v) => { check(v.len() as u64 == bl.len(), "read_fully"); cover(1) }
                        Err(Error::LargeBlob(..)) => cover(2),
                        Err(Error::TruncatedBlob(_)) => cover(3),
                        Err(_) => fail("read_fully failed"),
                    },
                    2 => match bl.read_or_trunc(choose(3) * 4) {
                        Ok(v) => check(v.len() as u64 <= bl.len() && v.len() <= 8, "read_or_trunc"),
                        Err(_) => fail("read_or_trunc failed"),
                    },
                    _ => (),
                }
            }
        }
        // passing over the rest, where the device does it at once
        if param(0) == 1 { let _ = s.commit(); }
        heap(0);
        out64(s.pos());
    }
    /// Seeking back to a field reads the same field again.
    fn s14_seek() {
        let b = elements(param(0));
        let mut s = Stream::from_slice(&b[..]);
        let mut m = Model::new(&b);
        // read on to any point, leaving the last element in any state
        let k = choose(param(0) + 1);
        for _ in 0..k { if !step(&mut s, &mut m) { return } }
        let mut t = Model::new(&b);
        let j = choose(param(0));
        for _ in 0..j { t.next(); if t.pend > t.pos { t.pos = t.pend } }
        if t.pos > b.len() as u64 || m.pend > b.len() as u64 || m.eof || t.eof { return }
        let w = if bools() { SeekFrom::Start(t.pos) } else { SeekFrom::End(t.pos as i64 - b.len() as i64) };
        match s.seek(w) {
            Ok(p) => check(p == t.pos, "seek result"),
            Err(_) => fail("seek failed"),
        }
        check(s.pos() == t.pos, "position after seek");
        check(s.struct_depth() == 0, "depth after seek");
        t.depth = 0;
        while step(&mut s, &mut t) {}
        cover(1);
    }
}

fn int(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
