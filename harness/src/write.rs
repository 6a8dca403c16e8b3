//! The writing half of the stream, value conversions and the cursor adaptors.
use crate::model::*;
use crate::parse::elements;
use crate::sym::*;
use fourleaf::io::{AsExtBytes, TransparentCursor};
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};

pub const TABLE: &[(&str, extern "C" fn())] = table![
    t01_ops, t01_signed, t01_roundtrip, t02_incomplete, t02_overlong, t03_dynamic, t03_limit, t04_align, t05_copy, t05_partial,
    t06_short, t06_fault, s12_ints, s12_types, a01_cursor, s09_write
];

/// The format's own definition of an integer.
pub fn ref_int(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 & 0x7f | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
pub fn zz(v: i64) -> u64 {
    if v < 0 {
        !((v as u64) << 1)
    } else {
        (v as u64) << 1
    }
}
fn tag() -> u8 {
    let t = u8s();
    assume(t >= 1 && t <= 63);
    t
}
/// An integer: any u64, or one of a single byte.
fn val(wide: bool) -> u64 {
    if wide {
        u64s()
    } else {
        let v = u8s();
        assume(v < 0x80);
        v as u64
    }
}
const NOPS: usize = 11;
/// Performs one write operation and appends what it must produce.
fn wop<W: Write>(s: &mut Stream<W>, want: &mut Vec<u8>, wide: bool, which: usize) -> Result<(), Error> {
    let before = want.len();
    match which {
        0 => {
            let (t, v) = (tag(), val(wide));
            want.push(0x40 | t);
            ref_int(want, v);
            s.write_u64(t, v)
        }
        1 => {
            let (t, n) = (tag(), choose(4));
            let d = bytes(n);
            want.extend_from_slice(&[0x80 | t, n as u8]);
            want.extend_from_slice(&d);
            s.write_blob_data(t, &d).map(|b| {
                check(b.len() == n as u64 && b.remaining() == 0, "written blob");
            })
        }
        2 => {
            let t = tag();
            want.push(0xc0 | t);
            s.write_struct(t)
        }
        3 => {
            let (t, v) = (tag(), val(wide));
            want.push(t);
            ref_int(want, v);
            s.write_enum(t, v)
        }
        4 => {
            want.push(0);
            s.write_end_struct()
        }
        5 => {
            want.push(0x40);
            s.write_end_doc()
        }
        6 => {
            want.push(0xc0);
            s.write_padding()
        }
        7 => {
            let n = choose(3);
            let d = bytes(n);
            want.extend_from_slice(&[0x80, n as u8]);
            want.extend_from_slice(&d);
            s.write_exception_data(&d).map(|_| ())
        }
        8 => {
            let t = tag();
            want.extend_from_slice(&[0x40 | t, 0]);
            s.write_null(t)
        }
        9 => {
            let (t, b) = (tag(), bools());
            want.extend_from_slice(&[0x40 | t, b as u8]);
            s.write_bool(t, b)
        }
        _ => {
            // in pieces
            let (t, n) = (tag(), choose(3));
            let d = bytes(n);
            want.extend_from_slice(&[0x80 | t, n as u8]);
            want.extend_from_slice(&d);
            let mut b = s.write_blob_alloc(t, n as u64)?;
            let k = choose(n + 1);
            b.write_all(&d[..k])?;
            b.write_all(&d[k..])?;
            Ok(())
        }
    }
    .map(|_| {
        let _ = before;
    })
}

/// Accepts any part of what it is given.
pub struct Short {
    pub v: Vec<u8>,
    pub free: u32,
    pub intr: u32,
}
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.intr > 0 && bools() {
            self.intr -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if n > 1 && self.free > 0 {
            self.free -= 1;
            n = 1 + choose(if n < 3 { n } else { 3 });
            if n > b.len() {
                n = b.len();
            }
        }
        self.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Fails or stops accepting after `at` bytes.
pub struct Full {
    pub v: Vec<u8>,
    pub at: usize,
    pub zero: bool,
    pub kind: io::ErrorKind,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let left = self.at - self.v.len();
        if left == 0 && b.len() > 0 {
            return if self.zero { Ok(0) } else { Err(self.kind.into()) };
        }
        let n = if b.len() < left { b.len() } else { left };
        self.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

harness! {
    /// Any k operations write exactly the documented bytes, and these read
    /// back as the same elements.
    fn t01_ops() {
        let mut s = Stream::new(Vec::new());
        let mut want = Vec::new();
        for _ in 0..param(0) {
            let w = choose(NOPS);
            check(wop(&mut s, &mut want, param(1) == 1, w).is_ok(), "write failed");
            check(s.pos() == want.len() as u64, "position after writing");
        }
        check(s.commit().is_ok(), "commit failed");
        check(s.into_inner() == want, "written bytes differ from the format");
        cover(1);
        let mut s = Stream::from_slice(&want[..]);
        let mut m = Model::new(&want);
        m.graceful = true;
        s.set_graceful_eof(true);
        while step(&mut s, &mut m) {}
        check(m.eof, "what was written does not parse");
        out(&want);
    }
    /// Every integer-writing function, over its whole range, is read back by
    /// its counterpart.
    fn t01_signed() {
        let mut s = Stream::new(Vec::new());
        let t = tag();
        let mut w = Vec::new();
        w.push(0x40 | t);
        macro_rules! one {
            ($mk:ident, $wr:ident, $rd:ident, $enc:expr) => {{
                let v = $mk();
                check(s.$wr(t, v).is_ok(), "write failed");
                ref_int(&mut w, $enc(v));
                let b = s.into_inner();
                check(b == w, "integer encoding");
                let mut r = Stream::from_slice(&b[..]);
                match r.next_field() {
                    Ok(Some(f)) => {
                        check(f.tag == t, "tag");
                        match f.value.$rd() { Ok(x) => check(x == v, "integer read back differs"), Err(_) => fail("integer not read back") }
                    }
                    _ => fail("integer not read back"),
                }
            }}
        }
        match param(0) {
            0 => one!(u8s, write_u8, to_u8, |v| v as u64),
            1 => one!(i8s, write_i8, to_i8, |v| zz(v as i64)),
            2 => one!(u16s, write_u16, to_u16, |v| v as u64),
            3 => one!(i16s, write_i16, to_i16, |v| zz(v as i64)),
            4 => one!(u32s, write_u32, to_u32, |v| v as u64),
            5 => one!(i32s, write_i32, to_i32, |v| zz(v as i64)),
            6 => one!(u64s, write_u64, to_u64, |v| v),
            7 => one!(i64s, write_i64, to_i64, |v| zz(v)),
            8 => one!(usizes, write_usize, to_usize, |v| v as u64),
            9 => one!(isizes, write_isize, to_isize, |v| zz(v as i64)),
            _ => one!(bools, write_bool, to_bool, |v| v as u64),
        }
        cover(1);
    }
    /// Parsing what was written gives back the operations.
    fn t01_roundtrip() {
        let mut s = Stream::new(Cursor::new(Vec::new()));
        let w = param(0);
        let (t1, v1) = (tag(), val(w == 0));
        let (t2, v2) = (tag(), if w == 1 { i64s() } else { i8s() as i64 });
        let (t3, v3) = (tag(), val(w == 2));
        let ok = s.write_u64(t1, v1).is_ok() & s.write_i64(t2, v2).is_ok() & s.write_enum(t3, v3).is_ok() & s.write_end_struct().is_ok();
        check(ok, "write failed");
        let b = s.into_inner().into_inner();
        let mut s = Stream::new(&b[..]);
        match s.next_field() { Ok(Some(f)) => check(f.tag == t1 && f.value.to_u64().ok() == Some(v1), "u64 field"), _ => fail("field") }
        match s.next_field() { Ok(Some(f)) => check(f.tag == t2 && f.value.to_i64().ok() == Some(v2), "i64 field"), _ => fail("field") }
        match s.next_field() { Ok(Some(mut f)) => check(f.tag == t3 && match f.value.to_enum() { Ok((d, _)) => d == v3, _ => false }, "enum field"), _ => fail("field") }
        match s.next_field() { Ok(None) => (), _ => fail("end") }
        check(s.struct_depth() == 1 && s.pos() == b.len() as u64, "state");
    }
    /// A blob left incomplete is an error at the next operation.
    fn t02_incomplete() {
        let len = u64s();
        let base = u64s();
        assume(base <= u64::MAX - 64 && len <= u64::MAX - 64 - base);
        let have = choose(3);
        assume(have as u64 <= len);
        let mut s = Stream::new(Vec::new());
        s.set_pos(base);
        let exc = bools();
        let d = bytes(have);
        let h = {
            let r = if exc { s.write_exception_alloc(len) } else { s.write_blob_alloc(1, len) };
            let mut b = match r { Ok(b) => b, Err(_) => fail("write_blob_alloc") };
            let h = b.stream_get_ref().len();
            match b.write_all(&d) { Ok(()) => (), Err(_) => fail("blob write") }
            check(b.remaining() == len - have as u64, "remaining");
            h
        };
        let miss = len - have as u64;
        let mut sink = Vec::new();
        let r = match choose(4) { 0 => s.commit(), 1 => s.pad_to_align(1), 2 => s.reset_pos(7), _ => { let k = choose(NOPS); wop(&mut s, &mut sink, false, k) } };
        if miss == 0 {
            check(r.is_ok(), "complete blob rejected");
            cover(1);
        } else {
            match r {
                Err(Error::IncompleteBlob(n)) => check(n == miss, "missing bytes"),
                _ => fail("incomplete blob accepted"),
            }
            check(s.get_ref().len() == h + have, "bytes written behind an incomplete blob");
            // and again, whatever is tried
            let r = match choose(4) { 0 => s.commit(), 1 => s.pad_to_align(1), 2 => s.reset_pos(7), _ => { let k = choose(NOPS); wop(&mut s, &mut sink, false, k) } };
            match r {
                Err(Error::IncompleteBlob(n)) => check(n == miss, "missing bytes"),
                _ => fail("incomplete blob accepted the second time"),
            }
            check(s.get_ref().len() == h + have, "bytes written behind an incomplete blob");
            cover(2);
        }
    }
    /// Lengths that cannot be represented are refused before writing.
    fn t02_overlong() {
        let len = u64s();
        let base = u64s();
        let mut s = Stream::new(Vec::new());
        s.set_pos(base);
        let r = if bools() { s.write_exception_alloc(len).map(|b| (b.end_pos(), b.len())) } else { s.write_blob_alloc(9, len).map(|b| (b.end_pos(), b.len())) };
        let n = s.get_ref().len() as u64;
        match r {
            Ok((e, l)) => {
                check(l == len && e == base.wrapping_add(n).wrapping_add(len) && e >= base, "end of the blob wraps");
                check(n >= 2 && n <= 11, "header");
                cover(1);
            }
            Err(_) => {
                check(n == 0, "refused blob partly written");
                // the header takes up to eleven bytes
                check(len > u64::MAX - 11 || base > u64::MAX - 11 - len, "representable blob refused");
                cover(2);
            }
        }
    }
    /// Blobs of unknown length, written in pieces with seeks in between,
    /// anywhere in a larger output.
    fn t03_dynamic() {
        let pre = choose(2);
        let logical = u64s();
        assume(logical < 1 << 63);
        // (possibly over data that is already there)
        let over = if bools() { 40 } else { 0 };
        let mut c = Cursor::new(vec![0xaa; pre + over]);
        c.set_position(pre as u64);
        let mut s = Stream::new(c);
        s.set_pos(logical);
        let mut want = vec![0xaa; pre];
        if bools() { want.push(0xc0); check(s.write_padding().is_ok(), "padding"); }
        let exc = bools();
        let t = if exc { 0x80 } else { 0x80 | tag() };
        want.push(t);
        let lenat = want.len();
        let mut img: Vec<u8> = Vec::new();
        let mut p = 0usize;
        {
            let r = if exc { s.write_exception_dynamic() } else { s.write_blob_dynamic(t & 0x3f) };
            let mut b = match r { Ok(b) => b, Err(_) => fail("write_blob_dynamic") };
            for _ in 0..param(0) {
                if p > 0 && bools() {
                    // back to any place and overwrite up to the end again
                    let q = choose(p + 1);
                    match b.seek(if bools() { SeekFrom::Start(q as u64) } else { SeekFrom::Current(q as i64 - p as i64) }) {
                        Ok(x) => check(x == q as u64, "seek"),
                        Err(_) => fail("seek failed"),
                    }
                    let d = bytes(p - q);
                    check(b.write_all(&d).is_ok(), "overwrite");
                    img[q..].copy_from_slice(&d);
                } else {
                    let d = bytes(choose(3));
                    check(b.write_all(&d).is_ok(), "write");
                    img.extend_from_slice(&d);
                    p += d.len();
                }
                check(b.inner_pos() == p as u64, "position");
            }
        }
        for i in 0..10 {
            let g = (img.len() as u64 >> (7 * i)) as u8 & 0x7f;
            want.push(if i < 9 { g | 0x80 } else { g });
        }
        check(want.len() == lenat + 10, "harness");
        want.extend_from_slice(&img);
        // any operation completes the blob and continues behind it
        if bools() { check(s.commit().is_ok(), "commit"); }
        let k = choose(3);
        let r = match k { 0 => s.commit(), 1 => { want.push(0); s.write_end_struct() } _ => { want.extend_from_slice(&[0x45, 1]); s.write_u64(5, 1) } };
        check(r.is_ok(), "finishing the blob failed");
        check(s.pos() == logical + (want.len() - pre) as u64, "position behind the blob");
        let c = s.into_inner();
        check(c.position() == want.len() as u64, "device position behind the blob");
        let c = c.into_inner();
        check(c[..want.len()] == want[..], "output");
        check(c.len() == if over == 0 { want.len() } else { pre + over }, "amount of output");
        for x in &c[want.len()..] { check(*x == 0xaa, "data behind the blob overwritten") }
        cover(1);
        let mut m = Model::new(&want[pre..]);
        m.graceful = true;
        let mut r = Stream::from_slice(&want[pre..]);
        r.set_graceful_eof(true);
        while step(&mut r, &mut m) {}
        check(m.eof, "output does not parse");
    }
    /// Starting a blob of unknown length at any position.
    fn t03_limit() {
        let base = u64s();
        let mut s = Stream::new(Cursor::new(Vec::new()));
        s.set_pos(base);
        match s.write_blob_dynamic(1) {
            Ok(b) => {
                check(b.end_pos() >= b.start_pos() && b.start_pos() == base.wrapping_add(11) && b.start_pos() > base, "bounds wrap");
                check(b.remaining() == b.len(), "remaining");
                cover(1);
            }
            Err(_) => { check(base > u64::MAX - 11, "refused"); check(s.pos() == base, "refused blob partly written"); cover(2); return }
        }
        check(s.write_null(2).is_ok() || base > u64::MAX - 16, "write after an empty blob");
    }
    /// Alignment padding.
    fn t04_align() {
        let al = 1u64 << param(0);
        let base = u64s();
        assume(base <= u64::MAX - 1000);
        let mut s = Stream::new(Vec::new());
        s.set_pos(base);
        let pend = choose(3);
        if pend == 1 { match s.write_blob_data(1, b"x") { Ok(_) => (), Err(_) => fail("blob") } }
        if pend == 2 { match s.write_blob_alloc(1, 1) { Ok(_) => (), Err(_) => fail("blob") } }
        let at = s.get_ref().len() as u64;
        let r = s.pad_to_align(al);
        if pend == 2 {
            check(match r { Err(Error::IncompleteBlob(1)) => true, _ => false }, "incomplete blob padded");
            return;
        }
        check(r.is_ok(), "pad_to_align failed");
        let n = s.get_ref().len() as u64 - at;
        check(s.pos() == base + at + n && s.pos() & (al - 1) == 0, "not aligned");
        check(n < al, "more padding than needed");
        for b in &s.get_ref()[at as usize..] { check(*b == 0xc0, "padding byte"); }
        cover(n as u32);
    }
    /// Copying a document element by element.
    fn t05_copy() {
        let b = if param(0) > 0 { elements(param(0)) } else { bytes(param(1)) };
        let mut s = Stream::new(&b[..]);
        let mut d = Stream::new(Cursor::new(Vec::new()));
        let mut m = Model::new(&b);
        m.graceful = true;
        s.set_graceful_eof(true);
        let mut want = Vec::new();
        let mut complete = true;
        loop {
            let e = m.next();
            match s.next_element() {
                Ok(mut x) => {
                    same(of_element(&x), e);
                    match e {
                        Ev::Int(t, v) => { want.push(0x40 | t); ref_int(&mut want, v) }
                        Ev::Struct(t) => want.push(0xc0 | t),
                        Ev::Enum(t, v) => { want.push(t); ref_int(&mut want, v) }
                        Ev::EndStruct => want.push(0),
                        Ev::Pad => want.push(0xc0),
                        Ev::Blob(..) | Ev::Exc(..) => {
                            let (n, t) = match e { Ev::Blob(t, _, n) => (n, t), Ev::Exc(_, n) => (n, 0), _ => fail("") };
                            want.push(0x80 | t);
                            ref_int(&mut want, n);
                            let have = b.len() as u64 - m.pos;
                            complete = n <= have;
                            let k = if complete { concrete(n) } else { have };
                            want.extend_from_slice(&b[m.pos as usize..(m.pos + k) as usize]);
                        }
                        _ => (),
                    }
                    if e == Ev::EndDoc { break; }
                    let r = match x {
                        Element::Field(ref mut f) if bools() => d.write_field(f),
                        ref mut x => d.write_element(x),
                    };
                    check(r.is_ok(), "write_element failed");
                }
                Err(ref x) => { check(Ev::Err(errk(x)) == e, "different error"); break }
            }
        }
        match d.commit() {
            Ok(()) => { check(complete, "truncated blob copied as if complete"); cover(1) }
            Err(Error::IncompleteBlob(_)) => { check(!complete, "complete blob rejected"); cover(2) }
            Err(_) => fail("commit failed"),
        }
        check(d.into_inner().into_inner() == want, "copy differs");
    }
    /// A blob already read in part cannot be copied into something that looks
    /// complete but is not.
    fn t05_partial() {
        let b = elements(1);
        let mut s = Stream::new(&b[..]);
        let mut d = Stream::new(Vec::new());
        match s.next_field() {
            Ok(Some(mut f)) => {
                let mut k = 0;
                let mut n = 0;
                if let Value::Blob(ref mut bl) = f.value {
                    n = bl.len() as usize;
                    k = choose(n + 1);
                    let mut buf = [0u8; 4];
                    check(bl.read_exact(&mut buf[..k]).is_ok(), "read");
                }
                let r = d.write_field(&mut f).and_then(|_| d.commit());
                check(r.is_ok() == (k == 0), "partly read blob");
                if k > 0 {
                    match r { Err(Error::IncompleteBlob(m)) => check(m == k as u64, "missing bytes"), _ => fail("kind of error") }
                    cover(1);
                }
                let _ = n;
            }
            _ => (),
        }
    }
    /// A device that accepts less than offered, or interrupts, makes no
    /// difference.
    fn t06_short() {
        let mut s = Stream::new(Short { v: Vec::new(), free: param(1) as u32, intr: 1 });
        let mut want = Vec::new();
        for _ in 0..param(0) {
            let k = choose(NOPS);
            check(wop(&mut s, &mut want, param(2) == 1, k).is_ok(), "write failed");
            check(s.pos() == want.len() as u64, "position after writing");
        }
        check(s.into_inner().v == want, "output depends on how the device accepts it");
        cover(1);
    }
    /// A device that fails: the error is reported and what was written is a
    /// prefix of the right output.
    fn t06_fault() {
        let at = choose(3 * param(0) + 2);
        let zero = bools();
        let kind = if zero { io::ErrorKind::WriteZero } else { any_kind() };
        let mut s = Stream::new(Full { v: Vec::new(), at, zero, kind });
        let mut want = Vec::new();
        let mut failed = false;
        for _ in 0..param(0) {
            let k = choose(NOPS);
            match wop(&mut s, &mut want, false, k) {
                Ok(()) => check(s.pos() == want.len() as u64, "position after writing"),
                Err(Error::Io(ref e)) => {
                    check(e.kind() == kind, "kind of error");
                    failed = true;
                    break;
                }
                Err(_) => fail("kind of error"),
            }
        }
        check(failed == (want.len() > at), "device failure not reported");
        cover(failed as u32);
        let p = s.pos();
        let v = s.into_inner().v;
        check(p == v.len() as u64, "position after a failure");
        check(v[..] == want[..v.len()], "output before the failure");
        check(v.len() == if failed { at } else { want.len() }, "output length");
    }
    /// Integer conversions: exact or refused.
    fn s12_ints() {
        let raw = u64s();
        let v: Value<&[u8]> = Value::Integer(raw);
        let z = ((raw >> 1) as i64) ^ -((raw & 1) as i64);
        macro_rules! u { ($m:ident $t:ty) => { match v.$m() {
            Ok(x) => { check(raw <= <$t>::MAX as u64 && x as u64 == raw, stringify!($m)); cover(1) }
            Err(Error::IntegerOutOfRange(_)) => { check(raw > <$t>::MAX as u64, stringify!($m)); cover(2) }
            Err(_) => fail("kind of error"),
        } } }
        macro_rules! i { ($m:ident $t:ty) => { match v.$m() {
            Ok(x) => { check(z >= <$t>::MIN as i64 && z <= <$t>::MAX as i64 && x as i64 == z, stringify!($m)); cover(3) }
            Err(Error::IntegerOutOfRange(_)) => { check(z < <$t>::MIN as i64 || z > <$t>::MAX as i64, stringify!($m)); cover(4) }
            Err(_) => fail("kind of error"),
        } } }
        match param(0) {
            0 => u!(to_u8 u8), 1 => u!(to_u16 u16), 2 => u!(to_u32 u32), 3 => u!(to_u64 u64), 4 => u!(to_usize usize),
            5 => i!(to_i8 i8), 6 => i!(to_i16 i16), 7 => i!(to_i32 i32), 8 => i!(to_i64 i64), 9 => i!(to_isize isize),
            10 => match v.to_bool() {
                Ok(b) => check(raw == b as u64, "to_bool"),
                Err(Error::IntegerOutOfRange(_)) => check(raw > 1, "to_bool"),
                Err(_) => fail("kind of error"),
            },
            _ => match v.to_null() {
                Ok(()) => check(raw == 0, "to_null"),
                Err(Error::IntegerOutOfRange(_)) => check(raw != 0, "to_null"),
                Err(_) => fail("kind of error"),
            },
        }
        out64(raw);
    }
    /// A value is only ever taken as the type it has on the wire.
    fn s12_types() {
        let d = u8s();
        assume(d & 0x3f != 0);
        let b = [d, 1, 7];
        let mut s = Stream::from_slice(&b[..]);
        let mut f = match s.next_field() { Ok(Some(f)) => f, _ => fail("field") };
        let k = concrete((d >> 6) as u64);
        let t = ["Enum", "Integer", "Blob", "Struct"][k as usize];
        fn want<T>(r: Result<T, Error>, ok: bool, e: &str, a: &str) {
            match r {
                Ok(_) => check(ok, "wrong type accepted"),
                Err(Error::UnexpectedType(x, y)) => check(!ok && x == e && y == a, "types named in the error"),
                Err(_) => fail("right type rejected"),
            }
        }
        let i = k == 1;
        match choose(15) {
            0 => want(f.value.to_u8(), i, "Integer", t), 1 => want(f.value.to_i8(), i, "Integer", t),
            2 => want(f.value.to_u16(), i, "Integer", t), 3 => want(f.value.to_i16(), i, "Integer", t),
            4 => want(f.value.to_u32(), i, "Integer", t), 5 => want(f.value.to_i32(), i, "Integer", t),
            6 => want(f.value.to_u64(), i, "Integer", t), 7 => want(f.value.to_i64(), i, "Integer", t),
            8 => want(f.value.to_usize(), i, "Integer", t), 9 => want(f.value.to_isize(), i, "Integer", t),
            10 => want(f.value.to_bool(), i, "Integer", t),
            11 => if !i { want(f.value.to_null(), i, "Integer", t) },
            12 => want(f.value.to_struct().map(|_| ()), k == 3, "Struct", t),
            13 => want(f.value.to_enum().map(|x| check(x.0 == 1, "discriminant")), k == 0, "Enum", t),
            _ => want(f.value.to_blob().map(|x| check(x.len() == 1, "blob length")), k == 2, "Blob", t),
        }
    }
    /// The unconsumed rest of a buffer, for any cursor position.
    fn a01_cursor() {
        let mut b = bytes(param(0));
        let p = u64s();
        let n = b.len() as u64;
        let c = b.clone();
        let k = if p < n { concrete(p) as usize } else { n as usize };
        let want = &c[k..];
        let mut t = TransparentCursor(Cursor::new(&b[..]));
        t.0.set_position(p);
        check(t.as_ref() == want, "as_ref");
        check(t.as_ext_bytes() == want, "as_ext_bytes");
        match t.fill_buf() { Ok(x) => check(x == want, "fill_buf"), Err(_) => fail("fill_buf") }
        let mut q = Cursor::new(&b[..]);
        q.set_position(p);
        check(q.as_ext_bytes() == want, "Cursor::as_ext_bytes");
        let mut sl = want;
        check(sl.as_ext_bytes() == want, "slice as_ext_bytes");
        let mut buf = [0u8; 8];
        match t.read(&mut buf) { Ok(x) => check(buf[..x] == *want, "read"), Err(_) => fail("read") }
        check(t.0.position() == if p < n { n } else { p }, "position after read");
        match t.seek(SeekFrom::Start(1)) { Ok(1) => (), _ => fail("seek") }
        check(t.as_ref().len() == if n >= 1 { n as usize - 1 } else { 0 }, "as_ref after seek");
        let mut u = TransparentCursor(Cursor::new(&mut b[..]));
        u.0.set_position(p);
        {
            let m: &mut [u8] = u.as_mut();
            check(m == want, "as_mut");
            if m.len() > 0 { m[0] ^= 0xff; }
        }
        let w = u.write(&[9]);
        match w { Ok(x) => check(x == if p < n { 1 } else { 0 }, "write"), Err(_) => fail("write") }
        check(u.flush().is_ok(), "flush");
        cover(if p < n { 1 } else { 2 });
    }
    /// Writing at any position: it never wraps.
    fn s09_write() {
        let base = u64s();
        let mut s = Stream::new(Vec::new());
        s.set_pos(base);
        let mut want = Vec::new();
        for _ in 0..param(0) {
            let k = choose(NOPS);
            let r = wop(&mut s, &mut want, false, k);
            check(s.pos() >= base, "position wraps");
            check(s.pos() - base == s.get_ref().len() as u64, "position and output differ");
            match r {
                Ok(()) => (),
                Err(_) => { check(base > u64::MAX - 64, "position limit reported far from it"); cover(1); return }
            }
        }
        check(s.into_inner() == want, "output");
        cover(2);
    }
}
