//! Independent definition of the physical format: what a sequence of bytes
//! means, element by element, and what a reader must report about it.
use crate::sym::*;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum E {
    /// Input ended inside an element (or where one was required).
    Eof,
    Overflow,
    Overwide,
    /// A blob reaches this many bytes beyond the end of input.
    Trunc(u64),
    /// The position would exceed u64::MAX.
    Pos,
    /// Any other I/O error.
    Io(io::ErrorKind),
    Other,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ev {
    Int(u8, u64),
    Blob(u8, u64, u64),
    Struct(u8),
    Enum(u8, u64),
    EndStruct,
    EndDoc,
    Exc(u64, u64),
    Pad,
    Err(E),
}

/// One 7-bit-group integer at `b[p..]`: value and end, or the error.
pub fn varint(b: &[u8], p: usize) -> Result<(u64, usize), E> {
    let mut acc = 0u64;
    let mut i = 0usize;
    loop {
        if p + i >= b.len() {
            return Err(E::Eof);
        }
        let x = b[p + i];
        let g = (x & 0x7f) as u64;
        if g != 0 {
            if i > 9 || (i == 9 && g > 1) {
                return Err(E::Overflow);
            }
            acc |= g << (7 * i);
        }
        i += 1;
        if x < 0x80 {
            return Ok((acc, p + i));
        }
        if i == 257 {
            return Err(E::Overwide);
        }
    }
}

#[derive(Clone)]
pub struct Model<'a> {
    pub b: &'a [u8],
    /// Index into `b`.
    pub pos: u64,
    /// Stream position of `b[0]`.
    pub base: u64,
    pub eof: bool,
    pub depth: u64,
    pub graceful: bool,
    /// Index one past the current blob.
    pub pend: u64,
    /// Index of the last field's descriptor and its depth.
    pub fpos: u64,
    pub fdepth: u64,
}
impl<'a> Model<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Model { b, pos: 0, base: 0, eof: false, depth: 0, graceful: false, pend: 0, fpos: 0, fdepth: 0 }
    }
    fn int(&mut self) -> Result<u64, E> {
        let (v, e) = varint(self.b, self.pos as usize)?;
        self.pos = e as u64;
        Ok(v)
    }
    fn blob(&mut self) -> Result<(u64, u64), E> {
        let n = self.int()?;
        let at = self.base.wrapping_add(self.pos);
        if n > u64::MAX - at {
            return Err(E::Pos);
        }
        self.pend = self.pos.wrapping_add(n);
        Ok((at, n))
    }
    pub fn next(&mut self) -> Ev {
        match self.next_() {
            Ok(e) => e,
            Err(e) => Ev::Err(e),
        }
    }
    fn next_(&mut self) -> Result<Ev, E> {
        if self.eof {
            return Ok(Ev::EndDoc);
        }
        let len = self.b.len() as u64;
        if self.pend > self.pos {
            if self.pend > len {
                return Err(E::Trunc(self.pend - len));
            }
            self.pos = self.pend;
        }
        if self.pos >= len {
            if self.graceful {
                self.eof = true;
                self.depth = 0;
                return Ok(Ev::EndDoc);
            }
            return Err(E::Eof);
        }
        let d = self.b[self.pos as usize];
        let at = self.pos;
        self.pos += 1;
        let tag = d & 0x3f;
        let ty = d & 0xc0;
        if tag == 0 {
            return Ok(match ty {
                0x00 => {
                    if self.depth > 0 {
                        self.depth -= 1;
                    }
                    Ev::EndStruct
                }
                0x40 => {
                    self.eof = true;
                    self.depth = 0;
                    Ev::EndDoc
                }
                0x80 => {
                    let (s, n) = self.blob()?;
                    Ev::Exc(s, n)
                }
                _ => Ev::Pad,
            });
        }
        if self.depth == 0 {
            self.depth = 1;
        }
        self.fpos = self.base.wrapping_add(at);
        self.fdepth = self.depth;
        Ok(match ty {
            0x40 => Ev::Int(tag, self.int()?),
            0x80 => {
                let (s, n) = self.blob()?;
                Ev::Blob(tag, s, n)
            }
            0xc0 => {
                self.depth += 1;
                Ev::Struct(tag)
            }
            _ => {
                let v = self.int()?;
                self.depth += 1;
                Ev::Enum(tag, v)
            }
        })
    }
    /// The next element other than padding.
    pub fn next_field(&mut self) -> Ev {
        loop {
            let e = self.next();
            if e != Ev::Pad {
                return e;
            }
        }
    }
}

pub fn errk(e: &Error) -> E {
    match *e {
        Error::Io(ref e) => match e.kind() {
            io::ErrorKind::UnexpectedEof => E::Eof,
            io::ErrorKind::Other => E::Pos,
            k => E::Io(k),
        },
        Error::IntegerOverflow => E::Overflow,
        Error::OverwideInteger => E::Overwide,
        Error::TruncatedBlob(n) => E::Trunc(n),
        _ => E::Other,
    }
}

/// What a handle to a just-opened blob says about it.
pub fn blob_fresh<R>(b: &Blob<R>) -> (u64, u64) {
    check(b.remaining() == b.len(), "fresh blob: remaining != len");
    check(b.inner_pos() == 0, "fresh blob: inner_pos != 0");
    check(b.stream_pos() == b.start_pos(), "fresh blob: stream_pos != start_pos");
    check(b.end_pos() - b.start_pos() == b.len(), "fresh blob: end - start != len");
    (b.start_pos(), b.len())
}
pub fn of_field<R>(f: &Field<R>) -> Ev {
    match f.value {
        Value::Integer(v) => Ev::Int(f.tag, v),
        Value::Blob(ref b) => {
            let (s, n) = blob_fresh(b);
            Ev::Blob(f.tag, s, n)
        }
        Value::Struct(_) => Ev::Struct(f.tag),
        Value::Enum(d, _) => Ev::Enum(f.tag, d),
    }
}
pub fn of_element<R>(e: &Element<R>) -> Ev {
    match *e {
        Element::Field(ref f) => of_field(f),
        Element::EndOfStruct => Ev::EndStruct,
        Element::EndOfDoc => Ev::EndDoc,
        Element::Exception(ref b) => {
            let (s, n) = blob_fresh(b);
            Ev::Exc(s, n)
        }
        Element::Padding => Ev::Pad,
    }
}

/// Decodes one element with the real parser and compares everything
/// observable with the model.  False at the end (error or end of document).
pub fn step<R: Read>(s: &mut Stream<R>, m: &mut Model) -> bool {
    let want = m.next();
    let mut blob = false;
    let got = match s.next_element() {
        Ok(ref e) => {
            if let Element::Field(ref f) = *e {
                check(f.pos == m.fpos, "position of the field");
                check(f.depth == m.fdepth, "depth of the field");
            }
            of_element(e)
        }
        Err(ref e) => Ev::Err(errk(e)),
    };
    if let Ev::Blob(..) = got {
        blob = true;
    }
    same(got, want);
    if let Ev::Err(E::Trunc(_)) = got {
        check(s.pos() == m.base + m.b.len() as u64, "position after a truncated blob");
    }
    if let Ev::Err(_) = got {
        return false;
    }
    let _ = blob;
    agree(s, m);
    got != Ev::EndDoc
}
pub fn agree<R: Read>(s: &Stream<R>, m: &Model) {
    check(s.pos() == m.base + m.pos, "stream position");
    check(s.struct_depth() == m.depth, "struct depth");
    check(s.eof() == m.eof, "end-of-document flag");
}
/// The elements agree (with a message naming the kind of difference).
pub fn same(got: Ev, want: Ev) {
    match (got, want) {
        (Ev::Int(t, v), Ev::Int(u, w)) => check(t == u && v == w, "integer field differs"),
        (Ev::Blob(t, s, n), Ev::Blob(u, p, q)) => check(t == u && s == p && n == q, "blob field differs"),
        (Ev::Struct(t), Ev::Struct(u)) => check(t == u, "struct field differs"),
        (Ev::Enum(t, v), Ev::Enum(u, w)) => check(t == u && v == w, "enum field differs"),
        (Ev::Exc(s, n), Ev::Exc(p, q)) => check(s == p && n == q, "exception differs"),
        (Ev::Err(E::Trunc(a)), Ev::Err(E::Trunc(b))) => check(a == b, "number of missing blob bytes differs"),
        (Ev::Err(a), Ev::Err(b)) => check(a == b, "different error"),
        (Ev::EndStruct, Ev::EndStruct) | (Ev::EndDoc, Ev::EndDoc) | (Ev::Pad, Ev::Pad) => (),
        (Ev::Err(_), _) => fail("valid element rejected"),
        (_, Ev::Err(E::Trunc(_))) => fail("truncated blob accepted"),
        (_, Ev::Err(_)) => fail("invalid element accepted"),
        _ => fail("different kind of element"),
    }
}
/// Encodes an event stream value for `out`.
pub fn code(e: &Ev) -> u64 {
    match *e {
        Ev::Int(t, v) => v.wrapping_mul(31).wrapping_add(t as u64),
        Ev::Blob(t, s, n) => (n << 16) ^ (s << 8) ^ t as u64 ^ 0x80,
        Ev::Struct(t) => 0xc0 ^ t as u64,
        Ev::Enum(t, v) => v.wrapping_mul(37).wrapping_add(t as u64),
        Ev::EndStruct => 1,
        Ev::EndDoc => 2,
        Ev::Exc(s, n) => (n << 16) ^ (s << 8) ^ 3,
        Ev::Pad => 4,
        Ev::Err(_) => 5,
    }
}

// ---- transports ---------------------------------------------------------

/// Returns data in pieces of its own choosing, with interruptions.
pub struct Chunky<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// How many more interruptions may happen.
    pub intr: u32,
    /// Largest piece.
    pub max: usize,
    /// How many more free choices; afterwards whole reads.
    pub free: u32,
}
impl<'a> Chunky<'a> {
    pub fn new(b: &'a [u8], free: u32, intr: u32) -> Self {
        Chunky { b, pos: 0, intr, max: 3, free }
    }
}
impl<'a> Read for Chunky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr > 0 && bools() {
            self.intr -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let left = self.b.len() - self.pos;
        let mut n = if buf.len() < left { buf.len() } else { left };
        if n > 1 && self.free > 0 {
            self.free -= 1;
            let k = if n < self.max { n } else { self.max };
            let c = 1 + choose(k);
            if c < n {
                n = c;
            }
        }
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A handle to a `Chunky` that several readers in turn may own.
#[derive(Clone, Copy)]
pub struct Dev(*mut Chunky<'static>);
impl Dev {
    pub fn new(b: &[u8], free: u32, intr: u32) -> Dev {
        Dev(Box::leak(Box::new(Chunky::new(Box::leak(b.to_vec().into_boxed_slice()), free, intr))))
    }
    pub fn pos(&self) -> usize {
        unsafe { (*self.0).pos }
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        unsafe { (*self.0).read(buf) }
    }
}

/// A reader that cannot actually seek although it claims to.
pub struct NoSeek<R>(pub R);
impl<R: Read> Read for NoSeek<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl<R> Seek for NoSeek<R> {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        Err(io::ErrorKind::InvalidInput.into())
    }
}
/// Any kind of I/O error a failing device may report (an interruption is not a
/// failure).
pub fn any_kind() -> io::ErrorKind {
    let k = u8s();
    assume(k <= io::ErrorKind::Other as u8 && k != io::ErrorKind::Interrupted as u8);
    // every value up to `Other` is one of the variants
    unsafe { std::mem::transmute(k) }
}
pub fn io_kind(e: &Error) -> Option<io::ErrorKind> {
    match *e { Error::Io(ref e) => Some(e.kind()), _ => None }
}

/// Fails with `kind` from the `at`-th read on.
pub struct Failing<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub at: u32,
    pub kind: io::ErrorKind,
    pub failed: bool,
}
impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.at == 0 {
            self.failed = true;
            return Err(self.kind.into());
        }
        self.at -= 1;
        let left = self.b.len() - self.pos;
        let n = if buf.len() < left { buf.len() } else { left };
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
