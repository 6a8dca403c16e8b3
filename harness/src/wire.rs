//! Varints, zigzag, fixed-width integers, descriptors.
use crate::sym::*;
use fourleaf::wire::*;
use std::io::{self, Read};

pub const TABLE: &[(&str, extern "C" fn())] = table![
    w01_unsigned, w01_signed, w02_bytes, w02_long, w03_fixed, w04_zigzag, w04_desc
];

/// Number of 7-bit groups needed, computed without branching on `v`.
fn groups(v: u64) -> usize {
    let mut n = 1usize;
    for i in 1..10 {
        n += (v >> (7 * i) != 0) as usize;
    }
    n
}

harness! {
    /// Every u64 encodes to the shortest little-endian base-128 form, which
    /// decodes to the same value and consumes exactly itself.
    fn w01_unsigned() {
        let v = u64s();
        let tail = bytes(2);
        let mut o: Vec<u8> = Vec::new();
        check(encode_u64(&mut o, v).is_ok(), "encode_u64 failed");
        let n = o.len();
        check(n >= 1 && n <= 10, "encoded length");
        check(n == groups(v), "encoding is not minimal");
        // The bytes themselves, against the format definition.
        let mut okb = true;
        for i in 0..n {
            let want = ((v >> (7 * i)) & 0x7f) as u8 | if i + 1 < n { 0x80 } else { 0 };
            okb &= o[i] == want;
        }
        check(okb, "encoded bytes");
        cover(n as u32);
        o.extend_from_slice(&tail);
        let mut r = &o[..];
        match decode_u64(&mut r) {
            Ok(w) => check(w == v, "decoded value differs"),
            Err(_) => fail("decode_u64 failed"),
        }
        check(r.len() == 2, "decode consumed a different number of bytes");
        out(&o[..n]);
    }
    /// The same for signed values.
    fn w01_signed() {
        let v = i64s();
        let mut o: Vec<u8> = Vec::new();
        check(encode_i64(&mut o, v).is_ok(), "encode_i64 failed");
        let z = if v < 0 { !((v as u64) << 1) } else { (v as u64) << 1 };
        check(o.len() == groups(z), "signed encoding is not minimal");
        let mut r = &o[..];
        match decode_i64(&mut r) {
            Ok(w) => check(w == v, "decoded signed value differs"),
            Err(_) => fail("decode_i64 failed"),
        }
        check(r.is_empty(), "signed decode left bytes");
        out(&o);
    }
    /// Decoding arbitrary bytes agrees with the format definition.
    fn w02_bytes() {
        let n = param(0);
        let b = bytes(n);
        reference_decode(&b);
    }
    /// Denormalised encodings: a run of zero continuation bytes of any length
    /// up to and past the limit, around arbitrary bytes.
    fn w02_long() {
        let pre = param(0);
        let post = param(1);
        let mut b = bytes(2);
        for _ in 0..pre {
            b.push(0x80);
        }
        b.extend_from_slice(&bytes(2));
        for _ in 0..post {
            b.push(0x80);
        }
        b.extend_from_slice(&bytes(2));
        reference_decode(&b);
    }
    fn w03_fixed() {
        let v = u64s();
        let mut o: Vec<u8> = Vec::new();
        check(encode_fixed_u64(&mut o, v).is_ok(), "encode_fixed_u64 failed");
        check(o.len() == 10, "fixed encoding is not ten bytes");
        o.push(u8s());
        let mut r = &o[..];
        match decode_u64(&mut r) {
            Ok(w) => check(w == v, "fixed-width value differs"),
            Err(_) => fail("fixed-width value does not decode"),
        }
        check(r.len() == 1, "fixed-width decode length");
        out(&o[..10]);
    }
    fn w04_zigzag() {
        let v = i64s();
        let u = u64s();
        check(unzigzag(zigzag(v)) == v, "unzigzag(zigzag(v)) != v");
        check(zigzag(unzigzag(u)) == u, "zigzag(unzigzag(u)) != u");
        // 0, -1, 1, -2, 2 ... map to 0, 1, 2, 3, 4 ...
        let want = if v < 0 { !((v as u64) << 1) } else { (v as u64) << 1 };
        check(zigzag(v) == want, "zigzag order");
        out64(zigzag(v));
    }
    fn w04_desc() {
        let b = u8s();
        let d = Descriptor(b);
        let p = d.parse();
        let d2: Descriptor = p.into();
        check(d2.0 == b, "descriptor does not survive parse and rebuild");
        match p {
            ParsedDescriptor::Pair(ty, tag) => {
                check(tag >= 1 && tag <= 63 && tag == b & 63, "tag");
                let t = match ty {
                    DescriptorType::Enum => 0u8,
                    DescriptorType::Integer => 1,
                    DescriptorType::Struct => 3,
                    DescriptorType::Blob => 2,
                };
                check(t == b >> 6, "descriptor type");
                cover(1);
            }
            ParsedDescriptor::Special(s) => {
                check(b & 63 == 0, "special with a tag");
                let t = match s {
                    SpecialType::EndOfStruct => 0u8,
                    SpecialType::EndOfDoc => 1,
                    SpecialType::Exception => 2,
                    SpecialType::Padding => 3,
                };
                check(t == b >> 6, "special type");
                cover(2);
            }
        }
        let mut o: Vec<u8> = Vec::new();
        check(encode_descriptor(&mut o, d).is_ok() && o.len() == 1 && o[0] == b, "encode_descriptor");
        let mut r = &o[..];
        match decode_descriptor(&mut r) {
            Ok(x) => check(x.0 == b && r.is_empty(), "decode_descriptor"),
            Err(_) => fail("decode_descriptor failed"),
        }
        out(&o);
    }
}

fn reference_decode(b: &[u8]) {
    // Reference: value as a 128-bit sum, group by group.
    let mut acc: u64 = 0;
    let mut overflow = false;
    let mut end = None; // index one past the last byte
    let mut over_at = usize::MAX;
    for i in 0..b.len() {
        let g = (b[i] & 0x7f) as u64;
        if 7 * i < 64 {
            let top = if 7 * i + 7 > 64 { g >> (64 - 7 * i) } else { 0 };
            if top != 0 && !overflow {
                overflow = true;
                over_at = i;
            }
            acc |= g << (7 * i);
        } else if g != 0 && !overflow {
            overflow = true;
            over_at = i;
        }
        if b[i] & 0x80 == 0 {
            end = Some(i + 1);
            break;
        }
        if overflow {
            break;
        }
        if i + 1 == 257 {
            break;
        }
    }
    let mut r = b;
    let got = decode_u64(&mut r);
    let used = b.len() - r.len();
    match got {
        Ok(v) => {
            check(!overflow, "value beyond 64 bits accepted");
            check(end.is_some(), "unterminated integer accepted");
            check(v == acc, "decoded value differs from the definition");
            check(Some(used) == end, "consumed a different number of bytes");
            cover(1);
            out64(v);
        }
        Err(fourleaf::stream::Error::IntegerOverflow) => {
            check(overflow, "representable value rejected as overflow");
            cover(2);
        }
        Err(fourleaf::stream::Error::OverwideInteger) => {
            check(!overflow && end.is_none() && b.len() >= 257, "rejected as too wide");
            cover(3);
        }
        Err(fourleaf::stream::Error::Io(ref e)) => {
            check(e.kind() == io::ErrorKind::UnexpectedEof, "I/O error kind");
            check(end.is_none() && !overflow && b.len() < 257, "complete integer reported as EOF");
            cover(4);
        }
        Err(_) => fail("unexpected error"),
    }
}
