//! Arrays of every length.
use crate::schema::*;
use crate::ser::{image, strict};
use crate::sym::*;
use fourleaf::de::{self, style, Config, Context, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::Serialize;

pub const TABLE: &[(&str, extern "C" fn())] = table![d_arr];

fn arr<T: Tv + Copy, const N: usize>() where [T; N]: crate::ser::Own {
    let a: [T; N] = std::array::from_fn(|_| { let x = T::gen(0); x.tame(); x });
    let t = <[T; N]>::ty();
    let v = a.v();
    let b = match fourleaf::to_vec(&a) { Ok(b) => b, Err(_) => fail("serialisation failed") };
    check(b == enc(&v, &t), "representation");
    // (a document holding an empty array holds nothing)
    check(image::<[T; N]>(de::from_slice_copy(&b, &strict())) == v, "array does not survive a round trip");
    let b = match fourleaf::to_vec(&[(bools(), a)]) { Ok(b) => b, Err(_) => fail("serialisation failed") };
    match de::from_slice_copy::<[(bool, [T; N]); 1]>(&b, &strict()) {
        Ok(r) => check(r[0].1.v() == v, "array does not survive a round trip as a field"),
        Err(_) => fail("array rejected as a field"),
    }
    // one item too few or too many
    if !T::BYTE && N > 0 {
        let mut s = Vec::new();
        for _ in 0..N - 1 { s.extend_from_slice(&[0x41, 5]) }
        s.push(0);
        match de::from_slice_copy::<[T; N]>(&s, &strict()) {
            Err(de::Error::RequiredFieldMissing(_)) => check(N == 1, "wrong error for a short array"),
            Err(de::Error::FieldOccursTooFewTimes(_, n)) => check(N > 1 && n == N as u64, "wrong error for a short array"),
            _ => fail("short array accepted"),
        }
        s.pop();
        s.extend_from_slice(&[0x41, 5, 0x41, 5, 0]);
        match de::from_slice_copy::<[T; N]>(&s, &strict()) {
            Err(de::Error::FieldOccursTooManyTimes(_, n)) => check(n == N as u64, "wrong error for a long array"),
            _ => fail("long array accepted"),
        }
    }
    // any two items, in bytes one by one or all at once
    let mut s = Vec::new();
    let two = T::BYTE && N > 0;
    if two {
        for _ in 0..2 {
            if bools() { s.extend_from_slice(&[0x41, 5]) } else { s.push(0x81); int(&mut s, N as u64); s.extend(std::iter::repeat(1).take(N)) }
        }
        s.push(0);
        let (c, t) = (strict(), <([T; N],)>::ty());
        match (de::from_slice_copy::<([T; N],)>(&s, &c), Cx::new(&s, &c).body(&t)) {
            (Ok(r), Ok(w)) => check(r.v() == w, "decoded value"),
            (Ok(_), Err(_)) => fail("repeated array accepted"),
            (Err(_), Ok(_)) => fail("array rejected"),
            (Err(e), Err(w)) => { let k = kind(&e); check(k == w.0 || Some(k) == w.1, "different error") }
        }
    }
    cover(1);
}
macro_rules! lens { ($n:expr, $t:ty: $($k:literal)*) => { match $n { $($k => arr::<$t, $k>(),)* _ => fail("harness: length") } } }

harness! {
    // [T; N]: N, 0 for u16, 1 for u8
    fn d_arr() {
        match param(1) {
            #[cfg(feature = "arr16")]
            0 => lens!(param(0), u16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 64 128 256),
            #[cfg(feature = "arr8")]
            1 => lens!(param(0), u8: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 64 128 256 512 1024),
            _ => fail("harness: kind"),
        }
    }
}
