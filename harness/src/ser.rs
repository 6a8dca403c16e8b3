//! Serialisation and the way back.
use crate::model::*;
use crate::schema::*;
use crate::sym::*;
use fourleaf::de::{self, style, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;
use fourleaf::unknown::{UnknownField, UnknownFields};
use fourleaf::Serialize;

pub const TABLE: &[(&str, extern "C" fn())] = table![d_rt, d_elem];

pub trait Own: Tv + Serialize + for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying> {}
impl<T: Tv + Serialize + for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying> > Own for T {}

pub fn strict() -> de::Config {
    let mut c = de::Config::default();
    c.ignore_unknown_fields = false;
    c
}
pub fn image<T: Tv>(r: de::Result<T>) -> V {
    match r { Ok(v) => v.v(), Err(e) => match kind(&e) {
        K::UnkField(..) => fail("serialised form rejected: unknown field"),
        K::Rec => fail("serialised form rejected: recursion"),
        _ => fail("serialised form rejected"),
    } }
}

fn rt<T: Own>() {
    let v = T::gen(param(1));
    let img = v.v();
    let b = match fourleaf::to_vec(&v) { Ok(b) => b, Err(_) => fail("serialisation failed") };
    out(&b);
    if T::ORDERED {
        check(b == enc(&img, &T::ty()), "representation");
    } else {
        match Cx::new(&b, &strict()).body(&T::ty()) { Ok(v) => check(v == img, "representation"), Err(_) => fail("representation") }
    }
    let mut w = Vec::new();
    check(fourleaf::to_writer(&mut w, &v).is_ok() && w == b, "to_writer differs from to_vec");
    let mut s = Stream::new(Vec::new());
    check(fourleaf::to_stream(&mut s, &v).is_ok(), "to_stream failed");
    check(s.pos() == b.len() as u64, "position after to_stream");
    check(s.into_inner() == b, "to_stream differs from to_vec");
    check(image::<T>(de::from_slice_copy(&b, &strict())) == img, "value does not survive a round trip");
    cover(1);
}
/// One value as a field, or as a single element, with any tag, by the methods
/// that the code of enclosing types uses.
fn direct<T: Own>() {
    let v = T::gen(param(1));
    let (img, tag, element, disc) = (v.v(), u8s(), param(2) == 1, 300);
    assume(tag >= 1 && tag < 64);
    let (before, after) = (u8s(), u8s());
    assume(before < 0x80 && after < 0x80);
    let mut s = Stream::new(Vec::new());
    check(s.write_u8(1, before).is_ok(), "writing failed");
    let r = match param(2) {
        0 => v.serialize_field(&mut s, tag),
        1 => v.serialize_element(&mut s, tag),
        2 => s.write_struct(tag).and_then(|_| fourleaf::to_stream(&mut s, &v)),
        _ => s.write_enum(tag, disc).and_then(|_| fourleaf::to_stream(&mut s, &v)),
    };
    check(r.is_ok() && s.write_u8(2, after).is_ok() && s.write_end_struct().is_ok(), "serialisation failed");
    check(s.commit().is_ok(), "serialisation failed");
    let b = s.into_inner();
    out(&b);
    let mut want = vec![0x41];
    int(&mut want, before as u64);
    let start = want.len();
    if T::ORDERED {
        match param(2) {
            0 => enc_field(&mut want, &img, &T::ty(), tag),
            1 => enc_elem(&mut want, &img, &T::ty(), tag),
            2 => { want.push(0xc0 | tag); enc_body(&mut want, &img, &T::ty()) }
            _ => { want.push(tag); int(&mut want, disc); enc_body(&mut want, &img, &T::ty()) }
        }
        want.push(0x42);
        int(&mut want, after as u64);
        want.push(0);
        check(b == want, "representation");
    }
    let c = strict();
    let cx = de::Context::top(&c);
    let mut s = Stream::from_slice(&b[..]);
    fn field<'a, 'd, T: Own>(s: &'a mut Stream<TransparentCursor<&'d [u8]>>) -> fourleaf::stream::Field<'a, TransparentCursor<&'d [u8]>> {
        match s.next_field() { Ok(Some(f)) => f, _ => fail("written field not read") }
    }
    let int_of = |f: fourleaf::stream::Field<TransparentCursor<&[u8]>>, t: u8, v: u8| {
        check(f.tag == t, "tag");
        match f.value { fourleaf::stream::Value::Integer(x) => check(x == v as u64, "neighbouring field"), _ => fail("neighbouring field") }
    };
    int_of(field::<T>(&mut s), 1, before);
    let r;
    if element {
        let mut f = field::<T>(&mut s);
        check(f.tag == tag && f.pos == start as u64, "tag or position of the field");
        r = T::deserialize_element(&cx, &mut f);
    } else if param(2) > 1 {
        let mut f = field::<T>(&mut s);
        check(f.tag == tag && f.pos == start as u64, "tag or position of the field");
        let (d, within) = match f.value {
            fourleaf::stream::Value::Struct(ref mut s) => (disc, s),
            fourleaf::stream::Value::Enum(d, ref mut s) => (d, s),
            _ => fail("written field not read"),
        };
        check(d == disc, "discriminant");
        r = de::from_stream_copy(within, &c);
    } else {
        let mut acc = <<T as Deserialize<TransparentCursor<&[u8]>, style::Copying>>::Accum as Default>::default();
        let end = b.len() as u64 - 3;
        // (fields may occur any number of times, and belong to the value only)
        let mut e = None;
        while e.is_none() {
            let at = s.pos();
            if at >= end { break }
            let mut f = field::<T>(&mut s);
            check(f.tag == tag, "tag of the field");
            if let Err(x) = T::deserialize_field(&mut acc, &cx, &mut f) { e = Some(x) }
            // (the rest of the field, if any)
            let d = f.depth;
            drop(f);
            check(s.skip_up(d).is_ok(), "end of the field not found");
        }
        r = match e { Some(e) => Err(e), None => T::finish(acc, &cx) };
    }
    check(image(r) == img, "value does not survive a round trip");
    int_of(field::<T>(&mut s), 2, after);
    check(match s.next_field() { Ok(None) => true, _ => false }, "end of the structure");
    check(s.pos() == b.len() as u64, "position at the end");
    cover(1);
}
// The same for a value in each kind of context.
harness! {
    fn d_elem() {
        fn go<T: Own>() { direct::<T>() }
        pick_owned!(go)
    }
    fn d_rt() {
        fn go<T: Own>() {
            match param(2) {
                0 => rt::<T>(),
                1 => rt::<(bool, T)>(),
                // what stands in for a structure, or is a whole variant
                3 => rt::<W<T>>(),
                4 => rt::<(Result<T, bool>,)>(),
                _ => rt::<[T; 1]>(),
            }
        }
        pick_owned!(go)
    }
}
