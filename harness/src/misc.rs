//! Values behind references, limits and locations by themselves.
use crate::schema::*;
use crate::sym::*;
use fourleaf::de::{self, Config, Context};
use fourleaf::Serialize;

pub const TABLE: &[(&str, extern "C" fn())] = table![d_refs, d_context, d_tagname];

harness! {
    // References, slices and unsized values are written like the values.
    fn d_refs() {
        fn same<A: Serialize, B: Serialize>(a: A, b: B) {
            match (fourleaf::to_vec(a), fourleaf::to_vec(b)) { (Ok(a), Ok(b)) => check(a == b, "representation of a reference"), _ => fail("serialisation failed") }
        }
        let x = u8s();
        let mut v = Vec::<u16>::gen(2);
        let mut y = bytes(choose(3));
        let s = String::gen(2);
        let p = P::gen(1);
        same(&x, x);
        same((&v, x), (v.clone(), x));
        same((&v[..], &&x), (v.clone(), x));
        same((&y[..], x), (y.clone(), x));
        same((&s[..], x), (s.clone(), x));
        same([&s[..]; 2], [s.clone(), s.clone()]);
        same((&p, Some(&p)), (p.clone(), Some(p.clone())));
        same(vec![&y[..], &y[..]], vec![y.clone(), y.clone()]);
        let (c, z) = (v.clone(), y.clone());
        same((&mut v, &mut y), (c, z));
        cover(1);
    }
    // The limits of a decoding, however they are used up.
    fn d_context() {
        // small, or next to the largest
        fn near() -> u64 {
            let x = u8s() as u64;
            if bools() { x } else { u64::MAX - x }
        }
        struct Sum { items: u64, blobs: u64 }
        fn collect(cx: &Context, c: &Config, s: &mut Sum) {
            let n = near() as usize;
            let fits = n <= c.max_collect && s.items <= (c.max_collect - n) as u64;
            match cx.collect(n) {
                Ok(()) => { check(fits, "collection limit not applied"); s.items += n as u64; cover(1) }
                Err(de::Error::MaxCollectExceeded(_)) => { check(!fits, "collection limit applied too early"); cover(2) }
                Err(_) => fail("wrong error"),
            }
        }
        fn blob(cx: &Context, c: &Config, s: &mut Sum) {
            let n = near();
            let fits = n <= c.max_blob as u64 && s.blobs <= c.max_blob as u64 - n;
            match cx.blob(n) {
                Ok(()) => { check(fits, "blob limit not applied"); s.blobs += n as u64; cover(3) }
                Err(de::Error::MaxBlobExceeded(_)) => { check(!fits, "blob limit applied too early"); cover(4) }
                Err(_) => fail("wrong error"),
            }
        }
        fn go(cx: &Context, c: &Config, s: &mut Sum, depth: usize, k: usize) {
            if k == 0 { return }
            check(cx.depth == depth, "recursion depth");
            match choose(3) {
                0 => collect(cx, c, s),
                1 => blob(cx, c, s),
                _ => {
                    // (perhaps with limits of its own)
                    let own;
                    match cx.push("f", 1) {
                        Ok(mut sub) => {
                            check(depth < c.recursion_limit, "recursion limit not applied");
                            cover(5);
                            let mut d = c;
                            if bools() {
                                own = limits();
                                d = &own;
                                sub.config = d;
                            }
                            go(&sub, d, s, depth + 1, k - 1)
                        }
                        Err(de::Error::RecursionLimitExceeded(_)) => { check(depth >= c.recursion_limit, "recursion limit applied too early"); cover(6) }
                        Err(_) => fail("wrong error"),
                    }
                    // what was used up below counts here
                    if bools() { collect(cx, c, s) } else { blob(cx, c, s) }
                    return;
                }
            }
            go(cx, c, s, depth, k - 1)
        }
        fn limits() -> Config {
            let mut c = Config::default();
            c.max_collect = near() as usize;
            c.max_blob = near() as usize;
            c.recursion_limit = near() as usize;
            c
        }
        let c = limits();
        go(&Context::top(&c), &c, &mut Sum { items: 0, blobs: 0 }, 0, param(0));
    }
    fn d_tagname() {
        let c = Config::default();
        let top = Context::top(&c);
        let tag = concrete({ let t = u8s(); assume(t >= 1 && t < 64); t as u64 }) as u8;
        let mut name = [0u8; 2];
        let pos = choose(200) as u64;
        match top.push_tag(&mut name, tag, pos) {
            Ok(sub) => {
                check(sub.field.parse::<u8>().ok() == Some(tag), "name of a numbered field");
                check(sub.pos == pos && sub.depth == 1, "numbered field");
                let s = sub.to_string();
                check(s.contains(sub.field) && s.contains(&pos.to_string()), "location of a numbered field");
                cover(1);
            }
            Err(_) => fail("recursion limit applied too early"),
        }
    }
}
