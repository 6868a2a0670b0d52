//! Contracts on `doodle::bounds::Bounds`: interval arithmetic is conservative.
//! View of a Bounds `b`: the set { n | b.contains(n) }, pinned to min()/max() by `view`.
use crate::src::Src;
use crate::{contracts, ensures, reach, requires};
use doodle::bounds::Bounds;

/// any well-formed bounds (min <= max); 64-bit endpoints
fn any_bounds<S: Src + ?Sized>(s: &mut S) -> (Bounds, usize, Option<usize>) {
    let min = s.usize();
    if s.bool() {
        let d = s.usize();
        let max = min.saturating_add(d);
        (Bounds::new(min, max), min, Some(max))
    } else {
        (Bounds::at_least(min), min, None)
    }
}
fn inside(n: usize, min: usize, max: Option<usize>) -> bool {
    n >= min && match max { Some(m) => n <= m, None => true }
}
/// 16-bit endpoints
fn small<S: Src + ?Sized>(s: &mut S, cap: usize) -> (Bounds, usize, Option<usize>) {
    let min = s.u16() as usize % cap;
    if s.bool() {
        let max = min + s.u16() as usize % cap;
        (Bounds::new(min, max), min, Some(max))
    } else {
        (Bounds::at_least(min), min, None)
    }
}

contracts! {
    #[holds] unwind 3 fn view(s) {
        let (b, lo, hi) = any_bounds(s);
        let n = s.usize();
        ensures!(b.min() == lo && b.max() == hi, "accessors");
        ensures!(b.contains(n) == inside(n, lo, hi), "contains <=> min <= n <= max");
        ensures!(b.as_exact() == if hi == Some(lo) { Some(lo) } else { None }, "as_exact <=> singleton");
        ensures!(Bounds::exact(n).min() == n && Bounds::exact(n).max() == Some(n), "exact");
        ensures!(Bounds::at_most(n).min() == 0 && Bounds::at_most(n).max() == Some(n), "at_most");
        ensures!(Bounds::any().contains(n), "any contains everything");
        ensures!(Bounds::at_least(lo).contains(n) == (n >= lo), "at_least");
    }
    #[holds] unwind 3 fn from_ints(s) {
        let (a, b, c, d) = (s.u8(), s.u16(), s.u32(), s.u64());
        ensures!(Bounds::from(a) == Bounds::exact(a as usize), "from u8");
        ensures!(Bounds::from(b) == Bounds::exact(b as usize), "from u16");
        ensures!(Bounds::from(c) == Bounds::exact(c as usize), "from u32");
        ensures!(Bounds::from(d) == Bounds::exact(d as usize), "from u64");
        let e = s.u64();
        ensures!(Bounds::from(d..) == Bounds::at_least(d as usize), "from RangeFrom");
        ensures!(Bounds::from(d..=e) == Bounds::new(d as usize, e as usize), "from RangeInclusive");
    }
    #[holds] unwind 3 fn add(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let (x, y) = (s.usize(), s.usize());
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi));
        let Some(z) = x.checked_add(y) else { requires!(s, false); return crate::src::Out::Skip };
        ensures!((a + b).contains(z), "x in A, y in B => x+y in A+B");
    }
    #[holds] unwind 3 fn sub(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let (x, y) = (s.usize(), s.usize());
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi) && y <= x);
        ensures!((a - b).contains(x - y), "x in A, y in B, y <= x => x-y in A-B");
    }
    // bounded: endpoints and operands below 2^8 (64-bit operands are executed natively)
    #[holds] unwind 3 fn mul(s) {
        let native = s.native();
        let ((a, alo, ahi), (b, blo, bhi)) = if native { (any_bounds(s), any_bounds(s)) } else { (small(s, 256), small(s, 256)) };
        let (x, y) = if native { (s.usize(), s.usize()) } else { (s.u16() as usize % 512, s.u16() as usize % 512) };
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi));
        let Some(z) = x.checked_mul(y) else { requires!(s, false); return crate::src::Out::Skip };
        ensures!((a * b).contains(z), "x in A, y in B => x*y in A*B");
    }
    // overflow corners of multiplication at full width
    #[holds] unwind 3 fn mul_endpoints(s) {
        let (a, b) = (s.usize(), s.usize());
        let sh = s.below(64) as u32;
        let m = Bounds::new(0, a) * Bounds::exact(1usize << sh);
        let z = b as u128 * (1u128 << sh);
        requires!(s, b <= a && z <= usize::MAX as u128);
        ensures!(m.contains(z as usize), "upper endpoint overflow must widen, never wrap");
    }
    // bounded: 16-bit endpoints and operands
    #[holds] unwind 3 fn div(s) {
        let native = s.native();
        let ((a, alo, ahi), (b, blo, bhi)) = if native { (any_bounds(s), any_bounds(s)) } else { (small(s, 256), small(s, 256)) };
        let (x, y) = if native { (s.usize(), s.usize()) } else { (s.u16() as usize % 512, s.u16() as usize % 512) };
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi) && y != 0);
        ensures!((a / b).contains(x / y), "x in A, y in B, y != 0 => x/y in A/B");
    }
    #[holds] unwind 3 fn shl(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let x = s.usize();
        let y = s.below(64);
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi));
        requires!(s, (x << y) >> y == x);
        ensures!((a << b).contains(x << y), "x in A, y in B, no bit lost => x<<y in A<<B");
        reach!(y > 0 && x > 0, "nontrivial shift");
    }
    #[holds] unwind 3 fn shr(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let x = s.usize();
        let y = s.below(64);
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi));
        ensures!((a >> b).contains(x >> y), "x in A, y in B => x>>y in A>>B");
    }
    #[holds] unwind 3 fn bitor(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let (x, y) = (s.usize(), s.usize());
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi));
        ensures!((a | b).contains(x | y), "x in A, y in B => x|y in A|B");
    }
    #[holds] unwind 3 fn bitand(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let (x, y) = (s.usize(), s.usize());
        requires!(s, inside(x, alo, ahi) && inside(y, blo, bhi));
        ensures!((a & b).contains(x & y), "x in A, y in B => x&y in A&B");
    }
    #[holds] unwind 3 fn union(s) {
        let ((a, alo, ahi), (b, blo, bhi)) = (any_bounds(s), any_bounds(s));
        let x = s.usize();
        let u = Bounds::union(a, b);
        ensures!(!inside(x, alo, ahi) || u.contains(x), "A subset of A u B");
        ensures!(!inside(x, blo, bhi) || u.contains(x), "B subset of A u B");
        ensures!(u.min() == alo.min(blo), "least lower bound");
        ensures!(u.max().is_none() == (ahi.is_none() || bhi.is_none()), "unbounded iff either is");
        if let (Some(p), Some(q), Some(r)) = (ahi, bhi, u.max()) { ensures!(r == p.max(q), "least upper bound"); }
    }
    #[holds] unwind 3 fn clamp(s) {
        let (a, alo, ahi) = any_bounds(s);
        let (lo, hi, x) = (s.usize(), s.usize(), s.usize());
        requires!(s, lo <= hi);
        let want = inside(x, alo, ahi) && lo <= x && x <= hi;
        match a.clamp(lo, hi) {
            Some(c) => {
                ensures!(c.contains(x) == want, "clamp is the intersection");
                ensures!(c.max().is_some_and(|m| c.min() <= m), "clamped bounds are well-formed");
            }
            None => ensures!(!want, "None only when the intersection is empty"),
        }
    }
    #[holds] unwind 3 fn bits_to_bytes(s) {
        let (a, alo, ahi) = any_bounds(s);
        let x = s.usize();
        requires!(s, inside(x, alo, ahi));
        ensures!(a.bits_to_bytes().contains(x / 8 + if x % 8 != 0 { 1 } else { 0 }), "x bits occupy ceil(x/8) bytes");
    }
    #[holds] unwind 3 fn narrow(s) {
        let (a, alo, ahi) = any_bounds(s);
        let r = <(u8, Option<u8>)>::try_from(a);
        let fits = alo <= 255 && ahi.is_none_or(|m| m <= 255);
        ensures!(r.is_ok() == fits, "u8 conversion exact or rejected");
        if let Ok((p, q)) = r { ensures!(p as usize == alo && q.map(|x| x as usize) == ahi, "u8 endpoints"); }
        let r = <(u16, Option<u16>)>::try_from(a);
        let fits = alo <= 65535 && ahi.is_none_or(|m| m <= 65535);
        ensures!(r.is_ok() == fits, "u16 conversion exact or rejected");
        if let Ok((p, q)) = r { ensures!(p as usize == alo && q.map(|x| x as usize) == ahi, "u16 endpoints"); }
        let r = <(u32, Option<u32>)>::try_from(a);
        let fits = alo <= 0xffff_ffff && ahi.is_none_or(|m| m <= 0xffff_ffff);
        ensures!(r.is_ok() == fits, "u32 conversion exact or rejected");
        if let Ok((p, q)) = r { ensures!(p as usize == alo && q.map(|x| x as usize) == ahi, "u32 endpoints"); }
    }
}
