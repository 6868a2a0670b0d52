//! Contracts on `doodle::byte_set::ByteSet` against the abstract view "subset of 0..=255".
//! The view of a set `s` is the predicate `x |-> s.contains(x)`; `member` pins the view to the
//! bit representation accepted/returned by `from_bits`/`to_bits`.
use crate::src::Src;
use crate::{contracts, ensures, reach, requires};
use doodle::byte_set::ByteSet;

fn bits<S: Src + ?Sized>(s: &mut S) -> [u64; 4] {
    [s.u64(), s.u64(), s.u64(), s.u64()]
}
fn any_set<S: Src + ?Sized>(s: &mut S) -> ByteSet {
    ByteSet::from_bits(bits(s))
}
/// spec function: membership in the bit-array view
fn bit(b: &[u64; 4], x: u8) -> bool {
    (b[(x / 64) as usize] >> (x % 64)) & 1 == 1
}

contracts! {
    #[holds] unwind 34 fn member(s) {
        let b = bits(s);
        let x = s.u8();
        let set = ByteSet::from_bits(b);
        ensures!(set.contains(x) == bit(&b, x), "contains(x) <=> bit x of the bit array");
        ensures!(set.to_bits() == b, "to_bits inverts from_bits");
        reach!(set.contains(x), "x in set");
        reach!(!set.contains(x), "x not in set");
    }
    #[holds] unwind 34 fn algebra(s) {
        let (a, b) = (any_set(s), any_set(s));
        let x = s.u8();
        let (p, q) = (a.contains(x), b.contains(x));
        ensures!(a.union(&b).contains(x) == (p || q), "union");
        ensures!(a.intersection(&b).contains(x) == (p && q), "intersection");
        ensures!(a.difference(&b).contains(x) == (p && !q), "difference");
        ensures!(a.complement().contains(x) == !p, "complement");
        ensures!((!a).contains(x) == !p, "not");
        ensures!((!&a).contains(x) == !p, "not-ref");
    }
    #[holds] unwind 34 fn constants(s) {
        let x = s.u8();
        let y = s.u8();
        ensures!(!ByteSet::new().contains(x), "new is empty");
        ensures!(!ByteSet::empty().contains(x), "empty");
        ensures!(ByteSet::full().contains(x), "full");
        ensures!(ByteSet::singleton(y).contains(x) == (x == y), "singleton");
        ensures!(ByteSet::empty().len() == 0, "len of empty");
    }
    #[holds] unwind 34 fn insert_remove(s) {
        let a = any_set(s);
        let x = s.u8();
        let y = s.u8();
        let mut i = a;
        i.insert(y);
        ensures!(i.contains(x) == (a.contains(x) || x == y), "insert: frame and effect");
        let mut r = a;
        r.remove(y);
        ensures!(r.contains(x) == (a.contains(x) && x != y), "remove: frame and effect");
    }
    // cardinality, inductively: |empty| = 0 (constants) and |s + y| = |s| + [y not in s]
    #[holds] unwind 34 fn len_step(s) {
        let a = any_set(s);
        let y = s.u8();
        let mut i = a;
        i.insert(y);
        ensures!(i.len() == a.len() + if a.contains(y) { 0 } else { 1 }, "len counts members (inductive step)");
    }
    #[holds] unwind 34 fn emptiness(s) {
        let a = any_set(s);
        let x = s.u8();
        let m = a.min_elem();
        ensures!(!(a.is_empty() && a.contains(x)), "is_empty => no member");
        ensures!(!(a.is_full() && !a.contains(x)), "is_full => every member");
        ensures!(a.is_empty() == (a.to_bits() == [0; 4]), "is_empty <=> no bit");
        ensures!(a.is_full() == (a.to_bits() == [u64::MAX; 4]), "is_full <=> all bits");
        ensures!(m.is_none() == a.is_empty(), "min_elem is None <=> empty");
    }
    #[holds] unwind 34 fn disjoint(s) {
        let (a, b) = (any_set(s), any_set(s));
        let x = s.u8();
        let d = a.is_disjoint(&b);
        ensures!(!(d && a.contains(x) && b.contains(x)), "disjoint => no common member");
        let (p, q) = (a.to_bits(), b.to_bits());
        let common = (p[0] & q[0]) | (p[1] & q[1]) | (p[2] & q[2]) | (p[3] & q[3]);
        ensures!(d == (common == 0), "disjoint <=> no common bit");
        reach!(d && !a.is_empty() && !b.is_empty(), "disjoint nonempty");
    }
    #[holds] unwind 34 fn extremes(s) {
        let a = any_set(s);
        let x = s.u8();
        match a.min_elem() {
            None => ensures!(!a.contains(x), "min None => empty"),
            Some(m) => {
                ensures!(a.contains(m), "min_elem is a member");
                ensures!(!(a.contains(x) && x < m), "min_elem is minimal");
            }
        }
        match a.max_elem() {
            None => ensures!(!a.contains(x), "max None => empty"),
            Some(m) => {
                ensures!(a.contains(m), "max_elem is a member");
                ensures!(!(a.contains(x) && x > m), "max_elem is maximal");
            }
        }
    }
    // ranges: symbolic bounds of at most 4 members; all 65536 ranges exhaustively below
    #[holds] unwind 8 fn from_range(s) {
        let lo = s.u8();
        let hi = s.u8();
        let x = s.u8();
        requires!(s, hi as i32 - (lo as i32) < 4);
        ensures!(ByteSet::from(lo..=hi).contains(x) == (lo <= x && x <= hi), "inclusive range");
        ensures!(ByteSet::from(lo..hi).contains(x) == (lo <= x && x < hi), "half-open range");
    }
    #[native] unwind 1 fn all_ranges(s) {
        for lo in 0..=255u8 {
            for hi in 0..=255u8 {
                let (i, h) = (ByteSet::from(lo..=hi), ByteSet::from(lo..hi));
                for x in 0..=255u8 {
                    ensures!(i.contains(x) == (lo <= x && x <= hi), "inclusive range");
                    ensures!(h.contains(x) == (lo <= x && x < hi), "half-open range");
                }
            }
        }
    }
    // bounded: sequences of at most 4 bytes
    #[holds] unwind 6 fn from_bytes(s) {
        let arr = [s.u8(), s.u8(), s.u8(), s.u8()];
        let n = s.below(5);
        let x = s.u8();
        let mut want = false;
        let mut i = 0;
        while i < 4 { if i < n && arr[i] == x { want = true; } i += 1; }
        ensures!(ByteSet::from(&arr[..n]).contains(x) == want, "from slice");
        ensures!(arr[..n].iter().copied().collect::<ByteSet>().contains(x) == want, "from iterator");
        if n == 4 { ensures!(ByteSet::from(arr).contains(x) == want, "from array"); }
    }
    #[holds] unwind 258 fn iterate(s) {
        let a = any_set(s);
        let x = s.u8();
        // internal iteration: one pass over the real iterator
        let (seen, asc, mem, _) = a.iter().fold((false, true, true, -1i32), |(seen, asc, mem, last), b| {
            (seen || b == x, asc && last < b as i32, mem && a.contains(b), b as i32)
        });
        ensures!(mem, "iter yields members only");
        ensures!(asc, "iter is strictly ascending");
        ensures!(seen == a.contains(x), "iter yields every member");
    }
    #[holds] unwind 258 fn iterate_first(s) {
        let a = any_set(s);
        ensures!(a.iter().next() == a.min_elem(), "external iteration starts at the least member");
    }
    #[holds] unwind 34 fn bounds_span(s) {
        let a = any_set(s);
        let x = s.u8();
        if let Some((l, h)) = a.bounds() {
            ensures!(a.contains(l) && a.contains(h), "bounds are members");
            ensures!(!a.contains(x) || (l <= x && x <= h), "bounds enclose the set");
            ensures!(a.span() == h as u32 - l as u32 + 1, "span");
        } else {
            ensures!(!a.contains(x), "no bounds => empty");
            ensures!(a.span() == 0, "span of empty");
        }
    }
    // bounded: ranges of at most 4 members
    #[holds] unwind 8 fn contains_range(s) {
        let a = any_set(s);
        let lo = s.u8();
        let n = s.below(4) as u8;
        requires!(s, lo as u32 + (n as u32) < 256);
        let c = a.contains_range(lo..=lo + n);
        let mut want = true;
        let mut i = 0;
        while i < 4 { if i <= n && !a.contains(lo + i.min(n)) { want = false; } i += 1; }
        ensures!(c == want, "contains_range <=> every byte of the range");
    }
}
