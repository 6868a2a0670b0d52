//! Contracts on sequences: `SeqKind` (strict or repeated), integer ranges, keyed search, and the
//! sequence operators of the expression language.
#[cfg(not(kani))]
use crate::{expr::{judge, src}, genexpr::{self, T}};
use crate::src::{Src, content};
use crate::{contracts, ensures, reach, requires};
use doodle::decoder::seq_kind::{SeqKind, ValueSeq};
use doodle::verif;
use std::mem::ManuallyDrop as MD;

/// a strict sequence of any length and content, or a repetition of any count
fn any<S: Src + ?Sized>(s: &mut S, dup: bool) -> MD<SeqKind<u8>> {
    if dup {
        MD::new(SeqKind::Dup(s.usize(), Box::new(s.u8())))
    } else {
        MD::new(SeqKind::Strict(strict(s)))
    }
}
fn strict<S: Src + ?Sized>(s: &mut S) -> Vec<u8> {
    let c = content(s);
    #[cfg(kani)]
    unsafe { Vec::from_raw_parts(c.as_ptr() as *mut u8, c.len(), c.len()) }
    #[cfg(not(kani))]
    c.to_vec()
}
fn small<S: Src + ?Sized>(s: &mut S, n: usize) -> Vec<u8> {
    let k = s.below(n + 1);
    let mut v = Vec::with_capacity(n);
    for i in 0..n { let b = s.u8(); if i < k { v.push(b); } }
    v
}
fn key<S: Src + ?Sized>(s: &mut S) -> u32 { if s.native() { s.u32() % 8 } else { s.u32() } }
/// a sequence of at most 5 keys
fn keys<'a, S: Src + ?Sized>(s: &mut S, n: Option<usize>) -> (MD<SeqKind<u32>>, &'a [u32]) {
    let mut a = [0u32; 5];
    for i in 0..5 { a[i] = key(s); }
    let sorted = n.is_some();
    let n = n.unwrap_or_else(|| s.below(6));
    if s.native() && sorted { a[..n].sort(); }
    let p: &'a mut [u32; 5] = Box::leak(Box::new(a));
    let p = p.as_mut_ptr();
    unsafe { (MD::new(SeqKind::Strict(Vec::from_raw_parts(p, n, 5))), std::slice::from_raw_parts(p, n)) }
}
fn at(v: &SeqKind<u8>, i: usize) -> Option<u8> {
    match v { SeqKind::Strict(v) => if i < v.len() { Some(v[i]) } else { None }, SeqKind::Dup(n, b) => if i < *n { Some(**b) } else { None } }
}
fn count(v: &SeqKind<u8>) -> usize { match v { SeqKind::Strict(v) => v.len(), SeqKind::Dup(n, _) => *n } }
fn pos<S: Src + ?Sized>(s: &mut S, v: &SeqKind<u8>) -> usize { let i = s.usize(); if s.native() && s.bool() { i % (count(v).min(1 << 40) + 2) } else { i } }
fn fits(a: usize, l: usize, n: usize) -> bool { a <= n && l <= n - a }

contracts! {
    #[holds] unwind 2 fn get_strict(s) {
        let v = any(s, false);
        let i = pos(s, &v);
        ensures!(v.get(i).copied() == at(&v, i), "an item is the item at that index, or none");
        ensures!(v.len() == count(&v) && v.is_empty() == (v.len() == 0) && v.is_strict(), "length and emptiness");
        reach!(v.get(i).is_some(), "some");
        reach!(v.get(i).is_none(), "none");
    }
    #[holds] unwind 2 fn get_dup(s) {
        let v = any(s, true);
        let i = pos(s, &v);
        ensures!(v.get(i).copied() == at(&v, i), "an item is the repeated value, or none");
        ensures!(v.len() == count(&v) && v.is_empty() == (v.len() == 0) && !v.is_strict(), "length and emptiness");
        reach!(v.get(i).is_some(), "some");
        reach!(v.get(i).is_none(), "none");
    }
    #[holds] unwind 2 fn index_in_range(s) {
        let d = s.bool();
        let v = any(s, d);
        let i = pos(s, &v);
        requires!(s, i < count(&v));
        ensures!(Some(v[i]) == at(&v, i), "indexing yields the item");
    }
    #[panics] unwind 2 fn index_out_of_range(s) {
        let d = s.bool();
        let v = any(s, d);
        let i = pos(s, &v);
        requires!(s, i >= count(&v));
        let _x = v[i];
    }
    #[holds] unwind 2 fn sub_strict(s) {
        let v = any(s, false);
        let (a, l, i) = (pos(s, &v), pos(s, &v), s.usize());
        requires!(s, fits(a, l, count(&v)));
        let i = if s.native() { if l == 0 { 0 } else { i % l } } else { i };
        let r = MD::new(v.sub_seq(a, l));
        ensures!(r.len() == l, "a sub-sequence has the requested length");
        ensures!(i >= l || at(&r, i) == at(&v, a + i), "a sub-sequence holds the items from its start on");
    }
    #[holds] unwind 2 fn sub_dup(s) {
        let v = any(s, true);
        let (a, l, i) = (pos(s, &v), pos(s, &v), s.usize());
        requires!(s, fits(a, l, count(&v)));
        let r = MD::new(v.sub_seq(a, l));
        ensures!(r.len() == l, "a sub-sequence has the requested length");
        ensures!(i >= l || at(&r, i) == at(&v, a + i), "a sub-sequence holds the items from its start on");
    }
    #[panics] unwind 2 fn sub_strict_out_of_range(s) {
        let v = any(s, false);
        let (a, l) = (pos(s, &v), pos(s, &v));
        requires!(s, !fits(a, l, count(&v)));
        let _r = MD::new(v.sub_seq(a, l));
    }
    #[panics] unwind 2 fn sub_dup_out_of_range(s) {
        let v = any(s, true);
        let (a, l) = (pos(s, &v), pos(s, &v));
        requires!(s, !fits(a, l, count(&v)));
        let _r = MD::new(v.sub_seq(a, l));
    }
    #[holds] unwind 2 fn range_sub(s) {
        let (x, y, a, l) = (s.usize(), s.usize(), s.usize(), s.usize());
        let (a, l) = if s.native() && y > x && s.bool() { (a % (y - x), l % (y - x)) } else { (a, l) };
        let n = if y > x { y - x } else { 0 };
        requires!(s, fits(a, l, n) && x <= y);
        let r = verif::int_sub_range(x..y, a, l);
        ensures!(r.start == x + a && r.end == x + a + l, "a sub-range holds the numbers from its start on");
    }
    #[panics] unwind 2 fn range_sub_out_of_range(s) {
        let (x, y, a, l) = (s.usize(), s.usize(), s.usize(), s.usize());
        let n = if y > x { y - x } else { 0 };
        requires!(s, !fits(a, l, n));
        let _r = verif::int_sub_range(x..y, a, l);
    }
    #[holds] unwind 2 fn value_seq(s) {
        let (x, y) = (s.usize(), s.usize());
        let r: ValueSeq<'_, u8> = ValueSeq::IntRange(x..y);
        ensures!(r.len() == if y > x { y - x } else { 0 } && r.is_empty() == (y <= x), "length and emptiness of an integer range");
        let d = s.bool();
        let v = any(s, d);
        let w = ValueSeq::ValueSeq(&*v);
        ensures!(w.len() == count(&v) && w.is_empty() == (count(&v) == 0), "length and emptiness of a sequence");
    }
    #[holds] unwind 6 fn append_strict(s) {
        let (a, b) = (small(s, 3), small(s, 3));
        let (n, m) = (a.len(), b.len());
        let (x, y) = (MD::new(a.clone()), MD::new(b.clone()));
        let r = MD::new(SeqKind::Strict(a).append(SeqKind::Strict(b)));
        ensures!(r.len() == n + m, "appending adds lengths");
        let i = s.below(6);
        ensures!(i >= n + m || at(&r, i) == Some(if i < n { x[i] } else { y[i - n] }), "appending keeps the items in order");
    }
    #[holds] unwind 6 fn append_dup(s) {
        let (n, m, p, q) = (s.below(4), s.below(4), s.u8(), s.u8());
        let r = MD::new(SeqKind::Dup(n, Box::new(p)).append(SeqKind::Dup(m, Box::new(q))));
        ensures!(r.len() == n + m, "appending adds lengths");
        let i = s.below(8);
        ensures!(i >= n + m || at(&r, i) == Some(if i < n { p } else { q }), "appending keeps the items in order");
    }
    #[holds] unwind 6 fn iter_items(s) {
        let d = s.bool();
        let v = if d { let n = s.below(5); MD::new(SeqKind::Dup(n, Box::new(s.u8()))) } else { MD::new(SeqKind::Strict(small(s, 4))) };
        let mut i = 0;
        for x in v.iter() { ensures!(at(&v, i) == Some(*x), "iteration yields the items in order"); i += 1; }
        ensures!(i == count(&v), "iteration yields every item");
        i = 0;
        for x in &*v { ensures!(at(&v, i) == Some(*x), "iteration by reference yields the items in order"); i += 1; }
        ensures!(i == count(&v), "iteration by reference yields every item");
    }
    #[holds] unwind 6 fn into_items(s) {
        let d = s.bool();
        let v = if d { let n = s.below(5); SeqKind::Dup(n, Box::new(s.u8())) } else { SeqKind::Strict(small(s, 4)) };
        let w = MD::new(v.clone());
        let mut i = 0;
        for x in v.clone() { ensures!(at(&w, i) == Some(x), "consuming iteration yields the items in order"); i += 1; }
        ensures!(i == count(&w), "consuming iteration yields every item");
        let u = MD::new(v.into_vec());
        ensures!(u.len() == count(&w), "a vector of every item");
        let i = s.below(5);
        ensures!(i >= u.len() || Some(u[i]) == at(&w, i), "a vector of the items in order");
    }
    #[holds] unwind 7 fn search_sorted1(s) {
        let (v, items) = keys(s, Some(1));
        for i in 1..1 { requires!(s, items[i - 1] <= items[i]); }
        let q = key(s);
        let mut there = false;
        for i in 0..1 { there |= items[i] == q; }
        let r = verif::find_sorted(q, &v);
        ensures!(r.is_some() == there, "a key is found exactly when present");
        ensures!(r.is_none_or(|i| items[i] == q), "the found item has the key");
        reach!(r.is_some(), "some");
        reach!(r.is_none(), "none");
    }
    #[holds] unwind 7 fn search_sorted2(s) {
        let (v, items) = keys(s, Some(2));
        for i in 1..2 { requires!(s, items[i - 1] <= items[i]); }
        let q = key(s);
        let mut there = false;
        for i in 0..2 { there |= items[i] == q; }
        let r = verif::find_sorted(q, &v);
        ensures!(r.is_some() == there, "a key is found exactly when present");
        ensures!(r.is_none_or(|i| items[i] == q), "the found item has the key");
        reach!(r.is_some(), "some");
        reach!(r.is_none(), "none");
    }
    #[holds] unwind 7 fn search_sorted3(s) {
        let (v, items) = keys(s, Some(3));
        for i in 1..3 { requires!(s, items[i - 1] <= items[i]); }
        let q = key(s);
        let mut there = false;
        for i in 0..3 { there |= items[i] == q; }
        let r = verif::find_sorted(q, &v);
        ensures!(r.is_some() == there, "a key is found exactly when present");
        ensures!(r.is_none_or(|i| items[i] == q), "the found item has the key");
        reach!(r.is_some(), "some");
        reach!(r.is_none(), "none");
    }
    #[holds] unwind 7 fn search_sorted4(s) {
        let (v, items) = keys(s, Some(4));
        for i in 1..4 { requires!(s, items[i - 1] <= items[i]); }
        let q = key(s);
        let mut there = false;
        for i in 0..4 { there |= items[i] == q; }
        let r = verif::find_sorted(q, &v);
        ensures!(r.is_some() == there, "a key is found exactly when present");
        ensures!(r.is_none_or(|i| items[i] == q), "the found item has the key");
        reach!(r.is_some(), "some");
        reach!(r.is_none(), "none");
    }
    #[holds] unwind 7 fn search_sorted5(s) {
        let (v, items) = keys(s, Some(5));
        for i in 1..5 { requires!(s, items[i - 1] <= items[i]); }
        let q = key(s);
        let mut there = false;
        for i in 0..5 { there |= items[i] == q; }
        let r = verif::find_sorted(q, &v);
        ensures!(r.is_some() == there, "a key is found exactly when present");
        ensures!(r.is_none_or(|i| items[i] == q), "the found item has the key");
        reach!(r.is_some(), "some");
        reach!(r.is_none(), "none");
    }
    #[holds] unwind 7 fn search_unsorted(s) {
        let (v, items) = keys(s, None);
        let q = key(s);
        let mut first = None;
        for i in 0..5 { if first.is_none() && i < items.len() && items[i] == q { first = Some(i); } }
        ensures!(verif::find_unsorted(q, &v) == first, "the first item with the key is found");
        reach!(first.is_some(), "some");
        reach!(first.is_none(), "none");
    }
    #[native] unwind 1 fn search_sorted_long(s) {
        let mut v: Vec<u32> = (0..s.below(200)).map(|_| s.u32() % 100).collect();
        v.sort();
        let q = s.u32() % 100;
        let r = verif::find_sorted(q, &SeqKind::Strict(v.clone()));
        ensures!(r.is_some() == v.contains(&q) && r.is_none_or(|i| v[i] == q), "a key is found exactly when present");
    }
    #[native] unwind 1 fn expr_seq(s) { let t = { let mut f = src(s); genexpr::ty(&mut f, 1) }; return judge(s, 3, Some(T::Seq(Box::new(t)))) }
    #[native] unwind 1 fn expr_range(s) { return judge(s, 3, Some(T::Seq(Box::new(T::U(0))))) }
    // lengths too large to store: repetition counts and ranges of any size, measured, indexed and sliced lazily
    #[native] unwind 1 fn expr_huge(s) {
        use doodle::Expr;
        use crate::refsem::N;
        let (n, k, at, len) = (s.u64(), s.u64(), s.u64(), s.u64());
        let lo = if k <= n { k } else { 0 };
        let u = |x: u64| Box::new(Expr::U64(x));
        let rep = Expr::Dup(u(n), Box::new(Expr::U8(7)));
        let rng = Expr::EnumFromTo(u(lo), u(n));
        for (q, size, first) in [(&rep, n, None), (&rng, n - lo, Some(lo))] {
            for f in [crate::expr::real, crate::expr::real_loc] {
                let sz = |w: Option<u64>, got: Option<N>| match (w, got) { (Some(w), Some(N::Int(32, v))) => v == w, (None, None) => true, _ => false };
                ensures!(sz((size <= u32::MAX as u64).then_some(size), f(&Expr::SeqLength(Box::new(q.clone())))), "the length is the number of items or is refused");
                let sub = Expr::SeqLength(Box::new(Expr::SubSeq(Box::new(q.clone()), u(at), u(len))));
                let fits = at.checked_add(len).is_some_and(|e| e <= size);
                ensures!(sz((fits && len <= u32::MAX as u64).then_some(len), f(&sub)), "a sub-sequence has its length and lies inside");
                if first.is_none() || at < 4096 {
                    let item = f(&Expr::SeqIx(Box::new(q.clone()), u(at)));
                    let want = (at < size).then(|| first.map_or(7, |l| l + at));
                    ensures!(match (want, item) { (Some(w), Some(N::Int(_, v))) => v == w, (None, None) => true, _ => false }, "indexing gives the item or is refused");
                }
            }
        }
    }
}
