//! Contracts on `doodle::prelude`, the runtime of generated decoders.
use crate::src::{Src, content};
use crate::{contracts, ensures, reach, requires};
use doodle::prelude::*;
use std::mem::ManuallyDrop as MD;

fn fits(a: usize, b: usize, n: usize) -> bool { a <= b && b <= n }
/// at most `N` bytes, the rest of the allocation spare
fn arr<const N: usize, S: Src + ?Sized>(s: &mut S) -> ([u8; N], usize) {
    let mut a = [0u8; N];
    for i in 0..N { a[i] = s.u8(); }
    let n = s.below(N + 1);
    (a, n)
}

contracts! {
    #[holds] unwind 3 fn words16(s) {
        let (a, b) = (s.u8(), s.u8());
        ensures!(u16be((a, b)) == (a as u16) << 8 | b as u16, "big-endian 16-bit");
        ensures!(u16le((a, b)) == (b as u16) << 8 | a as u16, "little-endian 16-bit");
    }
    #[holds] unwind 3 fn words32(s) {
        let (a, b, c, d) = (s.u8(), s.u8(), s.u8(), s.u8());
        let w = |a: u8, b: u8, c: u8, d: u8| (a as u32) << 24 | (b as u32) << 16 | (c as u32) << 8 | d as u32;
        ensures!(u32be((a, b, c, d)) == w(a, b, c, d), "big-endian 32-bit");
        ensures!(u32le((a, b, c, d)) == w(d, c, b, a), "little-endian 32-bit");
    }
    #[holds] unwind 3 fn words64(s) {
        let (a, b, c, d, e, f, g, h) = (s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8());
        let w = |a: u8, b: u8, c: u8, d: u8| (a as u64) << 24 | (b as u64) << 16 | (c as u64) << 8 | d as u64;
        ensures!(u64be((a, b, c, d, e, f, g, h)) == w(a, b, c, d) << 32 | w(e, f, g, h), "big-endian 64-bit");
        ensures!(u64le((a, b, c, d, e, f, g, h)) == w(h, g, f, e) << 32 | w(d, c, b, a), "little-endian 64-bit");
    }
    #[holds] unwind 2 fn succ_pred(s) {
        let (a, b, c, d) = (s.u8(), s.u16(), s.u32(), s.u64());
        if a < u8::MAX { ensures!(succ(a) == a + 1 && pred(succ(a)) == a, "8-bit"); }
        if b < u16::MAX { ensures!(succ(b) == b + 1 && pred(succ(b)) == b, "16-bit"); }
        if c < u32::MAX { ensures!(succ(c) == c + 1 && pred(succ(c)) == c, "32-bit"); }
        if d < u64::MAX { ensures!(succ(d) == d + 1 && pred(succ(d)) == d, "64-bit"); }
    }
    #[panics] unwind 2 fn pred_zero(s) { let x: u64 = pred(0u64); std::hint::black_box(x); }
    #[panics] unwind 2 fn succ_max(s) { let x: u8 = succ(u8::MAX); std::hint::black_box(x); }
    #[holds] unwind 2 fn slice_within(s) {
        let c = content(s);
        let (a, b, i) = (s.usize(), s.usize(), s.usize());
        let (a, b) = if s.native() { let n = c.len() + 1; (a % n, b % n) } else { (a, b) };
        requires!(s, fits(a, b, c.len()));
        let i = if s.native() { if a == b { 0 } else { i % (b - a) } } else { i };
        let r = MD::new(slice_ext(c, a..b));
        ensures!(r.len() == b - a, "a slice has the requested length");
        ensures!(i >= b - a || r[i] == c[a + i], "a slice holds the bytes of its range");
    }
    #[holds] unwind 7 fn slice_beyond(s) {
        let (x, n) = arr::<2, _>(s);
        let (a, b) = (s.below(2), s.below(6));
        requires!(s, a < n && a <= b && b > n);
        let r = MD::new(slice_ext(&x[..n], a..b));
        ensures!(r.len() == b - a, "an inflated slice has the requested length");
        let i = s.below(6);
        ensures!(i >= b - a || r[i] == if a + i < n { x[a + i] } else { r[a + i - n] }, "an inflated slice repeats what it already holds");
    }
    #[holds] unwind 6 fn seq_append_(s) {
        let ((a, n), (b, m)) = (arr::<2, _>(s), arr::<2, _>(s));
        let (v, w) = (MD::new(a[..n].to_vec()), MD::new(b[..m].to_vec()));
        let r: MD<Vec<u8>> = MD::new(seq_append::<u8, Vec<u8>>(&*v, &*w));
        ensures!(r.len() == n + m, "appending adds lengths");
        let i = s.below(4);
        ensures!(i >= n + m || r[i] == if i < n { a[i] } else { b[i - n] }, "appending keeps the items in order");
    }
    #[holds] unwind 6 fn dup(s) {
        let (n, v) = (s.below(5), s.u8());
        let r = MD::new(dup32(n as u32, v));
        ensures!(r.len() == n, "as many copies as asked for");
        let i = s.below(5);
        ensures!(i >= n || r[i] == v, "every copy is the value");
    }
    #[holds] unwind 7 fn find_sorted(s) {
        let (mut x, n) = arr::<5, _>(s);
        if s.native() { x[..n].sort(); }
        for i in 1..5 { requires!(s, i >= n || x[i - 1] <= x[i]); }
        let q = s.u8();
        let mut there = false;
        for i in 0..5 { there |= i < n && x[i] == q; }
        let r = find_by_key_sorted(|k: &u8| *k, q, &x[..n]);
        ensures!(r.is_some() == there && r.is_none_or(|k| *k == q), "a key is found exactly when present");
        reach!(r.is_some(), "some");
        reach!(r.is_none(), "none");
    }
    #[holds] unwind 7 fn find_unsorted(s) {
        let (x, n) = arr::<5, _>(s);
        let q = s.u8() & 3;
        let mut first = None;
        for i in 0..5 { if first.is_none() && i < n && x[i] & 3 == q { first = Some(i); } }
        let r = find_by_key_unsorted(|k: &u8| *k & 3, q, &x[..n]);
        let at = r.map(|p| p as *const u8 as usize - x.as_ptr() as usize);
        ensures!(at == first, "the first item with the key is found");
        reach!(r.is_some(), "some");
    }
    #[holds] unwind 5 fn fold_left(s) {
        let (x, n) = arr::<3, _>(s);
        // f is injective in the order and number of its arguments, and refuses the item 255
        let f = |(acc, v): (u64, u8)| if v == 255 { Err(acc) } else { Ok(acc << 8 | v as u64 + 1) };
        let r: Result<u64, u64> = try_fold_left_curried(x[..n].iter().copied(), 1, f);
        let mut want = Ok(1u64);
        for i in 0..3 { if i < n { if let Ok(w) = want { want = f((w, x[i])); } } }
        ensures!(r == want, "items are folded in order, stopping at the first refusal");
        reach!(r.is_ok(), "ok");
        reach!(r.is_err(), "err");
    }
    #[holds] unwind 5 fn repeat_between(s) {
        let (o, len, min, max) = (s.bool(), s.usize(), s.usize(), s.usize());
        requires!(s, min <= max && len <= max);
        let r = MD::new(repeat_between_finished(o, len, min, max));
        match &*r {
            Ok(f) => { ensures!(!(o && len < min), "too few repetitions are refused"); ensures!(*f == (o || len == max), "finished when out of repetitions or at the maximum"); }
            Err(_) => ensures!(o && len < min, "enough repetitions are accepted"),
        }
        reach!(r.is_ok(), "ok");
        reach!(r.is_err(), "err");
    }
    #[native] unwind 1 fn flat_maps(s) {
        let n = s.below(6);
        let x: Vec<u8> = (0..n).map(|_| s.u8()).collect();
        let bad = |v: u8| s_bad(v);
        let f = |v: u8| if bad(v) { Err(v) } else { Ok((0..v % 4).map(|i| v.wrapping_add(i)).collect::<Vec<u8>>()) };
        let mut want = Ok(Vec::new());
        for v in &x { match (f(*v), &mut want) { (Ok(mut y), Ok(w)) => w.append(&mut y), (Err(e), Ok(_)) => want = Err(e), _ => {} } }
        ensures!(try_flat_map_vec(x.iter().copied(), f) == want, "results are concatenated in order, stopping at the first refusal");
        let g = |(seen, v): (&[u8], u8)| if bad(v) { Err(v) } else { Ok(vec![v, seen.len() as u8, seen.last().copied().unwrap_or(9)]) };
        let mut want: Result<Vec<u8>, u8> = Ok(Vec::new());
        for v in &x { if let Ok(mut w) = want { want = g((&w, *v)).map(|y| { w.extend(y); w }); } }
        ensures!(try_flat_map_append_vec(x.iter().copied(), g) == want, "each step sees exactly what was produced before it");
        let h = |(acc, v): (u64, u8)| if bad(v) { Err(acc) } else { Ok((acc.wrapping_mul(31) + v as u64, vec![acc, v as u64])) };
        let (mut acc, mut want) = (7u64, Ok(Vec::new()));
        for v in &x { match (h((acc, *v)), &mut want) { (Ok((a, y)), Ok(w)) => { acc = a; w.extend(y) } (Err(e), Ok(_)) => want = Err(e), _ => {} } }
        ensures!(try_fold_map_curried(x.iter().copied(), 7u64, h) == want, "the accumulator is threaded in order and the results are concatenated");
    }
    #[native] unwind 1 fn slices_long(s) {
        let n = 1 + s.below(40);
        let x: Vec<u8> = (0..n).map(|_| s.u8()).collect();
        let a = s.below(n);
        let b = a + s.below(80);
        let mut want: Vec<u8> = Vec::new();
        for i in a..b { want.push(if i < n { x[i] } else { want[i - n] }); }
        ensures!(&slice_ext(&x, a..b)[..] == &want[..], "an inflated slice repeats what it already holds");
        let mut v = x.clone();
        extend_from_within_ext(&mut v, a..b);
        ensures!(v[..n] == x[..] && v[n..] == want[..], "an overlapping copy repeats what it already holds");
    }
    #[native] unwind 1 fn huffman(s) {
        let n = 1 + s.below(20);
        let top = 1 + s.below(9);
        let lens: Vec<u8> = (0..n).map(|_| s.below(top + 1) as u8).collect();
        let perm: Option<Vec<u8>> = s.bool().then(|| { let mut p: Vec<u8> = (0..n as u8).collect(); for i in 0..n { let j = s.below(n); p.swap(i, j); } p });
        // the symbol whose length is lens[i]
        let sym = |i: usize| perm.as_ref().map_or(i, |p| p[i] as usize);
        let mut by_sym = vec![0u8; n];
        for i in 0..n { by_sym[sym(i)] = lens[i]; }
        // canonical code: shorter codes first, ties by symbol, each code one more than the previous
        let mut order: Vec<usize> = (0..n).filter(|i| by_sym[*i] > 0).collect();
        order.sort_by_key(|i| (by_sym[*i], *i));
        let kraft: u64 = order.iter().map(|i| 1u64 << (16 - by_sym[*i])).sum();
        let over = kraft > 1 << 16;
        let mut codes: Vec<(Vec<u8>, u16)> = Vec::new();
        let mut at = 0u64;
        for i in &order { let l = by_sym[*i]; let c = at >> (16 - l); codes.push(((0..l).rev().map(|b| (c >> b & 1) as u8).collect(), *i as u16)); at += 1 << (16 - l); }
        let bits: Vec<u8> = (0..s.below(30)).map(|_| s.below(2) as u8).collect();
        let mut p = Parser::new(&bits);
        let dec = parse_huffman(&lens, perm.clone());
        let mut off = 0;
        for _ in 0..4 {
            let want = if over { None } else { codes.iter().find(|(c, _)| bits[off..].starts_with(c)) };
            let got = dec(&mut p);
            if order.is_empty() { ensures!(got.is_err(), "a code without symbols decodes nothing"); break; }
            match (want, got) {
                (Some((c, v)), Ok(g)) => { ensures!(*v == g, "the decoded symbol is the one the canonical code assigns"); off += c.len(); ensures!(p.remaining() == bits.len() - off, "exactly the code is consumed"); }
                (None, Err(_)) => break,
                _ => ensures!(false, "exactly the canonical codes are decoded"),
            }
        }
    }
}
#[cfg(not(kani))]
fn s_bad(v: u8) -> bool { v % 16 == 15 }
