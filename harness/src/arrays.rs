//! Contracts on the zero-copy array reader (`smallsorts::binary::read`) and `View::read_array_*`.
//! View of a `ReadArray<T>`: the sequence of big-endian items at `stride` intervals of its bytes.
//! Kani additionally checks every `get_unchecked` for being in bounds.
use crate::src::{content, Out, Src};
use crate::{contracts, ensures, reach, requires};
use doodle::parser::view::View;
use smallsorts::binary::read::{CheckIndex, ReadArrayCow, ReadBinary, ReadScope, ReadUnchecked};
use smallsorts::binary::{I16Be, I32Be, I64Be, I8, U16Be, U24Be, U32Be, U64Be, U8};
use std::cmp::Ordering;

const N: usize = 10;
fn bytes<S: Src + ?Sized>(s: &mut S) -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N { b[i] = s.u8(); i += 1; }
    b
}
/// big-endian value of `k` bytes at `o`
fn be(b: &[u8], o: usize, k: usize) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < k { v = v << 8 | b[o + i] as u64; i += 1; }
    v
}

/// scalar reads of type `T` at any position of a buffer of any length
fn scalar<S: Src + ?Sized, T: ReadUnchecked>(s: &mut S, size: usize, eq: fn(T::HostType, u64) -> bool) -> Out {
    let b = content(s);
    let len = b.len();
    let off = s.usize();
    let off = if s.native() { off % (len + 1) } else { off };
    requires!(s, off <= len);
    let mut c = ReadScope::new(b).ctxt();
    ensures!(c.read_slice(off).is_ok(), "skip within the scope");
    ensures!(T::SIZE == size, "declared width");
    match <T as ReadBinary>::read(&mut c) {
        Ok(v) => {
            ensures!(off + size <= len, "no read past the end");
            ensures!(eq(v, be(b, off, size)), "big-endian value of exactly the bytes at the position");
            ensures!(c.scope().data().len() == len - off - size, "consumes exactly its width");
            ensures!(c.bytes_available() == (off + size < len), "availability");
        }
        Err(_) => ensures!(off + size > len, "a read within the scope succeeds"),
    }
    Out::Done
}
/// any buffer and any position within it
fn placed<'a, S: Src + ?Sized>(s: &mut S) -> (&'a [u8], usize, usize) {
    let b = content(s);
    let off = s.usize();
    let off = if s.native() { off % (b.len() + 1) } else { off };
    (b, b.len(), off)
}
fn slice_spec<S: Src + ?Sized>(s: &mut S) -> Out {
    let b = content(s);
    let len = b.len();
    let sc = ReadScope::new(b);
    let (o, l) = (s.usize() >> 2, s.usize());
    let (o, l) = if s.native() && s.bool() { (o % (len + 2), l % (len + 2)) } else { (o, l) };
    match sc.offset_length(o, l) {
        Ok(r) => {
            ensures!(l == 0 || (o < len && l <= len - o), "a window lies within its scope");
            ensures!(r.data().len() == l, "length");
            if l > 0 {
                let i = s.usize();
                let i = if s.native() { i % l } else { i };
                requires!(s, i < l);
                ensures!(r.data()[i] == b[o + i], "window bytes are the scope's bytes");
            }
        }
        Err(_) => ensures!(l != 0 && (o >= len || l > len - o), "a window within the scope is granted"),
    }
    let r = sc.offset(o);
    ensures!(r.data().len() == len.saturating_sub(o), "offset drops a prefix");
    if o < len { ensures!(r.data()[0] == b[o], "suffix"); }
    Out::Done
}

/// executed: everything an array offers against the items its bytes encode (sorted contents, up to 64 items)
fn large<S: Src + ?Sized>(s: &mut S) -> Out {
    let n = s.below(65);
    let stride = 2 + s.below(4);
    let mut items: Vec<u16> = (0..n).map(|_| if s.bool() { s.u8() as u16 } else { s.u16() }).collect();
    let sorted = s.below(4) > 0;
    if sorted { items.sort(); }
    let mut b: Vec<u8> = Vec::new();
    for x in &items { b.extend_from_slice(&x.to_be_bytes()); for _ in 2..stride { b.push(s.u8()); } }
    for _ in 0..s.below(4) { b.push(s.u8()); }
    let mut c = ReadScope::new(&b).ctxt();
    let a = if stride == 2 && s.bool() { c.read_array::<U16Be>(n) } else { c.read_array_stride::<U16Be>(n, stride) };
    let Ok(a) = a else { ensures!(false, "an array that fits is granted"); return Out::Done };
    ensures!(a.len() == n && c.scope().data().len() == b.len() - n * stride, "length and consumption");
    ensures!(a.to_vec() == items, "to_vec");
    ensures!(a.read_to_vec().ok().as_ref() == Some(&items), "read_to_vec");
    ensures!(a.iter().collect::<Vec<_>>() == items && (&a).into_iter().count() == n && a.iter().len() == n, "iter");
    ensures!(a.last() == items.last().copied(), "last");
    for i in 0..n + 3 {
        ensures!(a.get_item(i) == items.get(i).copied() && a.read_item(i).ok() == items.get(i).copied() && a.check_index(i).is_ok() == (i < n), "items");
    }
    let own = s.bool();
    let key = if s.bool() && n > 0 { items[s.below(n)] } else { s.u16() };
    if sorted {
        match a.binary_search_by(|v| v.cmp(&key)) {
            Ok(k) => ensures!(items.get(k) == Some(&key), "a hit is at the reported index"),
            Err(k) => ensures!(items.binary_search(&key) == Err(k), "a miss reports the insertion point"),
        }
    }
    let cow: ReadArrayCow<'_, U16Be> = if own { ReadArrayCow::Owned(a.to_vec()) } else { ReadArrayCow::Borrowed(a) };
    ensures!(cow.len() == n && cow.iter().collect::<Vec<_>>() == items, "cow iter");
    let mut it = cow.iter();
    for i in 0..n { ensures!(it.size_hint() == (n - i, Some(n - i)), "cow size hint"); it.next(); }
    ensures!(it.next().is_none() && it.size_hint() == (0, Some(0)), "cow end");
    for i in 0..n + 3 { ensures!(cow.get_item(i) == items.get(i).copied() && cow.read_item(i).ok() == items.get(i).copied(), "cow items"); }
    Out::Done
}
contracts! {
    #[native] unwind 1 fn large_arrays(s) { return large(s) }
    #[holds] unwind 12 fn read_u8(s) { return scalar::<_, U8>(s, 1, |v, x| v as u64 == x) }
    #[holds] unwind 12 fn read_i8(s) { return scalar::<_, I8>(s, 1, |v, x| v == x as u8 as i8) }
    #[holds] unwind 12 fn read_u16(s) { return scalar::<_, U16Be>(s, 2, |v, x| v as u64 == x) }
    #[holds] unwind 12 fn read_i16(s) { return scalar::<_, I16Be>(s, 2, |v, x| v == x as u16 as i16) }
    #[holds] unwind 12 fn read_u24(s) { return scalar::<_, U24Be>(s, 3, |v, x| v as u64 == x) }
    #[holds] unwind 12 fn read_u32(s) { return scalar::<_, U32Be>(s, 4, |v, x| v as u64 == x) }
    #[holds] unwind 12 fn read_i32(s) { return scalar::<_, I32Be>(s, 4, |v, x| v == x as u32 as i32) }
    #[holds] unwind 12 fn read_u64(s) { return scalar::<_, U64Be>(s, 8, |v, x| v == x) }
    #[holds] unwind 12 fn read_i64(s) { return scalar::<_, I64Be>(s, 8, |v, x| v == x as i64) }
    #[holds] unwind 12 fn read_pair(s) { return scalar::<_, (U8, U16Be)>(s, 3, |v, x| v.0 as u64 == x >> 16 && v.1 as u64 == x & 0xffff) }
    #[holds] unwind 12 fn read_triple(s) { return scalar::<_, (U16Be, U8, U16Be)>(s, 5, |v, x| v.0 as u64 == x >> 24 && v.1 as u64 == (x >> 16) & 0xff && v.2 as u64 == x & 0xffff) }
    #[holds] unwind 12 fn read_quad(s) { return scalar::<_, (U8, U8, U16Be, U32Be)>(s, 8, |v, x| v.0 as u64 == x >> 56 && v.1 as u64 == (x >> 48) & 0xff && v.2 as u64 == (x >> 32) & 0xffff && v.3 as u64 == x & 0xffff_ffff) }
    #[holds] unwind 12 fn ctxt_reads(s) {
        let (b, len, off) = placed(s);
        requires!(s, off <= len);
        let mut c0 = ReadScope::new(b).ctxt();
        ensures!(c0.read_slice(off).is_ok(), "skip");
        let left = len - off;
        let mut c = c0.clone();
        match c.read_u8() { Ok(v) => ensures!(left >= 1 && v == b[off], "u8"), Err(_) => ensures!(left < 1, "u8") }
        let mut c = c0.clone();
        match c.read_i8() { Ok(v) => ensures!(left >= 1 && v == b[off] as i8, "i8"), Err(_) => ensures!(left < 1, "i8") }
        let mut c = c0.clone();
        match c.read_u16be() { Ok(v) => ensures!(left >= 2 && v as u64 == be(&b, off, 2), "u16"), Err(_) => ensures!(left < 2, "u16") }
        let mut c = c0.clone();
        match c.read_i16be() { Ok(v) => ensures!(left >= 2 && v as u16 as u64 == be(&b, off, 2), "i16"), Err(_) => ensures!(left < 2, "i16") }
        let mut c = c0.clone();
        match c.read_u32be() { Ok(v) => ensures!(left >= 4 && v as u64 == be(&b, off, 4), "u32"), Err(_) => ensures!(left < 4, "u32") }
        let mut c = c0.clone();
        match c.read_i32be() { Ok(v) => ensures!(left >= 4 && v as u32 as u64 == be(&b, off, 4), "i32"), Err(_) => ensures!(left < 4, "i32") }
        let mut c = c0.clone();
        match c.read_u64be() { Ok(v) => ensures!(left >= 8 && v == be(&b, off, 8), "u64"), Err(_) => ensures!(left < 8, "u64") }
        let mut c = c0.clone();
        match c.read_i64be() { Ok(v) => ensures!(left >= 8 && v as u64 == be(&b, off, 8), "i64"), Err(_) => ensures!(left < 8, "i64") }
    }
    #[holds] unwind 12 fn windows(s) { return slice_spec(s) }
    // array of any requested length over any buffer
    #[holds] unwind 12 fn array_u16(s) {
        let (b, len, off) = placed(s);
        requires!(s, off <= len);
        let mut c = ReadScope::new(&b[..len]).ctxt();
        ensures!(c.read_slice(off).is_ok(), "skip");
        let n = s.usize();
        let n = if s.native() && s.bool() { n % 35 } else { n };
        match c.read_array::<U16Be>(n) {
            Ok(a) => {
                ensures!(n <= (len - off) / 2, "an array may not extend past its scope");
                ensures!(a.len() == n && a.is_empty() == (n == 0), "length");
                ensures!(c.scope().data().len() == len - off - 2 * n, "consumes exactly its items");
                let i = s.usize();
                let i = if s.native() && s.bool() { i % (n + 1) } else { i };
                match a.get_item(i) {
                    Some(v) => ensures!(i < n && v as u64 == be(&b, off + 2 * i, 2), "item i is the i-th big-endian value"),
                    None => ensures!(i >= n, "every index below the length is present"),
                }
                match a.read_item(i) {
                    Ok(v) => ensures!(i < n && v as u64 == be(&b, off + 2 * i, 2), "checked item"),
                    Err(_) => ensures!(i >= n, "checked item out of range"),
                }
                ensures!(a.check_index(i).is_ok() == (i < n), "index check");
                ensures!(a.last() == if n == 0 { None } else { Some(be(&b, off + 2 * n - 2, 2) as u16) }, "last item");
            }
            Err(_) => ensures!(n > (len - off) / 2, "an array that fits is granted"),
        }
        reach!(n > 1 && n < 6, "fits");
    }
    #[holds] unwind 12 fn array_stride(s) {
        let b = bytes(s);
        let len = s.below(N + 1);
        let mut c = ReadScope::new(&b[..len]).ctxt();
        let stride = s.below(6);
        let n = s.below(8);
        match c.read_array_stride::<U16Be>(n, stride) {
            Ok(a) => {
                ensures!(stride >= 2 && n * stride <= len, "items fit their stride and the scope");
                ensures!(c.scope().data().len() == len - n * stride, "consumes exactly its items");
                let i = s.below(8);
                let want = if i < n { Some(be(&b, i * stride, 2) as u16) } else { None };
                ensures!(a.get_item(i) == want, "item i starts i strides in");
                ensures!(a.read_item(i).ok() == want, "checked item i starts i strides in");
                let mut it = a.iter();
                let mut k = 0;
                while k < i { it.next(); k += 1; }
                ensures!(it.size_hint() == (n.saturating_sub(i), Some(n.saturating_sub(i))), "size hint is the number of items left");
                ensures!(it.next() == want, "iteration yields the items in order");
                let mut it = a.iter_res();
                let mut k = 0;
                while k < i { it.next(); k += 1; }
                ensures!(it.size_hint() == (n.saturating_sub(i), Some(n.saturating_sub(i))), "size hint (checked)");
                ensures!(it.next().map(|r| r.ok()) == want.map(Some), "checked iteration yields the items in order");
            }
            Err(_) => ensures!(stride < 2 || n * stride > len, "a strided array that fits is granted"),
        }
    }
    #[holds] unwind 12 fn array_huge_lengths(s) {
        let b = content(s);
        let len = b.len();
        let (n, stride) = (s.usize(), s.below(16));
        let mut c = ReadScope::new(&b[..len]).ctxt();
        ensures!(c.read_array::<U64Be>(n).is_ok() == (n <= len / 8), "u64 array");
        let mut c = ReadScope::new(&b[..len]).ctxt();
        let fits = stride >= 2 && n as u128 * stride as u128 <= len as u128;
        ensures!(c.read_array_stride::<U16Be>(n, stride).is_ok() == fits, "strided array");
        let mut c = ReadScope::new(&b[..len]).ctxt();
        ensures!(c.read_array_dep::<U32Be>(n, ()).is_ok() == (n <= len / 4), "dependent array");
        let mut c = ReadScope::new(&b[..len]).ctxt();
        match c.read_array_upto_hack::<U16Be>(n) {
            Ok(a) => ensures!(a.len() == n.min(len / 2), "truncated array"),
            Err(_) => ensures!(false, "truncation always fits"),
        }
    }
    #[holds] unwind 12 fn view_arrays(s) {
        let (b, len, off) = placed(s);
        requires!(s, off <= len);
        let v = View::new(&b[..len]);
        let Ok(v) = v.offset(off) else { ensures!(false, "offset"); return Out::Done };
        let (n, i) = (s.usize(), s.usize());
        let (n, i) = if s.native() && s.bool() { (n % 70, i % 70) } else { (n, i) };
        let left = len - off;
        match v.read_array_u8(n) {
            Ok(a) => { ensures!(n <= left && a.get_item(i) == if i < n { Some(b[off + i]) } else { None }, "u8 items"); }
            Err(e) => { ensures!(n > left, "u8 fits"); std::mem::forget(e); }
        }
        match v.read_array_u16be(n) {
            Ok(a) => { ensures!(n <= left / 2 && a.get_item(i) == if i < n { Some(be(&b, off + 2 * i, 2) as u16) } else { None }, "u16 items"); }
            Err(e) => { ensures!(n > left / 2, "u16 fits"); std::mem::forget(e); }
        }
        match v.read_array_u32be(n) {
            Ok(a) => { ensures!(n <= left / 4 && a.get_item(i) == if i < n { Some(be(&b, off + 4 * i, 4) as u32) } else { None }, "u32 items"); }
            Err(e) => { ensures!(n > left / 4, "u32 fits"); std::mem::forget(e); }
        }
        match v.read_array_u64be(n) {
            Ok(a) => { ensures!(n <= left / 8 && a.get_item(i) == if i < n { Some(be(&b, off + 8 * i, 8)) } else { None }, "u64 items"); }
            Err(e) => { ensures!(n > left / 8, "u64 fits"); std::mem::forget(e); }
        }
    }
    #[holds] unwind 12 fn array_cow(s) {
        let b = bytes(s);
        let n = s.below(4);
        let mut c = ReadScope::new(&b).ctxt();
        let Ok(a) = c.read_array::<U16Be>(n) else { ensures!(false, "fits"); return Out::Done };
        let cow: ReadArrayCow<'_, U16Be> = if s.bool() { ReadArrayCow::Owned(a.to_vec()) } else { ReadArrayCow::Borrowed(a) };
        let i = s.below(6);
        let want = if i < n { Some(be(&b, 2 * i, 2) as u16) } else { None };
        ensures!(cow.len() == n && cow.is_empty() == (n == 0), "length");
        ensures!(cow.get_item(i) == want && cow.read_item(i).ok() == want, "owned and borrowed arrays agree");
        ensures!(cow.check_index(i).is_ok() == (i < n), "index check");
    }
    // sorted arrays of at most 5 items
    #[holds] unwind 12 fn binary_search(s) {
        let b = bytes(s);
        let n = s.below(6);
        let mut i = 1;
        while i < 5 { if i < n { requires!(s, b[i - 1] <= b[i]); } i += 1; }
        let mut c = ReadScope::new(&b).ctxt();
        let Ok(a) = c.read_array::<U8>(n) else { ensures!(false, "fits"); return Out::Done };
        let key = s.u8();
        let r = a.binary_search_by(|x| if x < key { Ordering::Less } else if x > key { Ordering::Greater } else { Ordering::Equal });
        match r {
            Ok(k) => ensures!(k < n && b[k] == key, "a hit is at the reported index"),
            Err(k) => {
                ensures!(k <= n, "insertion point in range");
                let mut i = 0;
                while i < n { ensures!(if i < k { b[i] < key } else { b[i] > key }, "a miss means the key is absent and k is its place"); i += 1; }
            }
        }
    }
    #[holds] unwind 12 fn until_nibble(s) {
        let b = bytes(s);
        let len = s.below(5);
        let nib = s.u8() & 15;
        let mut c = ReadScope::new(&b[..len]).ctxt();
        let mut first = len;
        let mut i = len;
        while i > 0 { i -= 1; if b[i] >> 4 == nib || b[i] & 15 == nib { first = i; } }
        match c.read_until_nibble(nib) {
            Ok(r) => ensures!(first < len && r.len() == first + 1, "reads through the first byte holding the nibble"),
            Err(_) => ensures!(first == len, "absent nibble is an error"),
        }
    }
}
