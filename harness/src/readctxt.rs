//! Contracts on `doodle::read::ReadCtxt`, the input cursor of the interpreter.
//! View: (input bytes, offset); well-formed when offset <= input.len().
use crate::src::{content, buffer, Src};
use crate::{contracts, ensures, reach, requires};
use doodle::read::ReadCtxt;

fn any<'a, S: Src + ?Sized>(s: &mut S) -> (ReadCtxt<'a>, usize, usize) {
    let len = s.usize() & ((1 << 46) - 1);
    let len = if s.bool() { len & 31 } else { len };
    let off = s.usize();
    let off = if s.native() { if len == usize::MAX { off } else { off % (len + 1) } } else { if s.assume(off <= len) { off } else { 0 } };
    (ReadCtxt { input: buffer(len), offset: off }, len, off)
}

contracts! {
    #[holds] unwind 3 fn fresh(s) {
        let (c, len, _) = any(s);
        let f = ReadCtxt::new(c.input);
        ensures!(f.offset == 0 && f.input.len() == len && f.remaining().len() == len, "a new cursor covers the input");
    }
    #[holds] unwind 3 fn seek(s) {
        let (c, len, off) = any(s);
        let n = s.usize();
        let r = c.seek_to(n);
        ensures!(r.is_some() == (n <= len), "seek succeeds exactly within the input");
        if let Some(d) = r {
            ensures!(d.offset == n && d.input.len() == len && std::ptr::eq(d.input.as_ptr(), c.input.as_ptr()), "seek moves to its target over the same input");
            ensures!(d.remaining().len() == len - n, "remaining after seek");
        }
        ensures!(c.remaining().len() == len - off && c.remaining().as_ptr() as usize == c.input.as_ptr() as usize + off, "remaining starts at the offset");
        reach!(r.is_some(), "some");
    }
    #[holds] unwind 3 fn split(s) {
        let (c, len, off) = any(s);
        let n = s.usize();
        let fits = n <= len - off;
        match c.split_at(n) {
            None => ensures!(!fits, "a split within the input is granted"),
            Some((a, b)) => {
                ensures!(fits, "a split beyond the input is rejected");
                ensures!(a.offset == off && a.input.len() == off + n && a.remaining().len() == n, "first part has exactly n bytes");
                ensures!(b.offset == off + n && b.input.len() == len && b.remaining().len() == len - off - n, "second part is the rest");
                ensures!(std::ptr::eq(a.input.as_ptr(), c.input.as_ptr()) && std::ptr::eq(b.input.as_ptr(), c.input.as_ptr()), "same input");
            }
        }
        reach!(fits && n > 0, "fits");
    }
    // any input of any length and content
    #[holds] unwind 12 fn reads(s) {
        let buf = content(s);
        let len = buf.len();
        let off = s.usize();
        let off = if s.native() { off % (len + 1) } else { off };
        requires!(s, off <= len);
        let c = ReadCtxt { input: buf, offset: off };
        let be = |k: usize| { let mut v = 0u64; let mut i = 0; while i < k { v = v << 8 | buf[off + i] as u64; i += 1; } v };
        match c.read_byte() {
            None => ensures!(off == len, "a byte is available before the end"),
            Some((v, d)) => ensures!(off < len && v as u64 == be(1) && d.offset == off + 1 && d.input.len() == len, "byte"),
        }
        match c.read_u16be() {
            None => ensures!(off + 2 > len, "two bytes"),
            Some((v, d)) => ensures!(off + 2 <= len && v as u64 == be(2) && d.offset == off + 2 && d.input.len() == len, "u16 big endian"),
        }
        match c.read_u32be() {
            None => ensures!(off + 4 > len, "four bytes"),
            Some((v, d)) => ensures!(off + 4 <= len && v as u64 == be(4) && d.offset == off + 4 && d.input.len() == len, "u32 big endian"),
        }
        match c.read_u64be() {
            None => ensures!(off + 8 > len, "eight bytes"),
            Some((v, d)) => ensures!(off + 8 <= len && v == be(8) && d.offset == off + 8 && d.input.len() == len, "u64 big endian"),
        }
    }
}
