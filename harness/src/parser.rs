//! Contracts on `doodle::parser::Parser`: position, limit and recovery accounting of the runtime
//! parser that generated decoders drive.
//!
//! Abstract view of a parser: (`max`, `cur`, `stack`) of [`Model`]; every position is a pair of a
//! byte and an optional bit count, measured as `abs` in bits. Each contract draws an arbitrary
//! state with up to `DEPTH` open contexts (built through the public operations), applies one
//! operation to both the real parser and the view, and requires both the result and the resulting
//! state to agree. Lengths and arguments range over the full machine width.
use crate::src::{buffer, content, Out, Src};
use crate::{contracts, ensures, reach, requires};
use std::mem::{forget, ManuallyDrop};
use doodle::parser::error::ParseError;
use doodle::parser::offset::ByteOffset;
use doodle::parser::{Parser, View};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Off {
    byte: usize,
    bits: Option<usize>,
}
impl Off {
    fn abs(self) -> u64 { ((self.byte as u64) << 3) + self.bits.unwrap_or(0) as u64 }
    /// saturating: any sum beyond 2^52 bits exceeds every limit
    fn plus(self, d: usize) -> u64 {
        if d > 1 << 52 { u64::MAX } else { self.abs() + if self.bits.is_some() { d as u64 } else { (d as u64) << 3 } }
    }
    fn moved(self, d: usize) -> Off {
        match self.bits { Some(k) => Off { byte: self.byte, bits: Some(k + d) }, None => Off { byte: self.byte + d, bits: None } }
    }
    fn is(self, o: ByteOffset) -> bool {
        match o {
            ByteOffset::Bytes(n) => self.bits.is_none() && n == self.byte,
            ByteOffset::Bits { .. } => {
                let (n, k) = o.as_bytes();
                self.bits.is_some() && ((n as u64) << 3) + k.unwrap_or(0) as u64 == self.abs()
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum L { Alts, Peek, PeekNot, Seek, Slice, SeekThrough }
const DEPTH: usize = 2;
struct Model {
    max: usize,
    cur: Off,
    stack: [(L, Off); DEPTH + 2],
    n: usize,
}
impl Model {
    fn limit(&self) -> Off {
        let mut i = self.n;
        while i > 0 {
            i -= 1;
            match self.stack[i].0 {
                L::Slice => return self.stack[i].1,
                L::Seek => break,
                _ => {}
            }
        }
        Off { byte: self.max, bits: None }
    }
    fn push(&mut self, l: L, o: Off) { self.stack[self.n] = (l, o); self.n += 1; }
    fn room(&self, d: usize) -> bool { self.cur.plus(d) <= self.limit().abs() }
    fn remaining(&self) -> usize {
        let bits = self.limit().abs() - self.cur.abs();
        (if self.cur.bits.is_some() { bits } else { bits >> 3 }) as usize
    }
    /// index of the topmost context among `k`
    fn find(&self, k: &[L]) -> Option<usize> {
        let mut i = self.n;
        while i > 0 {
            i -= 1;
            let mut j = 0;
            while j < k.len() { if self.stack[i].0 == k[j] { return Some(i); } j += 1; }
        }
        None
    }
}
/// the observable state of the real parser is the view
fn agree(p: &Parser<'_>, m: &Model) -> bool {
    m.cur.is(p.get_current_offset())
        && (m.limit().bits.is_some() && m.cur.bits.is_none() || p.remaining() == m.remaining())
        && p.get_bits_read() == m.cur.bits
}

const CAP: usize = 1 << 46;
fn len<S: Src + ?Sized>(s: &mut S) -> usize {
    let small = s.bool();
    let n = s.usize() & (CAP - 1);
    if small { n & 63 } else { n }
}
/// a step that stays within the limit
fn inside<S: Src + ?Sized>(s: &mut S, m: &Model) -> usize {
    let r = m.remaining();
    let d = s.usize();
    if s.native() { if r == usize::MAX { d } else { d % (r + 1) } } else { if s.assume(d <= r) { d } else { 0 } }
}
/// move both by `d` (within the limit)
fn step(p: &mut Parser<'_>, m: &mut Model, d: usize) {
    let r = ManuallyDrop::new(p.advance_by(d));
    ensures!(r.is_ok(), "an advance within the limit succeeds");
    m.cur = m.cur.moved(d);
}
/// an offset within `lim` (bits mode only if `bits_ok`; never bytes mode under a bit-precision limit)
fn any_off<S: Src + ?Sized>(s: &mut S, lim: Off, bits_ok: bool) -> Off {
    let bits = (bits_ok && s.bool()) || lim.bits.is_some();
    let (x, k) = (s.usize(), s.usize());
    if s.native() {
        let byte = x % (lim.byte + 1);
        let room = (lim.abs() - byte as u64 * 8) as usize;
        Off { byte, bits: if bits { Some(k % (room + 1)) } else { None } }
    } else {
        let o = Off { byte: x, bits: if bits { Some(k) } else { None } };
        s.assume(x <= CAP && k <= CAP * 8 && o.abs() <= lim.abs());
        o
    }
}
fn raw(o: Off) -> ByteOffset {
    match o.bits { None => ByteOffset::Bytes(o.byte), Some(k) => ByteOffset::Bits { starting_byte: o.byte, bits_advanced: k } }
}
/// any well-formed state with `depth` open contexts: every context lies within the limit of those
/// below it and so does the position
fn state<'a, S: Src + ?Sized>(s: &mut S, depth: usize, bits_ok: bool) -> (Parser<'a>, Model) {
    let via_api = s.bool();
    s.assume(s.native() || !via_api);
    if s.native() && via_api { return state_by_history(s, depth, bits_ok); }
    let max = len(s);
    let zero = Off { byte: 0, bits: None };
    let mut m = Model { max, cur: zero, stack: [(L::Alts, zero); DEPTH + 2], n: 0 };
    let mut ctx = [(0u8, ByteOffset::Bytes(0)); DEPTH + 2];
    let mut i = 0;
    while i < depth {
        let k = s.below(6);
        let lim = m.limit();
        let o = any_off(s, lim, bits_ok && k != 3 && k != 5);
        let l = match k { 0 => L::Alts, 1 => L::Peek, 2 => L::PeekNot, 3 => L::Seek, 4 => L::Slice, _ => L::SeekThrough };
        ctx[i] = (k as u8, raw(o));
        m.push(l, o);
        i += 1;
    }
    let lim = m.limit();
    m.cur = any_off(s, lim, bits_ok);
    (Parser::verif_state(View::new(&[]), raw(m.cur), ByteOffset::Bytes(max), &ctx[..depth]), m)
}
/// the same by a history of public operations (native execution only)
fn state_by_history<'a, S: Src + ?Sized>(s: &mut S, depth: usize, bits_ok: bool) -> (Parser<'a>, Model) {
    let max = len(s);
    let zero = Off { byte: 0, bits: None };
    let mut p = Parser::new(buffer(max));
    let mut m = Model { max, cur: zero, stack: [(L::Alts, zero); DEPTH + 2], n: 0 };
    let mut i = 0;
    while i < depth {
        let d = inside(s, &m);
        step(&mut p, &mut m, d);
        if bits_ok && m.cur.bits.is_none() && s.bool() {
            ensures!(ok(p.enter_bits_mode()), "bits mode can be entered from bytes mode");
            m.cur.bits = Some(0);
            let d = inside(s, &m);
            step(&mut p, &mut m, d);
        }
        open(s, &mut p, &mut m);
        i += 1;
    }
    let d = inside(s, &m);
    step(&mut p, &mut m, d);
    (p, m)
}
fn open<S: Src + ?Sized>(s: &mut S, p: &mut Parser<'_>, m: &mut Model) {
    let cur = m.cur;
    match s.below(if cur.bits.is_some() { 4 } else { 5 }) {
        0 => { p.start_alt(); m.push(L::Alts, cur) }
        1 => { p.open_peek_context(); m.push(L::Peek, cur) }
        2 => { p.open_peek_not_context(); m.push(L::PeekNot, cur) }
        3 => {
            let n = inside(s, m);
            ensures!(ok(p.start_slice(n)), "a slice that fits can be opened");
            m.push(L::Slice, cur.moved(n));
        }
        _ => {
            let to = if s.native() { s.usize() % (m.cur.byte + 1) } else { s.below(CAP) };
            if s.assume(to < m.cur.byte) && to < m.cur.byte {
                ensures!(matches!(p.advance_or_seek(to), Ok(false)), "going backwards is a seek");
                m.push(L::Seek, cur);
                m.cur = Off { byte: to, bits: None };
            }
        }
    }
}
fn overrun(e: &ParseError) -> bool { matches!(e, ParseError::Overrun(_)) }
fn overrun_state(e: &ParseError) -> bool { matches!(e, ParseError::InternalError(_)) }

fn advance<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, m) = state(s, n, true);
        requires!(s, !(m.limit().bits.is_some() && m.cur.bits.is_none()));
        ensures!(agree(&p, &m), "position and remaining length follow the operations");
        let d = s.usize();
        let r = ManuallyDrop::new(p.advance_by(d));
        match ManuallyDrop::into_inner(r) {
            Ok(()) => {
                ensures!(m.room(d), "an advance beyond the innermost limit must be rejected");
                ensures!(m.cur.moved(d).is(p.get_current_offset()), "an advance moves by exactly its argument");
            }
            Err(e) => {
                ensures!(!m.room(d), "an advance within the innermost limit must be accepted");
                ensures!(overrun(&e), "overrun is reported as overrun");
                forget(e);
                ensures!(agree(&p, &m), "a rejected advance changes nothing");
            }
        }
        reach!(m.room(d) && d > 0, "moves");
        reach!(!m.room(d), "overrun");
        reach!(m.cur.bits.is_some() && !m.room(d), "bits mode overrun");
        Out::Done
}

fn remaining_is_the_largest_advance<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, m) = state(s, n, true);
        requires!(s, !(m.limit().bits.is_some() && m.cur.bits.is_none()));
        let r = p.remaining();
        ensures!(ok(p.finish()) == (r == 0), "end of input is accepted exactly when nothing remains");
        let more = s.bool();
        let d = if more { r + 1 } else { r };
        ensures!(ok(p.advance_by(d)) == !more, "remaining is the largest legal advance");
        if !more { ensures!(p.remaining() == 0, "nothing remains at the limit"); }
        Out::Done
}

fn open_slice<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, m) = state(s, n, true);
        requires!(s, !(m.limit().bits.is_some() && m.cur.bits.is_none()));
        let d = s.usize();
        match p.start_slice(d) {
            Ok(()) => {
                ensures!(m.room(d), "a slice may not extend past the enclosing limit");
                ensures!(m.cur.is(p.get_current_offset()), "opening a slice keeps the position");
                ensures!(p.remaining() == d, "a new slice ends exactly its size after the current position");
            }
            Err(e) => {
                ensures!(!m.room(d), "a slice within the enclosing limit must be accepted");
                ensures!(overrun_state(&e), "reported as unstackable");
                forget(e);
                ensures!(agree(&p, &m), "a rejected slice changes nothing");
            }
        }
        reach!(m.room(d) && d > 0, "fits");
        Out::Done
}

fn close_slice<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, true);
        // the contexts above the innermost slice may only be alternations
        let mut i = m.n;
        while i > 0 && m.stack[i - 1].0 == L::Alts { i -= 1; }
        requires!(s, i == 0 || m.stack[i - 1].0 == L::Slice);
        let r = ManuallyDrop::new(p.end_slice());
        if i == 0 { ensures!(r.is_err(), "no slice to close"); return Out::Done; }
        ensures!(r.is_ok(), "a slice can be closed from anywhere inside it");
        let end = m.stack[i - 1].1;
        m.n = i - 1;
        m.cur = end;
        ensures!(agree(&p, &m), "closing a slice resumes exactly at its end under the enclosing limit");
        Out::Done
}

fn close_peek<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, true);
        match (m.find(&[L::Peek, L::Seek, L::SeekThrough]), ManuallyDrop::new(p.close_peek_context())) {
            (None, r) => ensures!(r.is_err(), "no peek to close"),
            (Some(i), r) => {
                ensures!(r.is_ok(), "an open peek can be closed");
                m.cur = m.stack[i].1;
                m.n = i;
                ensures!(agree(&p, &m), "closing a peek resumes at its start under the enclosing limit");
            }
        }
        Out::Done
}

fn recover<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, true);
        let (alt, last) = (s.bool(), s.bool());
        let alt = alt && s.native();
        // a failing operation first: the failed branch must leave nothing behind
        if s.native() && s.bool() {
            let d = s.usize();
            requires!(s, !(m.limit().bits.is_some() && m.cur.bits.is_none()) && !m.room(d));
            if m.cur.bits.is_none() && s.bool() {
                ensures!(!ok(p.advance_or_seek(m.cur.byte.saturating_add(d))), "out of bounds target");
            } else { ensures!(!ok(p.advance_by(d)), "out of bounds advance"); }
        }
        let r = ManuallyDrop::new(if alt { p.next_alt(last) } else { p.close_peek_not_context() });
        match m.find(&[L::Alts, L::PeekNot]) {
            None => ensures!(r.is_err(), "no recovery point"),
            Some(i) => {
                ensures!(r.is_ok(), "a recovery point is recovered to");
                m.cur = m.stack[i].1;
                m.n = i;
                if alt && !last { let c = m.cur; m.push(L::Alts, c); }
                ensures!(agree(&p, &m), "recovery resumes at the branch point under the enclosing limit");
                // and the branch point is still armed unless this was the last alternative
                if n > 0 && !s.native() { return Out::Done; }
                let again = ManuallyDrop::new(p.next_alt(true));
                if alt && !last {
                    ensures!(again.is_ok() && m.cur.is(p.get_current_offset()), "further alternatives recover to the same point");
                } else {
                    ensures!(again.is_ok() == { m.n = i; m.find(&[L::Alts, L::PeekNot]).is_some() }, "a spent recovery point is gone");
                }
            }
        }
        Out::Done
}

fn seek<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, false);
        let to = s.usize();
        let r = ManuallyDrop::new(p.advance_or_seek(to));
        let fwd = to >= m.cur.byte;
        if fwd {
            let ok = m.room(to - m.cur.byte);
            ensures!(r.is_ok() == ok, "an absolute move forward is bounded by the innermost limit");
            if ok {
                ensures!(matches!(*r, Ok(true)), "a forward move is an advance");
                let c = m.cur;
                m.push(L::Peek, c);
                m.cur.byte = to;
            }
        } else {
            ensures!(matches!(*r, Ok(false)), "a backward move is a seek");
            let c = m.cur;
            m.push(L::Seek, c);
            m.cur.byte = to;
        }
        reach!(fwd && r.is_ok() && to > 0, "forward");
        reach!(!fwd, "backward");
        if r.is_ok() {
            ensures!(agree(&p, &m), "an absolute move lands exactly on its target");
            // with contexts below, undoing is `close_peek` of the state reached here
            if n > 0 && !s.native() { return Out::Done; }
            let i = m.n - 1;
            ensures!(ok(p.close_peek_context()), "an absolute move can be undone");
            m.cur = m.stack[i].1;
            m.n = i;
            ensures!(agree(&p, &m), "undoing an absolute move restores position and limit");
        }
        Out::Done
}

fn bits_mode<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, false);
        ensures!(p.get_offset_u64() == m.cur.byte as u64, "byte position");
        ensures!(!ok(p.escape_bits_mode()), "bits mode cannot be left from bytes mode");
        ensures!(ok(p.enter_bits_mode()), "enter");
        ensures!(!ok(p.enter_bits_mode()), "bits mode does not nest");
        m.cur.bits = Some(0);
        ensures!(agree(&p, &m), "entering bits mode keeps the position");
        let d = inside(s, &m);
        step(&mut p, &mut m, d);
        let r = ManuallyDrop::new(p.escape_bits_mode());
        ensures!(matches!(&*r, Ok(k) if *k == d), "leaving bits mode reports the bits read");
        m.cur = Off { byte: m.cur.byte + d / 8 + if d % 8 != 0 { 1 } else { 0 }, bits: None };
        ensures!(agree(&p, &m), "leaving bits mode rounds up to a whole byte");
        ensures!(m.cur.abs() <= m.limit().abs(), "leaving bits mode stays within the limit");
        Out::Done
}

fn align<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, true);
        requires!(s, !(m.limit().bits.is_some() && m.cur.bits.is_none()));
        // division by a constant-width power of two or a small divisor keeps the solver in reach
        let n = if s.native() { (s.u32() as usize).max(1) } else { let k = s.below(16); 1usize << k };
        if !s.native() { requires!(s, m.max < 1 << 12); }
        let unit = m.cur.bits.unwrap_or(m.cur.byte);
        let pad = (n - unit % n) % n;
        let r = ManuallyDrop::new(p.skip_align(n));
        ensures!(r.is_ok() == m.room(pad), "alignment is bounded by the limit");
        if r.is_ok() { m.cur = m.cur.moved(pad); }
        ensures!(agree(&p, &m), "alignment skips the least padding, or nothing on failure");
        reach!(pad > 0 && r.is_ok(), "pads");
        Out::Done
}

fn skip_rest<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, false);
        // bits of a window that was opened in bits mode are skipped in bits mode
        requires!(s, !(m.limit().bits.is_some() && m.cur.bits.is_none()));
        p.skip_remainder();
        m.cur = m.cur.moved(m.remaining());
        ensures!(agree(&p, &m), "skipping the remainder lands on the limit");
        ensures!(ok(p.finish()) && p.remaining() == 0, "nothing remains");
        Out::Done
}

/// an alternative that succeeded keeps its position and takes its branch point away, and nothing below it
fn close_alt<S: Src + ?Sized>(s: &mut S, n: usize) -> Out {
        let (mut p, mut m) = state(s, n, false);
        let top = m.find(&[L::Alts]);
        requires!(s, match (top, m.find(&[L::Seek, L::SeekThrough])) { (Some(i), Some(j)) => j < i, _ => true });
        let r = ManuallyDrop::new(p.close_alt());
        ensures!(r.is_ok() == top.is_some(), "an open alternation can be closed, and nothing else");
        if let Some(i) = top { m.n = i; }
        ensures!(agree(&p, &m), "closing an alternation keeps the position");
        if n > 1 && !s.native() { return Out::Done; }
        let again = ManuallyDrop::new(p.next_alt(true));
        match m.find(&[L::Alts, L::PeekNot]) {
            None => ensures!(again.is_err(), "a closed branch point is gone"),
            Some(i) => { m.cur = m.stack[i].1; m.n = i; ensures!(again.is_ok() && agree(&p, &m), "an enclosing branch point is still there"); }
        }
        Out::Done
}

/// alignment is in the whole buffer
fn view_align<S: Src + ?Sized>(s: &mut S, a: usize) -> Out {
    let buf = content(s);
    let n = buf.len();
    let (off, k) = (s.usize(), s.usize());
    let off = if s.native() { off % (n + 1) } else { off };
    let k = if s.native() { k % (n - off + 1) } else { k };
    requires!(s, off <= n && k <= n - off);
    match doodle::prelude::View::new(buf).offset(off) {
        Err(e) => { forget(e); ensures!(false, "a window within its parent is granted"); }
        Ok(w) => {
            let mut q = Parser::from(w);
            ensures!(ok(q.advance_by(k)), "advance");
            let pad = (a - (off + k) % a) % a;
            let r = ok(q.skip_align(a));
            ensures!(r == (pad <= n - off - k), "alignment refused only at the limit");
            ensures!(q.get_offset_u64() == (off + k + if r { pad } else { 0 }) as u64, "aligned in the whole buffer");
            forget(q);
        }
    }
    Out::Done
}

/// `is_ok` without running the drop glue of the error
fn ok<T>(r: Result<T, ParseError>) -> bool { let b = r.is_ok(); forget(r); b }
fn alternatives<S: Src + ?Sized>(s: &mut S, last: bool) -> Out {
    let (mut p, mut m) = state(s, 0, false);
    let at = m.cur;
    p.start_alt();
    ensures!(agree(&p, &m), "opening an alternation keeps the position");
    let d = inside(s, &m);
    step(&mut p, &mut m, d);
    ensures!(ok(p.next_alt(last)), "a failed alternative falls through to the next");
    m.cur = at;
    ensures!(agree(&p, &m), "the next alternative starts where the first did");
    let d = inside(s, &m);
    step(&mut p, &mut m, d);
    ensures!(ok(p.next_alt(true)) == !last, "the last alternative cannot be recovered from, an earlier one can");
    if !last { ensures!(at.is(p.get_current_offset()), "every alternative starts at the branch point"); }
    Out::Done
}

/// executed, not proved: histories of up to 40 operations over a window stack of any depth against the view
fn history<S: Src + ?Sized>(s: &mut S) -> Out {
    let buf: Vec<u8> = (0..s.below(48)).map(|_| s.u8()).collect();
    let mut p = Parser::new(&buf);
    let mut cur = Off { byte: 0, bits: None };
    let mut st: Vec<(L, Off)> = Vec::new();
    let end = Off { byte: buf.len(), bits: None };
    let limit = |st: &[(L, Off)]| {
        for (l, o) in st.iter().rev() { match l { L::Slice => return *o, L::Seek => break, _ => {} } }
        end
    };
    for _ in 0..s.below(40) {
        let lim = limit(&st);
        let room = lim.abs() - cur.abs();
        let left = (if cur.bits.is_some() { room } else { room >> 3 }) as usize;
        ensures!(cur.is(p.get_current_offset()), "position");
        ensures!(p.remaining() == left, "remaining");
        ensures!(ok(p.finish()) == (left == 0), "finished exactly when nothing remains");
        ensures!(p.get_bits_read() == cur.bits, "bit count");
        // a length near the boundary, small, or huge
        let d = match s.below(8) { 0 => left, 1 => left + 1, 2 => s.usize(), _ => s.below(left + 2) };
        match s.below(13) {
            0 | 1 => {
                let want = cur.plus(1) <= lim.abs();
                match p.read_byte() {
                    Ok(v) => {
                        ensures!(want, "no read beyond the window");
                        let a = cur.abs() as usize;
                        ensures!(v == if cur.bits.is_some() { (buf[a / 8] >> (a % 8)) & 1 } else { buf[a / 8] }, "reads what is at the position");
                        cur = cur.moved(1);
                    }
                    Err(e) => ensures!(!want && overrun(&e), "overrun only at the limit"),
                }
            }
            2 => {
                let r = p.advance_by(d);
                ensures!(r.is_ok() == (d <= left), "advance succeeds exactly within the window");
                if d <= left { cur = cur.moved(d); }
            }
            3 => {
                let r = p.start_slice(d);
                ensures!(r.is_ok() == (d <= left), "a slice opens exactly within the window");
                if d <= left { st.push((L::Slice, cur.moved(d))); }
            }
            4 => {
                let Some(i) = st.iter().rposition(|x| x.0 != L::Alts) else { continue };
                if st[i].0 != L::Slice { continue }
                let r = p.end_slice();
                ensures!(r.is_ok(), "an open slice can be closed");
                cur = st[i].1;
                st.truncate(i);
            }
            5 => { p.open_peek_context(); st.push((L::Peek, cur)); }
            6 => { p.open_peek_not_context(); st.push((L::PeekNot, cur)); }
            7 => {
                let Some(i) = st.iter().rposition(|x| matches!(x.0, L::Peek | L::Seek | L::SeekThrough)) else { continue };
                ensures!(p.close_peek_context().is_ok(), "an open peek can be closed");
                cur = st[i].1;
                st.truncate(i);
            }
            8 => { p.start_alt(); st.push((L::Alts, cur)); }
            9 => {
                let last = s.bool();
                let Some(i) = st.iter().rposition(|x| matches!(x.0, L::Alts | L::PeekNot)) else {
                    ensures!(p.next_alt(last).is_err(), "nothing to fall back to");
                    return Out::Done;
                };
                ensures!(p.next_alt(last).is_ok(), "falls back to the innermost fallible context");
                cur = st[i].1;
                st.truncate(i);
                if !last { st.push((L::Alts, cur)); }
                else if s.bool() {
                    // a branch that succeeded gives its branch point back
                    if let Some(i) = st.iter().rposition(|x| x.0 == L::Alts).filter(|i| !st[*i..].iter().any(|x| matches!(x.0, L::Seek | L::SeekThrough))) {
                        ensures!(p.close_alt().is_ok(), "an open alternation can be closed");
                        st.truncate(i);
                    }
                }
            }
            10 => {
                if cur.bits.is_some() { ensures!(p.enter_bits_mode().is_err(), "already in bits mode"); }
                else { ensures!(p.enter_bits_mode().is_ok(), "bits mode"); cur.bits = Some(0); }
            }
            11 => {
                let Some(k) = cur.bits else { ensures!(p.escape_bits_mode().is_err(), "already in bytes mode"); continue };
                if lim.bits.is_some() { continue }
                match p.escape_bits_mode() {
                    Ok(n) => { ensures!(n == k, "bits consumed"); cur = Off { byte: cur.byte + k.div_ceil(8), bits: None }; }
                    Err(_) => ensures!(false, "bits mode can be left"),
                }
            }
            _ => {
                if cur.bits.is_some() || lim.bits.is_some() { continue }
                let to = match s.below(4) { 0 => s.usize(), _ => s.below(buf.len() + 2) };
                let fwd = to >= cur.byte;
                match p.advance_or_seek(to) {
                    Ok(f) => {
                        ensures!(f == fwd, "advances when it can");
                        ensures!(if fwd { to <= lim.byte } else { true }, "destination within the window or behind");
                        st.push((if fwd { L::Peek } else { L::Seek }, cur));
                        cur = Off { byte: to, bits: None };
                    }
                    Err(_) => { ensures!(fwd && to > lim.byte, "a legal destination is reached"); ensures!(cur.is(p.get_current_offset()), "position"); return Out::Done; }
                }
            }
        }
    }
    Out::Done
}
contracts! {
    #[native] unwind 1 fn history_any_depth(s) { return history(s) }
    #[holds] unwind 4 fn alternatives_last(s) { return alternatives(s, true) }
    #[native] unwind 4 fn alternatives_more(s) { return alternatives(s, false) }
    #[holds] unwind 4 fn advance_d0(s) { return advance(s, 0) }
    #[holds] unwind 5 fn advance_d1(s) { return advance(s, 1) }
    #[holds] unwind 6 fn advance_d2(s) { return advance(s, 2) }
    #[holds] unwind 4 fn remaining_is_the_largest_advance_d0(s) { return remaining_is_the_largest_advance(s, 0) }
    #[holds] unwind 5 fn remaining_is_the_largest_advance_d1(s) { return remaining_is_the_largest_advance(s, 1) }
    #[holds] unwind 6 fn remaining_is_the_largest_advance_d2(s) { return remaining_is_the_largest_advance(s, 2) }
    #[holds] unwind 4 fn open_slice_d0(s) { return open_slice(s, 0) }
    #[holds] unwind 5 fn open_slice_d1(s) { return open_slice(s, 1) }
    #[holds] unwind 6 fn open_slice_d2(s) { return open_slice(s, 2) }
    #[holds] unwind 4 fn close_slice_d0(s) { return close_slice(s, 0) }
    #[holds] unwind 5 fn close_slice_d1(s) { return close_slice(s, 1) }
    #[holds] unwind 6 fn close_slice_d2(s) { return close_slice(s, 2) }
    #[holds] unwind 4 fn close_peek_d0(s) { return close_peek(s, 0) }
    #[holds] unwind 5 fn close_peek_d1(s) { return close_peek(s, 1) }
    #[holds] unwind 6 fn close_peek_d2(s) { return close_peek(s, 2) }
    #[holds] unwind 4 fn recover_d0(s) { return recover(s, 0) }
    #[holds] unwind 5 fn recover_d1(s) { return recover(s, 1) }
    #[holds] unwind 6 fn recover_d2(s) { return recover(s, 2) }
    #[holds] unwind 4 fn seek_d0(s) { return seek(s, 0) }
    #[holds] unwind 5 fn seek_d1(s) { return seek(s, 1) }
    #[holds] unwind 6 fn seek_d2(s) { return seek(s, 2) }
    #[holds] unwind 4 fn bits_mode_d0(s) { return bits_mode(s, 0) }
    #[holds] unwind 5 fn bits_mode_d1(s) { return bits_mode(s, 1) }
    #[holds] unwind 6 fn bits_mode_d2(s) { return bits_mode(s, 2) }
    #[holds] unwind 4 fn align_d0(s) { return align(s, 0) }
    #[holds] unwind 5 fn align_d1(s) { return align(s, 1) }
    #[holds] unwind 6 fn align_d2(s) { return align(s, 2) }
    #[holds] unwind 4 fn skip_rest_d0(s) { return skip_rest(s, 0) }
    #[holds] unwind 5 fn skip_rest_d1(s) { return skip_rest(s, 1) }
    #[holds] unwind 6 fn skip_rest_d2(s) { return skip_rest(s, 2) }
    #[holds] unwind 4 fn close_alt_d0(s) { return close_alt(s, 0) }
    #[holds] unwind 5 fn close_alt_d1(s) { return close_alt(s, 1) }
    #[holds] unwind 6 fn close_alt_d2(s) { return close_alt(s, 2) }
    // any buffer of any length and content
    #[holds] unwind 8 fn read_byte(s) {
        let buf = content(s);
        let n = buf.len();
        let mut p = Parser::new(buf);
        let (off, sl) = (s.usize(), s.usize());
        let (off, sl) = if s.native() { let off = off % (n + 1); (off, sl % (n - off + 1)) } else { (off, sl) };
        requires!(s, off <= n && sl <= n - off);
        requires!(s, ok(p.advance_by(off)));
        let sliced = s.bool();
        if sliced { ensures!(ok(p.start_slice(sl)), "slice"); }
        let end = if sliced { off + sl } else { n };
        match p.read_byte() {
            Ok(v) => {
                ensures!(off < end && v == buf[off], "reads the byte at the position");
                ensures!(p.get_current_offset() == ByteOffset::Bytes(off + 1), "one byte consumed");
            }
            Err(e) => { ensures!(overrun(&e) && off == end, "overrun only at the limit"); forget(e); }
        }
        forget(p);
    }
    #[holds] unwind 8 fn read_bit(s) {
        let buf = content(s);
        let n = buf.len();
        let mut p = Parser::new(buf);
        let (off, sl, k) = (s.usize(), s.usize(), s.usize());
        let (off, sl) = if s.native() { let off = off % (n + 1); (off, sl % (n - off + 1)) } else { (off, sl) };
        requires!(s, off <= n && sl <= n - off);
        requires!(s, ok(p.advance_by(off)));
        let sliced = s.bool();
        if sliced { ensures!(ok(p.start_slice(sl)), "slice"); }
        let end = if sliced { off + sl } else { n };
        let k = if s.native() { k % ((end - off) * 8 + 1) } else { k };
        ensures!(ok(p.enter_bits_mode()), "bits");
        requires!(s, k <= (end - off) * 8 && ok(p.advance_by(k)));
        match p.read_byte() {
            Ok(v) => {
                ensures!(k < (end - off) * 8, "no bit beyond the limit is readable");
                ensures!(v == (buf[off + k / 8] >> (k % 8)) & 1, "bits are read least significant first");
                ensures!(p.get_bits_read() == Some(k + 1), "one bit consumed");
            }
            Err(e) => { ensures!(overrun(&e) && k == (end - off) * 8, "bit overrun only at the limit"); forget(e); }
        }
        forget(p);
    }
    // a parser over part of a buffer reports positions in the whole of it
    #[holds] unwind 8 fn view_position(s) {
        let buf = content(s);
        let n = buf.len();
        let (off, k) = (s.usize(), s.usize());
        let off = if s.native() { off % (n + 1) } else { off };
        let k = if s.native() { k % (n - off + 1) } else { k };
        requires!(s, off <= n && k <= n - off);
        match doodle::prelude::View::new(buf).offset(off) {
            Err(e) => { forget(e); ensures!(false, "a window within its parent is granted"); }
            Ok(w) => {
                let mut q = Parser::from(w);
                ensures!(ok(q.advance_by(k)), "advance");
                ensures!(q.get_offset_u64() == (off + k) as u64, "position in the whole buffer");
                let to = s.usize();
                let to = if s.native() { to % (n + 2) } else { to };
                let there = to >= off && to <= n;
                ensures!(ok(q.advance_or_seek(to)) == there, "absolute targets are in the whole buffer");
                ensures!(q.get_offset_u64() as usize == if there { to } else { off + k }, "a target is reached");
                forget(q);
            }
        }
    }
    #[holds] unwind 8 fn view_align_2(s) { return view_align(s, 2) }
    #[holds] unwind 8 fn view_align_3(s) { return view_align(s, 3) }
    #[holds] unwind 8 fn view_align_4(s) { return view_align(s, 4) }
    #[holds] unwind 8 fn view_align_16(s) { return view_align(s, 16) }
    // any buffer of any length and content
    #[holds] unwind 8 fn view_window(s) {
        let buf = content(s);
        let n = buf.len();
        let (off, k) = (s.usize(), s.usize());
        let off = if s.native() { off % (n + 1) } else { off };
        let k = if s.native() && s.bool() { k % (n + 2) } else { k };
        requires!(s, off <= n);
        let mut p = Parser::new(buf);
        ensures!(ok(p.advance_by(off)), "advance");
        let n = if s.bool() {
            let sl = s.usize();
            let sl = if s.native() { sl % (n - off + 1) } else { sl };
            requires!(s, sl <= n - off);
            ensures!(ok(p.start_slice(sl)), "slice");
            off + sl
        } else { n };
        let v = p.view();
        match v.offset(k) {
            Ok(w) => {
                ensures!(k <= n - off, "a window may not start past its parent's end");
                let rest = n - off - k;
                let (j, i) = (s.usize(), s.usize());
                let j = if s.native() { j % (rest + 2) } else { j };
                let i = if s.native() { i % (j + 1) } else { i };
                match w.read_len(j) {
                    Ok(b) => {
                        ensures!(j <= rest && b.len() == j, "length");
                        if i < j { ensures!(b[i] == buf[off + k + i], "window bytes are the buffer's bytes"); }
                    }
                    Err(e) => { ensures!(j > rest && overrun(&e), "a read within the window is granted"); forget(e); }
                }
                match w.read_u16be() {
                    Ok(x) => ensures!(rest >= 2 && x == (buf[off + k] as u16) << 8 | buf[off + k + 1] as u16, "big endian"),
                    Err(e) => { ensures!(rest < 2 && overrun(&e), "too short"); forget(e); }
                }
            }
            Err(e) => { ensures!(k > n - off && overrun(&e), "a window within its parent is granted"); forget(e); }
        }
        forget(p);
    }
    // a parser over a window addresses it by absolute offsets
    #[holds] unwind 8 fn window_parser(s) {
        let buf = content(s);
        let n = buf.len();
        let (k, to) = (s.usize(), s.usize());
        let k = if s.native() { k % (n + 1) } else { k };
        let to = if s.native() && s.bool() { to % (n + 2) } else { to };
        requires!(s, k <= n);
        let Ok(w) = View::new(buf).offset(k) else { ensures!(false, "window"); return Out::Done };
        let mut q = Parser::from(w);
        ensures!(q.remaining() == n - k, "sub-parser covers the window");
        let r = ManuallyDrop::new(q.advance_or_seek(to));
        ensures!(r.is_ok() == (to >= k && to <= n), "absolute offsets outside the window are rejected");
        if r.is_ok() {
            ensures!(q.get_current_offset() == ByteOffset::Bytes(to - k), "lands on the target");
            match q.read_byte() {
                Ok(v) => ensures!(to < n && v == buf[to], "reads the byte at the absolute offset"),
                Err(e) => { ensures!(to == n, "readable before the end"); forget(e); }
            }
        }
        forget(q);
    }
}
