//! Reference semantics of binary formats: the set of *all* parses of a format at a position,
//! with full backtracking, written from the documentation of the `Format` constructors.
//!
//! The interpreter commits to one alternative by lookahead, so it is held to
//!   * soundness: a successful run yields one of these parses (value and end position);
//!   * completeness: a format without choices succeeds exactly when a parse exists, and a format
//!     whose choices are all decidable from the following bytes finds the parse that accounts for
//!     the whole input, when there is one.
use crate::refsem::{self, Ctx, Env, N, Refused, bind, int, seq};
use doodle::{BaseKind, Endian, DynFormat, Expr, Format, ViewExpr, ViewFormat};
use std::rc::Rc;

#[derive(Clone)]
pub struct Inp { pub buf: Rc<Vec<u8>>, pub off: usize, pub end: usize }
#[derive(Clone, Debug)]
pub struct P { pub v: N, pub off: usize, pub must: bool }
#[derive(Clone)]
pub struct Item { pub args: Vec<String>, pub views: Vec<String>, pub fmt: Format }
#[derive(Clone, Default)]
pub struct FEnv { pub vals: Env, pub views: Vec<(String, Inp)>, pub dyns: Vec<(String, Rc<Vec<(Vec<u8>, u64)>>)> }
/// no verdict: an expression is refused, or the enumeration is too large
#[derive(Debug)]
pub struct Stop;
impl From<Refused> for Stop { fn from(_: Refused) -> Stop { Stop } }
type Ps = Result<Vec<P>, Stop>;

pub struct Rf<'a> { pub items: &'a [Item], pub cx: Ctx, pub fuel: u32 }
const MAX: usize = 4000;

impl<'a> Rf<'a> {
    pub fn new(items: &'a [Item]) -> Self { Rf { items, cx: Ctx::default(), fuel: 40_000 } }
    fn num(&self, e: &Expr, env: &FEnv) -> Result<usize, Stop> { Ok(self.cx.num(e, &env.vals)? as usize) }
    fn truth(&self, v: N) -> Result<bool, Stop> { match v { N::Bool(b) => Ok(b), _ => Err(Stop) } }
    fn pred(&self, f: &Expr, v: N, env: &FEnv) -> Result<bool, Stop> { self.truth(self.cx.apply(f, v, &env.vals)?) }
    fn view(&self, v: &ViewExpr, env: &FEnv) -> Result<Option<Inp>, Stop> {
        Ok(match v {
            ViewExpr::Var(n) => Some(env.views.iter().rev().find(|(m, _)| **m == **n).ok_or(Stop)?.1.clone()),
            ViewExpr::Offset(b, e) => {
                let n = self.num(e, env)?;
                match self.view(b, env)? { Some(i) if n <= i.end - i.off => Some(Inp { off: i.off + n, ..i }), _ => None }
            }
        })
    }
    fn seq_of(&mut self, fs: &[&Format], env: &FEnv, i: &Inp) -> Result<Vec<(Vec<N>, usize, bool)>, Stop> {
        let mut cur = vec![(vec![], i.off, true)];
        for f in fs {
            let mut nxt = vec![];
            for (vs, off, m) in cur {
                for p in self.parse(f, env, &Inp { off, ..i.clone() })? {
                    let mut v2: Vec<N> = Clone::clone(&vs);
                    v2.push(p.v);
                    nxt.push((v2, p.off, m && p.must));
                }
            }
            if nxt.len() > MAX { return Err(Stop); }
            cur = nxt;
        }
        Ok(cur)
    }
    /// repetitions of f, at least lo and at most hi times
    fn reps(&mut self, f: &Format, env: &FEnv, i: &Inp, lo: usize, hi: usize) -> Ps {
        let mut out = vec![];
        let mut cur = vec![(vec![], i.off, true)];
        let mut n = 0;
        loop {
            if n >= lo { out.extend(cur.iter().map(|(vs, off, m): &(Vec<N>, usize, bool)| P { v: seq(vs.clone()), off: *off, must: *m })); }
            if n == hi || cur.is_empty() { break; }
            let mut nxt = vec![];
            for (vs, off, m) in cur {
                for p in self.parse(f, env, &Inp { off, ..i.clone() })? {
                    if p.off == off && hi == usize::MAX { return Err(Stop); }
                    let mut v2 = vs.clone();
                    v2.push(p.v);
                    nxt.push((v2, p.off, m && p.must));
                }
            }
            if nxt.len() > MAX || n > 2000 { return Err(Stop); }
            cur = nxt;
            n += 1;
        }
        Ok(out)
    }
    /// inner format parsed in a window of its own: which of its parses must be found
    fn inner(&mut self, f: &Format, env: &FEnv, i: &Inp) -> Ps {
        let d = self.det(f);
        let mut ps = self.parse(f, env, i)?;
        for p in ps.iter_mut() { p.must &= d || p.off == i.end; }
        Ok(ps)
    }
    pub fn parse(&mut self, f: &Format, env: &FEnv, i: &Inp) -> Ps {
        if self.fuel == 0 { return Err(Stop); }
        self.fuel -= 1;
        let one = |v: N, off: usize| Ok(vec![P { v, off, must: true }]);
        let unit = || N::Tup(vec![]);
        match f {
            Format::ItemVar(n, es, vs) => {
                let it = self.items[*n].clone();
                let mut e2 = FEnv::default();
                for (a, e) in it.args.iter().zip(es) { e2.vals = bind(&e2.vals, a, self.cx.ev(e, &env.vals)?); }
                for (a, v) in it.views.iter().zip(vs) {
                    match self.view(v, env)? { Some(w) => e2.views.push((a.clone(), w)), None => return Ok(vec![]) }
                }
                self.parse(&it.fmt, &e2, i)
            }
            Format::Phantom(_) => one(N::Phantom, i.off),
            Format::Fail => Ok(vec![]),
            Format::Pos => one(int(64, i.off as u64), i.off),
            Format::SkipRemainder => one(unit(), i.end),
            Format::EndOfInput => if i.off == i.end { one(unit(), i.off) } else { Ok(vec![]) },
            Format::Align(n) => { let o = i.off.div_ceil(*n) * n; if o <= i.end { one(unit(), o) } else { Ok(vec![]) } }
            Format::Byte(bs) => if i.off < i.end && bs.contains(i.buf[i.off]) { one(int(8, i.buf[i.off] as u64), i.off + 1) } else { Ok(vec![]) },
            Format::Variant(l, f) => Ok(self.parse(f, env, i)?.into_iter().map(|p| P { v: N::Var(l.to_string(), Rc::new(p.v)), ..p }).collect()),
            Format::Union(fs) => {
                let mut out = vec![];
                for f in fs { out.extend(self.parse(f, env, i)?); }
                Ok(out)
            }
            Format::UnionNondet(fs) => {
                let mut out: Vec<P> = vec![];
                for f in fs {
                    let ps = self.parse(f, env, i)?;
                    let earlier = !out.is_empty();
                    let hit = !ps.is_empty();
                    out.extend(ps.into_iter().map(|p| P { must: p.must && !earlier, ..p }));
                    if hit && self.det(f) { break; }
                }
                Ok(out)
            }
            Format::Tuple(fs) => Ok(self.seq_of(&fs.iter().collect::<Vec<_>>(), env, i)?.into_iter().map(|(v, off, must)| P { v: N::Tup(v), off, must }).collect()),
            Format::Sequence(fs) => Ok(self.seq_of(&fs.iter().collect::<Vec<_>>(), env, i)?.into_iter().map(|(v, off, must)| P { v: seq(v), off, must }).collect()),
            Format::Repeat(f) => self.reps(f, env, i, 0, usize::MAX),
            Format::Repeat1(f) => self.reps(f, env, i, 1, usize::MAX),
            Format::RepeatCount(e, f) => { let n = self.num(e, env)?; self.reps(f, env, i, n, n) }
            Format::RepeatBetween(a, b, f) => { let (a, b) = (self.num(a, env)?, self.num(b, env)?); self.reps(f, env, i, a, b) }
            Format::RepeatUntilLast(c, f) => self.until(f, env, i, |s, vs, env| s.pred(c, vs.last().unwrap().clone(), env)),
            Format::RepeatUntilSeq(c, f) => self.until(f, env, i, |s, vs, env| s.pred(c, seq(vs.to_vec()), env)),
            Format::AccumUntil(done, upd, init, _, f) => {
                let a0 = self.cx.ev(init, &env.vals)?;
                let mut out = vec![];
                let mut cur = vec![(a0, vec![], i.off, true)];
                while let Some((a, vs, off, m)) = cur.pop() {
                    if self.pred(done, N::Tup(vec![a.clone(), seq(vs.clone())]), env)? { out.push(P { v: N::Tup(vec![a, seq(vs)]), off, must: m }); continue; }
                    for p in self.parse(f, env, &Inp { off, ..i.clone() })? {
                        if p.off == off { return Err(Stop); }
                        let a2 = self.cx.apply(upd, N::Tup(vec![a.clone(), p.v.clone()]), &env.vals)?;
                        let mut v2 = vs.clone();
                        v2.push(p.v);
                        cur.push((a2, v2, p.off, m && p.must));
                    }
                    if cur.len() > MAX { return Err(Stop); }
                }
                Ok(out)
            }
            Format::ForEach(e, l, f) => {
                let N::Seq(xs, _) = self.cx.ev(e, &env.vals)? else { return Err(Stop) };
                let mut cur = vec![(vec![], i.off, true)];
                for x in xs.iter() {
                    let e2 = FEnv { vals: bind(&env.vals, l, x.clone()), ..env.clone() };
                    let mut nxt = vec![];
                    for (vs, off, m) in cur {
                        for p in self.parse(f, &e2, &Inp { off, ..i.clone() })? {
                            let mut v2: Vec<N> = Clone::clone(&vs);
                            v2.push(p.v);
                            nxt.push((v2, p.off, m && p.must));
                        }
                    }
                    if nxt.len() > MAX { return Err(Stop); }
                    cur = nxt;
                }
                Ok(cur.into_iter().map(|(v, off, must)| P { v: seq(v), off, must }).collect())
            }
            Format::Maybe(e, f) => {
                let b = self.truth(self.cx.ev(e, &env.vals)?)?;
                if !b { return one(N::Opt(None), i.off); }
                Ok(self.parse(f, env, i)?.into_iter().map(|p| P { v: N::Opt(Some(Rc::new(p.v))), ..p }).collect())
            }
            Format::Peek(f) => Ok(self.inner(f, env, i)?.into_iter().map(|p| P { off: i.off, ..p }).collect()),
            Format::PeekNot(f) => {
                let ps = self.parse(f, env, i)?;
                if ps.is_empty() { one(unit(), i.off) } else if self.det(f) { Ok(vec![]) } else { Ok(vec![P { v: unit(), off: i.off, must: false }]) }
            }
            Format::Slice(e, f) => {
                let n = self.num(e, env)?;
                if n > i.end - i.off { return Ok(vec![]); }
                let w = Inp { end: i.off + n, ..i.clone() };
                Ok(self.inner(f, env, &w)?.into_iter().map(|p| P { off: i.off + n, ..p }).collect())
            }
            Format::Bits(f) => {
                let mut bits = vec![];
                for b in &i.buf[i.off..i.end] { for k in 0..8 { bits.push(b >> k & 1); } }
                let end = bits.len();
                Ok(self.inner(f, env, &Inp { buf: Rc::new(bits), off: 0, end })?.into_iter().map(|p| P { off: i.off + p.off.div_ceil(8), ..p }).collect())
            }
            Format::WithRelativeOffset(b, o, f) => {
                let at = self.cx.num(b, &env.vals)? as u128 + self.cx.num(o, &env.vals)? as u128;
                if at > i.end as u128 { return Ok(vec![]); }
                Ok(self.inner(f, env, &Inp { off: at as usize, ..i.clone() })?.into_iter().map(|p| P { off: i.off, ..p }).collect())
            }
            Format::Map(f, l) => {
                let mut out = vec![];
                for p in self.parse(f, env, i)? { out.push(P { v: self.cx.apply(l, p.v.clone(), &env.vals)?, ..p }); }
                Ok(out)
            }
            Format::Where(f, c) => {
                let mut out = vec![];
                for p in self.parse(f, env, i)? {
                    if self.pred(c.as_ref(), p.v.clone(), env)? || !c.is_required() { out.push(p); }
                }
                Ok(out)
            }
            Format::Compute(e) => { let v = self.cx.ev(e, &env.vals)?; one(v, i.off) }
            Format::Let(l, e, f) => { let v = self.cx.ev(e, &env.vals)?; self.parse(f, &FEnv { vals: bind(&env.vals, l, v), ..env.clone() }, i) }
            Format::Match(h, bs) => {
                let v = self.cx.ev(h, &env.vals)?;
                for (p, f) in bs {
                    let mut e2 = env.vals.clone();
                    if refsem::matches(p, &v, &mut e2) { return self.parse(f, &FEnv { vals: e2, ..env.clone() }, i); }
                }
                Err(Stop)
            }
            Format::Dynamic(n, DynFormat::Huffman(ls, vs), f) => {
                let lens = self.bytes_of(ls, env)?;
                let vals = match vs { None => None, Some(v) => Some(self.bytes_of(v, env)?) };
                let Some(codes) = huffman(&lens, vals.as_deref()) else { return Err(Stop) };
                let mut e2 = env.clone();
                e2.dyns.push((n.to_string(), Rc::new(codes)));
                self.parse(f, &e2, i)
            }
            Format::Apply(n) => {
                let codes = env.dyns.iter().rev().find(|(m, _)| **m == **n).ok_or(Stop)?.1.clone();
                for (bits, sym) in codes.iter() {
                    if i.end - i.off >= bits.len() && i.buf[i.off..i.off + bits.len()] == bits[..] { return one(int(16, *sym), i.off + bits.len()); }
                }
                Ok(vec![])
            }
            Format::DecodeBytes(e, f) => {
                let b = self.bytes_of(e, env)?;
                let end = b.len();
                Ok(self.inner(f, env, &Inp { buf: Rc::new(b), off: 0, end })?.into_iter().map(|p| P { off: i.off, ..p }).collect())
            }
            Format::LetFormat(a, l, b) => {
                let mut out = vec![];
                for p in self.parse(a, env, i)? {
                    let e2 = FEnv { vals: bind(&env.vals, l, p.v.clone()), ..env.clone() };
                    out.extend(self.parse(b, &e2, &Inp { off: p.off, ..i.clone() })?.into_iter().map(|q| P { must: q.must && p.must, ..q }));
                    if out.len() > MAX { return Err(Stop); }
                }
                Ok(out)
            }
            Format::MonadSeq(a, b) => {
                let mut out = vec![];
                for p in self.parse(a, env, i)? {
                    out.extend(self.parse(b, env, &Inp { off: p.off, ..i.clone() })?.into_iter().map(|q| P { must: q.must && p.must, ..q }));
                    if out.len() > MAX { return Err(Stop); }
                }
                Ok(out)
            }
            Format::Hint(_, f) => self.parse(f, env, i),
            Format::LiftedOption(None) => one(N::Opt(None), i.off),
            Format::LiftedOption(Some(f)) => Ok(self.parse(f, env, i)?.into_iter().map(|p| P { v: N::Opt(Some(Rc::new(p.v))), ..p }).collect()),
            Format::LetView(l, f) => { let mut e2 = env.clone(); e2.views.push((l.to_string(), i.clone())); self.parse(f, &e2, i) }
            Format::ParseFromView(v, f) => match self.view(v, env)? {
                None => Ok(vec![]),
                Some(w) => Ok(self.inner(f, env, &w)?.into_iter().map(|p| P { off: i.off, ..p }).collect()),
            },
            Format::WithView(v, vf) => {
                let Some(w) = self.view(v, env)? else { return Ok(vec![]) };
                let left = w.end - w.off;
                match vf {
                    ViewFormat::ReifyView => one(N::View(w.off), i.off),
                    ViewFormat::CaptureBytes(n) => {
                        let n = self.num(n, env)?;
                        if n > left { return Ok(vec![]); }
                        one(seq(w.buf[w.off..w.off + n].iter().map(|b| int(8, *b as u64)).collect()), i.off)
                    }
                    ViewFormat::ReadArray(n, k) => {
                        let n = self.num(n, env)?;
                        let sz = match k { BaseKind::U8 => 1, BaseKind::U16Ext(Endian::Be) => 2, BaseKind::U32Ext(Endian::Be) => 4, BaseKind::U64Ext(Endian::Be) => 8, _ => return Err(Stop) };
                        if n as u128 * sz as u128 > left as u128 { return Ok(vec![]); }
                        one(seq(w.buf[w.off..w.off + n * sz].chunks(sz).map(|c| int(8 * sz as u32, c.iter().fold(0, |a, b| a << 8 | *b as u64))).collect()), i.off)
                    }
                }
            }
            Format::Permit(f, e) => {
                let mut ps = self.parse(f, env, i)?;
                if ps.is_empty() || !self.det(f) {
                    let v = self.cx.ev(e, &env.vals)?;
                    ps.push(P { v: N::Fallback(Some(Rc::new(v))), off: i.off, must: false });
                }
                Ok(ps)
            }
            #[allow(unreachable_patterns)]
            _ => Err(Stop),
        }
    }
    fn bytes_of(&self, e: &Expr, env: &FEnv) -> Result<Vec<u8>, Stop> {
        match self.cx.ev(e, &env.vals)? {
            N::Seq(vs, _) => vs.iter().map(|v| match v { N::Int(8, b) => Ok(*b as u8), _ => Err(Stop) }).collect(),
            _ => Err(Stop),
        }
    }
    fn until(&mut self, f: &Format, env: &FEnv, i: &Inp, done: impl Fn(&Self, &[N], &FEnv) -> Result<bool, Stop>) -> Ps {
        let mut out = vec![];
        let mut cur = vec![(Vec::<N>::new(), i.off, true)];
        while let Some((vs, off, m)) = cur.pop() {
            for p in self.parse(f, env, &Inp { off, ..i.clone() })? {
                let mut v2 = vs.clone();
                v2.push(p.v);
                if done(self, &v2, env)? { out.push(P { v: seq(v2), off: p.off, must: m && p.must }); }
                else if p.off == off { return Err(Stop); }
                else { cur.push((v2, p.off, m && p.must)); }
            }
            if cur.len() > MAX || out.len() > MAX { return Err(Stop); }
        }
        Ok(out)
    }
    fn all(&self, f: &Format, ok: &dyn Fn(&Format) -> bool) -> bool {
        if !ok(f) { return false; }
        let mut r = true;
        kids(f, &mut |g| r = r && self.all(g, ok));
        if let Format::ItemVar(n, ..) = f { r = r && self.all(&self.items[*n].fmt, ok); }
        r
    }
    /// no choice to make: at most one parse
    pub fn det(&self, f: &Format) -> bool {
        self.all(f, &|f| !matches!(f, Format::Union(_) | Format::Repeat(_) | Format::Repeat1(_) | Format::RepeatBetween(..)))
    }
    /// every choice is decidable from the bytes that follow (the constructs whose extent is only
    /// known by running them are excluded)
    pub fn exact(&self, f: &Format) -> bool {
        self.all(f, &|f| match f {
            Format::Bits(_) | Format::WithRelativeOffset(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) | Format::AccumUntil(..)
            | Format::Apply(_) | Format::SkipRemainder | Format::Permit(..) | Format::PeekNot(_) => false,
            Format::Align(n) => *n < 2,
            Format::RepeatCount(e, _) | Format::Slice(e, _) => matches!(**e, Expr::U8(_) | Expr::U16(_) | Expr::U32(_)),
            Format::ForEach(_, _, f) => self.minlen(f) > 0,
            _ => true,
        })
    }
    /// a repetition of something that may match nothing and has choices inside: not compiled
    pub fn loops(&self, f: &Format) -> bool {
        !self.all(f, &|f| match f {
            Format::RepeatCount(_, g) | Format::RepeatUntilLast(_, g) | Format::RepeatUntilSeq(_, g) | Format::AccumUntil(_, _, _, _, g) | Format::ForEach(_, _, g) | Format::RepeatBetween(_, _, g) => self.minlen(g) > 0 || self.det(g),
            Format::Repeat(g) | Format::Repeat1(g) => self.minlen(g) > 0,
            _ => true,
        })
    }
    pub fn minlen(&self, f: &Format) -> usize {
        match f {
            Format::ItemVar(n, ..) => self.minlen(&self.items[*n].fmt),
            Format::Byte(_) => 1,
            Format::Variant(_, f) | Format::Repeat1(f) | Format::RepeatUntilLast(_, f) | Format::RepeatUntilSeq(_, f) | Format::Map(f, _) | Format::Where(f, _)
            | Format::Let(_, _, f) | Format::LetView(_, f) | Format::Hint(_, f) | Format::LiftedOption(Some(f)) | Format::Dynamic(_, _, f) => self.minlen(f),
            Format::Union(fs) | Format::UnionNondet(fs) => fs.iter().map(|f| self.minlen(f)).min().unwrap_or(0),
            Format::Match(_, bs) => bs.iter().map(|(_, f)| self.minlen(f)).min().unwrap_or(0),
            Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().map(|f| self.minlen(f)).sum(),
            Format::LetFormat(a, _, b) | Format::MonadSeq(a, b) => self.minlen(a) + self.minlen(b),
            Format::RepeatCount(e, f) => lit(e) * self.minlen(f),
            Format::RepeatBetween(e, _, f) => lit(e) * self.minlen(f),
            Format::Slice(e, _) => lit(e),
            Format::Bits(f) => self.minlen(f).div_ceil(8),
            Format::Apply(_) => 1,
            _ => 0,
        }
    }
}
fn lit(e: &Expr) -> usize { match e { Expr::U8(n) => *n as usize, Expr::U16(n) => *n as usize, Expr::U32(n) => *n as usize, _ => 0 } }
pub fn kids<'f>(f: &'f Format, k: &mut dyn FnMut(&'f Format)) {
    match f {
        Format::Variant(_, f) | Format::Repeat(f) | Format::Repeat1(f) | Format::RepeatCount(_, f) | Format::RepeatBetween(_, _, f) | Format::RepeatUntilLast(_, f)
        | Format::RepeatUntilSeq(_, f) | Format::AccumUntil(_, _, _, _, f) | Format::ForEach(_, _, f) | Format::Maybe(_, f) | Format::Peek(f) | Format::PeekNot(f)
        | Format::Slice(_, f) | Format::Bits(f) | Format::WithRelativeOffset(_, _, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f)
        | Format::Dynamic(_, _, f) | Format::DecodeBytes(_, f) | Format::Hint(_, f) | Format::LiftedOption(Some(f)) | Format::LetView(_, f)
        | Format::ParseFromView(_, f) | Format::Permit(f, _) => k(f),
        Format::Union(fs) | Format::UnionNondet(fs) | Format::Tuple(fs) | Format::Sequence(fs) => for f in fs { k(f) },
        Format::Match(_, bs) => for (_, f) in bs { k(f) },
        Format::LetFormat(a, _, b) | Format::MonadSeq(a, b) => { k(a); k(b) }
        _ => {}
    }
}
/// canonical prefix code (RFC 1951 3.2.2): code bits, first bit first, with the coded symbol
pub fn huffman(lens: &[u8], vals: Option<&[u8]>) -> Option<Vec<(Vec<u8>, u64)>> {
    let lens: Vec<u8> = match vals {
        None => lens.to_vec(),
        Some(v) => {
            if v.len() < lens.len() { return None; }
            let mut out = vec![0; v.len()];
            for (l, s) in lens.iter().zip(v) { *out.get_mut(*s as usize)? = *l; }
            out
        }
    };
    let max = *lens.iter().max()?;
    if max == 0 || max > 15 { return None; }
    // not over-subscribed
    if lens.iter().filter(|l| **l > 0).map(|l| 1u64 << (15 - l)).sum::<u64>() > 1 << 15 { return Some(vec![]); }
    let mut out = vec![];
    let mut code = 0u64;
    for l in 1..=max {
        code <<= 1;
        for (s, _) in lens.iter().enumerate().filter(|(_, k)| **k == l) {
            out.push(((0..l).rev().map(|k| (code >> k & 1) as u8).collect(), s as u64));
            code += 1;
        }
    }
    Some(out)
}
