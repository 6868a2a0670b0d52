//! Random well-typed formats over a small byte alphabet.
use crate::genexpr::{self, LABELS, T, TEnv};
use crate::reffmt::Item;
use crate::src::Src;
use doodle::byte_set::ByteSet;
use doodle::{BaseKind, DynFormat, Expr, Format, FormatModule, IntRel, Pattern, ViewExpr, ViewFormat, helper};

#[derive(Clone, Default)]
pub struct FE { pub vals: TEnv, pub views: Vec<String> }
pub struct Gen<'s> {
    pub s: &'s mut dyn Src,
    pub module: FormatModule,
    pub items: Vec<Item>,
    pub item_tys: Vec<(Vec<T>, bool, T)>,
    /// restrict to constructs whose choices lookahead decides exactly
    pub exact: bool,
    /// allow views, seeks, bits, dynamic formats, reparsing
    pub wide: bool,
    fresh: u32,
}
fn bx<X>(x: X) -> Box<X> { Box::new(x) }
const VN: [&str; 4] = ["p", "q", "r", "t"];

impl<'s> Gen<'s> {
    pub fn new(s: &'s mut dyn Src, exact: bool, wide: bool) -> Self {
        Gen { s, module: FormatModule::new(), items: vec![], item_tys: vec![], exact, wide, fresh: 0 }
    }
    fn k(&mut self, n: usize) -> usize { self.s.below(n) }
    pub fn byteset(&mut self) -> ByteSet {
        match self.k(8) {
            0..=3 => ByteSet::from([self.s.below(3) as u8]),
            4 => ByteSet::from([0, 1]),
            5 => ByteSet::from([1, 2]),
            6 => !ByteSet::from([self.s.below(3) as u8]),
            _ => ByteSet::full(),
        }
    }
    fn name(&mut self) -> &'static str { VN[self.s.below(VN.len())] }
    pub fn ty(&mut self, d: u32) -> T {
        match self.k(if d == 0 { 6 } else { 12 }) {
            0..=3 => T::U(8),
            4 => [T::U(16), T::U(32), T::U(64), T::Bool][self.s.below(4)].clone(),
            5 => T::Tup(vec![]),
            6 | 7 => { let n = 1 + self.k(3); T::Tup((0..n).map(|_| self.ty(d - 1)).collect()) }
            8 => { let n = 1 + self.k(3); T::Rec((0..n).map(|i| (LABELS[i], self.ty(d - 1))).collect()) }
            9 => { let n = 1 + self.k(2); T::Var((0..n).map(|i| (LABELS[i], self.ty(d - 1))).collect()) }
            10 => T::Seq(bx(self.ty(d - 1))),
            _ => T::Opt(bx(self.ty(d - 1))),
        }
    }
    fn bind(&self, env: &FE, n: &str, t: T) -> FE { let mut e = env.clone(); e.vals.push((n.into(), t)); e }
    /// small number: a literal, or a byte-valued variable
    fn count(&mut self, env: &FE) -> Expr {
        let vs: Vec<String> = env.vals.iter().enumerate().filter(|(i, (n, t))| matches!(t, T::U(8)) && !env.vals[i + 1..].iter().any(|(m, _)| m == n)).map(|(_, (n, _))| n.clone()).collect();
        if !self.exact && !vs.is_empty() && self.k(2) == 0 {
            let v = Expr::Var(vs[self.s.below(vs.len())].clone().into());
            return match self.k(3) { 0 => Expr::AsU32(bx(v)), _ => v };
        }
        if !self.exact && self.k(16) == 0 { return match self.k(4) { 0 => Expr::U64(u64::MAX), 1 => Expr::U64(1 << 62), 2 => Expr::U32(u32::MAX), _ => Expr::U16(u16::MAX) }; }
        match self.k(3) { 0 => Expr::U8(self.s.below(4) as u8), 1 => Expr::U16(self.s.below(4) as u16), _ => Expr::U32(self.s.below(4) as u32) }
    }
    pub fn small_lit(&mut self, w: u32) -> Expr {
        let n = self.k(4) as u64;
        match w { 8 => Expr::U8(n as u8), 16 => Expr::U16(n as u16), 32 => Expr::U32(n as u32), _ => Expr::U64(n) }
    }
    /// condition on variable x of type t
    fn cond(&mut self, x: &str, t: &T, env: &FE) -> Expr {
        let r = [IntRel::Eq, IntRel::Ne, IntRel::Lt, IntRel::Gt, IntRel::Lte, IntRel::Gte][self.s.below(6)];
        let v = Expr::Var(x.to_string().into());
        match t {
            T::U(w) => Expr::IntRel(r, bx(v), bx(self.small_lit(*w))),
            T::Seq(_) => Expr::IntRel(r, bx(Expr::SeqLength(bx(v))), bx(self.small_lit(32))),
            T::Bool => v,
            T::Tup(ts) if ts.iter().any(|t| matches!(t, T::U(_))) => {
                let i = ts.iter().position(|t| matches!(t, T::U(_))).unwrap();
                let T::U(w) = ts[i] else { unreachable!() };
                Expr::IntRel(r, bx(Expr::TupleProj(bx(v), i)), bx(self.small_lit(w)))
            }
            T::Rec(fs) if fs.iter().any(|t| matches!(t.1, T::U(_))) => {
                let i = fs.iter().position(|t| matches!(t.1, T::U(_))).unwrap();
                let T::U(w) = fs[i].1 else { unreachable!() };
                Expr::IntRel(r, bx(Expr::RecordProj(bx(v), fs[i].0.into())), bx(self.small_lit(w)))
            }
            _ => { let e2 = self.bind(env, x, t.clone()); genexpr::expr(self.s, &T::Bool, &e2.vals, 1) }
        }
    }
    /// pattern for values made of small numbers
    fn pat(&mut self, t: &T, out: &mut TEnv) -> Pattern {
        if self.k(4) == 0 { let n = self.name(); out.push((n.into(), t.clone())); return Pattern::Binding(n.into()); }
        match t {
            T::Bool => Pattern::Bool(self.s.bool()),
            T::U(8) => Pattern::U8(self.s.below(3) as u8),
            T::U(16) => Pattern::U16(self.s.below(3) as u16),
            T::U(32) => Pattern::U32(self.s.below(3) as u32),
            T::U(64) => Pattern::U64(self.s.below(3) as u64),
            T::Tup(ts) => Pattern::Tuple(ts.iter().map(|t| self.pat(t, out)).collect()),
            T::Var(fs) => { let (l, t) = &fs[self.s.below(fs.len())]; Pattern::Variant((*l).into(), bx(self.pat(t, out))) }
            T::Seq(t) => { let n = self.k(3); Pattern::Seq((0..n).map(|_| self.pat(t, out)).collect()) }
            T::Opt(t) => if self.s.bool() { Pattern::Option(None) } else { Pattern::Option(Some(bx(self.pat(t, out)))) },
            _ => Pattern::Wildcard,
        }
    }
    fn view(&mut self, env: &FE) -> ViewExpr {
        let v = ViewExpr::Var(env.views[self.s.below(env.views.len())].clone().into());
        if self.s.bool() { v } else { ViewExpr::Offset(bx(v), bx(self.count(env))) }
    }
    fn expr(&mut self, t: &T, env: &FE) -> Expr {
        // variables when there are any, small expressions otherwise
        let d = self.k(3) as u32;
        genexpr::expr(self.s, t, &env.vals, d)
    }
    /// wrap a format of type t in something that keeps the type
    fn wrapped(&mut self, t: &T, env: &FE, d: u32) -> Option<Format> {
        let d1 = d - 1;
        let n = if self.wide { 24 } else { 16 };
        Some(match self.k(n) {
            0 | 1 => { let n = 2 + self.k(2); Format::Union((0..n).map(|_| self.fmt(t, env, d1)).collect()) }
            2 if !self.exact => { let n = 2 + self.k(2); Format::UnionNondet((0..n).map(|_| self.fmt(t, env, d1)).collect()) }
            2 => Format::Hint(doodle::StyleHint::AsciiStr, bx(self.fmt(t, env, d1))),
            3 => Format::Slice(bx(self.count(env)), bx(self.fmt(t, env, d1))),
            4 | 5 => {
                let u = self.ty(1);
                let a = self.fmt(&u, env, d1);
                let n = self.name();
                let e2 = self.bind(env, n, u);
                Format::LetFormat(bx(a), n.into(), bx(self.fmt(t, &e2, d1)))
            }
            6 => { let u = self.ty(1); Format::MonadSeq(bx(self.fmt(&u, env, d1)), bx(self.fmt(t, env, d1))) }
            7 => { let u = self.ty(1); let n = self.name(); let e = self.expr(&u, env); let e2 = self.bind(env, n, u); Format::Let(n.into(), bx(e), bx(self.fmt(t, &e2, d1))) }
            8 => { let u = self.ty(1); let a = self.fmt(&u, env, d1); let n = self.name(); let e2 = self.bind(env, n, u); let b = self.expr(t, &e2); Format::Map(bx(a), bx(Expr::Lambda(n.into(), bx(b)))) }
            9 => { let a = self.fmt(t, env, d1); let n = self.name(); let c = self.cond(n, t, env); if self.k(4) == 0 { helper::expect_lambda(a, n, c) } else { helper::where_lambda(a, n, c) } }
            10 | 11 => {
                let vs: Vec<(String, T)> = env.vals.clone();
                let (h, u) = if !vs.is_empty() && self.k(4) > 0 { let (n, u) = vs[self.s.below(vs.len())].clone(); let u2 = env.vals.iter().rev().find(|(m, _)| *m == n).map(|(_, t)| t.clone()).unwrap_or(u); (Expr::Var(n.into()), u2) } else { let u = self.ty(1); (self.expr(&u, env), u) };
                let n = 1 + self.k(2);
                let mut bs = vec![];
                for _ in 0..n { let mut e2 = env.clone(); let p = self.pat(&u, &mut e2.vals); bs.push((p, self.fmt(t, &e2, d1))); }
                bs.push((Pattern::Wildcard, self.fmt(t, env, d1)));
                Format::Match(bx(h), bs)
            }
            12 => self.item(t, env, d1),
            13 => Format::Peek(bx(self.fmt(t, env, d1))),
            14 => { let u = self.ty(1); let a = self.fmt(&u, env, d1); Format::MonadSeq(bx(Format::PeekNot(bx(a))), bx(self.fmt(t, env, d1))) }
            15 => Format::MonadSeq(bx(Format::Phantom(bx(Format::Byte(ByteSet::full())))), bx(self.fmt(t, env, d1))),
            16 => { let a = self.fmt(t, env, d1); let e = self.expr(t, env); Format::Permit(bx(a), bx(e)) }
            17 => Format::Bits(bx(self.fmt(t, env, d1))),
            18 => { let b = self.count(env); let o = self.count(env); let (b, o) = (if self.k(2) == 0 { Expr::AsU64(bx(b)) } else { b }, o); Format::WithRelativeOffset(bx(b), bx(o), bx(self.fmt(t, env, d1))) }
            19 => { self.fresh += 1; let n = format!("v{}", self.fresh); let mut e2 = env.clone(); e2.views.push(n.clone()); Format::LetView(n.into(), bx(self.fmt(t, &e2, d1))) }
            20 if !env.views.is_empty() => { let v = self.view(env); Format::ParseFromView(v, bx(self.fmt(t, env, d1))) }
            21 => { let e = self.expr(&T::Seq(bx(T::U(8))), env); Format::DecodeBytes(bx(e), bx(self.fmt(t, env, d1))) }
            22 => Format::MonadSeq(bx(Format::Align(1 + self.k(4))), bx(self.fmt(t, env, d1))),
            23 => { let x = [Format::EndOfInput, Format::SkipRemainder][self.s.below(2)].clone(); let n = self.name(); Format::LetFormat(bx(self.fmt(t, env, d1)), n.into(), bx(Format::MonadSeq(bx(x), bx(Format::Compute(bx(Expr::Var(n.into()))))))) }
            _ => return None,
        })
    }
    fn item(&mut self, t: &T, env: &FE, d: u32) -> Format {
        let hits: Vec<usize> = (0..self.items.len()).filter(|i| self.item_tys[*i].2 == *t && (!self.item_tys[*i].1 || !env.views.is_empty())).collect();
        let ix = if !hits.is_empty() && self.k(2) == 0 { hits[self.s.below(hits.len())] } else {
            let n = self.k(2);
            let ats: Vec<T> = (0..n).map(|_| if self.k(2) == 0 { T::U(8) } else { self.ty(1) }).collect();
            let withview = !env.views.is_empty() && self.k(2) == 0;
            let mut e = FE::default();
            let mut args = vec![];
            for (i, a) in ats.iter().enumerate() { let nm = format!("k{i}"); e.vals.push((nm.clone(), a.clone())); args.push(nm); }
            let views: Vec<String> = if withview { vec!["vw".into()] } else { vec![] };
            e.views = views.clone();
            let f = self.fmt(t, &e, d);
            let ix = self.items.len();
            let fr = self.module.define_format_args_views(format!("item{ix}"), args.iter().zip(&ats).map(|(n, t)| (n.clone().into(), genexpr::vt(t))).collect(), views.iter().map(|v| v.clone().into()).collect(), f.clone());
            assert_eq!(fr.get_level(), ix);
            self.items.push(Item { args, views, fmt: f });
            self.item_tys.push((ats, withview, t.clone()));
            ix
        };
        let (ats, wv, _) = self.item_tys[ix].clone();
        let es = ats.iter().map(|a| self.expr(a, env)).collect();
        let vs = if wv { vec![self.view(env)] } else { vec![] };
        Format::ItemVar(ix, es, vs)
    }
    pub fn fmt(&mut self, t: &T, env: &FE, d: u32) -> Format {
        let t = &genexpr::near(self.s, t);
        if d > 0 && self.k(5) < 2 { if let Some(f) = self.wrapped(t, env, d) { return f; } }
        let d1 = d.saturating_sub(1);
        match t {
            T::U(8) => if self.k(8) == 0 { Format::Compute(bx(self.expr(t, env))) } else { Format::Byte(self.byteset()) },
            T::U(64) if self.k(2) == 0 => Format::Pos,
            T::U(16) if self.wide && d > 0 && self.k(3) == 0 => {
                let lens: Vec<Expr> = [&[1u8, 1][..], &[1, 2, 2], &[2, 2, 2, 2], &[2, 1, 3, 3], &[0, 1, 2, 2], &[1, 1, 1], &[1, 1, 2], &[2, 3, 1, 2], &[3, 3, 1], &[0, 2, 0, 2]][self.s.below(10)].iter().map(|n| Expr::U8(*n)).collect();
                let vals = if self.k(3) == 0 { let mut p: Vec<u8> = (0..lens.len() as u8).collect(); p.rotate_left(self.s.below(lens.len())); Some(bx(Expr::Seq(p.into_iter().map(Expr::U8).collect()))) } else { None };
                if self.k(4) == 0 {
                    // lengths read from the input, possibly through a mapping
                    let b = Format::Byte(ByteSet::from(0..=3u8));
                    let b = match self.k(3) { 0 => b, 1 => Format::Map(bx(b), bx(Expr::Lambda("q".into(), bx(Expr::Var("q".into()))))), _ => Format::Union(vec![Format::Byte(ByteSet::from(0..=1u8)), Format::Byte(ByteSet::from(2..=3u8))]) };
                    return Format::LetFormat(bx(Format::RepeatCount(bx(Expr::U8(2)), bx(b))), "hl".into(), bx(Format::Dynamic("dyn".into(), DynFormat::Huffman(bx(Expr::Var("hl".into())), None), bx(Format::Apply("dyn".into())))));
                }
                Format::Dynamic("dyn".into(), DynFormat::Huffman(bx(Expr::Seq(lens)), vals), bx(if self.k(2) == 0 { Format::Apply("dyn".into()) } else { Format::MonadSeq(bx(Format::Apply("dyn".into())), bx(Format::Apply("dyn".into()))) }))
            }
            T::U(_) | T::Bool | T::Char => {
                if d > 0 && self.k(3) > 0 {
                    let n = self.name();
                    let w = match t { T::U(w) => (*w / 8) as usize, _ => 1 };
                    let tup = Format::Tuple((0..w).map(|_| if self.wide && self.k(6) == 0 { self.fmt(&T::U(8), env, d1) } else { Format::Byte(self.byteset()) }).collect());
                    let x = bx(Expr::Var(n.into()));
                    let b = match t { T::U(16) => if self.s.bool() { Expr::U16Be(x) } else { Expr::U16Le(x) }, T::U(32) => if self.s.bool() { Expr::U32Be(x) } else { Expr::U32Le(x) }, T::U(64) => if self.s.bool() { Expr::U64Be(x) } else { Expr::U64Le(x) }, T::Bool => Expr::IntRel(IntRel::Eq, bx(Expr::TupleProj(x, 0)), bx(self.small_lit(8))), _ => Expr::AsChar(bx(Expr::TupleProj(x, 0))) };
                    Format::Map(bx(tup), bx(Expr::Lambda(n.into(), bx(b))))
                } else { Format::Compute(bx(self.expr(t, env))) }
            }
            T::Tup(ts) if ts.is_empty() => match self.k(if self.exact { 4 } else { 7 }) {
                0 | 1 => Format::EMPTY,
                2 => Format::EndOfInput,
                3 if d > 0 => { let u = self.ty(0); Format::PeekNot(bx(self.fmt(&u, env, d1))) }
                4 => Format::SkipRemainder,
                5 => Format::Align(1 + self.k(4)),
                _ => Format::EMPTY,
            },
            T::Tup(ts) => match &ts[..] {
                [a, T::Seq(e)] if !self.exact && d > 0 && self.k(2) == 0 => {
                    let done = Expr::Lambda("acc".into(), bx({
                        let v = bx(Expr::TupleProj(bx(Expr::Var("acc".into())), 1));
                        Expr::IntRel(if self.s.bool() { IntRel::Gte } else { IntRel::Eq }, bx(Expr::SeqLength(v)), bx(self.small_lit(32)))
                    }));
                    let e2 = self.bind(env, "upd", T::Tup(vec![a.clone(), (**e).clone()]));
                    let upd = Expr::Lambda("upd".into(), bx(self.expr(a, &e2)));
                    let init = self.expr(a, env);
                    Format::AccumUntil(bx(done), bx(upd), bx(init), genexpr::hint(a), bx(self.fmt(e, env, d1)))
                }
                _ => Format::Tuple(ts.iter().map(|t| self.fmt(t, env, d1)).collect()),
            },
            T::Rec(fs) => {
                let mut e2 = env.clone();
                let mut out: Vec<(&'static str, Format)> = vec![];
                for (l, t) in fs { let f = self.fmt(t, &e2, d1); e2.vals.push((l.to_string(), t.clone())); out.push((*l, f)); }
                if out.is_empty() { Format::Compute(bx(Expr::Record(vec![]))) } else { Format::record(out) }
            }
            T::Var(fs) => {
                let vs: Vec<Format> = fs.iter().map(|(l, t)| Format::Variant((*l).into(), bx(self.fmt(t, env, d1)))).collect();
                match self.k(4) { 0 => vs[self.s.below(vs.len())].clone(), 1 if !self.exact => Format::UnionNondet(vs), _ => Format::Union(vs) }
            }
            T::Opt(t) => match self.k(4) {
                0 => Format::LiftedOption(None),
                1 => Format::LiftedOption(Some(bx(self.fmt(t, env, d1)))),
                2 => { let c = if env.vals.is_empty() { Expr::Bool(self.s.bool()) } else { let (n, u) = env.vals[env.vals.len() - 1].clone(); self.cond(&n, &u, env) }; Format::Maybe(bx(c), bx(self.fmt(t, env, d1))) }
                _ => helper::optional(self.fmt(t, env, d1)),
            },
            T::Seq(t) => {
                let k = self.k(if self.exact { 7 } else { 11 });
                match k {
                    0 | 1 => Format::Repeat(bx(self.fmt(t, env, d1))),
                    2 => Format::Repeat1(bx(self.fmt(t, env, d1))),
                    3 => {
                        let (mut n, f) = (self.count(env), self.fmt(t, env, d1));
                        if !matches!(n, Expr::U8(0..=3)) && crate::reffmt::Rf::new(&self.items).minlen(&f) == 0 { n = Expr::U8(self.s.below(4) as u8); }
                        Format::RepeatCount(bx(n), bx(f))
                    }
                    4 => { let a = self.k(3) as u32; let b = a + self.k(3) as u32; Format::RepeatBetween(bx(Expr::U32(a)), bx(Expr::U32(b)), bx(self.fmt(t, env, d1))) }
                    5 => { let n = self.k(4); Format::Sequence((0..n).map(|_| self.fmt(t, env, d1)).collect()) }
                    6 => {
                        let u = T::U(8);
                        let e = match self.k(2) { 0 => { let n = self.k(3); Expr::Seq((0..n).map(|_| self.small_lit(8)).collect()) } _ => self.expr(&T::Seq(bx(u.clone())), env) };
                        let n = self.name();
                        let e2 = self.bind(env, n, u);
                        Format::ForEach(bx(e), n.into(), bx(self.fmt(t, &e2, d1)))
                    }
                    7 => { let n = self.name(); let f = self.fmt(t, env, d1); let c = self.cond(n, t, env); Format::RepeatUntilLast(bx(Expr::Lambda(n.into(), bx(c))), bx(f)) }
                    8 => { let n = self.name(); let f = self.fmt(t, env, d1); let c = self.cond(n, &T::Seq(t.clone()), env); Format::RepeatUntilSeq(bx(Expr::Lambda(n.into(), bx(c))), bx(f)) }
                    _ if self.wide && !env.views.is_empty() => match &**t {
                        T::U(8) if k == 9 => { let v = self.view(env); Format::WithView(v, ViewFormat::CaptureBytes(bx(self.count(env)))) }
                        T::U(w) => { let b = match w { 8 => BaseKind::U8, 16 => BaseKind::U16BE, 32 => BaseKind::U32BE, _ => BaseKind::U64BE }; let v = self.view(env); Format::WithView(v, ViewFormat::ReadArray(bx(self.count(env)), b)) }
                        _ => Format::Compute(bx(self.expr(&T::Seq(t.clone()), env))),
                    },
                    _ => Format::Compute(bx(self.expr(&T::Seq(t.clone()), env))),
                }
            }
        }
    }
}
