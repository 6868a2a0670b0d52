//! Random closed, well-typed expressions.
use crate::src::Src;
use doodle::bounds::Bounds;
use doodle::{Arith, BaseType, Expr, IntRel, Pattern, TypeHint, UnaryOp, ValueType};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Bool,
    U(u32),
    Char,
    Tup(Vec<T>),
    Rec(Vec<(&'static str, T)>),
    Var(Vec<(&'static str, T)>),
    Seq(Box<T>),
    Opt(Box<T>),
}
pub const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];
pub const LABELS: [&str; 3] = ["x", "y", "z"];
pub type G<'a> = &'a mut dyn Src;

pub fn vt(t: &T) -> ValueType {
    match t {
        T::Bool => ValueType::Base(BaseType::Bool),
        T::U(8) => ValueType::U8,
        T::U(16) => ValueType::U16,
        T::U(32) => ValueType::U32,
        T::U(64) => ValueType::U64,
        T::U(_) => ValueType::U32,
        T::Char => ValueType::Base(BaseType::Char),
        T::Tup(ts) => ValueType::Tuple(ts.iter().map(vt).collect()),
        T::Rec(fs) => ValueType::Record(fs.iter().map(|(l, t)| ((*l).into(), vt(t))).collect()),
        T::Var(fs) => ValueType::Union(BTreeMap::from_iter(fs.iter().map(|(l, t)| ((*l).into(), vt(t))))),
        T::Seq(t) => ValueType::Seq(Box::new(vt(t))),
        T::Opt(t) => ValueType::Option(Box::new(vt(t))),
    }
}
pub fn hint(t: &T) -> TypeHint { TypeHint::from(vt(t)) }

pub fn ty(s: G, d: u32) -> T {
    let k = if d == 0 { s.below(6) } else { s.below(11) };
    match k {
        0 => T::Bool,
        1 => T::U(8),
        2 => T::U(16),
        3 => T::U(32),
        4 => T::U(64),
        5 => T::Char,
        6 => { let n = s.below(4); T::Tup((0..n).map(|_| ty(s, d - 1)).collect()) }
        7 => { let n = 1 + s.below(3); T::Rec((0..n).map(|i| (LABELS[i], ty(s, d - 1))).collect()) }
        8 => { let n = 1 + s.below(3); T::Var((0..n).map(|i| (LABELS[i], ty(s, d - 1))).collect()) }
        9 => T::Seq(Box::new(ty(s, d - 1))),
        _ => T::Opt(Box::new(ty(s, d - 1))),
    }
}
pub type TEnv = Vec<(String, T)>;
fn bx(e: Expr) -> Box<Expr> { Box::new(e) }
fn with(env: &TEnv, n: &str, t: T) -> TEnv { let mut e = env.clone(); e.push((n.to_string(), t)); e }
/// variables of type t that are not shadowed
fn vars<'a>(env: &'a TEnv, t: &T) -> Vec<&'a str> {
    let mut seen: Vec<&str> = vec![];
    let mut out = vec![];
    for (n, u) in env.iter().rev() {
        if !seen.contains(&n.as_str()) {
            seen.push(n);
            if u == t { out.push(n.as_str()); }
        }
    }
    out
}
pub fn small(s: G, env: &TEnv, d: u32) -> Expr {
    match s.below(if d == 0 { 4 } else { 5 }) {
        4 => { let t = ty(s, 0); Expr::SeqLength(bx(expr(s, &T::Seq(Box::new(t)), env, d - 1))) }
        _ => Expr::U32(s.below(6) as u32),
    }
}
pub fn lit(s: G, t: &T) -> Expr {
    let t = &near(s, t);
    match t {
        T::Bool => Expr::Bool(s.bool()),
        T::U(8) => Expr::U8(s.u8()),
        T::U(16) => Expr::U16(s.u16()),
        T::U(32) => Expr::U32(s.u32()),
        T::U(64) => Expr::U64(s.u64()),
        // an index: element of a range
        T::U(_) => { let a = s.below(4) as u32; Expr::SeqIx(bx(Expr::EnumFromTo(bx(Expr::U32(a)), bx(Expr::U32(a + 1)))), bx(Expr::U32(0))) }
        T::Char => Expr::AsChar(bx(match s.below(4) { 0 => Expr::U8(s.u8()), 1 => Expr::U16(s.u16()), 2 => Expr::U32(s.u32() % 0x120000), _ => Expr::U64(s.u64() % 0x120000) })),
        T::Tup(ts) => Expr::Tuple(ts.iter().map(|t| lit(s, t)).collect()),
        T::Rec(fs) => Expr::Record(fs.iter().map(|(l, t)| ((*l).into(), lit(s, t))).collect()),
        T::Var(fs) => { let (l, t) = &fs[s.below(fs.len())]; Expr::Variant((*l).into(), bx(lit(s, t))) }
        T::Seq(t) => { let n = s.below(4); Expr::Seq((0..n).map(|_| lit(s, t)).collect()) }
        T::Opt(t) => if s.bool() { Expr::LiftOption(None) } else { Expr::LiftOption(Some(bx(lit(s, t)))) },
    }
}
fn width(s: G) -> u32 { [8, 16, 32, 64][s.below(4)] }
/// pattern for type t, with the bindings it makes
pub fn pat(s: G, t: &T, out: &mut TEnv, d: u32) -> Pattern {
    let t = &near(s, t);
    if d == 0 || s.below(4) == 0 {
        return if s.bool() { Pattern::Wildcard } else {
            let n = NAMES[s.below(NAMES.len())];
            out.push((n.into(), t.clone()));
            Pattern::Binding(n.into())
        };
    }
    match t {
        T::Bool => Pattern::Bool(s.bool()),
        T::U(w) => match (s.below(4), w) {
            (0, _) => { let (a, b) = (s.u8() as usize, s.u16() as usize); Pattern::Int(if s.bool() { Bounds::new(a.min(b), a.max(b)) } else { Bounds::at_least(a) }) }
            (1, _) => Pattern::ZConst(s.u8().into()),
            (_, 8) => Pattern::U8(s.u8()),
            (_, 16) => Pattern::U16(s.u16()),
            (_, 32) => Pattern::U32(s.u32()),
            (_, 64) => Pattern::U64(s.u64()),
            _ => Pattern::Wildcard,
        },
        T::Char => Pattern::Char(s.u8() as char),
        T::Tup(ts) => Pattern::Tuple(ts.iter().map(|t| pat(s, t, out, d - 1)).collect()),
        T::Rec(_) => Pattern::Wildcard,
        T::Var(fs) => { let (l, t) = &fs[s.below(fs.len())]; Pattern::Variant((*l).into(), Box::new(pat(s, t, out, d - 1))) }
        T::Seq(t) if **t == T::U(0) => Pattern::Wildcard,
        T::Seq(t) => { let n = s.below(4); Pattern::Seq((0..n).map(|_| pat(s, t, out, d - 1)).collect()) }
        T::Opt(t) => if s.bool() { Pattern::Option(None) } else { Pattern::Option(Some(Box::new(pat(s, t, out, d - 1)))) },
    }
}
fn name(s: G) -> &'static str { NAMES[s.below(NAMES.len())] }
pub fn arith(s: G) -> Arith {
    [Arith::Add, Arith::Sub, Arith::Mul, Arith::Div, Arith::Rem, Arith::BitAnd, Arith::BitOr, Arith::Shl, Arith::Shr][s.below(9)]
}
pub fn rel(s: G) -> IntRel { [IntRel::Eq, IntRel::Ne, IntRel::Lt, IntRel::Gt, IntRel::Lte, IntRel::Gte][s.below(6)] }

thread_local! { static WILD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// run `f` with generators that now and then put a term of another type than asked for
pub fn wildly<X>(f: impl FnOnce() -> X) -> X {
    WILD.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    WILD.set(false);
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}
/// t, or (rarely, when generating wildly) a type near it
pub fn near(s: G, t: &T) -> T {
    if !WILD.get() || s.below(12) != 0 { return t.clone(); }
    off(s, t)
}
fn off(s: G, t: &T) -> T {
    if s.below(6) == 0 { return ty(s, 1); }
    match t {
        T::Bool | T::Char => T::U(8),
        T::U(_) => if s.below(6) == 0 { T::Bool } else { T::U([8, 16, 32, 64][s.below(4)]) },
        T::Tup(ts) => { let mut ts = ts.clone(); match s.below(3) { 0 => ts.push(T::U(8)), 1 => { ts.pop(); } _ => if !ts.is_empty() { let i = s.below(ts.len()); ts[i] = off(s, &ts[i]); } } T::Tup(ts) }
        T::Rec(fs) => { let mut fs = fs.clone(); let i = s.below(fs.len()); match s.below(5) { 0 => fs.push(("w", T::U(8))), 1 if fs.len() > 1 => { fs.pop(); } 2 => fs.reverse(), 3 => fs[i].0 = "w", _ => fs[i].1 = off(s, &fs[i].1) } T::Rec(fs) }
        T::Var(fs) => { let mut fs = fs.clone(); let i = s.below(fs.len()); match s.below(3) { 0 => fs.push(("w", T::U(8))), 1 => fs[i].0 = "w", _ => fs[i].1 = off(s, &fs[i].1) } T::Var(fs) }
        T::Seq(t) => if s.below(4) == 0 { T::Opt(t.clone()) } else { T::Seq(Box::new(off(s, t))) },
        T::Opt(t) => if s.below(4) == 0 { (**t).clone() } else { T::Opt(Box::new(off(s, t))) },
    }
}

pub fn expr(s: G, t: &T, env: &TEnv, d: u32) -> Expr {
    let t = &near(s, t);
    let vs = vars(env, t);
    if !vs.is_empty() && s.below(3) == 0 { return Expr::Var(vs[s.below(vs.len())].to_string().into()); }
    if d == 0 { return lit(s, t); }
    let d1 = d - 1;
    if s.below(3) == 0 {
        // constructors available at every type
        return match s.below(7) {
            0 => {
                let n = 1 + s.below(3);
                let i = s.below(n);
                let ts: Vec<T> = (0..n).map(|j| if j == i { t.clone() } else { ty(s, 1) }).collect();
                Expr::TupleProj(bx(expr(s, &T::Tup(ts), env, d1)), i)
            }
            1 => {
                let n = 1 + s.below(3);
                let i = s.below(n);
                let ts: Vec<_> = (0..n).map(|j| (LABELS[j], if j == i { t.clone() } else { ty(s, 1) })).collect();
                Expr::RecordProj(bx(expr(s, &T::Rec(ts), env, d1)), LABELS[i].into())
            }
            2 => {
                let h = ty(s, 2);
                let head = expr(s, &h, env, d1);
                let n = 1 + s.below(3);
                let mut bs: Vec<_> = (0..n).map(|_| {
                    let mut e2 = env.clone();
                    let p = pat(s, &h, &mut e2, 2);
                    (p, expr(s, t, &e2, d1))
                }).collect();
                if s.below(8) != 0 { bs.push((Pattern::Wildcard, expr(s, t, env, d1))); }
                Expr::Match(bx(head), bs)
            }
            3 => {
                let h = ty(s, 2);
                let head = expr(s, &h, env, d1);
                let mut e2 = env.clone();
                let p = match &h {
                    T::Tup(ts) if s.bool() => Pattern::Tuple(ts.iter().map(|t| { let n = name(s); e2.push((n.into(), t.clone())); Pattern::Binding(n.into()) }).collect()),
                    _ => { let n = name(s); e2.push((n.into(), h.clone())); Pattern::Binding(n.into()) }
                };
                Expr::Destructure(bx(head), p, bx(expr(s, t, &e2, d1)))
            }
            4 | 5 => Expr::SeqIx(bx(expr(s, &T::Seq(Box::new(t.clone())), env, d1)), bx(if s.below(3) > 0 { Expr::U32(s.below(2) as u32) } else { small(s, env, d1) })),
            _ => {
                let et = if s.below(4) == 0 { T::U(0) } else { ty(s, 1) };
                let xs = expr(s, &T::Seq(Box::new(et.clone())), env, d1);
                let acc = expr(s, t, env, d1);
                let n = name(s);
                let b = expr(s, t, &with(env, n, T::Tup(vec![t.clone(), et])), d1);
                Expr::LeftFold(bx(Expr::Lambda(n.into(), bx(b))), bx(acc), hint(t), bx(xs))
            }
        };
    }
    match t {
        T::Bool => match s.below(4) {
            0 | 1 => { let w = if s.below(8) == 0 { 0 } else { width(s) }; Expr::IntRel(rel(s), bx(expr(s, &T::U(w), env, d1)), bx(expr(s, &T::U(w), env, d1))) }
            2 => Expr::Arith(if s.bool() { Arith::BoolAnd } else { Arith::BoolOr }, bx(expr(s, t, env, d1)), bx(expr(s, t, env, d1))),
            _ => Expr::Unary(UnaryOp::BoolNot, bx(expr(s, t, env, d1))),
        },
        T::U(0) => lit(s, t),
        T::U(w) => match s.below(8) {
            0..=2 => {
                let o = arith(s);
                let y = if matches!(o, Arith::Shl | Arith::Shr) && s.below(4) > 0 { let k = s.below(*w as usize + 2) as u8; match w { 8 => Expr::U8(k), 16 => Expr::U16(k.into()), 32 => Expr::U32(k.into()), _ => Expr::U64(k.into()) } } else { expr(s, t, env, d1) };
                Expr::Arith(o, bx(expr(s, t, env, d1)), bx(y))
            }
            3 => Expr::Unary(if s.bool() { UnaryOp::IntSucc } else { UnaryOp::IntPred }, bx(expr(s, t, env, d1))),
            4 | 5 => {
                let v = if s.below(8) == 0 { 0 } else { width(s) };
                let x = bx(expr(s, &T::U(v), env, d1));
                match w { 8 => Expr::AsU8(x), 16 => Expr::AsU16(x), 32 => Expr::AsU32(x), _ => Expr::AsU64(x) }
            }
            _ if *w == 8 => lit(s, t),
            6 => {
                let x = bx(expr(s, &T::Tup(vec![T::U(8); *w as usize / 8]), env, d1));
                match (w, s.bool()) { (16, true) => Expr::U16Be(x), (16, _) => Expr::U16Le(x), (32, true) => Expr::U32Be(x), (32, _) => Expr::U32Le(x), (_, true) => Expr::U64Be(x), _ => Expr::U64Le(x) }
            }
            _ if *w == 32 => { let et = ty(s, 1); Expr::SeqLength(bx(expr(s, &T::Seq(Box::new(et)), env, d1))) }
            _ => lit(s, t),
        },
        T::Char => { let w = width(s); Expr::AsChar(bx(expr(s, &T::U(w), env, d1))) }
        T::Tup(ts) => Expr::Tuple(ts.iter().map(|t| expr(s, t, env, d1)).collect()),
        T::Rec(fs) => Expr::Record(fs.iter().map(|(l, t)| ((*l).into(), expr(s, t, env, d1))).collect()),
        T::Var(fs) => { let (l, t) = &fs[s.below(fs.len())]; Expr::Variant((*l).into(), bx(expr(s, t, env, d1))) }
        T::Opt(et) => match s.below(4) {
            0 => Expr::LiftOption(None),
            1 => Expr::LiftOption(Some(bx(expr(s, et, env, d1)))),
            _ => {
                let w = width(s);
                let n = name(s);
                let xs = expr(s, &T::Seq(et.clone()), env, d1);
                let k = match &**et {
                    T::U(v) if *v == w => Expr::Var(n.into()),
                    T::Tup(ts) if ts.contains(&T::U(w)) => Expr::TupleProj(bx(Expr::Var(n.into())), ts.iter().position(|t| *t == T::U(w)).unwrap()),
                    _ => lit(s, &T::U(w)),
                };
                Expr::FindByKey(s.below(4) == 0, bx(Expr::Lambda(n.into(), bx(k))), bx(expr(s, &T::U(w), env, d1)), bx(xs))
            }
        },
        T::Seq(et) => match s.below(if **et == T::U(0) { 4 } else { 12 }) {
            0 if **et == T::U(0) => { let a = s.below(5) as u32; let b = s.below(8) as u32; Expr::EnumFromTo(bx(Expr::U32(a)), bx(Expr::U32(b))) }
            0 => lit(s, t),
            1 => Expr::SubSeq(bx(expr(s, t, env, d1)), bx(small(s, env, d1)), bx(small(s, env, d1))),
            2 => Expr::Append(bx(expr(s, t, env, d1)), bx(expr(s, t, env, d1))),
            3 => Expr::SubSeqInflate(bx(expr(s, t, env, d1)), bx(Expr::U32(s.below(4) as u32)), bx(Expr::U32(s.below(7) as u32))),
            4 | 5 => Expr::Dup(bx(Expr::U32(s.below(5) as u32)), bx(expr(s, et, env, d1))),
            6 => { let n = s.below(4); Expr::Seq((0..n).map(|_| expr(s, et, env, d1)).collect()) }
            7 | 8 => {
                let et2 = if s.below(4) == 0 { T::U(0) } else { ty(s, 1) };
                let xs = expr(s, &T::Seq(Box::new(et2.clone())), env, d1);
                let n = name(s);
                Expr::FlatMap(bx(Expr::Lambda(n.into(), bx(expr(s, t, &with(env, n, et2), d1)))), bx(xs))
            }
            9 | 10 => {
                let et2 = if s.below(6) == 0 { T::U(0) } else { ty(s, 1) };
                let at = ty(s, 1);
                let xs = expr(s, &T::Seq(Box::new(et2.clone())), env, d1);
                let acc = expr(s, &at, env, d1);
                let n = name(s);
                let b = expr(s, &T::Tup(vec![at.clone(), t.clone()]), &with(env, n, T::Tup(vec![at.clone(), et2])), d1);
                Expr::FlatMapAccum(bx(Expr::Lambda(n.into(), bx(b))), bx(acc), hint(&at), bx(xs))
            }
            _ => {
                let et2 = if s.below(6) == 0 { T::U(0) } else { ty(s, 1) };
                let xs = expr(s, &T::Seq(Box::new(et2.clone())), env, d1);
                let n = name(s);
                let b = expr(s, t, &with(env, n, T::Tup(vec![t.clone(), et2])), d1);
                Expr::FlatMapList(bx(Expr::Lambda(n.into(), bx(b))), hint(et), bx(xs))
            }
        },
    }
}
