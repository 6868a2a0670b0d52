//! Reference semantics of the expression language: values are plain mathematical data (`N`),
//! evaluation is a total function into `Result` (Err = the operation must be refused).
//! Written from the documentation of the constructors, not from the evaluator.
use doodle::decoder::{SeqKind, Value};
use doodle::{Arith, Expr, IntRel, Pattern, UnaryOp};
use num_bigint::BigInt;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum N {
    Bool(bool),
    /// width in bits (0: an index, which has no width of its own) and value
    Int(u32, u64),
    /// arbitrary-precision result of a numeric expression
    Big(BigInt),
    Char(char),
    Tup(Vec<N>),
    Rec(Vec<(String, N)>),
    Var(String, Rc<N>),
    /// elements, and whether the sequence is known to be held as an integer range
    Seq(Rc<Vec<N>>, bool),
    Opt(Option<Rc<N>>),
    View(usize),
    Phantom,
    /// value of a `Permit` whose inner format failed
    Fallback(Option<Rc<N>>),
}
impl PartialEq for N {
    fn eq(&self, o: &N) -> bool {
        match (self, o) {
            (N::Bool(a), N::Bool(b)) => a == b,
            (N::Int(w, a), N::Int(v, b)) => a == b && (w == v || *w == 0 || *v == 0),
            (N::Big(a), N::Big(b)) => a == b,
            (N::Char(a), N::Char(b)) => a == b,
            (N::Tup(a), N::Tup(b)) => a == b,
            (N::Rec(a), N::Rec(b)) => a == b,
            (N::Var(l, a), N::Var(m, b)) => l == m && a == b,
            (N::Seq(a, _), N::Seq(b, _)) => a == b,
            (N::Opt(a), N::Opt(b)) => a == b,
            (N::View(a), N::View(b)) => a == b,
            (N::Phantom, N::Phantom) => true,
            (N::Fallback(a), N::Fallback(b)) => a == b,
            _ => false,
        }
    }
}
pub fn int(w: u32, v: u64) -> N { N::Int(w, v) }
pub fn seq(v: Vec<N>) -> N { N::Seq(Rc::new(v), false) }

/// abstraction function: the nominal value denoted by an interpreter value
pub fn norm(v: &Value) -> N {
    match v {
        Value::Bool(b) => N::Bool(*b),
        Value::U8(x) => N::Int(8, *x as u64),
        Value::U16(x) => N::Int(16, *x as u64),
        Value::U32(x) => N::Int(32, *x as u64),
        Value::U64(x) => N::Int(64, *x),
        Value::Usize(x) => N::Int(0, *x as u64),
        Value::Char(c) => N::Char(*c),
        Value::Numeric(t) => N::Big(t.as_raw_value().clone()),
        Value::View { offset } => N::View(*offset),
        Value::PhantomData => N::Phantom,
        Value::EnumFromTo(r) => N::Seq(Rc::new(r.clone().map(|i| N::Int(0, i as u64)).collect()), true),
        Value::Option(o) => N::Opt(o.as_ref().map(|x| Rc::new(norm(x)))),
        Value::Tuple(vs) => N::Tup(vs.iter().map(norm).collect()),
        Value::Record(fs) => N::Rec(fs.iter().map(|(l, v)| (l.to_string(), norm(v))).collect()),
        Value::Variant(l, v) => N::Var(l.to_string(), Rc::new(norm(v))),
        Value::Seq(SeqKind::Strict(vs)) => seq(vs.iter().map(norm).collect()),
        Value::Seq(SeqKind::Dup(n, v)) => seq(vec![norm(v); *n]),
        Value::Mapped(_, v) => norm(v),
        Value::Branch(_, v) => norm(v),
        Value::Permit(Ok(v)) => norm(v),
        Value::Permit(Err(o)) => N::Fallback(o.as_ref().map(|x| Rc::new(norm(x)))),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Refused;
pub type R = Result<N, Refused>;
pub type Env = Option<Rc<Bind>>;
pub struct Bind {
    pub name: String,
    pub val: N,
    pub up: Env,
}
pub fn bind(env: &Env, name: &str, val: N) -> Env {
    Some(Rc::new(Bind { name: name.to_string(), val, up: env.clone() }))
}
pub fn lookup(env: &Env, name: &str) -> Option<N> {
    let mut e = env;
    while let Some(b) = e {
        if b.name == name { return Some(b.val.clone()); }
        e = &b.up;
    }
    None
}

/// evaluator state: set when a range-held sequence meets an operation that may decline ranges
#[derive(Default)]
pub struct Ctx { pub may_refuse: Cell<bool>, pub fuel: Cell<u32> }

pub fn max_of(w: u32) -> u64 { if w == 0 || w == 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn fits(w: u32, v: u128) -> R { if v <= max_of(w) as u128 { Ok(int(w, v as u64)) } else { Err(Refused) } }

pub fn matches(p: &Pattern, v: &N, env: &mut Env) -> bool {
    let v = &nominal(v);
    matches_in(p, v, env)
}
/// a fallback value stands for what it carries when matched against
fn nominal(v: &N) -> N { match v { N::Fallback(Some(x)) => nominal(x), v => v.clone() } }
fn matches_in(p: &Pattern, v: &N, env: &mut Env) -> bool {
    match (p, v) {
        (Pattern::Wildcard, _) => true,
        (Pattern::Binding(n), v) => { *env = bind(env, n, v.clone()); true }
        (Pattern::Bool(a), N::Bool(b)) => a == b,
        (Pattern::U8(a), N::Int(8, b)) => *a as u64 == *b,
        (Pattern::U16(a), N::Int(16, b)) => *a as u64 == *b,
        (Pattern::U32(a), N::Int(32, b)) => *a as u64 == *b,
        (Pattern::U64(a), N::Int(64, b)) => *a == *b,
        (Pattern::Int(bs), N::Int(_, b)) => bs.min() as u64 <= *b && bs.max().is_none_or(|m| *b <= m as u64),
        (Pattern::ZConst(z), N::Int(_, b)) => z == &BigInt::from(*b),
        (Pattern::Char(a), N::Char(b)) => a == b,
        (Pattern::Tuple(ps), N::Tup(vs)) => ps.len() == vs.len() && ps.iter().zip(vs).all(|(p, v)| matches(p, v, env)),
        (Pattern::Seq(ps), N::Seq(vs, _)) => ps.len() == vs.len() && ps.iter().zip(vs.iter()).all(|(p, v)| matches(p, v, env)),
        (Pattern::Variant(l, p), N::Var(m, v)) => l == m && matches(p, v, env),
        (Pattern::Option(None), N::Opt(None)) => true,
        (Pattern::Option(Some(p)), N::Opt(Some(v))) => matches(p, v, env),
        _ => false,
    }
}

impl Ctx {
    pub fn num(&self, e: &Expr, env: &Env) -> Result<u64, Refused> {
        match self.ev(e, env)? { N::Int(_, v) => Ok(v), _ => Err(Refused) }
    }
    fn list(&self, e: &Expr, env: &Env) -> Result<(Rc<Vec<N>>, bool), Refused> {
        match self.ev(e, env)? { N::Seq(v, r) => Ok((v, r)), _ => Err(Refused) }
    }
    pub fn apply(&self, f: &Expr, arg: N, env: &Env) -> R {
        match f { Expr::Lambda(n, b) => self.ev(b, &bind(env, n, arg)), _ => Err(Refused) }
    }
    fn bytes(&self, e: &Expr, env: &Env, n: usize) -> Result<Vec<u64>, Refused> {
        match self.ev(e, env)? {
            N::Tup(vs) if vs.len() == n => vs.iter().map(|v| match v { N::Int(8, b) => Ok(*b), _ => Err(Refused) }).collect(),
            _ => Err(Refused),
        }
    }
    fn cast(&self, e: &Expr, env: &Env, w: u32) -> R {
        match self.ev(e, env)? { N::Int(_, v) => fits(w, v as u128), _ => Err(Refused) }
    }
    fn declines_range(&self, r: bool) { if r { self.may_refuse.set(true) } }

    pub fn ev(&self, e: &Expr, env: &Env) -> R {
        Ok(match e {
            Expr::Var(n) => lookup(env, n).ok_or(Refused)?,
            Expr::Bool(b) => N::Bool(*b),
            Expr::U8(x) => int(8, *x as u64),
            Expr::U16(x) => int(16, *x as u64),
            Expr::U32(x) => int(32, *x as u64),
            Expr::U64(x) => int(64, *x),
            Expr::Tuple(es) => N::Tup(es.iter().map(|e| self.ev(e, env)).collect::<Result<_, _>>()?),
            Expr::Record(fs) => N::Rec(fs.iter().map(|(l, e)| Ok((l.to_string(), self.ev(e, env)?))).collect::<Result<_, Refused>>()?),
            Expr::Seq(es) => seq(es.iter().map(|e| self.ev(e, env)).collect::<Result<_, _>>()?),
            Expr::Variant(l, e) => N::Var(l.to_string(), Rc::new(self.ev(e, env)?)),
            Expr::LiftOption(None) => N::Opt(None),
            Expr::LiftOption(Some(e)) => N::Opt(Some(Rc::new(self.ev(e, env)?))),
            Expr::TupleProj(h, i) => match self.ev(h, env)? { N::Tup(vs) => vs.get(*i).cloned().ok_or(Refused)?, N::Fallback(_) => N::Fallback(None), _ => return Err(Refused) },
            Expr::RecordProj(h, l) => match self.ev(h, env)? {
                N::Rec(fs) => fs.iter().find(|(m, _)| m == l).map(|(_, v)| v.clone()).ok_or(Refused)?,
                N::Fallback(_) => N::Fallback(None),
                _ => return Err(Refused),
            },
            Expr::Match(h, bs) => {
                let v = self.ev(h, env)?;
                for (p, b) in bs {
                    let mut e2 = env.clone();
                    if matches(p, &v, &mut e2) { return self.ev(b, &e2); }
                }
                return Err(Refused);
            }
            Expr::Destructure(h, p, b) => {
                let v = self.ev(h, env)?;
                let mut e2 = env.clone();
                if matches(p, &v, &mut e2) { return self.ev(b, &e2); }
                return Err(Refused);
            }
            Expr::Lambda(..) => return Err(Refused),
            Expr::IntRel(r, x, y) => match (self.ev(x, env)?, self.ev(y, env)?) {
                (N::Int(w, a), N::Int(v, b)) if w == v => N::Bool(match r {
                    IntRel::Eq => a == b, IntRel::Ne => a != b, IntRel::Lt => a < b,
                    IntRel::Gt => a > b, IntRel::Lte => a <= b, IntRel::Gte => a >= b,
                }),
                _ => return Err(Refused),
            },
            Expr::Arith(o, x, y) => match (o, self.ev(x, env)?, self.ev(y, env)?) {
                (Arith::BoolAnd, N::Bool(a), N::Bool(b)) => N::Bool(a && b),
                (Arith::BoolOr, N::Bool(a), N::Bool(b)) => N::Bool(a || b),
                (o, N::Int(w, a), N::Int(v, b)) if w == v => {
                    let (a, b) = (a as u128, b as u128);
                    let bits = if w == 0 { 64 } else { w } as u128;
                    match o {
                        Arith::Add => fits(w, a + b)?,
                        Arith::Sub => fits(w, a.checked_sub(b).ok_or(Refused)?)?,
                        Arith::Mul => fits(w, a * b)?,
                        Arith::Div => fits(w, a.checked_div(b).ok_or(Refused)?)?,
                        Arith::Rem => fits(w, a.checked_rem(b).ok_or(Refused)?)?,
                        Arith::BitAnd => fits(w, a & b)?,
                        Arith::BitOr => fits(w, a | b)?,
                        // machine shift: bits leaving the word are lost, the amount is below the width
                        Arith::Shl if b < bits => int(w, (a << b) as u64 & max_of(w)),
                        Arith::Shr if b < bits => int(w, (a >> b) as u64),
                        _ => return Err(Refused),
                    }
                }
                _ => return Err(Refused),
            },
            Expr::Unary(o, x) => match (o, self.ev(x, env)?) {
                (UnaryOp::BoolNot, N::Bool(b)) => N::Bool(!b),
                (UnaryOp::IntSucc, N::Int(w, a)) => fits(w, a as u128 + 1)?,
                (UnaryOp::IntPred, N::Int(w, a)) => fits(w, (a as u128).checked_sub(1).ok_or(Refused)?)?,
                _ => return Err(Refused),
            },
            Expr::AsU8(x) => self.cast(x, env, 8)?,
            Expr::AsU16(x) => self.cast(x, env, 16)?,
            Expr::AsU32(x) => self.cast(x, env, 32)?,
            Expr::AsU64(x) => self.cast(x, env, 64)?,
            Expr::AsChar(x) => match self.ev(x, env)? {
                N::Int(_, v) => N::Char(char::from_u32(u32::try_from(v).map_err(|_| Refused)?).unwrap_or('\u{FFFD}')),
                _ => return Err(Refused),
            },
            Expr::U16Be(x) => int(16, self.bytes(x, env, 2)?.iter().fold(0, |a, b| a * 256 + b)),
            Expr::U32Be(x) => int(32, self.bytes(x, env, 4)?.iter().fold(0, |a, b| a * 256 + b)),
            Expr::U64Be(x) => int(64, self.bytes(x, env, 8)?.iter().fold(0, |a, b| a * 256 + b)),
            Expr::U16Le(x) => int(16, self.bytes(x, env, 2)?.iter().rev().fold(0, |a, b| a * 256 + b)),
            Expr::U32Le(x) => int(32, self.bytes(x, env, 4)?.iter().rev().fold(0, |a, b| a * 256 + b)),
            Expr::U64Le(x) => int(64, self.bytes(x, env, 8)?.iter().rev().fold(0, |a, b| a * 256 + b)),
            Expr::SeqLength(x) => int(32, self.list(x, env)?.0.len() as u64),
            Expr::SeqIx(x, i) => {
                let v = self.list(x, env)?.0;
                let i = self.num(i, env)?;
                usize::try_from(i).ok().and_then(|i| v.get(i)).cloned().ok_or(Refused)?
            }
            Expr::SubSeq(x, a, l) => {
                let (v, r) = self.list(x, env)?;
                let (a, l) = (self.num(a, env)? as u128, self.num(l, env)? as u128);
                if a + l > v.len() as u128 { return Err(Refused); }
                N::Seq(Rc::new(v[a as usize..(a + l) as usize].to_vec()), r)
            }
            Expr::SubSeqInflate(x, a, l) => {
                let v = self.list(x, env)?.0;
                let (a, l) = (self.num(a, env)? as u128, self.num(l, env)?);
                let mut out: Vec<N> = Vec::new();
                for i in 0..l as u128 {
                    let j = a + i;
                    let n = if j < v.len() as u128 { v[j as usize].clone() } else { out.get((j - v.len() as u128) as usize).cloned().ok_or(Refused)? };
                    out.push(n);
                }
                seq(out)
            }
            Expr::Append(x, y) => {
                let ((a, r), (b, q)) = (self.list(x, env)?, self.list(y, env)?);
                if !a.is_empty() && !b.is_empty() { self.declines_range(r || q); }
                let range = (a.is_empty() && q) || (b.is_empty() && r);
                N::Seq(Rc::new(a.iter().chain(b.iter()).cloned().collect()), range)
            }
            Expr::FlatMap(f, x) => {
                let mut out = Vec::new();
                for v in self.list(x, env)?.0.iter() {
                    match self.apply(f, v.clone(), env)? { N::Seq(vs, _) => out.extend(vs.iter().cloned()), _ => return Err(Refused) }
                }
                seq(out)
            }
            Expr::FlatMapAccum(f, a, _, x) => {
                let (xs, r) = self.list(x, env)?;
                self.declines_range(r);
                let mut acc = self.ev(a, env)?;
                let mut out = Vec::new();
                for v in xs.iter() {
                    match self.apply(f, N::Tup(vec![acc, v.clone()]), env)? {
                        N::Tup(mut ab) if ab.len() == 2 => {
                            let N::Seq(vs, r) = ab.pop().unwrap() else { return Err(Refused) };
                            self.declines_range(r);
                            acc = ab.pop().unwrap();
                            out.extend(vs.iter().cloned());
                        }
                        _ => return Err(Refused),
                    }
                }
                seq(out)
            }
            Expr::FlatMapList(f, _, x) => {
                let (xs, r) = self.list(x, env)?;
                self.declines_range(r);
                let mut out: Vec<N> = Vec::new();
                for v in xs.iter() {
                    match self.apply(f, N::Tup(vec![seq(out.clone()), v.clone()]), env)? {
                        N::Seq(vs, r) => { self.declines_range(r); out.extend(vs.iter().cloned()) }
                        _ => return Err(Refused),
                    }
                }
                seq(out)
            }
            Expr::LeftFold(f, a, _, x) => {
                let (xs, r) = self.list(x, env)?;
                self.declines_range(r);
                let mut acc = self.ev(a, env)?;
                for v in xs.iter() { acc = self.apply(f, N::Tup(vec![acc, v.clone()]), env)?; }
                acc
            }
            Expr::FindByKey(sorted, f, q, x) => {
                let (xs, r) = self.list(x, env)?;
                self.declines_range(r);
                let N::Int(_, q) = self.ev(q, env)? else { return Err(Refused) };
                let mut hits = Vec::new();
                let mut last: Option<u64> = None;
                let mut ordered = true;
                for v in xs.iter() {
                    let N::Int(_, k) = self.apply(f, v.clone(), env)? else { return Err(Refused) };
                    if last.is_some_and(|l| l > k) { ordered = false; }
                    last = Some(k);
                    if k == q { hits.push(v.clone()); }
                }
                if *sorted && !ordered { self.may_refuse.set(true); self.fuel.set(u32::MAX); }
                if *sorted && hits.windows(2).any(|w| w[0] != w[1]) { self.fuel.set(u32::MAX); }
                N::Opt(hits.first().map(|v| Rc::new(v.clone())))
            }
            Expr::EnumFromTo(a, b) => {
                let (a, b) = (self.num(a, env)?, self.num(b, env)?);
                N::Seq(Rc::new((a..b).map(|i| int(0, i)).collect()), true)
            }
            Expr::Dup(n, x) => {
                let n = self.num(n, env)?;
                let v = self.ev(x, env)?;
                seq(vec![v; n as usize])
            }
            Expr::Numeric(_) => return Err(Refused),
        })
    }
}
