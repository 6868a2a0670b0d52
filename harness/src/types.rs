//! Contracts on type inference: a value that evaluation or decoding yields belongs to the type
//! that `Expr::infer_type`, `FormatModule` or the unification type checker inferred for it.
use crate::contracts;
#[cfg(not(kani))]
use crate::{expr::src, genexpr, interp::{Run, case, compile, inputs, run}, reffmt::{FEnv, Inp, Rf}, refsem::{self, N}, src::{Out, Src}};
#[cfg(not(kani))]
use doodle::{BaseType, ValueType, verif};
#[cfg(not(kani))]
use std::rc::Rc;
#[cfg(not(kani))]
use std::panic::{AssertUnwindSafe, catch_unwind};

#[cfg(not(kani))]
pub fn belongs(n: &N, t: &ValueType) -> bool {
    match (n, t) {
        (_, ValueType::Any) => true,
        (N::Fallback(None), _) => true,
        (N::Fallback(Some(x)), t) => belongs(x, t),
        (N::Int(..) | N::Big(_), ValueType::NumericHole) => true,
        (N::Big(_), ValueType::Signed(_)) => true,
        (N::Big(b), ValueType::Base(t)) => { let w = width(*t); w > 0 && *b >= 0.into() && b.bits() <= w as u64 }
        (N::Bool(_), ValueType::Base(BaseType::Bool)) => true,
        (N::Char(_), ValueType::Base(BaseType::Char)) => true,
        (N::Int(w, v), ValueType::Base(t)) => width(*t) > 0 && (*w == width(*t) || *w == 0 && *v <= refsem::max_of(width(*t))),
        (N::View(_), ValueType::ViewObj) => true,
        (N::Phantom, ValueType::PhantomData(_)) => true,
        (N::Opt(o), ValueType::Option(t)) => o.as_ref().is_none_or(|x| belongs(x, t)),
        (N::Tup(vs), ValueType::Tuple(ts)) => vs.len() == ts.len() && vs.iter().zip(ts).all(|(v, t)| belongs(v, t)),
        (N::Rec(vs), ValueType::Record(ts)) => vs.len() == ts.len() && vs.iter().zip(ts).all(|((l, v), (m, t))| *l == **m && belongs(v, t)),
        (N::Var(l, v), ValueType::Union(ts)) => ts.iter().any(|(m, t)| *l == **m && belongs(v, t)),
        (N::Seq(vs, _), ValueType::Seq(t)) => vs.iter().all(|v| belongs(v, t)),
        _ => false,
    }
}
#[cfg(not(kani))]
fn width(t: BaseType) -> u32 { match t { BaseType::U8 => 8, BaseType::U16 => 16, BaseType::U32 => 32, BaseType::U64 => 64, _ => 0 } }

#[cfg(not(kani))]
fn expr<S: Src + ?Sized>(s: &mut S, d: u32) -> Out {
    let e = { let mut f = src(s); let t = genexpr::ty(&mut f, 2); genexpr::expr(&mut f, &t, &vec![], d) };
    let cx = refsem::Ctx::default();
    let want = cx.ev(&e, &None);
    if cx.fuel.get() != 0 { return Out::Skip; }
    let Ok(v) = want else { return Out::Skip };
    let Some(t) = catch_unwind(AssertUnwindSafe(|| verif::expr_type(&e))).ok().flatten() else { return Out::Skip };
    assert!(belongs(&v, &t), "ENSURES the value belongs to the inferred type: {v:?} : {t:?} for {e:?}");
    Out::Done
}
#[cfg(not(kani))]
/// forget the width of integers (the value must still fit the type)
fn unsized_(n: N) -> N {
    let f = |x: Rc<N>| Rc::new(unsized_((*x).clone()));
    match n {
        N::Int(_, v) => N::Int(0, v),
        N::Tup(v) => N::Tup(v.into_iter().map(unsized_).collect()),
        N::Rec(v) => N::Rec(v.into_iter().map(|(l, x)| (l, unsized_(x))).collect()),
        N::Seq(v, r) => N::Seq(Rc::new(v.iter().cloned().map(unsized_).collect()), r),
        N::Var(l, x) => N::Var(l, f(x)),
        N::Opt(x) => N::Opt(x.map(f)),
        N::Fallback(x) => N::Fallback(x.map(f)),
        n => n,
    }
}
#[cfg(not(kani))]
fn wild<S: Src + ?Sized>(s: &mut S) -> Out {
    let e = { let mut f = src(s); let t = genexpr::ty(&mut f, 2); genexpr::wildly(|| genexpr::expr(&mut f, &t, &vec![], 3)) };
    let Some(t) = catch_unwind(AssertUnwindSafe(|| verif::expr_type(&e))).ok().flatten() else { return Out::Skip };
    let cx = refsem::Ctx::default();
    let _ = cx.ev(&e, &None);
    if cx.fuel.get() != 0 { return Out::Skip; }
    let Some(v) = crate::expr::real(&e) else { return Out::Skip };
    assert!(belongs(&v, &t), "ENSURES the value belongs to the inferred type: {v:?} : {t:?} for {e:?}");
    Out::Done
}
#[cfg(not(kani))]
fn format<S: Src + ?Sized>(s: &mut S, d: u32, unify: bool, wild: bool) -> Out {
    let Some(c) = (if wild { genexpr::wildly(|| case(s, false, true, d)) } else { case(s, false, true, d) }) else { return Out::Skip };
    let t = if unify { catch_unwind(AssertUnwindSafe(|| doodle::typecheck(&c.module, &c.f).ok().flatten())).ok().flatten() } else { catch_unwind(AssertUnwindSafe(|| verif::format_type(&c.f, &c.module))).ok().flatten() };
    let Some(t) = t else { return Out::Skip };
    let Some(p) = compile(&c.module, &c.f) else { return Out::Skip };
    let mut any = false;
    for b in inputs(s, 2) {
        // inputs on which decoding is unreasonably long are left out
        let mut rf = Rf::new(&c.items);
        if rf.parse(&c.f, &FEnv::default(), &Inp { buf: Rc::new(b.clone()), off: 0, end: b.len() }).is_err() || rf.cx.fuel.get() != 0 { continue; }
        if let Run::Done(v, _) = run(&p, &b) {
            any = true;
            // in a format that is not well-typed, positions and lengths take whatever integer type their context asks for
            let v = if wild { unsized_(v) } else { v };
            assert!(belongs(&v, &t), "ENSURES the decoded value belongs to the inferred type: {v:?} : {t:?} for input {b:?} {}", c.show());
        }
    }
    if any { Out::Done } else { Out::Skip }
}

contracts! {
    #[native] unwind 1 fn expr_shallow(s) { return expr(s, 2) }
    #[native] unwind 1 fn expr_deep(s) { return expr(s, 4) }
    // terms that are not (all) well-typed: if a type is inferred anyway, the value belongs to it
    #[native] unwind 1 fn wild_expr(s) { return wild(s) }
    #[native] unwind 1 fn wild_format(s) { return format(s, 3, false, true) }
    #[native] unwind 1 fn wild_unify(s) { return format(s, 3, true, true) }
    #[native] unwind 1 fn format_shallow(s) { return format(s, 2, false, false) }
    #[native] unwind 1 fn format_deep(s) { return format(s, 4, false, false) }
    #[native] unwind 1 fn unify_shallow(s) { return format(s, 2, true, false) }
    #[native] unwind 1 fn unify_deep(s) { return format(s, 4, true, false) }
}
