//! Contracts on size estimates: `Format::match_bounds`, `Format::is_nullable` and `Expr::bounds`
//! cover everything the reference semantics allows.
use crate::contracts;
#[cfg(not(kani))]
use crate::{expr::src, genexpr::{self, T}, interp::{case, inputs}, reffmt::{FEnv, Inp, Rf}, refsem::{self, N}, src::{Out, Src}};
#[cfg(not(kani))]
use doodle::verif;
#[cfg(not(kani))]
use std::rc::Rc;

#[cfg(not(kani))]
fn format<S: Src + ?Sized>(s: &mut S, exact: bool, d: u32) -> Out {
    let Some(c) = case(s, exact, !exact, d) else { return Out::Skip };
    let b = verif::match_bounds(&c.f, &c.module);
    let nul = verif::is_nullable(&c.f, &c.module);
    let mut any = false;
    for i in inputs(s, 3) {
        let mut rf = Rf::new(&c.items);
        let Ok(ps) = rf.parse(&c.f, &FEnv::default(), &Inp { buf: Rc::new(i.clone()), off: 0, end: i.len() }) else { continue };
        if rf.cx.fuel.get() != 0 { continue; }
        for p in &ps {
            any = true;
            assert!(b.contains(p.off), "ENSURES the bytes consumed are within the estimate: {} consumed of {i:?}, estimate {b:?}, {}", p.off, c.show());
            assert!(nul || p.off > 0, "ENSURES a format that can match nothing is nullable: {i:?} {}", c.show());
        }
    }
    if any { Out::Done } else { Out::Skip }
}
#[cfg(not(kani))]
fn value<S: Src + ?Sized>(s: &mut S, d: u32) -> Out {
    let w = [8, 16, 32, 64][s.below(4)];
    let e = genexpr::expr(&mut src(s), &T::U(w), &vec![], d);
    let cx = refsem::Ctx::default();
    let want = cx.ev(&e, &None);
    if cx.fuel.get() != 0 { return Out::Skip; }
    let Ok(N::Int(_, v)) = want else { return Out::Skip };
    let b = verif::expr_bounds(&e);
    assert!(b.contains(v as usize), "ENSURES the value is within the estimate: {v} not in {b:?} for {e:?}");
    Out::Done
}

contracts! {
    #[native] unwind 1 fn format_small(s) { return format(s, false, 2) }
    #[native] unwind 1 fn format_deep(s) { return format(s, false, 4) }
    #[native] unwind 1 fn format_choice(s) { return format(s, true, 3) }
    #[native] unwind 1 fn value_small(s) { return value(s, 1) }
    #[native] unwind 1 fn value_deep(s) { return value(s, 3) }
}
