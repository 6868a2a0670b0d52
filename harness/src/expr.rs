//! Contracts on expression evaluation.
//!
//! `Expr::eval` is verified arm by arm under Kani with the recursive call `Expr::eval_value`
//! replaced by its contract (an operand evaluates to the value it denotes); whole expressions are
//! executed against the reference semantics `refsem`.
#[cfg(not(kani))]
use crate::genexpr::{self, T};
#[cfg(not(kani))]
use crate::refsem::{self, N};
#[cfg(not(kani))]
use crate::src::{Out, Src};
use crate::contracts;
#[cfg(not(kani))]
use doodle::decoder::Scope;
#[cfg(not(kani))]
use doodle::loc_decoder::LocScope;
#[cfg(not(kani))]
use doodle::Expr;
#[cfg(not(kani))]
use std::panic::{AssertUnwindSafe, catch_unwind};

#[cfg(not(kani))]
pub fn src<S: Src + ?Sized>(s: &mut S) -> crate::src::Fwd<'_, S> { crate::src::Fwd(s) }

#[cfg(not(kani))]
/// evaluate natively; None = refused
pub fn real(e: &Expr) -> Option<N> {
    catch_unwind(AssertUnwindSafe(|| refsem::norm(&e.eval_value(&Scope::Empty)))).ok()
}
#[cfg(not(kani))]
pub fn real_loc(e: &Expr) -> Option<N> {
    catch_unwind(AssertUnwindSafe(|| refsem::norm(&e.eval_value_with_loc(&LocScope::Empty)))).ok()
}
#[cfg(not(kani))]
pub fn judge<S: Src + ?Sized>(s: &mut S, depth: u32, t: Option<T>) -> Out {
    let mut f = src(s);
    let t = match t { Some(t) => t, None => genexpr::ty(&mut f, 2) };
    let e = genexpr::expr(&mut f, &t, &vec![], depth);
    compare(&e)
}
#[cfg(not(kani))]
pub fn compare(e: &Expr) -> Out {
    let cx = refsem::Ctx::default();
    let want = cx.ev(e, &None);
    if cx.fuel.get() != 0 { return Out::Skip; }
    for (got, who) in [(real(e), "interpreter"), (real_loc(e), "location-tracking interpreter")] {
        match (&want, got) {
            (Ok(w), Some(g)) => assert!(*w == g, "ENSURES {who} evaluates to the reference value: {e:?} gives {g:?}, expected {w:?}"),
            (Ok(w), None) => assert!(cx.may_refuse.get(), "ENSURES {who} does not refuse {e:?}, expected {w:?}"),
            (Err(_), Some(g)) => panic!("ENSURES {who} refuses {e:?}, but it gave {g:?}"),
            (Err(_), None) => {}
        }
    }
    Out::Done
}

contracts! {
    #[native] unwind 1 fn expr_shallow(s) { return judge(s, 2, None) }
    #[native] unwind 1 fn expr_deep(s) { return judge(s, 4, None) }
    #[native] unwind 1 fn expr_int(s) { let w = [8, 16, 32, 64][s.below(4)]; return judge(s, 3, Some(T::U(w))) }
}
