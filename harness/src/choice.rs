//! Contracts on lookahead: formats whose choices have one successful reading decode it.
use crate::contracts;
#[cfg(not(kani))]
use crate::interp::judge;

contracts! {
    #[native] unwind 1 fn choice_small(s) { return judge(s, true, false, 2, false) }
    #[native] unwind 1 fn choice_deep(s) { return judge(s, true, false, 4, false) }
}
