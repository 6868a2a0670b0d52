//! Contracts on the interpreter: every result is a parse, nothing panics.
use crate::contracts;
#[cfg(not(kani))]
use crate::interp::judge;

contracts! {
    #[native] unwind 1 fn full_small(s) { return judge(s, false, true, 2, false) }
    #[native] unwind 1 fn full_deep(s) { return judge(s, false, true, 4, false) }
}
