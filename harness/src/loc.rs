//! Contracts on the location-tracking interpreter.
use crate::contracts;
#[cfg(not(kani))]
use crate::interp::judge;

contracts! {
    #[native] unwind 1 fn loc_small(s) { return judge(s, false, true, 2, true) }
    #[native] unwind 1 fn loc_deep(s) { return judge(s, false, true, 4, true) }
}
