//! Contracts on `doodle::decoder::Value` arithmetic, comparison and unary operators: machine
//! integers of one width, exact result or refusal (panic), never a wrapped value.
use crate::src::{Out, Src};
use crate::{contracts, ensures, reach, requires};
use doodle::decoder::Value;
use doodle::{Arith, IntRel, UnaryOp};

fn rel<S: Src + ?Sized>(s: &mut S) -> IntRel {
    match s.below(6) {
        0 => IntRel::Eq,
        1 => IntRel::Ne,
        2 => IntRel::Lt,
        3 => IntRel::Gt,
        4 => IntRel::Lte,
        _ => IntRel::Gte,
    }
}
macro_rules! width {
    ($m:ident, $t:ty, $V:ident, $draw:ident) => {
        pub mod $m {
            use super::*;
            /// mathematical result, when it exists in the width
            pub fn spec(o: Arith, l: $t, r: $t) -> Option<$t> {
                match o {
                    Arith::Add => l.checked_add(r),
                    Arith::Sub => l.checked_sub(r),
                    Arith::Mul => l.checked_mul(r),
                    Arith::Div => l.checked_div(r),
                    Arith::Rem => l.checked_rem(r),
                    Arith::Shl => if (r as u64) < <$t>::BITS as u64 { Some(l << (r as u32)) } else { None },
                    Arith::Shr => if (r as u64) < <$t>::BITS as u64 { Some(l >> (r as u32)) } else { None },
                    Arith::BitAnd => Some(l & r),
                    Arith::BitOr => Some(l | r),
                    _ => None,
                }
            }
            pub fn arith<S: Src + ?Sized>(s: &mut S, o: Arith) -> Out {
                let (l, r) = (s.$draw(), s.$draw());
                // division by its defining relation (a second divider circuit is beyond the SAT back end)
                if matches!(o, Arith::Div) {
                    requires!(s, r != 0);
                    let v = std::mem::ManuallyDrop::new(Value::arith(o, Value::$V(l), Value::$V(r)));
                    ensures!(matches!(&*v, Value::$V(q) if q.checked_mul(r).is_some_and(|m| m <= l && l - m < r)), "the result is the mathematical quotient, in the operands' width");
                    return Out::Done;
                }
                if !s.native() && matches!(o, Arith::Rem) { requires!(s, l as u64 <= 511 && r as u64 <= 511); }
                let want = spec(o, l, r);
                requires!(s, want.is_some());
                let v = std::mem::ManuallyDrop::new(Value::arith(o, Value::$V(l), Value::$V(r)));
                ensures!(matches!(&*v, Value::$V(x) if Some(*x) == want), "the result is the mathematical result, in the operands' width");
                Out::Done
            }
            pub fn arith_rejects<S: Src + ?Sized>(s: &mut S, o: Arith) -> Out {
                let (l, r) = (s.$draw(), s.$draw());
                requires!(s, spec(o, l, r).is_none());
                let _v = std::mem::ManuallyDrop::new(Value::arith(o, Value::$V(l), Value::$V(r)));
                Out::Done
            }
            pub fn cmp<S: Src + ?Sized>(s: &mut S) -> Out {
                let (o, l, r) = (rel(s), s.$draw(), s.$draw());
                let want = match o {
                    IntRel::Eq => l == r,
                    IntRel::Ne => !(l == r),
                    IntRel::Lt => l < r,
                    IntRel::Gt => r < l,
                    IntRel::Lte => !(r < l),
                    IntRel::Gte => !(l < r),
                };
                let v = std::mem::ManuallyDrop::new(Value::int_rel(o, Value::$V(l), Value::$V(r)));
                ensures!(matches!(&*v, Value::Bool(b) if *b == want), "comparison is the order of the integers");
                Out::Done
            }
            pub fn step<S: Src + ?Sized>(s: &mut S) -> Out {
                let (up, x) = (s.bool(), s.$draw());
                requires!(s, if up { x != <$t>::MAX } else { x != 0 });
                let v = std::mem::ManuallyDrop::new(Value::unary(if up { UnaryOp::IntSucc } else { UnaryOp::IntPred }, Value::$V(x)));
                ensures!(matches!(&*v, Value::$V(y) if if up { *y - 1 == x } else { *y + 1 == x }), "successor / predecessor");
                Out::Done
            }
            pub fn step_rejects<S: Src + ?Sized>(s: &mut S) -> Out {
                let up = s.bool();
                let _v = std::mem::ManuallyDrop::new(Value::unary(if up { UnaryOp::IntSucc } else { UnaryOp::IntPred }, Value::$V(if up { <$t>::MAX } else { 0 })));
                Out::Done
            }
        }
    };
}
width!(w8, u8, U8, u8);
width!(w16, u16, U16, u16);
width!(w32, u32, U32, u32);
width!(w64, u64, U64, u64);

contracts! {
    #[holds] unwind 3 fn add_u8(s) { return w8::arith(s, Arith::Add) }
    #[panics] unwind 3 fn add_u8_rejects(s) { return w8::arith_rejects(s, Arith::Add) }
    #[holds] unwind 3 fn add_u16(s) { return w16::arith(s, Arith::Add) }
    #[panics] unwind 3 fn add_u16_rejects(s) { return w16::arith_rejects(s, Arith::Add) }
    #[holds] unwind 3 fn add_u32(s) { return w32::arith(s, Arith::Add) }
    #[panics] unwind 3 fn add_u32_rejects(s) { return w32::arith_rejects(s, Arith::Add) }
    #[holds] unwind 3 fn add_u64(s) { return w64::arith(s, Arith::Add) }
    #[panics] unwind 3 fn add_u64_rejects(s) { return w64::arith_rejects(s, Arith::Add) }
    #[holds] unwind 3 fn sub_u8(s) { return w8::arith(s, Arith::Sub) }
    #[panics] unwind 3 fn sub_u8_rejects(s) { return w8::arith_rejects(s, Arith::Sub) }
    #[holds] unwind 3 fn sub_u16(s) { return w16::arith(s, Arith::Sub) }
    #[panics] unwind 3 fn sub_u16_rejects(s) { return w16::arith_rejects(s, Arith::Sub) }
    #[holds] unwind 3 fn sub_u32(s) { return w32::arith(s, Arith::Sub) }
    #[panics] unwind 3 fn sub_u32_rejects(s) { return w32::arith_rejects(s, Arith::Sub) }
    #[holds] unwind 3 fn sub_u64(s) { return w64::arith(s, Arith::Sub) }
    #[panics] unwind 3 fn sub_u64_rejects(s) { return w64::arith_rejects(s, Arith::Sub) }
    #[holds] unwind 3 fn mul_u8(s) { return w8::arith(s, Arith::Mul) }
    #[panics] unwind 3 fn mul_u8_rejects(s) { return w8::arith_rejects(s, Arith::Mul) }
    #[holds] unwind 3 fn mul_u16(s) { return w16::arith(s, Arith::Mul) }
    #[panics] unwind 3 fn mul_u16_rejects(s) { return w16::arith_rejects(s, Arith::Mul) }
    #[holds] unwind 3 fn mul_u32(s) { return w32::arith(s, Arith::Mul) }
    #[panics] unwind 3 fn mul_u32_rejects(s) { return w32::arith_rejects(s, Arith::Mul) }
    #[holds] unwind 3 fn div_u8(s) { return w8::arith(s, Arith::Div) }
    #[panics] unwind 3 fn div_u8_rejects(s) { return w8::arith_rejects(s, Arith::Div) }
    #[holds] unwind 3 fn div_u16(s) { return w16::arith(s, Arith::Div) }
    #[panics] unwind 3 fn div_u16_rejects(s) { return w16::arith_rejects(s, Arith::Div) }
    #[holds] unwind 3 fn div_u32(s) { return w32::arith(s, Arith::Div) }
    #[panics] unwind 3 fn div_u32_rejects(s) { return w32::arith_rejects(s, Arith::Div) }
    #[panics] unwind 3 fn div_u64_rejects(s) { return w64::arith_rejects(s, Arith::Div) }
    #[holds] unwind 3 fn rem_u8(s) { return w8::arith(s, Arith::Rem) }
    #[panics] unwind 3 fn rem_u8_rejects(s) { return w8::arith_rejects(s, Arith::Rem) }
    #[holds] unwind 3 fn rem_u16(s) { return w16::arith(s, Arith::Rem) }
    #[panics] unwind 3 fn rem_u16_rejects(s) { return w16::arith_rejects(s, Arith::Rem) }
    #[holds] unwind 3 fn rem_u32(s) { return w32::arith(s, Arith::Rem) }
    #[panics] unwind 3 fn rem_u32_rejects(s) { return w32::arith_rejects(s, Arith::Rem) }
    #[holds] unwind 3 fn rem_u64(s) { return w64::arith(s, Arith::Rem) }
    #[panics] unwind 3 fn rem_u64_rejects(s) { return w64::arith_rejects(s, Arith::Rem) }
    #[holds] unwind 3 fn shl_u8(s) { return w8::arith(s, Arith::Shl) }
    #[panics] unwind 3 fn shl_u8_rejects(s) { return w8::arith_rejects(s, Arith::Shl) }
    #[holds] unwind 3 fn shl_u16(s) { return w16::arith(s, Arith::Shl) }
    #[panics] unwind 3 fn shl_u16_rejects(s) { return w16::arith_rejects(s, Arith::Shl) }
    #[holds] unwind 3 fn shl_u32(s) { return w32::arith(s, Arith::Shl) }
    #[panics] unwind 3 fn shl_u32_rejects(s) { return w32::arith_rejects(s, Arith::Shl) }
    #[holds] unwind 3 fn shl_u64(s) { return w64::arith(s, Arith::Shl) }
    #[panics] unwind 3 fn shl_u64_rejects(s) { return w64::arith_rejects(s, Arith::Shl) }
    #[holds] unwind 3 fn shr_u8(s) { return w8::arith(s, Arith::Shr) }
    #[panics] unwind 3 fn shr_u8_rejects(s) { return w8::arith_rejects(s, Arith::Shr) }
    #[holds] unwind 3 fn shr_u16(s) { return w16::arith(s, Arith::Shr) }
    #[panics] unwind 3 fn shr_u16_rejects(s) { return w16::arith_rejects(s, Arith::Shr) }
    #[holds] unwind 3 fn shr_u32(s) { return w32::arith(s, Arith::Shr) }
    #[panics] unwind 3 fn shr_u32_rejects(s) { return w32::arith_rejects(s, Arith::Shr) }
    #[holds] unwind 3 fn shr_u64(s) { return w64::arith(s, Arith::Shr) }
    #[panics] unwind 3 fn shr_u64_rejects(s) { return w64::arith_rejects(s, Arith::Shr) }
    #[holds] unwind 3 fn bitand_u8(s) { return w8::arith(s, Arith::BitAnd) }
    #[holds] unwind 3 fn bitand_u16(s) { return w16::arith(s, Arith::BitAnd) }
    #[holds] unwind 3 fn bitand_u32(s) { return w32::arith(s, Arith::BitAnd) }
    #[holds] unwind 3 fn bitand_u64(s) { return w64::arith(s, Arith::BitAnd) }
    #[holds] unwind 3 fn bitor_u8(s) { return w8::arith(s, Arith::BitOr) }
    #[holds] unwind 3 fn bitor_u16(s) { return w16::arith(s, Arith::BitOr) }
    #[holds] unwind 3 fn bitor_u32(s) { return w32::arith(s, Arith::BitOr) }
    #[holds] unwind 3 fn bitor_u64(s) { return w64::arith(s, Arith::BitOr) }
    #[holds] unwind 3 fn cmp_u8(s) { return w8::cmp(s) }
    #[holds] unwind 3 fn cmp_u16(s) { return w16::cmp(s) }
    #[holds] unwind 3 fn cmp_u32(s) { return w32::cmp(s) }
    #[holds] unwind 3 fn cmp_u64(s) { return w64::cmp(s) }
    #[holds] unwind 3 fn step_u8(s) { return w8::step(s) }
    #[holds] unwind 3 fn step_u16(s) { return w16::step(s) }
    #[holds] unwind 3 fn step_u32(s) { return w32::step(s) }
    #[holds] unwind 3 fn step_u64(s) { return w64::step(s) }
    #[panics] unwind 3 fn step_u8_rejects(s) { return w8::step_rejects(s) }
    #[panics] unwind 3 fn step_u16_rejects(s) { return w16::step_rejects(s) }
    #[panics] unwind 3 fn step_u32_rejects(s) { return w32::step_rejects(s) }
    #[panics] unwind 3 fn step_u64_rejects(s) { return w64::step_rejects(s) }
    #[holds] unwind 3 fn booleans(s) {
        let (l, r, and) = (s.bool(), s.bool(), s.bool());
        let v = std::mem::ManuallyDrop::new(Value::arith(if and { Arith::BoolAnd } else { Arith::BoolOr }, Value::Bool(l), Value::Bool(r)));
        ensures!(matches!(&*v, Value::Bool(b) if *b == if and { l && r } else { l || r }), "boolean connectives");
        let v = std::mem::ManuallyDrop::new(Value::unary(UnaryOp::BoolNot, Value::Bool(l)));
        ensures!(matches!(&*v, Value::Bool(b) if *b != l), "negation");
        reach!(and && l && r, "conjunction");
    }
}
