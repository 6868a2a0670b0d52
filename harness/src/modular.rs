//! Contracts on single arms of `Expr::eval`, discharged under Kani with the recursive call
//! `Expr::eval_value` replaced by its contract (an operand evaluates to the value it denotes).
//! Natively the same contracts run with the real recursion.
use crate::contracts;
use crate::src::{Out, Src};
use crate::{ensures, requires};
use doodle::decoder::{Scope, Value};
use doodle::{Arith, Expr, UnaryOp};
use std::borrow::Cow;
use std::mem::ManuallyDrop as MD;

/// contract of `eval_value` on a literal operand
pub fn leaf<'a>(e: &Expr, _: &'a Scope<'a>) -> Value {
    match e {
        Expr::Bool(b) => Value::Bool(*b),
        Expr::U8(n) => Value::U8(*n),
        Expr::U16(n) => Value::U16(*n),
        Expr::U32(n) => Value::U32(*n),
        Expr::U64(n) => Value::U64(*n),
        _ => unreachable!(),
    }
}
pub fn vclone(_: &Value) -> Value { unreachable!() }
pub fn nolambda<'a>(_: &Expr, _: &'a Scope<'a>, _: &Value) -> Value { unreachable!() }

fn ev(e: &Expr) -> MD<Value> {
    MD::new(match e.eval(&Scope::Empty) { Cow::Owned(v) => v, Cow::Borrowed(_) => unreachable!() })
}
macro_rules! node { ($e:expr) => { MD::new($e) } }

/// cast of an operand of any width
fn cast<S: Src + ?Sized>(s: &mut S, w: u32, to: fn(Box<Expr>) -> Expr, out: fn(&Value) -> Option<u64>, max: u64, fits: bool) -> Out {
    let n = s.u64();
    let e = match w { 8 => Expr::U8(n as u8), 16 => Expr::U16(n as u16), 32 => Expr::U32(n as u32), _ => Expr::U64(n) };
    let m = match w { 8 => n & 0xff, 16 => n & 0xffff, 32 => n & 0xffff_ffff, _ => n };
    requires!(s, (m <= max) == fits);
    let e = node!(to(Box::new(e)));
    let v = ev(&e);
    if fits { ensures!(out(&v) == Some(m), "a cast keeps the number"); }
    Out::Done
}
fn o8(v: &Value) -> Option<u64> { match v { Value::U8(x) => Some(*x as u64), _ => None } }
fn o16(v: &Value) -> Option<u64> { match v { Value::U16(x) => Some(*x as u64), _ => None } }
fn o32(v: &Value) -> Option<u64> { match v { Value::U32(x) => Some(*x as u64), _ => None } }
fn o64(v: &Value) -> Option<u64> { match v { Value::U64(x) => Some(*x), _ => None } }
fn chr<S: Src + ?Sized>(s: &mut S, w: u32, fits: bool) -> Out {
    let n = s.u64();
    let e = match w { 8 => Expr::U8(n as u8), 16 => Expr::U16(n as u16), 32 => Expr::U32(n as u32), _ => Expr::U64(n) };
    let m = match w { 8 => n & 0xff, 16 => n & 0xffff, 32 => n & 0xffff_ffff, _ => n };
    requires!(s, (m <= u32::MAX as u64) == fits);
    let e = node!(Expr::AsChar(Box::new(e)));
    let v = ev(&e);
    let ok = m < 0xD800 || (m > 0xDFFF && m <= 0x10FFFF);
    if fits { ensures!(matches!(&*v, Value::Char(c) if *c as u64 == if ok { m } else { 0xFFFD }), "the character with that scalar value, or the replacement character"); }
    Out::Done
}
fn width<S: Src + ?Sized>(s: &mut S) -> u32 { match s.below(4) { 0 => 8, 1 => 16, 2 => 32, _ => 64 } }
contracts! {
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn as8(s) { let w = width(s); return cast(s, w, Expr::AsU8, o8, u8::MAX as u64, true) }
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn as16(s) { let w = width(s); return cast(s, w, Expr::AsU16, o16, u16::MAX as u64, true) }
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn as32(s) { let w = width(s); return cast(s, w, Expr::AsU32, o32, u32::MAX as u64, true) }
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn as64(s) { let w = width(s); return cast(s, w, Expr::AsU64, o64, u64::MAX as u64, true) }
    #[modular_panics] #[stub(x, crate::modular::leaf)] unwind 1 fn as8_rejects(s) { let w = width(s); return cast(s, w, Expr::AsU8, o8, u8::MAX as u64, false) }
    #[modular_panics] #[stub(x, crate::modular::leaf)] unwind 1 fn as16_rejects(s) { let w = width(s); return cast(s, w, Expr::AsU16, o16, u16::MAX as u64, false) }
    #[modular_panics] #[stub(x, crate::modular::leaf)] unwind 1 fn as32_rejects(s) { let w = width(s); return cast(s, w, Expr::AsU32, o32, u32::MAX as u64, false) }
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn chars(s) { let w = width(s); return chr(s, w, true) }
    #[modular_panics] #[stub(x, crate::modular::leaf)] unwind 1 fn chars_rejects(s) { return chr(s, 64, false) }
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn sub_operands(s) {
        let (l, r) = (s.u32(), s.u32());
        requires!(s, r <= l);
        let e = node!(Expr::Arith(Arith::Sub, Box::new(Expr::U32(l)), Box::new(Expr::U32(r))));
        let v = ev(&e);
        ensures!(o32(&v) == Some((l - r) as u64), "left operand minus right operand");
    }
    #[modular] #[stub(x, crate::modular::leaf)] unwind 1 fn succ_operand(s) {
        let l = s.u32();
        requires!(s, l < u32::MAX);
        let e = node!(Expr::Unary(UnaryOp::IntSucc, Box::new(Expr::U32(l))));
        let v = ev(&e);
        ensures!(o32(&v) == Some(l as u64 + 1), "operand plus one");
    }
    #[holds] unwind 3 fn mul_u64(s) { return crate::value::w64::arith(s, Arith::Mul) }
    #[panics] unwind 3 fn mul_u64_rejects(s) { return crate::value::w64::arith_rejects(s, Arith::Mul) }
    #[holds] unwind 3 fn div_u64(s) { return crate::value::w64::arith(s, Arith::Div) }
}
