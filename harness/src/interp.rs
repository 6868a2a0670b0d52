//! Contracts on the interpreters: every run of a compiled program agrees with the reference
//! semantics of formats (`reffmt`), and the location-tracking interpreter with the plain one.
#[cfg(not(kani))]
use crate::{genexpr::T, genfmt::{FE, Gen}, reffmt::{FEnv, Inp, Item, Rf}, refsem::{self, N}};
#[cfg(not(kani))]
use crate::src::{Out, Src};
#[cfg(not(kani))]
use doodle::{Expr, Format, FormatModule, decoder::{Compiler, Program}, read::ReadCtxt};
#[cfg(not(kani))]
use std::{panic::{AssertUnwindSafe, catch_unwind}, rc::Rc};

#[cfg(not(kani))]
#[derive(Debug, PartialEq)]
pub enum Run { Done(N, usize), Refused, Panic(String) }

#[cfg(not(kani))]
pub fn why(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().chars().take(200).collect()
}
#[cfg(not(kani))]
pub fn run(p: &Program, b: &[u8]) -> Run {
    crate::PHASE.store(2, std::sync::atomic::Ordering::Relaxed);
    let r = run_(p, b);
    crate::PHASE.store(1, std::sync::atomic::Ordering::Relaxed);
    r
}
#[cfg(not(kani))]
fn run_(p: &Program, b: &[u8]) -> Run {
    match catch_unwind(AssertUnwindSafe(|| p.run(ReadCtxt::new(b)).ok().map(|(v, i)| (refsem::norm(&v), i.offset)))) {
        Ok(Some((v, o))) => Run::Done(v, o),
        Ok(None) => Run::Refused,
        Err(e) => Run::Panic(why(e)),
    }
}
#[cfg(not(kani))]
pub fn run_loc(p: &Program, b: &[u8]) -> Run {
    crate::PHASE.store(2, std::sync::atomic::Ordering::Relaxed);
    let r = run_loc_(p, b);
    crate::PHASE.store(1, std::sync::atomic::Ordering::Relaxed);
    r
}
#[cfg(not(kani))]
fn run_loc_(p: &Program, b: &[u8]) -> Run {
    match catch_unwind(AssertUnwindSafe(|| p.run_with_loc(ReadCtxt::new(b)).ok().map(|(v, i)| (refsem::norm(&v.clone_into_value()), i.offset)))) {
        Ok(Some((v, o))) => Run::Done(v, o),
        Ok(None) => Run::Refused,
        Err(e) => Run::Panic(why(e)),
    }
}
#[cfg(not(kani))]
pub fn inputs<S: Src + ?Sized>(s: &mut S, full: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..full {
        let to = out.len();
        for i in from..to { for b in 0..3u8 { let mut v = out[i].clone(); v.push(b); out.push(v); } }
        from = to;
    }
    for _ in 0..24 { let n = full + 1 + s.below(6); out.push((0..n).map(|_| if s.below(8) == 0 { s.u8() } else { s.below(3) as u8 }).collect()); }
    out
}
#[cfg(not(kani))]
pub fn compile(m: &FormatModule, f: &Format) -> Option<Program> {
    catch_unwind(AssertUnwindSafe(|| Compiler::compile_program(m, f).ok())).ok().flatten()
}
#[cfg(not(kani))]
pub struct Case { pub f: Format, pub items: Vec<crate::reffmt::Item>, pub module: FormatModule, pub t: crate::genexpr::T }
#[cfg(not(kani))]
impl Case { pub fn show(&self) -> String { format!("format {:?} items {:?}", self.f, self.items.iter().map(|i| (&i.args, &i.fmt)).collect::<Vec<_>>()) } }
/// a random format whose decoding terminates
#[cfg(not(kani))]
pub fn case<S: Src + ?Sized>(s: &mut S, exact: bool, wide: bool, d: u32) -> Option<Case> {
    crate::PHASE.store(1, std::sync::atomic::Ordering::Relaxed);
    let mut fw = crate::src::Fwd(s);
    let mut g = Gen::new(&mut fw, exact, wide);
    let t = g.ty(2);
    let f = catch_unwind(AssertUnwindSafe(|| g.fmt(&t, &FE::default(), d))).ok()?;
    let c = Case { f, items: g.items, module: g.module, t };
    let rf = Rf::new(&c.items);
    if rf.loops(&c.f) || c.items.iter().any(|i| rf.loops(&i.fmt)) { return None; }
    Some(c)
}
/// a named format called at several places, each with a continuation of its own
#[cfg(not(kani))]
pub fn shared<S: Src + ?Sized>(s: &mut S, exact: bool, wide: bool, d: u32) -> Option<Case> {
    crate::PHASE.store(1, std::sync::atomic::Ordering::Relaxed);
    let mut fw = crate::src::Fwd(s);
    let mut g = Gen::new(&mut fw, exact, wide);
    let byte = |b: u8| Format::Byte(doodle::byte_set::ByteSet::from([b]));
    let bx = |f: Format| Box::new(f);
    let n = |k| Box::new(Expr::U8(k));
    let alt = |x: Format, y: Format| vec![Format::Variant("A".into(), Box::new(x)), Format::Variant("B".into(), Box::new(y))];
    let tup = Format::Tuple;
    let (a, b) = (g.s.below(3) as u8, g.s.below(3) as u8);
    let f = match g.s.below(7) {
        0 => Format::Repeat(bx(byte(a))),
        1 => Format::Repeat1(bx(byte(a))),
        2 => Format::Union(alt(byte(a), tup(vec![byte(a), byte(b)]))),
        3 => Format::Union(alt(tup(vec![]), byte(a))),
        4 => Format::RepeatBetween(n(0), n(2), bx(byte(a))),
        5 => tup(vec![byte(b), Format::Repeat(bx(byte(a)))]),
        _ => { let t = g.ty(1); catch_unwind(AssertUnwindSafe(|| g.fmt(&t, &FE::default(), d))).ok()? }
    };
    let ix = g.items.len();
    // (the type checker refuses some of what the generator builds)
    let level = catch_unwind(AssertUnwindSafe(|| g.module.define_format(format!("item{ix}"), f.clone()).get_level())).ok()?;
    assert_eq!(level, ix);
    g.items.push(Item { args: vec![], views: vec![], fmt: f });
    let call = || Format::ItemVar(ix, vec![], vec![]);
    let mut sep = || byte(g.s.below(3) as u8);
    let (p, q, r) = (sep(), sep(), sep());
    let f = match g.s.below(8) {
        0 | 1 => tup(vec![call(), p, call(), q]),
        2 => tup(vec![call(), p, Format::Repeat(bx(q)), call(), r]),
        3 => Format::UnionNondet(vec![tup(vec![call(), p]), tup(vec![call(), q])]),
        4 => Format::Union(alt(tup(vec![p, call(), q]), tup(vec![r, call()]))),
        5 => tup(vec![Format::Slice(n(2), bx(call())), call(), p]),
        6 => tup(vec![Format::Repeat(bx(tup(vec![p, call(), q]))), call(), r]),
        _ => tup(vec![Format::Peek(bx(call())), call(), p, call()]),
    };
    let c = Case { f, items: g.items, module: g.module, t: T::Bool };
    let rf = Rf::new(&c.items);
    if rf.loops(&c.f) || c.items.iter().any(|i| rf.loops(&i.fmt)) { return None; }
    Some(c)
}
#[cfg(not(kani))]
pub fn judge<S: Src + ?Sized>(s: &mut S, exact: bool, wide: bool, d: u32, loc: bool) -> Out {
    let Some(Case { f, items: g_items, module, .. }) = (if s.below(5) == 0 { shared(s, exact, wide, d) } else { case(s, exact, wide, d) }) else { return Out::Skip };
    let rf0 = Rf::new(&g_items);
    if std::env::var_os("DVTRACE").is_some() { eprintln!("COMPILE {f:?} ITEMS {:?}", g_items.iter().map(|i| (&i.args, &i.fmt)).collect::<Vec<_>>()); }
    let Some(prog) = compile(&module, &f) else { return Out::Skip };
    let (det, ex) = (rf0.det(&f), rf0.exact(&f));
    let mut any = false;
    for b in inputs(s, 3) {
        let mut rf = Rf::new(&g_items);
        let Ok(ps) = rf.parse(&f, &FEnv::default(), &Inp { buf: Rc::new(b.clone()), off: 0, end: b.len() }) else { continue };
        if rf.cx.may_refuse.get() || rf.cx.fuel.get() != 0 { continue; }
        any = true;
        let got = if loc { run_loc(&prog, &b) } else { run(&prog, &b) };
        let what = || format!("format {f:?} items {:?} input {b:?}", g_items.iter().map(|i| (&i.args, &i.fmt)).collect::<Vec<_>>());
        match got {
            Run::Panic(m) => panic!("ENSURES never panics ({m}): {}", what()),
            Run::Done(v, o) => assert!(ps.iter().any(|p| p.v == v && p.off == o), "ENSURES the result is a parse: got {v:?} at {o}, parses {ps:?}: {}", what()),
            Run::Refused => {
                if det { assert!(ps.is_empty(), "ENSURES a format without choices accepts: expected {ps:?}: {}", what()); }
                if ex { assert!(!ps.iter().any(|p| p.must && p.off == b.len()), "ENSURES the parse of the whole input is found: expected one of {ps:?}: {}", what()); }
            }
        }
    }
    if any { Out::Done } else { Out::Skip }
}
