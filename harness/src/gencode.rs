//! Contract on the code generator: the decoder that `generate_code` emits for a format, compiled
//! and run, agrees with the format's meaning.  Two steps around the Rust compiler:
//! `emit` writes one module per generated format, `judge` checks what the compiled decoders did.
use crate::{genexpr::T, interp::{Case, case, inputs, shared}, reffmt::{FEnv, Inp, Item, P, Rf}, refsem::N, src::RandSrc};
use doodle::{Expr, Format, FormatModule, ValueType, byte_set::ByteSet};
use doodle::codegen::{ToFragment, generate_code};
use std::{collections::BTreeMap, fmt::Write, panic::{AssertUnwindSafe, catch_unwind}, path::Path, rc::Rc};

/// formats that random generation reaches too rarely
fn corner(i: u64) -> Option<Format> {
    let byte = |b: u8| Format::Byte(ByteSet::from([b]));
    let tup = Format::Tuple;
    let nd = Format::UnionNondet;
    let bx = |f| Box::new(f);
    Some(match i {
        // an inner alternation that succeeded is closed when an outer one falls back
        0 => nd(vec![tup(vec![byte(0), nd(vec![byte(1), byte(2)]), byte(2)]), tup(vec![byte(0), byte(1), byte(0)])]),
        1 => nd(vec![tup(vec![byte(0), nd(vec![byte(2), byte(1), byte(0)]), byte(2)]), tup(vec![byte(0), byte(1), byte(0)])]),
        2 => tup(vec![Format::PeekNot(bx(tup(vec![byte(0), nd(vec![byte(1), byte(2)]), byte(2)]))), byte(0), byte(1), byte(0)]),
        3 => nd(vec![tup(vec![byte(0), nd(vec![byte(1)]), byte(2)]), tup(vec![byte(0), byte(1), byte(0)])]),
        // ... and so is a permitted format
        4 => nd(vec![tup(vec![byte(0), Format::Permit(bx(byte(1)), Box::new(Expr::U8(7))), byte(2)]), tup(vec![byte(0), byte(1), byte(0)])]),
        5 => tup(vec![Format::Permit(bx(Format::Slice(Box::new(Expr::U8(2)), bx(tup(vec![byte(0), byte(1)])))), Box::new(Expr::Tuple(vec![Expr::U8(7), Expr::U8(8)]))), byte(0), byte(2)]),
        // a negative lookahead, peek, slice or run of bits that fails gives its place back to the alternation around it
        6 => nd(vec![tup(vec![byte(0), Format::PeekNot(bx(byte(1))), byte(0)]), tup(vec![byte(0), byte(1), byte(0)])]),
        7 => nd(vec![tup(vec![byte(0), Format::Peek(bx(byte(1))), byte(0)]), tup(vec![byte(0), byte(0), byte(2)]), tup(vec![byte(0), byte(1), byte(2)])]),
        8 => nd(vec![tup(vec![byte(0), Format::Slice(Box::new(Expr::U8(1)), bx(tup(vec![byte(1), byte(1)]))), byte(0)]), tup(vec![byte(0), byte(1), byte(0)])]),
        9 => nd(vec![tup(vec![byte(0), Format::Bits(bx(tup(vec![byte(1), byte(1)]))), byte(0)]), tup(vec![byte(0), byte(1), byte(0)]), tup(vec![byte(0), byte(3), byte(0), byte(0)])]),
        10 => tup(vec![Format::PeekNot(bx(tup(vec![byte(0), Format::PeekNot(bx(byte(1))), byte(0)]))), byte(0), byte(1), byte(0)]),
        11 => tup(vec![Format::Permit(bx(tup(vec![byte(0), Format::PeekNot(bx(byte(1)))])), Box::new(Expr::Tuple(vec![Expr::U8(7), Expr::Tuple(vec![])]))), byte(0), byte(1)]),
        12 => tup(vec![Format::Repeat(bx(nd(vec![tup(vec![byte(0), byte(1)]), tup(vec![byte(0), byte(0)]), tup(vec![byte(0), byte(2)])]))), byte(1)]),
        13 => Format::Slice(Box::new(Expr::U8(3)), bx(tup(vec![Format::Permit(bx(tup(vec![byte(0), byte(1), byte(2), byte(0)])), Box::new(Expr::Tuple(vec![Expr::U8(1), Expr::U8(1), Expr::U8(1), Expr::U8(1)]))), byte(0), byte(1), byte(2)]))),
        _ => return None,
    })
}
/// every operator within every operator: how the generated code groups what it writes
fn operators() -> Vec<Expr> {
    use doodle::{Arith::*, IntRel::*, Pattern, UnaryOp};
    let v = |x: &'static str| Expr::Var(x.into());
    let bx = |e: &Expr| Box::new(e.clone());
    let ar = |o, a: &Expr, b: &Expr| Expr::Arith(o, bx(a), bx(b));
    let rel = |o, a: &Expr, b: &Expr| Expr::IntRel(o, bx(a), bx(b));
    let un = |o, a: &Expr| Expr::Unary(o, bx(a));
    let (x, y) = (v("x"), v("y"));
    let arith = [Add, Sub, Mul, Div, Rem, BitAnd, BitOr, Shl, Shr];
    let rels = [Eq, Ne, Lt, Gt, Lte, Gte];
    let mut nums: Vec<(Expr, Expr)> = arith.iter().map(|o| (ar(*o, &x, &y), v("z"))).collect();
    let pick = |h: &Expr, a: Expr, b: Expr| Expr::Match(bx(h), vec![(Pattern::U8(1), a), (Pattern::Wildcard, b)]);
    for e in [un(UnaryOp::IntSucc, &x), un(UnaryOp::IntPred, &x), Expr::AsU8(Box::new(Expr::AsU32(bx(&x)))), Expr::TupleProj(Box::new(Expr::Tuple(vec![y.clone(), x.clone()])), 1), Expr::SeqIx(Box::new(Expr::Seq(vec![y.clone(), x.clone()])), Box::new(Expr::U32(1))), pick(&x, y.clone(), x.clone())] { nums.push((e, v("z"))); }
    let z32 = Expr::AsU32(Box::new(v("z")));
    for e in [Expr::AsU32(bx(&x)), Expr::SeqLength(Box::new(Expr::Seq(vec![x.clone(), y.clone()]))), ar(Add, &Expr::AsU32(bx(&x)), &Expr::AsU32(bx(&y)))] { nums.push((e, z32.clone())); }
    let mut out = vec![];
    for (k, (e, z)) in nums.iter().enumerate() {
        for o in arith { out.push(ar(o, e, z)); out.push(ar(o, z, e)); }
        for o in rels { if k < 3 || o == Lt || o == Gte { out.push(rel(o, e, z)); out.push(rel(o, z, e)); } }
        out.extend([un(UnaryOp::IntSucc, e), un(UnaryOp::IntPred, e), Expr::AsU64(bx(e)), Expr::AsU8(bx(e)), Expr::Seq(vec![e.clone(), z.clone()])]);
        if k < 15 { out.push(pick(e, v("z"), v("x"))); }
    }
    let other = rel(Lt, &v("z"), &x);
    let mut bools: Vec<Expr> = rels.iter().map(|o| rel(*o, &x, &y)).collect();
    bools.extend([un(UnaryOp::BoolNot, &rel(Eq, &x, &y)), ar(BoolAnd, &rel(Ne, &x, &y), &rel(Lt, &y, &v("z"))), ar(BoolOr, &rel(Ne, &x, &y), &rel(Lt, &y, &v("z")))]);
    for e in &bools {
        out.extend([un(UnaryOp::BoolNot, e), ar(BoolAnd, e, &other), ar(BoolAnd, &other, e), ar(BoolOr, e, &other), ar(BoolOr, &other, e)]);
        out.push(Expr::Match(bx(e), vec![(Pattern::Bool(true), x.clone()), (Pattern::Bool(false), y.clone())]));
    }
    out
}
fn operator(i: u64) -> Option<Format> {
    let e = operators().get(i as usize)?.clone();
    let byte = || Box::new(Format::Byte(ByteSet::full()));
    Some(["z", "y", "x"].into_iter().fold(Format::Compute(Box::new(e)), |f, n| Format::LetFormat(byte(), n.into(), Box::new(f))))
}
pub const CORNERS: u64 = 15;
/// a format that names its argument as the generated code names a tuple's first element (known finding)
fn capture() -> Case {
    let mut module = FormatModule::new();
    let f = Format::Tuple(vec![Format::Byte(ByteSet::from([0])), Format::Compute(Box::new(Expr::Var("arg0".into())))]);
    module.define_format_args("item0", vec![("arg0".into(), ValueType::U8)], f.clone());
    Case { f: Format::ItemVar(0, vec![Expr::U8(9)], vec![]), items: vec![Item { args: vec!["arg0".into()], views: vec![], fmt: f }], module, t: T::Bool }
}
pub fn make(seed: u64, i: u64) -> Option<(Case, Vec<Vec<u8>>)> {
    let mut s = RandSrc::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
    let (exact, d) = (i % 2 == 0, 2 + (i / 2 % 3) as u32);
    catch_unwind(AssertUnwindSafe(|| {
        let fixed = corner(i).or_else(|| operator(i.checked_sub(CORNERS)?));
        let three = fixed.is_some();
        let c = match fixed { Some(f) => Case { f, items: vec![], module: FormatModule::new(), t: T::Bool }, None if i == 14 => capture(), None if i % 5 == 0 => shared(&mut s, exact, !exact, d)?, None => case(&mut s, exact, !exact, d)? };
        let text = c.show();
        // the runtime's parser refuses bits of bits, and byte positions, views and seeks within bits
        if text.matches("Bits(").count() > 1 || text.contains("Bits(") && ["Pos", "View", "WithRelativeOffset"].iter().any(|x| text.contains(x)) { return None; }
        let mut ins = inputs(&mut s, if three { 3 } else { 2 });
        if three && i >= CORNERS { let k = [0, 1, 3, 200, 255]; for x in k { for y in k { for z in k { ins.push(vec![x, y, z]); } } } }
        ins.retain(|b| parses(&c, b).is_some());
        Some((c, ins))
    })).ok().flatten()
}
/// the parses the format's meaning allows, unless evaluation may refuse or does not settle
fn parses(c: &Case, b: &[u8]) -> Option<Vec<P>> {
    let mut rf = Rf::new(&c.items);
    let ps = rf.parse(&c.f, &FEnv::default(), &Inp { buf: Rc::new(b.to_vec()), off: 0, end: b.len() }).ok()?;
    (!rf.cx.may_refuse.get() && rf.cx.fuel.get() == 0).then_some(ps)
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// module `c<i>` for case `i`, or None when the generator refuses the format
fn source(c: &mut Case) -> Option<String> {
    let text = catch_unwind(AssertUnwindSafe(|| { let top = c.module.define_format("Top", c.f.clone()).call(); generate_code(&c.module, &top).to_fragment().to_string() })).ok()?;
    let mut out = String::new();
    let mut lines = text.lines().peekable();
    let mut entry = None;
    while let Some(l) = lines.next() {
        if l.contains("cfg_attr(rustfmt") || l.starts_with("mod codegen_tests") || l.starts_with("pub mod api_helper") || l.starts_with("#![allow") { continue; }
        if l.trim() == "/// d#0" {
            let f = lines.peek()?;
            let n = f.split("fn ").nth(1)?;
            entry = Some(n.split(|c: char| !(c.is_alphanumeric() || c == '_')).next()?.to_string());
        }
        out.push_str(l);
        out.push('\n');
    }
    let entry = entry?;
    write!(out, "\npub fn __run(b: &[u8]) -> Option<(usize, String)> {{\n let mut p = Parser::new(b);\n let v = {entry}(&mut p).ok()?;\n Some((b.len() - p.remaining(), format!(\"{{v:?}}\")))\n}}\n").unwrap();
    Some(out)
}
pub fn emit(dir: &Path, seed: u64, n: u64) {
    let src = dir.join("src");
    let _ = std::fs::remove_dir_all(&src);
    std::fs::create_dir_all(&src).unwrap();
    let mut ids = vec![];
    let mut refused = 0;
    for i in 0..n {
        if std::env::var_os("DVTRACE").is_some() { eprintln!("case {i}"); }
        let Some((mut c, ins)) = make(seed, i) else { continue };
        let Some(code) = source(&mut c) else { refused += 1; continue };
        if std::env::var_os("DVTRACE").is_some() { eprintln!("{i} {}", c.show()); }
        std::fs::write(src.join(format!("c{i}.rs")), code).unwrap();
        std::fs::write(src.join(format!("c{i}.in")), ins.iter().map(|b| format!("x{}\n", hex(b))).collect::<String>()).unwrap();
        ids.push(i);
    }
    std::fs::write(dir.join("ids"), ids.iter().map(|i| format!("{i}\n")).collect::<String>()).unwrap();
    println!("GEN cases={} refused={refused}", ids.len());
}

/// value as printed by `Debug`
#[derive(Debug, Clone, PartialEq)]
enum D { Num(String), Chr(char), Tup(Vec<D>), Seq(Vec<D>), Con(String, Vec<D>), Rec(String, Vec<(String, D)>) }
struct Rd<'a> { b: &'a [char], i: usize }
impl Rd<'_> {
    fn ws(&mut self) { while self.b.get(self.i).is_some_and(|c| c.is_whitespace()) { self.i += 1; } }
    fn eat(&mut self, c: char) -> bool { self.ws(); if self.b.get(self.i) == Some(&c) { self.i += 1; true } else { false } }
    fn list(&mut self, end: char) -> Option<Vec<D>> {
        let mut v = vec![];
        loop {
            if self.eat(end) { return Some(v); }
            v.push(self.val()?);
            if !self.eat(',') { return self.eat(end).then_some(v); }
        }
    }
    fn val(&mut self) -> Option<D> {
        self.ws();
        let c = *self.b.get(self.i)?;
        if c == '(' { self.i += 1; return Some(D::Tup(self.list(')')?)); }
        if c == '[' { self.i += 1; return Some(D::Seq(self.list(']')?)); }
        if c == '\'' {
            self.i += 1;
            let mut c = *self.b.get(self.i)?;
            self.i += 1;
            if c == '\\' {
                c = *self.b.get(self.i)?;
                self.i += 1;
                c = match c {
                    'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0',
                    'u' => { self.i += 1; let mut h = String::new(); while self.b[self.i] != '}' { h.push(self.b[self.i]); self.i += 1; } self.i += 1; char::from_u32(u32::from_str_radix(&h, 16).ok()?)? }
                    c => c,
                };
            }
            return self.eat('\'').then_some(D::Chr(c));
        }
        let st = self.i;
        if c == '-' { self.i += 1; }
        while self.b.get(self.i).is_some_and(|c| c.is_alphanumeric() || *c == '_') { self.i += 1; }
        let w: String = self.b[st..self.i].iter().collect();
        if w.is_empty() { return None; }
        if c == '-' || c.is_ascii_digit() { return Some(D::Num(w)); }
        if self.b.get(self.i) == Some(&'(') { self.i += 1; return Some(D::Con(w, self.list(')')?)); }
        if self.b.get(self.i) == Some(&' ') && self.b.get(self.i + 1) == Some(&'{') {
            self.i += 2;
            let mut fs = vec![];
            loop {
                if self.eat('}') { break; }
                self.ws();
                let st = self.i;
                while self.b.get(self.i).is_some_and(|c| c.is_alphanumeric() || *c == '_') { self.i += 1; }
                let n: String = self.b[st..self.i].iter().collect();
                if !self.eat(':') { return None; }
                fs.push((n, self.val()?));
                if !self.eat(',') { if !self.eat('}') { return None; } break; }
            }
            return Some(D::Rec(w, fs));
        }
        Some(D::Con(w, vec![]))
    }
}
/// does the printed value stand for the denoted one?
fn same(n: &N, d: &D) -> bool {
    match (n, d) {
        (N::Fallback(Some(x)), d) => same(x, d),
        (N::Var(l, x), d) if matches!(**x, N::Fallback(Some(_))) => match &**x { N::Fallback(Some(y)) => same(&N::Var(l.clone(), y.clone()), d), _ => false },
        (N::Fallback(None) | N::View(_) | N::Phantom, _) => true,
        (N::Bool(b), D::Con(w, v)) => v.is_empty() && *w == b.to_string(),
        (N::Int(_, x), D::Num(y)) => *y == x.to_string(),
        (N::Big(x), D::Num(y)) => *y == x.to_string(),
        (N::Char(c), D::Chr(e)) => c == e,
        (N::Tup(v), D::Tup(w)) => all(v, w),
        // a named tuple
        (N::Tup(v), D::Con(_, w)) => all(v, w),
        (N::Rec(v), D::Rec(_, w)) => v.len() == w.len() && v.iter().zip(w).all(|((l, x), (m, y))| l == m && same(x, y)),
        (N::Rec(v), D::Con(_, w)) => v.is_empty() && w.is_empty(),
        (N::Var(l, x), D::Con(m, w)) => l == m && (match &**x { N::Tup(v) => all(v, w), _ => false } || w.len() == 1 && same(x, &w[0])),
        (N::Var(l, x), D::Rec(m, w)) => l == m && same(x, &D::Rec(m.clone(), w.clone())),
        (N::Opt(None), D::Con(w, v)) => w == "None" && v.is_empty(),
        (N::Opt(Some(x)), D::Con(w, v)) => w == "Some" && v.len() == 1 && same(x, &v[0]),
        (N::Seq(v, _), D::Seq(w)) => all(v, w),
        _ => false,
    }
}
fn all(v: &[N], w: &[D]) -> bool { v.len() == w.len() && v.iter().zip(w).all(|(x, y)| same(x, y)) }

/// lines of `out`: `<case> x<input> E|P|<offset> <debug>`; prints failures
pub fn judge(out: &Path, seed: u64) {
    let text = std::fs::read_to_string(out).unwrap();
    let mut by: BTreeMap<u64, Vec<&str>> = BTreeMap::new();
    for l in text.lines() { if let Some((i, r)) = l.split_once(' ') { if let Ok(i) = i.parse() { by.entry(i).or_default().push(r); } } }
    let (mut done, mut runs, mut accepted) = (0, 0, 0);
    let mut fails: Vec<String> = vec![];
    for (i, rs) in by {
        let Some((c, ins)) = make(seed, i) else { continue };
        let rf0 = Rf::new(&c.items);
        let (det, ex) = (rf0.det(&c.f), rf0.exact(&c.f));
        let mut any = false;
        for (b, r) in ins.iter().zip(rs) {
            let Some((h, r)) = r.split_once(' ') else { continue };
            assert_eq!(h[1..], hex(b));
            let Some(ps) = parses(&c, b) else { continue };
            any = true;
            runs += 1;
            let what = || format!("case {i} {} input {b:?}", c.show());
            match r.chars().next() {
                Some('P') => fails.push(format!("ENSURES never panics ({}): {}", &r[1..], what())),
                Some('E') => {
                    if det && !ps.is_empty() { fails.push(format!("ENSURES a format without choices accepts: expected {ps:?}: {}", what())); }
                    else if ex && ps.iter().any(|p| p.must && p.off == b.len()) { fails.push(format!("ENSURES the parse of the whole input is found: expected one of {ps:?}: {}", what())); }
                }
                _ => {
                    let Some((o, v)) = r.split_once(' ') else { continue };
                    let o: usize = o.parse().unwrap();
                    let cs: Vec<char> = v.chars().collect();
                    let mut rd = Rd { b: &cs, i: 0 };
                    let Some(d) = rd.val() else { continue };
                    accepted += 1;
                    if !ps.iter().any(|p| p.off == o && same(&p.v, &d)) { fails.push(format!("ENSURES the result is a parse: got {v} at {o}, parses {ps:?}: {}", what())); }
                }
            }
        }
        if any { done += 1; }
    }
    fails.sort_by_key(|f| f.len());
    for f in &fails { println!("GEN-FAIL {}", f.replace('\n', " ")); }
    println!("GEN-STAT cases={done} runs={runs} accepted={accepted} failures={}", fails.len());
}
