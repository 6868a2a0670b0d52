/// A source of argument values for a contract.
pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn usize(&mut self) -> usize;
    fn i8(&mut self) -> i8;
    fn i16(&mut self) -> i16;
    fn i32(&mut self) -> i32;
    fn i64(&mut self) -> i64;
    fn bool(&mut self) -> bool;
    /// Precondition. Returns false (native only) when the drawn values must be discarded.
    fn assume(&mut self, c: bool) -> bool;
    /// A value in `0..n`
    fn below(&mut self, n: usize) -> usize;
    /// `true` when running natively (never symbolic)
    fn native(&self) -> bool {
        true
    }
}

/// Outcome of a contract body
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Out {
    Done,
    Skip,
}

#[macro_export]
macro_rules! requires {
    ($s:expr, $c:expr) => {
        if !$s.assume($c) {
            return $crate::src::Out::Skip;
        }
    };
}

/// Postcondition
#[macro_export]
macro_rules! ensures {
    ($c:expr, $m:literal) => {
        assert!($c, concat!("ENSURES ", $m))
    };
}

/// Reachability guard: under Kani this is a cover that must be satisfied
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = &$c;
    };
}

/// `contracts! { mod_name; unwind N fn name(s) { body } ... }`
#[macro_export]
macro_rules! contracts {
    ( $( #[$kind:ident] $(#[stub($a:path, $b:path)])* unwind $n:literal fn $name:ident ($s:ident) $body:block )* ) => {
        pub const REG: &[$crate::Entry] = &[
            $( $crate::Entry { name: stringify!($name), kind: stringify!($kind), run: |s| $name(s) } ),*
        ];
        $( $crate::contract_fn!{ $kind $name $s $body } )*
        #[cfg(kani)]
        mod k {
            $( $crate::harness!{ $kind $n $name [ $( ($a, $b) )* ] } )*
        }
    };
}

#[macro_export]
macro_rules! contract_fn {
    (native $name:ident $s:ident $body:block) => {
        #[cfg(not(kani))]
        #[allow(unused, unreachable_code)]
        pub fn $name<S: $crate::src::Src + ?Sized>($s: &mut S) -> $crate::src::Out { $body; #[allow(unreachable_code)] $crate::src::Out::Done }
        #[cfg(kani)]
        pub fn $name<S: $crate::src::Src + ?Sized>(_: &mut S) -> $crate::src::Out { $crate::src::Out::Skip }
    };
    ($kind:ident $name:ident $s:ident $body:block) => {
        #[allow(unused, unreachable_code)]
        pub fn $name<S: $crate::src::Src + ?Sized>($s: &mut S) -> $crate::src::Out { $body; #[allow(unreachable_code)] $crate::src::Out::Done }
    };
}

#[macro_export]
macro_rules! harness {
    (holds $n:literal $name:ident [ $( ($a:path, $b:path) )* ]) => {
        #[kani::proof]
        #[kani::unwind($n)]
        $( #[kani::stub($a, $b)] )*
        fn $name() {
            super::$name(&mut $crate::src::KaniSrc);
            kani::cover!(true, "REACH end");
        }
    };
    (panics $n:literal $name:ident [ $( ($a:path, $b:path) )* ]) => {
        #[kani::proof]
        #[kani::should_panic]
        #[kani::unwind($n)]
        $( #[kani::stub($a, $b)] )*
        fn $name() {
            super::$name(&mut $crate::src::KaniSrc);
            kani::cover!(true, "MUSTNOT returned normally");
        }
    };
    // one arm of `Expr::eval`, the recursive call replaced by its contract: the operand's value is what it denotes
    (modular $n:literal $name:ident [ ($a:path, $b:path) ]) => {
        #[kani::proof]
        #[kani::unwind($n)]
        #[kani::stub(doodle::Expr::eval_value, $b)]
        #[kani::stub(<doodle::decoder::Value as std::clone::Clone>::clone, $crate::modular::vclone)]
        #[kani::stub(doodle::Expr::eval_lambda, $crate::modular::nolambda)]
        fn $name() {
            super::$name(&mut $crate::src::KaniSrc);
            kani::cover!(true, "REACH end");
        }
    };
    (modular_panics $n:literal $name:ident [ ($a:path, $b:path) ]) => {
        #[kani::proof]
        #[kani::should_panic]
        #[kani::unwind($n)]
        #[kani::stub(doodle::Expr::eval_value, $b)]
        #[kani::stub(<doodle::decoder::Value as std::clone::Clone>::clone, $crate::modular::vclone)]
        #[kani::stub(doodle::Expr::eval_lambda, $crate::modular::nolambda)]
        fn $name() {
            super::$name(&mut $crate::src::KaniSrc);
            kani::cover!(true, "MUSTNOT returned normally");
        }
    };
    (native $n:literal $name:ident [ ]) => {};
}

#[cfg(kani)]
pub struct KaniSrc;

#[cfg(kani)]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn usize(&mut self) -> usize { kani::any() }
    fn i8(&mut self) -> i8 { kani::any() }
    fn i16(&mut self) -> i16 { kani::any() }
    fn i32(&mut self) -> i32 { kani::any() }
    fn i64(&mut self) -> i64 { kani::any() }
    fn bool(&mut self) -> bool { kani::any::<u8>() & 1 == 1 }
    fn assume(&mut self, c: bool) -> bool { kani::assume(c); true }
    fn below(&mut self, n: usize) -> usize {
        let x: usize = kani::any();
        kani::assume(x < n);
        x
    }
    fn native(&self) -> bool { false }
}

/// Random source with boundary bias; logs every draw so that it can be replayed.
pub struct RandSrc {
    state: u64,
    pub log: Vec<Vec<u8>>,
}

impl RandSrc {
    pub fn new(seed: u64) -> Self {
        RandSrc { state: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, log: Vec::new() }
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// biased integer of `bits` bits
    fn biased(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let k = self.next();
        let r = self.next();
        let v = match k % 8 {
            0 => r % 4,
            1 => r % 20,
            2 => (r % 20).wrapping_neg(),
            3 => (1u64 << (r % bits as u64)).wrapping_add((r >> 32) % 3).wrapping_sub(1),
            4 => (1u64 << (bits - 1)).wrapping_add((r >> 32) % 5).wrapping_sub(2),
            5 => r >> (r % 64),
            6 => r & self.next() & self.next(),
            _ => r,
        };
        v & mask
    }
    fn put(&mut self, b: &[u8]) { self.log.push(b.to_vec()); }
}

macro_rules! draw {
    ($f:ident, $t:ty, $b:literal) => {
        fn $f(&mut self) -> $t { let v = self.biased($b) as $t; self.put(&v.to_le_bytes()); v }
    };
}

impl Src for RandSrc {
    draw!(u8, u8, 8);
    draw!(u16, u16, 16);
    draw!(u32, u32, 32);
    draw!(u64, u64, 64);
    draw!(usize, usize, 64);
    draw!(i8, i8, 8);
    draw!(i16, i16, 16);
    draw!(i32, i32, 32);
    draw!(i64, i64, 64);
    fn bool(&mut self) -> bool { let v = self.next() as u8; self.put(&[v]); v & 1 == 1 }
    fn assume(&mut self, c: bool) -> bool { c }
    fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = (self.next() % n as u64) as usize;
        self.put(&v.to_le_bytes());
        v
    }
}

/// Replays logged draws (from `RandSrc` or from the verifier's concrete playback)
pub struct ReplaySrc {
    pub vals: Vec<Vec<u8>>,
    pub ix: usize,
}

impl ReplaySrc {
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        if let Some(v) = self.vals.get(self.ix) {
            for (i, b) in v.iter().enumerate().take(N) { out[i] = *b; }
        }
        self.ix += 1;
        out
    }
}

macro_rules! redraw {
    ($f:ident, $t:ty) => { fn $f(&mut self) -> $t { <$t>::from_le_bytes(self.take()) } };
}

impl Src for ReplaySrc {
    redraw!(u8, u8);
    redraw!(u16, u16);
    redraw!(u32, u32);
    redraw!(u64, u64);
    redraw!(usize, usize);
    redraw!(i8, i8);
    redraw!(i16, i16);
    redraw!(i32, i32);
    redraw!(i64, i64);
    fn bool(&mut self) -> bool { let [v] = self.take::<1>(); v & 1 == 1 }
    fn assume(&mut self, c: bool) -> bool { c }
    fn below(&mut self, n: usize) -> usize { let v = usize::from_le_bytes(self.take()); if v >= n { 0 } else { v } }
}

/// A buffer of `len` bytes of arbitrary content: under Kani an allocation of symbolic size,
/// natively a span that is never dereferenced.
pub fn buffer<'a>(len: usize) -> &'a [u8] {
    #[cfg(kani)]
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(if len == 0 { 1 } else { len }, 1));
        kani::assume(!p.is_null());
        std::slice::from_raw_parts(p, len)
    }
    #[cfg(not(kani))]
    unsafe {
        std::slice::from_raw_parts(std::ptr::NonNull::<u8>::dangling().as_ptr(), len)
    }
}

/// A buffer of any length (below 2^46) and any content: under Kani an allocation of symbolic size
/// with unconstrained content, natively at most 64 random bytes.
pub fn content<'a, S: Src + ?Sized>(s: &mut S) -> &'a [u8] {
    let len = s.usize();
    #[cfg(kani)]
    {
        s.assume(len < 1 << 46);
        buffer(len)
    }
    #[cfg(not(kani))]
    {
        let v: Vec<u8> = (0..len % 65).map(|_| s.u8()).collect();
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            a.clear();
            a.push(v);
            // one live buffer per contract execution: the previous execution's is released here
            unsafe { std::slice::from_raw_parts(a[0].as_ptr(), a[0].len()) }
        })
    }
}
#[cfg(not(kani))]
thread_local! { static ARENA: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(Vec::new()) }; }

/// a `Src` borrowed as a sized object, so that it can be passed as `&mut dyn Src`
pub struct Fwd<'a, S: Src + ?Sized>(pub &'a mut S);
macro_rules! fwd { ($($f:ident $t:ty),*) => { $( fn $f(&mut self) -> $t { self.0.$f() } )* } }
impl<'a, S: Src + ?Sized> Src for Fwd<'a, S> {
    fwd!(u8 u8, u16 u16, u32 u32, u64 u64, usize usize, i8 i8, i16 i16, i32 i32, i64 i64, bool bool);
    fn assume(&mut self, c: bool) -> bool { self.0.assume(c) }
    fn below(&mut self, n: usize) -> usize { self.0.below(n) }
    fn native(&self) -> bool { self.0.native() }
}
