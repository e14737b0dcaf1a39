#![feature(core_intrinsics)]
#![allow(internal_features)]
//! Run-time half of the symbolic executor: the `h_*` functions are what
//! `symrustc` puts in the place of machine operations on u64 / u128.
pub mod engine;
pub mod explore;
pub mod poly;
pub mod solver;
pub mod wide;

use engine::*;
use poly::*;
use std::cmp::Ordering;

#[inline(always)]
pub const fn tag64(x: u64) -> bool {
    (x >> 32) == TAG64
}
#[inline(always)]
pub const fn tag128(x: u128) -> bool {
    let h = (x >> 64) as u64;
    h == TAG128 as u64 || (h == 0 && tag64(x as u64))
}
#[inline(always)]
fn live64(x: u64) -> bool {
    tag64(x) && ACTIVE.with(|a| a.get())
}
#[inline(always)]
fn live128(x: u128) -> bool {
    tag128(x) && ACTIVE.with(|a| a.get())
}

fn max_of(bits: u32) -> I {
    (I::ONE << bits) - I::ONE
}

pub trait W: Copy + PartialEq {
    const BITS: u32;
    fn live(self) -> bool;
    fn to_poly(self, e: &Engine) -> Poly;
    fn mk(e: &mut Engine, p: Poly) -> Self;
}

fn low128(v: I) -> u128 {
    let b = v.to_bits();
    let d = b.digits();
    (d[0] as u128) | ((d[1] as u128) << 64)
}
fn bound_value(e: &mut Engine, p: &Poly, bits: u32) {
    let (lo, hi) = e.interval(p);
    if lo.is_negative() {
        e.fact(&Con::Ge(p.clone()));
    }
    if hi > max_of(bits) {
        e.fact(&Con::Ge(p.neg().addc(max_of(bits))));
    }
}

impl W for u64 {
    const BITS: u32 = 64;
    #[inline(always)]
    fn live(self) -> bool {
        live64(self)
    }
    fn to_poly(self, e: &Engine) -> Poly {
        if live64(self) {
            e.term(self as u32)
        } else {
            Poly::konst(i(self as u128))
        }
    }
    fn mk(e: &mut Engine, p: Poly) -> u64 {
        match p.as_const() {
            Some(c) => low128(c) as u64,
            None => {
                bound_value(e, &p, 64);
                (TAG64 << 32) | e.intern(p) as u64
            }
        }
    }
}
impl W for u128 {
    const BITS: u32 = 128;
    #[inline(always)]
    fn live(self) -> bool {
        live128(self)
    }
    fn to_poly(self, e: &Engine) -> Poly {
        if live128(self) {
            e.term(self as u32)
        } else {
            Poly::konst(i(self))
        }
    }
    fn mk(e: &mut Engine, p: Poly) -> u128 {
        match p.as_const() {
            Some(c) => low128(c),
            None => {
                bound_value(e, &p, 128);
                (TAG128 << 64) | e.intern(p) as u128
            }
        }
    }
}

pub(crate) fn pow2(b: u32) -> I {
    I::ONE << b
}

// ---- slow paths, generic over the width ----
pub(crate) fn p_add(e: &mut Engine, a: &Poly, b: &Poly, bits: u32) -> (Poly, bool) {
    let p = a.add(b);
    if e.decide(Con::Ge(p.neg().addc(max_of(bits)))) {
        (p, false)
    } else {
        (p.addc(-pow2(bits)), true)
    }
}
pub(crate) fn p_sub(e: &mut Engine, a: &Poly, b: &Poly, bits: u32) -> (Poly, bool) {
    let p = a.sub(b);
    if e.decide(Con::Ge(p.clone())) {
        (p, false)
    } else {
        (p.addc(pow2(bits)), true)
    }
}
pub(crate) fn p_mul(e: &mut Engine, a: &Poly, b: &Poly, bits: u32) -> (Poly, bool) {
    let p = a.mul(b);
    if e.decide(Con::Ge(p.neg().addc(max_of(bits)))) {
        (p, false)
    } else {
        (p_mod2(e, &p, bits), true)
    }
}
pub(crate) fn p_mod2(e: &mut Engine, p: &Poly, bits: u32) -> Poly {
    let q = e.quot(p, &Poly::konst(pow2(bits)));
    p.sub(&q.scale(pow2(bits)))
}
pub(crate) fn p_div(e: &mut Engine, a: &Poly, b: &Poly) -> Poly {
    if e.decide(Con::Eq(b.clone())) {
        panic!("attempt to divide by zero");
    }
    e.quot(a, b)
}
pub(crate) fn p_rem(e: &mut Engine, a: &Poly, b: &Poly) -> Poly {
    let q = p_div(e, a, b);
    let r = a.sub(&q.mul(b));
    // 0 <= r < b
    e.fact(&Con::Ge(r.clone()));
    e.fact(&Con::Ge(b.sub(&r).addc(I::NEG_ONE)));
    r
}
pub(crate) fn p_shl(e: &mut Engine, a: &Poly, s: u32, bits: u32) -> Poly {
    let p = a.scale(pow2(s));
    if e.decide(Con::Ge(p.neg().addc(max_of(bits)))) {
        p
    } else {
        p_mod2(e, &p, bits)
    }
}
pub(crate) fn p_eq(e: &mut Engine, a: &Poly, b: &Poly) -> bool {
    e.decide(Con::Eq(a.sub(b)))
}
pub(crate) fn p_le(e: &mut Engine, a: &Poly, b: &Poly) -> bool {
    e.decide(Con::Ge(b.sub(a)))
}
pub(crate) fn p_lt(e: &mut Engine, a: &Poly, b: &Poly) -> bool {
    e.decide(Con::Ge(b.sub(a).addc(I::NEG_ONE)))
}
pub(crate) fn p_cmp(e: &mut Engine, a: &Poly, b: &Poly) -> Ordering {
    if p_lt(e, a, b) {
        Ordering::Less
    } else if p_eq(e, a, b) {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}

#[cold]
#[inline(never)]
fn s_ovf<T: W>(op: u8, a: T, b: T) -> (T, bool) {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        let (p, o) = match op {
            0 => p_add(e, &x, &y, T::BITS),
            1 => p_sub(e, &x, &y, T::BITS),
            _ => p_mul(e, &x, &y, T::BITS),
        };
        (T::mk(e, p), o)
    })
}
#[cold]
#[inline(never)]
fn s_div<T: W>(op: u8, a: T, b: T) -> T {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        let p = if op == 0 { p_div(e, &x, &y) } else { p_rem(e, &x, &y) };
        T::mk(e, p)
    })
}
#[cold]
#[inline(never)]
fn s_rel<T: W>(op: u8, a: T, b: T) -> bool {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        match op {
            0 => p_eq(e, &x, &y),
            1 => p_lt(e, &x, &y),
            _ => p_le(e, &x, &y),
        }
    })
}
#[cold]
#[inline(never)]
fn s_cmp<T: W>(a: T, b: T) -> Ordering {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        p_cmp(e, &x, &y)
    })
}
#[cold]
#[inline(never)]
fn s_shift<T: W>(left: bool, a: T, s: u32) -> T {
    let s = s % T::BITS;
    with(|e| {
        let x = a.to_poly(e);
        let p = if left { p_shl(e, &x, s, T::BITS) } else { e.quot(&x, &Poly::konst(pow2(s))) };
        T::mk(e, p)
    })
}
#[cold]
#[inline(never)]
fn s_not<T: W>(a: T) -> T {
    with(|e| {
        let x = a.to_poly(e);
        let p = x.neg().addc(max_of(T::BITS));
        T::mk(e, p)
    })
}
#[cold]
#[inline(never)]
fn s_conc<T: W>(a: T) -> T {
    with(|e| {
        let x = a.to_poly(e);
        let v = e.concretize(&x);
        T::mk(e, Poly::konst(v))
    })
}
/// x & (2^k - 1)
#[cold]
#[inline(never)]
fn s_mask<T: W>(a: T, k: u32) -> T {
    with(|e| {
        let x = a.to_poly(e);
        let p = p_mod2(e, &x, k);
        T::mk(e, p)
    })
}

macro_rules! hooks {
    ($t:ty, $live:ident, $add:ident, $sub:ident, $mul:ident, $addo:ident, $subo:ident, $mulo:ident,
     $div:ident, $rem:ident, $xor:ident, $and:ident, $or:ident, $shl:ident, $shr:ident, $eq:ident,
     $ne:ident, $lt:ident, $le:ident, $gt:ident, $ge:ident, $cmp:ident, $not:ident, $conc:ident,
     $bytes:ident, $sadd:ident, $ssub:ident, $min:ident, $max:ident) => {
        #[inline]
        pub fn $add(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) { s_ovf(0, a, b).0 } else { std::intrinsics::wrapping_add(a, b) }
        }
        #[inline]
        pub fn $sub(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) { s_ovf(1, a, b).0 } else { std::intrinsics::wrapping_sub(a, b) }
        }
        #[inline]
        pub fn $mul(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) { s_ovf(2, a, b).0 } else { std::intrinsics::wrapping_mul(a, b) }
        }
        #[inline]
        pub fn $addo(a: $t, b: $t) -> ($t, bool) {
            if $live(a) || $live(b) { s_ovf(0, a, b) } else { std::intrinsics::add_with_overflow(a, b) }
        }
        #[inline]
        pub fn $subo(a: $t, b: $t) -> ($t, bool) {
            if $live(a) || $live(b) { s_ovf(1, a, b) } else { std::intrinsics::sub_with_overflow(a, b) }
        }
        #[inline]
        pub fn $mulo(a: $t, b: $t) -> ($t, bool) {
            if $live(a) || $live(b) { s_ovf(2, a, b) } else { std::intrinsics::mul_with_overflow(a, b) }
        }
        #[inline]
        pub fn $sadd(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) {
                let (v, o) = s_ovf(0, a, b);
                if o { <$t>::MAX } else { v }
            } else {
                std::intrinsics::saturating_add(a, b)
            }
        }
        #[inline]
        pub fn $ssub(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) {
                let (v, o) = s_ovf(1, a, b);
                if o { 0 } else { v }
            } else {
                std::intrinsics::saturating_sub(a, b)
            }
        }
        #[inline]
        pub fn $div(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) { s_div(0, a, b) } else { a / b }
        }
        #[inline]
        pub fn $rem(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) { s_div(1, a, b) } else { a % b }
        }
        #[inline]
        pub fn $xor(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) { s_conc(a) ^ s_conc(b) } else { a ^ b }
        }
        #[inline]
        pub fn $and(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) {
                let (x, m) = if $live(a) { (a, b) } else { (b, a) };
                if !$live(m) && m & (std::intrinsics::wrapping_add(m, 1)) == 0 {
                    if m == <$t>::MAX { return x; }
                    if m == 0 { return 0; }
                    s_mask(x, std::intrinsics::ctpop(m))
                } else {
                    s_conc(a) & s_conc(b)
                }
            } else {
                a & b
            }
        }
        #[inline]
        pub fn $or(a: $t, b: $t) -> $t {
            if $live(a) || $live(b) {
                if a == 0 { return b; }
                if b == 0 { return a; }
                s_conc(a) | s_conc(b)
            } else {
                a | b
            }
        }
        #[inline]
        pub fn $shl(a: $t, s: u32) -> $t {
            if $live(a) { s_shift(true, a, s) } else { a << (s & (<$t>::BITS - 1)) }
        }
        #[inline]
        pub fn $shr(a: $t, s: u32) -> $t {
            if $live(a) { s_shift(false, a, s) } else { a >> (s & (<$t>::BITS - 1)) }
        }
        #[inline]
        pub fn $eq(a: $t, b: $t) -> bool {
            if $live(a) || $live(b) { a == b || s_rel(0, a, b) } else { a == b }
        }
        #[inline]
        pub fn $ne(a: $t, b: $t) -> bool {
            !$eq(a, b)
        }
        #[inline]
        pub fn $lt(a: $t, b: $t) -> bool {
            if $live(a) || $live(b) { s_rel(1, a, b) } else { a < b }
        }
        #[inline]
        pub fn $le(a: $t, b: $t) -> bool {
            if $live(a) || $live(b) { s_rel(2, a, b) } else { a <= b }
        }
        #[inline]
        pub fn $gt(a: $t, b: $t) -> bool {
            $lt(b, a)
        }
        #[inline]
        pub fn $ge(a: $t, b: $t) -> bool {
            $le(b, a)
        }
        #[inline]
        pub fn $min(a: $t, b: $t) -> $t {
            if $lt(a, b) { a } else { b }
        }
        #[inline]
        pub fn $max(a: $t, b: $t) -> $t {
            if $lt(a, b) { b } else { a }
        }
        #[inline]
        pub fn $cmp(a: $t, b: $t) -> Ordering {
            if $live(a) || $live(b) { s_cmp(a, b) } else { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
        }
        #[inline]
        pub fn $not(a: $t) -> $t {
            if $live(a) { s_not(a) } else { !a }
        }
        #[inline]
        pub fn $conc(a: $t) -> $t {
            if $live(a) { s_conc(a) } else { a }
        }
        #[inline]
        pub fn $bytes(a: $t) -> $t {
            if $live(a) { s_conc(a) } else { a }
        }
    };
}
hooks!(u64, live64, h_add_u64, h_sub_u64, h_mul_u64, h_addo_u64, h_subo_u64, h_mulo_u64, h_div_u64,
    h_rem_u64, h_xor_u64, h_and_u64, h_or_u64, h_shl_u64, h_shr_u64, h_eq_u64, h_ne_u64, h_lt_u64,
    h_le_u64, h_gt_u64, h_ge_u64, h_cmp_u64, h_not_u64, h_conc_u64, h_bytes_u64, h_sadd_u64, h_ssub_u64,
    h_min_u64, h_max_u64);
hooks!(u128, live128, h_add_u128, h_sub_u128, h_mul_u128, h_addo_u128, h_subo_u128, h_mulo_u128,
    h_div_u128, h_rem_u128, h_xor_u128, h_and_u128, h_or_u128, h_shl_u128, h_shr_u128, h_eq_u128,
    h_ne_u128, h_lt_u128, h_le_u128, h_gt_u128, h_ge_u128, h_cmp_u128, h_not_u128, h_conc_u128,
    h_bytes_u128, h_sadd_u128, h_ssub_u128, h_min_u128, h_max_u128);

#[inline]
pub fn h_cast_u64_u128(a: u64) -> u128 {
    if live64(a) { (TAG128 << 64) | (a as u32 as u128) } else { a as u128 }
}
#[inline]
pub fn h_cast_u128_u64(a: u128) -> u64 {
    if live128(a) { s_trunc(a) } else { a as u64 }
}
#[cold]
#[inline(never)]
fn s_trunc(a: u128) -> u64 {
    with(|e| {
        let x = a.to_poly(e);
        if e.decide(Con::Ge(x.neg().addc(max_of(64)))) {
            u64::mk(e, x)
        } else {
            let p = p_mod2(e, &x, 64);
            u64::mk(e, p)
        }
    })
}
/// entry of a function of the code under test
#[inline]
pub fn h_fn(id: u64) {
    if ACTIVE.with(|a| a.get()) {
        let _ = ENGINE.with(|e| {
            if let Ok(mut e) = e.try_borrow_mut() {
                if let Some(e) = e.as_mut() {
                    e.fns.insert(id);
                }
            }
        });
    }
}

// ---- for Decimal text ----
pub fn decimal_text(v: u128) -> Option<String> {
    if live128(v) { Some(format!("@{v}")) } else { None }
}
pub fn parse_decimal_text(s: &str) -> Option<u128> {
    s.strip_prefix('@')?.parse().ok()
}

// ---- harness API ----
pub fn sym_u128(name: &str, lo: u128, hi: u128) -> u128 {
    with(|e| {
        let p = e.var(name, i(lo), i(hi));
        u128::mk(e, p)
    })
}
pub fn sym_u64(name: &str, lo: u64, hi: u64) -> u64 {
    with(|e| {
        let p = e.var(name, i(lo as u128), i(hi as u128));
        u64::mk(e, p)
    })
}
pub fn sym_choose(name: &str, n: u32) -> u32 {
    with(|e| e.choose(name, n))
}
pub fn sym_assume_le(a: u128, b: u128) {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        e.assume(Con::Ge(y.sub(&x)))
    })
}
pub fn sym_assume_eq(a: u128, b: u128) {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        e.assume(Con::Eq(y.sub(&x)))
    })
}
pub fn sym_assume_ne(a: u128, b: u128) {
    with(|e| {
        let (x, y) = (a.to_poly(e), b.to_poly(e));
        e.assume(Con::Ne(y.sub(&x)))
    })
}
/// widened values for specifications: exact integer terms without overflow
#[derive(Clone, Debug)]
pub struct Exact(pub Poly);
pub fn exact(a: u128) -> Exact {
    with(|e| Exact(a.to_poly(e)))
}
pub fn exact_wide(digits: &[u64]) -> Exact {
    Exact(wide::poly_of_digits(digits))
}
pub fn exact_div(a: &Exact, b: &Exact) -> Exact {
    with(|e| Exact(p_div(e, &a.0, &b.0)))
}
pub fn exact_assume_ge(a: &Exact) {
    with(|e| e.assume(Con::Ge(a.0.clone())))
}
pub fn exact_ge0(label: Option<&str>, a: &Exact) -> bool {
    with(|e| match label {
        Some(l) => e.decide_labelled(l, Con::Ge(a.0.clone())),
        None => e.decide(Con::Ge(a.0.clone())),
    })
}
pub fn exact_eq0(label: Option<&str>, a: &Exact) -> bool {
    with(|e| match label {
        Some(l) => e.decide_labelled(l, Con::Eq(a.0.clone())),
        None => e.decide(Con::Eq(a.0.clone())),
    })
}
pub fn sym_fail(label: &str, msg: &str) -> ! {
    abort(Abort::Violation(label.into(), msg.into()))
}
pub fn sym_infeasible() -> ! {
    abort(Abort::Infeasible)
}
pub fn sym_incomplete(why: &str) -> ! {
    incomplete(why)
}
pub fn sym_count(label: &str) {
    with(|e| e.checks.entry(label.to_string()).or_default().evals += 1)
}
pub fn sym_cover(label: &str) {
    with(|e| {
        e.covers.insert(label.to_string());
    })
}
pub fn sym_observe(name: &str, v: u128) {
    with(|e| {
        let p = v.to_poly(e);
        e.observed.push((name.to_string(), Obs::Term(p)));
    })
}
pub fn sym_note(name: &str, v: &str) {
    with(|e| e.observed.push((name.to_string(), Obs::Text(v.to_string()))))
}
pub fn is_abort(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<Abort>()
}
