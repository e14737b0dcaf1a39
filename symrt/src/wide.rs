//! 256 / 512 bit integers for the patched cosmwasm-std: bnum underneath, plus
//! symbolic values.
use crate::engine::*;
use crate::poly::*;
use crate::*;
use std::fmt;
use std::ops::*;

const fn is_tag(d: &[u64]) -> bool {
    // low digit: term id; everything between zero; top digit: tag
    let n = d.len();
    if d[n - 1] != TAG128 as u64 || (d[0] >> 32) != 0 {
        return false;
    }
    let mut k = 1;
    while k < n - 1 {
        if d[k] != 0 {
            return false;
        }
        k += 1;
    }
    true
}
pub fn poly_of_digits(d: &[u64]) -> Poly {
    if is_tag(d) && ACTIVE.with(|a| a.get()) {
        return with(|e| e.term(d[0] as u32));
    }
    Poly::konst(int_of(d))
}
fn int_of(d: &[u64]) -> I {
    let mut b = [0u64; 14];
    b[..d.len()].copy_from_slice(d);
    I::from_bits(bnum::BUint::<14>::from_digits(b))
}

macro_rules! wide {
    ($name:ident, $n:literal, $bits:literal, $b:ty) => {
        #[derive(Copy, Clone, Default)]
        pub struct $name(pub [u64; $n]);
        impl $name {
            pub const ZERO: Self = Self([0; $n]);
            pub const MAX: Self = Self([u64::MAX; $n]);
            pub const MIN: Self = Self([0; $n]);
            pub const ONE: Self = {
                let mut d = [0; $n];
                d[0] = 1;
                Self(d)
            };
            pub const fn from_digits(d: [u64; $n]) -> Self {
                Self(d)
            }
            pub const fn digits(&self) -> &[u64; $n] {
                &self.0
            }
            /// digits of a value whose bytes are about to be looked at
            pub fn concrete_digits(&self) -> [u64; $n] {
                if self.live() {
                    let v = with(|e| {
                        let p = e.term(self.0[0] as u32);
                        e.concretize(&p)
                    });
                    Self::from_int(v).0
                } else {
                    self.0
                }
            }
            #[inline]
            fn live(&self) -> bool {
                is_tag(&self.0) && ACTIVE.with(|a| a.get())
            }
            pub const fn from_u128(v: u128) -> Self {
                let mut d = [0; $n];
                if tag128(v) {
                    d[0] = v as u32 as u64;
                    d[$n - 1] = TAG128 as u64;
                } else {
                    d[0] = v as u64;
                    d[1] = (v >> 64) as u64;
                }
                Self(d)
            }
            fn b(self) -> $b {
                <$b>::from_digits(self.0)
            }
            fn of(b: $b) -> Self {
                Self(*b.digits())
            }
            fn from_int(v: I) -> Self {
                let mut d = [0; $n];
                d.copy_from_slice(&v.to_bits().digits()[..$n]);
                Self(d)
            }
            fn poly(self, e: &Engine) -> Poly {
                if is_tag(&self.0) {
                    e.term(self.0[0] as u32)
                } else {
                    Poly::konst(int_of(&self.0))
                }
            }
            fn mk(e: &mut Engine, p: Poly) -> Self {
                match p.as_const() {
                    Some(c) => Self::from_int(c),
                    None => {
                        bound_value(e, &p, $bits);
                        let id = e.intern(p);
                        let mut d = [0; $n];
                        d[0] = id as u64;
                        d[$n - 1] = TAG128 as u64;
                        Self(d)
                    }
                }
            }
            pub fn is_zero(&self) -> bool {
                *self == Self::ZERO
            }
            fn ovf(self, o: Self, op: u8) -> (Self, bool) {
                with(|e| {
                    let (x, y) = (self.poly(e), o.poly(e));
                    let (p, f) = match op {
                        0 => p_add(e, &x, &y, $bits),
                        1 => p_sub(e, &x, &y, $bits),
                        _ => p_mul(e, &x, &y, $bits),
                    };
                    (Self::mk(e, p), f)
                })
            }
            pub fn overflowing_add(self, o: Self) -> (Self, bool) {
                if self.live() || o.live() {
                    self.ovf(o, 0)
                } else {
                    let (v, f) = self.b().overflowing_add(o.b());
                    (Self::of(v), f)
                }
            }
            pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
                if self.live() || o.live() {
                    self.ovf(o, 1)
                } else {
                    let (v, f) = self.b().overflowing_sub(o.b());
                    (Self::of(v), f)
                }
            }
            pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
                if self.live() || o.live() {
                    self.ovf(o, 2)
                } else {
                    let (v, f) = self.b().overflowing_mul(o.b());
                    (Self::of(v), f)
                }
            }
            pub fn checked_add(self, o: Self) -> Option<Self> {
                let (v, f) = self.overflowing_add(o);
                if f { None } else { Some(v) }
            }
            pub fn checked_sub(self, o: Self) -> Option<Self> {
                let (v, f) = self.overflowing_sub(o);
                if f { None } else { Some(v) }
            }
            pub fn checked_mul(self, o: Self) -> Option<Self> {
                let (v, f) = self.overflowing_mul(o);
                if f { None } else { Some(v) }
            }
            pub fn wrapping_add(self, o: Self) -> Self {
                self.overflowing_add(o).0
            }
            pub fn wrapping_sub(self, o: Self) -> Self {
                self.overflowing_sub(o).0
            }
            pub fn wrapping_mul(self, o: Self) -> Self {
                self.overflowing_mul(o).0
            }
            pub fn saturating_add(self, o: Self) -> Self {
                self.checked_add(o).unwrap_or(Self::MAX)
            }
            pub fn saturating_sub(self, o: Self) -> Self {
                self.checked_sub(o).unwrap_or(Self::ZERO)
            }
            pub fn saturating_mul(self, o: Self) -> Self {
                self.checked_mul(o).unwrap_or(Self::MAX)
            }
            pub fn checked_pow(self, mut exp: u32) -> Option<Self> {
                let mut acc = Self::ONE;
                let mut base = self;
                if exp == 0 {
                    return Some(acc);
                }
                loop {
                    if exp & 1 == 1 {
                        acc = acc.checked_mul(base)?;
                    }
                    exp >>= 1;
                    if exp == 0 {
                        return Some(acc);
                    }
                    base = base.checked_mul(base)?;
                }
            }
            pub fn wrapping_pow(self, exp: u32) -> Self {
                let mut acc = Self::ONE;
                for _ in 0..exp {
                    acc = acc.wrapping_mul(self);
                }
                acc
            }
            pub fn saturating_pow(self, exp: u32) -> Self {
                self.checked_pow(exp).unwrap_or(Self::MAX)
            }
            pub fn checked_div(self, o: Self) -> Option<Self> {
                if o.is_zero() {
                    return None;
                }
                Some(if self.live() || o.live() {
                    with(|e| {
                        let (x, y) = (self.poly(e), o.poly(e));
                        let p = e.quot(&x, &y);
                        Self::mk(e, p)
                    })
                } else {
                    Self::of(self.b() / o.b())
                })
            }
            pub fn checked_rem(self, o: Self) -> Option<Self> {
                if o.is_zero() {
                    return None;
                }
                Some(if self.live() || o.live() {
                    with(|e| {
                        let (x, y) = (self.poly(e), o.poly(e));
                        let p = p_rem(e, &x, &y);
                        Self::mk(e, p)
                    })
                } else {
                    Self::of(self.b() % o.b())
                })
            }
            pub fn checked_shl(self, s: u32) -> Option<Self> {
                if s >= $bits { None } else { Some(self.shl(s)) }
            }
            pub fn checked_shr(self, s: u32) -> Option<Self> {
                if s >= $bits { None } else { Some(self.shr(s)) }
            }
            pub fn abs_diff(self, o: Self) -> Self {
                if self >= o { self.wrapping_sub(o) } else { o.wrapping_sub(self) }
            }
            pub fn from_str_radix(s: &str, r: u32) -> Result<Self, bnum::errors::ParseIntError> {
                <$b>::from_str_radix(s, r).map(Self::of)
            }
            /// value as u128 when it fits
            pub fn to_u128(self) -> Option<u128> {
                if self.live() {
                    with(|e| {
                        let p = self.poly(e);
                        if e.decide(Con::Ge(p.neg().addc((I::ONE << 128u32) - I::ONE))) {
                            Some(<u128 as W>::mk(e, p))
                        } else {
                            None
                        }
                    })
                } else if self.0[2..].iter().all(|d| *d == 0) {
                    Some(self.0[0] as u128 | ((self.0[1] as u128) << 64))
                } else {
                    None
                }
            }
            pub fn exact(self) -> Exact {
                with(|e| Exact(self.poly(e)))
            }
        }
        impl Shl<u32> for $name {
            type Output = Self;
            fn shl(self, s: u32) -> Self {
                if self.live() {
                    with(|e| {
                        let x = self.poly(e);
                        let p = p_shl(e, &x, s, $bits);
                        Self::mk(e, p)
                    })
                } else {
                    Self::of(self.b() << s)
                }
            }
        }
        impl Shr<u32> for $name {
            type Output = Self;
            fn shr(self, s: u32) -> Self {
                if self.live() {
                    with(|e| {
                        let x = self.poly(e);
                        let p = e.quot(&x, &Poly::konst(pow2(s)));
                        Self::mk(e, p)
                    })
                } else {
                    Self::of(self.b() >> s)
                }
            }
        }
        impl Not for $name {
            type Output = Self;
            fn not(self) -> Self {
                if self.live() {
                    with(|e| {
                        let p = self.poly(e).neg().addc((I::ONE << $bits) - I::ONE);
                        Self::mk(e, p)
                    })
                } else {
                    Self::of(!self.b())
                }
            }
        }
        impl Rem for $name {
            type Output = Self;
            fn rem(self, o: Self) -> Self {
                self.checked_rem(o).expect("attempt to calculate remainder with divisor of zero")
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                if self.live() || o.live() {
                    self.0 == o.0
                        || with(|e| {
                            let (x, y) = (self.poly(e), o.poly(e));
                            p_eq(e, &x, &y)
                        })
                } else {
                    self.0 == o.0
                }
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
            fn lt(&self, o: &Self) -> bool {
                if self.live() || o.live() {
                    with(|e| {
                        let (x, y) = (self.poly(e), o.poly(e));
                        p_lt(e, &x, &y)
                    })
                } else {
                    self.b() < o.b()
                }
            }
            fn le(&self, o: &Self) -> bool {
                if self.live() || o.live() {
                    with(|e| {
                        let (x, y) = (self.poly(e), o.poly(e));
                        p_le(e, &x, &y)
                    })
                } else {
                    self.b() <= o.b()
                }
            }
            fn gt(&self, o: &Self) -> bool {
                o.lt(self)
            }
            fn ge(&self, o: &Self) -> bool {
                o.le(self)
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                if self.live() || o.live() {
                    with(|e| {
                        let (x, y) = (self.poly(e), o.poly(e));
                        p_cmp(e, &x, &y)
                    })
                } else {
                    self.b().cmp(&o.b())
                }
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Display::fmt(&self.b(), f)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Debug::fmt(&self.b(), f)
            }
        }
        impl From<u128> for $name {
            fn from(v: u128) -> Self {
                Self::from_u128(v)
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::from_u128(v as u128)
            }
        }
        impl From<u32> for $name {
            fn from(v: u32) -> Self {
                Self::from_u128(v as u128)
            }
        }
        impl From<u16> for $name {
            fn from(v: u16) -> Self {
                Self::from_u128(v as u128)
            }
        }
        impl From<u8> for $name {
            fn from(v: u8) -> Self {
                Self::from_u128(v as u128)
            }
        }
        impl TryFrom<$name> for u128 {
            type Error = ();
            fn try_from(v: $name) -> Result<u128, ()> {
                v.to_u128().ok_or(())
            }
        }
        impl TryFrom<$name> for u64 {
            type Error = ();
            fn try_from(v: $name) -> Result<u64, ()> {
                let x = v.to_u128().ok_or(())?;
                if h_le_u128(x, u64::MAX as u128) { Ok(h_cast_u128_u64(x)) } else { Err(()) }
            }
        }
    };
}
wide!(U256, 4, 256u32, bnum::types::U256);
wide!(U512, 8, 512u32, bnum::types::U512);

impl U512 {
    pub const fn from_u256(v: U256) -> Self {
        let d = v.0;
        if is_tag(&d) {
            Self([d[0], 0, 0, 0, 0, 0, 0, TAG128 as u64])
        } else {
            Self([d[0], d[1], d[2], d[3], 0, 0, 0, 0])
        }
    }
    pub fn to_u256(self) -> Option<U256> {
        if self.live() {
            with(|e| {
                let p = self.poly(e);
                if e.decide(Con::Ge(p.neg().addc((I::ONE << 256u32) - I::ONE))) {
                    Some(U256::mk(e, p))
                } else {
                    None
                }
            })
        } else if self.0[4..].iter().all(|d| *d == 0) {
            Some(U256([self.0[0], self.0[1], self.0[2], self.0[3]]))
        } else {
            None
        }
    }
}

// ---- bridges to the signed bnum types ----
use bnum::cast::{As, CastFrom};
macro_rules! bridge {
    ($w:ident, $b:ty; $($s:ty),*) => {$(
        impl CastFrom<$s> for $w {
            fn cast_from(v: $s) -> Self {
                let b: $b = v.as_();
                Self(*b.digits())
            }
        }
        impl CastFrom<$w> for $s {
            fn cast_from(v: $w) -> Self {
                <$b>::from_digits(v.concrete_digits()).as_()
            }
        }
    )*};
}
bridge!(U256, bnum::types::U256; bnum::types::I256, bnum::types::I512, i64, i128);
bridge!(U512, bnum::types::U512; bnum::types::I256, bnum::types::I512, i64, i128);
macro_rules! to_i128 {
    ($($w:ident),*) => {$(
        impl TryFrom<$w> for i128 {
            type Error = ();
            fn try_from(v: $w) -> Result<i128, ()> {
                let x = h_conc_u128(v.to_u128().ok_or(())?);
                i128::try_from(x).map_err(|_| ())
            }
        }
        impl TryFrom<$w> for i64 {
            type Error = ();
            fn try_from(v: $w) -> Result<i64, ()> {
                let x = h_conc_u128(v.to_u128().ok_or(())?);
                i64::try_from(x).map_err(|_| ())
            }
        }
    )*};
}
to_i128!(U256, U512);
