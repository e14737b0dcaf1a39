//! What the harnesses are written against. Built with `symbolic` the inputs
//! are symbolic; built without it the same harness reads its inputs from a
//! replay file and runs on the unmodified contracts and libraries.
#[cfg(feature = "symbolic")]
mod symbolic;
#[cfg(feature = "symbolic")]
pub use symbolic::*;
#[cfg(not(feature = "symbolic"))]
mod concrete;
#[cfg(not(feature = "symbolic"))]
pub use concrete::*;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub bounds: &'static str,
    pub covers: &'static [&'static str],
    pub run: fn(),
}

pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// one of the given values, explored one by one
pub fn pick<T: Copy>(name: &str, of: &[T]) -> T {
    of[choose(name, of.len() as u32) as usize]
}

pub fn check(label: &str, cond: bool, msg: &str) {
    count(label);
    if !cond {
        fail(label, msg)
    }
}
pub fn check_eq(label: &str, a: impl Into<Z>, b: impl Into<Z>, msg: &str) {
    let (a, b) = (a.into(), b.into());
    if !zero_l(Some(label), &(a.clone() - b.clone())) {
        observe_z("left", &a);
        observe_z("right", &b);
        fail(label, msg)
    }
}
pub fn check_le(label: &str, a: impl Into<Z>, b: impl Into<Z>, msg: &str) {
    let (a, b) = (a.into(), b.into());
    if !nonneg_l(Some(label), &(b.clone() - a.clone())) {
        observe_z("left", &a);
        observe_z("right", &b);
        fail(label, msg)
    }
}
pub fn check_lt(label: &str, a: impl Into<Z>, b: impl Into<Z>, msg: &str) {
    check_le(label, a.into() + Z::from(1u64), b, msg)
}

impl Z {
    pub fn ge(&self, o: &Z) -> bool {
        nonneg_l(None, &(self.clone() - o.clone()))
    }
    pub fn le(&self, o: &Z) -> bool {
        o.ge(self)
    }
    pub fn lt(&self, o: &Z) -> bool {
        !self.ge(o)
    }
    pub fn gt(&self, o: &Z) -> bool {
        !o.ge(self)
    }
    pub fn is(&self, o: &Z) -> bool {
        zero_l(None, &(self.clone() - o.clone()))
    }
    pub fn is_zero(&self) -> bool {
        zero_l(None, self)
    }
    pub fn min(&self, o: &Z) -> Z {
        if self.le(o) { self.clone() } else { o.clone() }
    }
    pub fn max(&self, o: &Z) -> Z {
        if self.le(o) { o.clone() } else { self.clone() }
    }
}
macro_rules! zops {
    ($($tr:ident $f:ident),*) => {$(
        impl std::ops::$tr<&Z> for &Z { type Output = Z; fn $f(self, o: &Z) -> Z { std::ops::$tr::$f(self.clone(), o.clone()) } }
        impl std::ops::$tr<&Z> for Z { type Output = Z; fn $f(self, o: &Z) -> Z { std::ops::$tr::$f(self, o.clone()) } }
        impl std::ops::$tr<Z> for &Z { type Output = Z; fn $f(self, o: Z) -> Z { std::ops::$tr::$f(self.clone(), o) } }
        impl std::ops::$tr<u128> for Z { type Output = Z; fn $f(self, o: u128) -> Z { std::ops::$tr::$f(self, Z::from(o)) } }
        impl std::ops::$tr<u128> for &Z { type Output = Z; fn $f(self, o: u128) -> Z { std::ops::$tr::$f(self.clone(), Z::from(o)) } }
    )*};
}
zops!(Add add, Sub sub, Mul mul);
impl std::iter::Sum for Z {
    fn sum<I: Iterator<Item = Z>>(it: I) -> Z {
        it.fold(Z::from(0u64), |a, b| a + b)
    }
}
impl From<&Z> for Z {
    fn from(z: &Z) -> Z {
        z.clone()
    }
}
