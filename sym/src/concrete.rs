use crate::Scenario;
use std::cell::RefCell;
pub const SYMBOLIC: bool = false;
type B = bnum::BInt<14>;

#[derive(Clone, Debug)]
pub struct Z(B);
impl From<u128> for Z {
    fn from(v: u128) -> Z {
        Z(B::from(v))
    }
}
impl From<u64> for Z {
    fn from(v: u64) -> Z {
        Z(B::from(v))
    }
}
impl Z {
    pub fn from_digits(d: &[u64]) -> Z {
        let mut b = [0u64; 14];
        b[..d.len()].copy_from_slice(d);
        Z(B::from_bits(bnum::BUint::<14>::from_digits(b)))
    }
    pub fn div(&self, o: &Z) -> Z {
        let q = self.0 / o.0;
        if self.0.is_negative() && q * o.0 != self.0 { Z(q - B::ONE) } else { Z(q) }
    }
}
impl std::ops::Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z(self.0.checked_add(o.0).unwrap())
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        Z(self.0.checked_sub(o.0).unwrap())
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        Z(self.0.checked_mul(o.0).unwrap())
    }
}
pub(crate) fn zero_l(l: Option<&str>, z: &Z) -> bool {
    if let Some(l) = l {
        count(l)
    }
    z.0.is_zero()
}
pub(crate) fn nonneg_l(l: Option<&str>, z: &Z) -> bool {
    if let Some(l) = l {
        count(l)
    }
    !z.0.is_negative()
}

enum Stop {
    Infeasible,
    Violation(String, String),
    Mismatch(String),
}
#[derive(Default)]
struct Replay {
    inputs: Vec<(String, String)>,
    pos: usize,
    observed: Vec<(String, String)>,
}
thread_local! {
    static R: RefCell<Replay> = RefCell::new(Replay::default());
    static LOC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn stop(s: Stop) -> ! {
    std::panic::resume_unwind(Box::new(s))
}
fn input(name: &str) -> u128_ {
    R.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.pos;
        match r.inputs.get(p).cloned() {
            Some((n, v)) if n == name => {
                r.pos += 1;
                v.parse().unwrap()
            }
            Some((n, _)) => stop(Stop::Mismatch(format!("asked for {name}, have {n}"))),
            None => stop(Stop::Mismatch(format!("asked for {name}, no input left"))),
        }
    })
}
#[allow(non_camel_case_types)]
type u128_ = std::primitive::u128;
pub fn observe_z(name: &str, z: &Z) {
    R.with(|r| r.borrow_mut().observed.push((name.to_string(), z.0.to_string())))
}
pub fn u128(name: &str, lo: u128_, hi: u128_) -> u128_ {
    let v = input(name);
    if v < lo || v > hi {
        stop(Stop::Infeasible)
    }
    v
}
pub fn u64(name: &str, lo: std::primitive::u64, hi: std::primitive::u64) -> std::primitive::u64 {
    let v = input(name) as std::primitive::u64;
    if v < lo || v > hi {
        stop(Stop::Infeasible)
    }
    v
}
pub fn choose(name: &str, n: u32) -> u32 {
    let v = input(name) as u32;
    if v >= n {
        stop(Stop::Infeasible)
    }
    v
}
pub fn assume_le(a: impl Into<Z>, b: impl Into<Z>) {
    if !(b.into().0 >= a.into().0) {
        stop(Stop::Infeasible)
    }
}
pub fn assume_lt(a: impl Into<Z>, b: impl Into<Z>) {
    if !(b.into().0 > a.into().0) {
        stop(Stop::Infeasible)
    }
}
pub fn assume(c: bool) {
    if !c {
        stop(Stop::Infeasible)
    }
}
pub fn fail(label: &str, msg: &str) -> ! {
    stop(Stop::Violation(label.into(), msg.into()))
}
pub fn count(_label: &str) {}
pub fn cover(_label: &str) {}
pub fn observe(name: &str, v: u128_) {
    R.with(|r| r.borrow_mut().observed.push((name.to_string(), v.to_string())))
}
pub fn note(name: &str, v: &str) {
    R.with(|r| r.borrow_mut().observed.push((name.to_string(), v.to_string())))
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Stop>() {
                std::panic::resume_unwind(p)
            }
            Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
        }
    }
}

/// `replay FILE [--trace]`: the file holds cases "S scenario" / "I name value" / "END".
pub fn main(all: &[Scenario]) {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a == "--list") == Some(true) {
        for s in all {
            println!("{}\t{}\t{}", s.prop, s.name, s.bounds);
        }
        return;
    }
    let trace = args.iter().any(|a| a == "--trace");
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOC.with(|p| *p.borrow_mut() = l);
    }));
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut scen = String::new();
    let mut inputs = vec![];
    let mut k = 0;
    for line in text.lines() {
        let mut p = line.splitn(3, ' ');
        match p.next() {
            Some("S") => {
                scen = p.next().unwrap().to_string();
                inputs = vec![];
            }
            Some("I") => {
                let n = p.next().unwrap().to_string();
                inputs.push((n, p.next().unwrap().to_string()));
            }
            Some("END") => {
                let s = all.iter().find(|s| s.name == scen);
                let Some(s) = s else {
                    println!("CASE {k} unknown-scenario {scen}");
                    k += 1;
                    continue;
                };
                R.with(|r| *r.borrow_mut() = Replay { inputs: inputs.clone(), ..Default::default() });
                if trace {
                    for (n, v) in &inputs {
                        println!("  input {n} = {v}");
                    }
                }
                let out = match std::panic::catch_unwind(s.run) {
                    Ok(()) => "ok".to_string(),
                    Err(p) => match p.downcast::<Stop>() {
                        Ok(s) => match *s {
                            Stop::Infeasible => "infeasible".into(),
                            Stop::Violation(l, m) => format!("violation {l} {m}"),
                            Stop::Mismatch(m) => format!("mismatch {m}"),
                        },
                        Err(p) => format!(
                            "violation harness-panic {} at {}",
                            p.downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default()
                                .replace('\n', " "),
                            LOC.with(|l| l.borrow().clone())
                        ),
                    },
                };
                R.with(|r| {
                    for (n, v) in &r.borrow().observed {
                        println!("O {n} {v}");
                    }
                });
                println!("CASE {k} {out}");
                k += 1;
            }
            _ => {}
        }
    }
}
