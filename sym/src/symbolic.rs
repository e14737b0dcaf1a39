use crate::Scenario;
use symrt::explore::{explore, report, Opts};
pub const SYMBOLIC: bool = true;

#[derive(Clone, Debug)]
pub struct Z(symrt::Exact);
impl From<u128> for Z {
    fn from(v: u128) -> Z {
        Z(symrt::exact(v))
    }
}
impl From<u64> for Z {
    fn from(v: u64) -> Z {
        Z(symrt::exact(symrt::h_cast_u64_u128(v)))
    }
}
impl Z {
    pub fn from_digits(d: &[u64]) -> Z {
        Z(symrt::exact_wide(d))
    }
    /// floor division by a positive number
    pub fn div(&self, o: &Z) -> Z {
        Z(symrt::exact_div(&self.0, &o.0))
    }
}
impl std::ops::Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z(symrt::Exact(self.0 .0.add(&o.0 .0)))
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        Z(symrt::Exact(self.0 .0.sub(&o.0 .0)))
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        Z(symrt::Exact(self.0 .0.mul(&o.0 .0)))
    }
}
pub(crate) fn zero_l(l: Option<&str>, z: &Z) -> bool {
    symrt::exact_eq0(l, &z.0)
}
pub(crate) fn nonneg_l(l: Option<&str>, z: &Z) -> bool {
    symrt::exact_ge0(l, &z.0)
}
pub fn observe_z(name: &str, z: &Z) {
    symrt::engine::with(|e| {
        e.observed.push((name.to_string(), symrt::engine::Obs::Term(z.0 .0.clone())))
    })
}
pub fn u128(name: &str, lo: u128, hi: u128) -> u128 {
    symrt::sym_u128(name, lo, hi)
}
pub fn u64(name: &str, lo: u64, hi: u64) -> u64 {
    symrt::sym_u64(name, lo, hi)
}
pub fn choose(name: &str, n: u32) -> u32 {
    symrt::sym_choose(name, n)
}
pub fn assume_le(a: impl Into<Z>, b: impl Into<Z>) {
    let d = b.into() - a.into();
    symrt::exact_assume_ge(&d.0)
}
pub fn assume_lt(a: impl Into<Z>, b: impl Into<Z>) {
    let d = b.into() - a.into() - Z::from(1u64);
    symrt::exact_assume_ge(&d.0)
}
pub fn assume(c: bool) {
    if !c {
        symrt::sym_infeasible()
    }
}
pub fn fail(label: &str, msg: &str) -> ! {
    symrt::sym_fail(label, msg)
}
pub fn count(label: &str) {
    symrt::sym_count(label)
}
pub fn cover(label: &str) {
    symrt::sym_cover(label)
}
pub fn observe(name: &str, v: u128) {
    symrt::sym_observe(name, v)
}
pub fn note(name: &str, v: &str) {
    symrt::sym_note(name, v)
}
/// Runs code under test; a panic in it is an error result.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if symrt::is_abort(&*p) {
                std::panic::resume_unwind(p)
            }
            Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
        }
    }
}

pub fn main(all: &[Scenario]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let thorough = args.iter().any(|a| a == "--thorough");
    let list: Vec<symrt::explore::Scenario> = all
        .iter()
        .filter(|s| get("--prop").map_or(true, |p| p == s.prop || (thorough && s.prop.strip_suffix('+') == Some(&p)) || get("--scenario").is_some()))
        .filter(|s| get("--scenario").map_or(true, |p| p == s.name))
        .map(|s| symrt::explore::Scenario { prop: s.prop, name: s.name, bounds: s.bounds, covers: s.covers, run: s.run })
        .collect();
    if list.is_empty() {
        eprintln!("no such scenario");
        std::process::exit(3);
    }
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let t = std::time::Instant::now();
    let opts = Opts {
        threads: num("--threads", 8) as usize,
        time: std::time::Duration::from_secs(num("--time", 60)),
        query_ms: num("--query-ms", 1500),
        fallback_ms: num("--fallback-ms", 6000),
        conc_limit: num("--conc-limit", 24) as u32,
        known: get("--known").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default(),
        max_new_violations: num("--max-violations", 6) as usize,
        samples: num("--samples", 6) as usize,
        debug: args.iter().any(|a| a == "--debug"),
    };
    let (ctx, ex) = explore(&list, opts);
    let r = report(&ctx, &list, ex, t.elapsed().as_secs_f64());
    match get("--out") {
        Some(p) => std::fs::write(p, r).unwrap(),
        None => println!("{r}"),
    }
    std::process::exit(0)
}
