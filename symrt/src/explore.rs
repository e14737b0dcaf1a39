//! Exhaustive exploration of the feasible paths of a set of scenarios.
use crate::engine::*;
use crate::poly::I;
use crate::solver;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Opts {
    pub threads: usize,
    pub time: Duration,
    pub query_ms: u64,
    pub fallback_ms: u64,
    pub conc_limit: u32,
    pub known: Vec<String>,
    pub max_new_violations: usize,
    pub samples: usize,
    pub debug: bool,
}

pub struct Job {
    pub scenario: usize,
    pub prefix: Arc<Vec<Dec>>,
    pub model: HashMap<u32, I>,
}

pub struct Ctx {
    pub opts: Opts,
    pub queue: Mutex<Vec<Job>>,
    pub cv: Condvar,
    pub busy: AtomicUsize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub cache: Mutex<HashMap<String, Option<Vec<(u32, I)>>>>,
    pub mismatch: AtomicU64,
    pub undecided: AtomicU64,
    pub conc_limited: AtomicU64,
    pub timed_out: AtomicBool,
    pub res: Mutex<Results>,
    rng: AtomicU64,
}

#[derive(Default, Clone)]
pub struct ScenStat {
    pub paths: u64,
    pub infeasible: u64,
    pub incomplete: u64,
    pub covers: BTreeMap<String, u64>,
    pub max_decisions: usize,
    pub max_inputs: usize,
    pub micros: u64,
}
#[derive(Clone)]
pub struct Violation {
    pub scenario: usize,
    pub label: String,
    pub msg: String,
    pub inputs: Vec<(String, String)>,
    pub tainted: bool,
}
#[derive(Clone)]
pub struct Sample {
    pub scenario: usize,
    pub inputs: Vec<(String, String)>,
    pub observed: Vec<(String, String)>,
}
#[derive(Default)]
pub struct Results {
    pub scen: Vec<ScenStat>,
    pub checks: BTreeMap<(usize, String), CheckStat>,
    pub violations: Vec<Violation>,
    pub viol_count: BTreeMap<(usize, String), u64>,
    pub samples: Vec<Sample>,
    pub incomplete: BTreeMap<String, u64>,
    pub engine_errors: Vec<String>,
    pub fns: HashSet<u64>,
    pub sample_seen: Vec<u64>,
    pub undecided_labels: BTreeSet<String>,
}

impl Ctx {
    pub fn push(&self, j: Job) {
        self.queue.lock().unwrap().push(j);
        self.cv.notify_one();
    }
    pub fn check_time(&self) {
        if self.stop.load(Relaxed) {
            incomplete("stopped");
        }
        if Instant::now() > self.deadline {
            self.timed_out.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            self.cv.notify_all();
            incomplete("time limit");
        }
    }
    fn rand(&self) -> u64 {
        let x = self.rng.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn next(&self) -> Option<Job> {
        let mut q = self.queue.lock().unwrap();
        loop {
            if self.stop.load(Relaxed) {
                return None;
            }
            if !q.is_empty() {
                self.busy.fetch_add(1, SeqCst);
                let n = q.len();
                // mostly depth first, sometimes anywhere (so a time limit does not starve a part)
                let k = if self.rand() % 3 == 0 { (self.rand() as usize) % n } else { n - 1 };
                return Some(q.swap_remove(k));
            }
            if self.busy.load(SeqCst) == 0 {
                self.cv.notify_all();
                return None;
            }
            let (g, _) = self.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
            q = g;
            if Instant::now() > self.deadline {
                self.timed_out.store(true, Relaxed);
                self.stop.store(true, Relaxed);
            }
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn inputs_of(e: &Engine) -> Vec<(String, String)> {
    let mut memo = HashMap::new();
    e.inputs
        .iter()
        .map(|(n, i)| {
            let v = match i {
                Input::Atom(a) => e.val_atom(*a, &e.model, &mut memo).to_string(),
                Input::Choice(c) => c.to_string(),
            };
            (n.clone(), v)
        })
        .collect()
}

fn run_job(ctx: &Arc<Ctx>, job: Job, scen: &[Scenario]) {
    let s = job.scenario;
    let t0 = Instant::now();
    let eng = Box::new(Engine::new(&job, ctx.clone()));
    ENGINE.with(|e| *e.borrow_mut() = Some(eng));
    ACTIVE.with(|a| a.set(true));
    let f = scen[s].run;
    let r = std::panic::catch_unwind(f);
    ACTIVE.with(|a| a.set(false));
    let eng = ENGINE.with(|e| e.borrow_mut().take()).unwrap();
    let mut res = ctx.res.lock().unwrap();
    let st = &mut res.scen[s];
    st.micros += t0.elapsed().as_micros() as u64;
    st.max_decisions = st.max_decisions.max(eng.trace.len());
    st.max_inputs = st.max_inputs.max(eng.inputs.len());
    let mut completed = false;
    let mut violation = None;
    match r {
        Ok(()) => {
            st.paths += 1;
            completed = true;
        }
        Err(p) => match p.downcast::<Abort>() {
            Ok(a) => match *a {
                Abort::Infeasible => st.infeasible += 1,
                Abort::Incomplete(w) => {
                    st.incomplete += 1;
                    *res.incomplete.entry(w).or_default() += 1;
                }
                Abort::Violation(l, m) => {
                    st.paths += 1;
                    violation = Some((l, m));
                }
                Abort::EngineError(m) => {
                    if res.engine_errors.len() < 20 {
                        res.engine_errors.push(format!("{}: {m}", scen[s].name));
                    }
                }
            },
            Err(p) => {
                st.paths += 1;
                let m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                let loc = LAST_PANIC.with(|l| l.borrow().clone());
                violation = Some(("harness-panic".to_string(), format!("{m} at {loc}")));
            }
        },
    }
    for c in &eng.covers {
        *res.scen[s].covers.entry(c.clone()).or_default() += 1;
    }
    for (l, c) in &eng.checks {
        let d = res.checks.entry((s, l.clone())).or_default();
        d.evals += c.evals;
        d.by_interval += c.by_interval;
        d.by_solver += c.by_solver;
        d.undecided += c.undecided;
        if c.undecided > 0 {
            res.undecided_labels.insert(format!("{}/{}", scen[s].name, l));
        }
    }
    res.fns.extend(eng.fns.iter());
    if let Some((label, msg)) = violation {
        let n = {
            let c = res.viol_count.entry((s, label.clone())).or_default();
            *c += 1;
            *c
        };
        let known = ctx.opts.known.iter().any(|k| *k == format!("{}/{}", scen[s].name, label));
        if n <= 3 {
            let v = Violation {
                scenario: s,
                label: label.clone(),
                msg,
                inputs: inputs_of(&eng),
                tainted: eng.undecided > 0,
            };
            if ctx.opts.debug {
                eprintln!("VIOLATION {}/{}: {} {:?}", scen[s].name, v.label, v.msg, v.inputs);
                if ctx.opts.debug {
                    for (n, o) in &eng.observed {
                        let t = match o { Obs::Term(p) => eng.value(p).to_string(), Obs::Text(t) => t.clone() };
                        eprintln!("    {n} = {t}");
                    }
                }
            }
            res.violations.push(v);
        }
        if !known {
            let newv: u64 = res
                .viol_count
                .iter()
                .filter(|((sc, l), _)| {
                    !ctx.opts.known.iter().any(|k| *k == format!("{}/{}", scen[*sc].name, l))
                })
                .map(|x| *x.1)
                .sum();
            if newv as usize >= ctx.opts.max_new_violations {
                ctx.stop.store(true, Relaxed);
                ctx.cv.notify_all();
            }
        }
    } else if completed {
        res.sample_seen[s] += 1;
        let n = res.sample_seen[s];
        // a spread of completed paths, replayed on the ordinary build
        let per = ctx.opts.samples;
        let slot = if (n as usize) <= per {
            Some(None)
        } else {
            let r = ctx.rand() % n;
            if (r as usize) < per {
                Some(Some(r as usize))
            } else {
                None
            }
        };
        if let Some(slot) = slot {
            let smp = Sample {
                scenario: s,
                inputs: inputs_of(&eng),
                observed: eng
                    .observed
                    .iter()
                    .map(|(n, o)| {
                        (
                            n.clone(),
                            match o {
                                Obs::Term(p) => eng.value(p).to_string(),
                                Obs::Text(t) => t.clone(),
                            },
                        )
                    })
                    .collect(),
            };
            match slot {
                None => res.samples.push(smp),
                Some(k) => {
                    let ix: Vec<usize> = (0..res.samples.len())
                        .filter(|i| res.samples[*i].scenario == s)
                        .collect();
                    if let Some(i) = ix.get(k) {
                        let i = *i;
                        res.samples[i] = smp;
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub bounds: &'static str,
    pub covers: &'static [&'static str],
    pub run: fn(),
}

pub fn explore(scen: &[Scenario], opts: Opts) -> (Arc<Ctx>, bool) {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
    let ctx = Arc::new(Ctx {
        deadline: Instant::now() + opts.time,
        opts,
        queue: Mutex::new(vec![]),
        cv: Condvar::new(),
        busy: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        cache: Mutex::new(HashMap::new()),
        mismatch: AtomicU64::new(0),
        undecided: AtomicU64::new(0),
        conc_limited: AtomicU64::new(0),
        timed_out: AtomicBool::new(false),
        res: Mutex::new(Results {
            scen: vec![ScenStat::default(); scen.len()],
            sample_seen: vec![0; scen.len()],
            ..Default::default()
        }),
        rng: AtomicU64::new(1),
    });
    for s in (0..scen.len()).rev() {
        ctx.push(Job { scenario: s, prefix: Arc::new(vec![]), model: HashMap::new() });
    }
    let mut hs = vec![];
    for _ in 0..ctx.opts.threads {
        let ctx = ctx.clone();
        let scen = scen.to_vec();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    while let Some(j) = ctx.next() {
                        run_job(&ctx, j, &scen);
                        ctx.busy.fetch_sub(1, SeqCst);
                        ctx.cv.notify_all();
                    }
                    SOLVER.with(|s| *s.borrow_mut() = solver::Solver::new());
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let exhausted = ctx.queue.lock().unwrap().is_empty() && !ctx.stop.load(Relaxed);
    (ctx, exhausted)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn pairs(v: &[(String, String)]) -> String {
    let x: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
    format!("[{}]", x.join(","))
}

pub fn report(ctx: &Ctx, scen: &[Scenario], exhausted: bool, wall: f64) -> String {
    let r = ctx.res.lock().unwrap();
    let left = ctx.queue.lock().unwrap();
    let mut o = String::from("{\n");
    o.push_str(&format!("\"exhausted\": {exhausted},\n\"wall_s\": {wall:.2},\n"));
    o.push_str(&format!("\"timed_out\": {},\n", ctx.timed_out.load(Relaxed)));
    o.push_str(&format!("\"frontier_left\": {},\n", left.len()));
    o.push_str(&format!(
        "\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"portfolio_runs\": {}, \"solver_seconds\": {:.2}, \"max_query_ms\": {}, \"model_mismatch\": {}}},\n",
        solver::QUERIES.load(Relaxed),
        solver::SAT.load(Relaxed),
        solver::UNSAT.load(Relaxed),
        solver::UNKNOWN.load(Relaxed),
        solver::FALLBACK.load(Relaxed),
        solver::MICROS.load(Relaxed) as f64 / 1e6,
        solver::MAX_MICROS.load(Relaxed) / 1000,
        ctx.mismatch.load(Relaxed),
    ));
    o.push_str(&format!(
        "\"undecided_branches\": {},\n\"concretization_limited\": {},\n",
        ctx.undecided.load(Relaxed),
        ctx.conc_limited.load(Relaxed)
    ));
    let inc: Vec<String> = r.incomplete.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    o.push_str(&format!("\"incomplete\": {{{}}},\n", inc.join(",")));
    let ee: Vec<String> = r.engine_errors.iter().map(|s| js(s)).collect();
    o.push_str(&format!("\"engine_errors\": [{}],\n", ee.join(",")));
    let ul: Vec<String> = r.undecided_labels.iter().map(|s| js(s)).collect();
    o.push_str(&format!("\"undecided_assertions\": [{}],\n", ul.join(",")));
    o.push_str("\"scenarios\": [\n");
    let mut parts = vec![];
    for (k, s) in scen.iter().enumerate() {
        let st = &r.scen[k];
        let left = left.iter().filter(|j| j.scenario == k).count();
        let cov: Vec<String> = st.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let need: Vec<String> = s.covers.iter().map(|s| js(s)).collect();
        let chk: Vec<String> = r
            .checks
            .iter()
            .filter(|((x, _), _)| *x == k)
            .map(|((_, l), c)| {
                format!(
                    "{}: {{\"evals\": {}, \"unsat_by_solver\": {}, \"by_interval\": {}, \"undecided\": {}}}",
                    js(l), c.evals, c.by_solver, c.by_interval, c.undecided
                )
            })
            .collect();
        parts.push(format!(
            "{{\"prop\": {}, \"name\": {}, \"bounds\": {}, \"paths\": {}, \"infeasible\": {}, \"incomplete\": {}, \"frontier_left\": {}, \"max_decisions\": {}, \"max_inputs\": {}, \"cpu_s\": {:.2}, \"covers\": {{{}}}, \"required_covers\": [{}], \"checks\": {{{}}}}}",
            js(s.prop), js(s.name), js(s.bounds), st.paths, st.infeasible, st.incomplete, left, st.max_decisions,
            st.max_inputs, st.micros as f64 / 1e6, cov.join(","), need.join(","), chk.join(",")
        ));
    }
    o.push_str(&parts.join(",\n"));
    o.push_str("\n],\n\"violations\": [\n");
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"scenario\": {}, \"label\": {}, \"msg\": {}, \"tainted\": {}, \"inputs\": {}}}",
                js(scen[v.scenario].name), js(&v.label), js(&v.msg), v.tainted, pairs(&v.inputs)
            )
        })
        .collect();
    o.push_str(&v.join(",\n"));
    o.push_str("\n],\n\"violation_counts\": {");
    let vc: Vec<String> = r
        .viol_count
        .iter()
        .map(|((s, l), n)| format!("{}: {}", js(&format!("{}/{}", scen[*s].name, l)), n))
        .collect();
    o.push_str(&vc.join(","));
    o.push_str("},\n\"samples\": [\n");
    let v: Vec<String> = r
        .samples
        .iter()
        .map(|v| {
            format!(
                "{{\"scenario\": {}, \"inputs\": {}, \"observed\": {}}}",
                js(scen[v.scenario].name), pairs(&v.inputs), pairs(&v.observed)
            )
        })
        .collect();
    o.push_str(&v.join(",\n"));
    o.push_str("\n],\n\"functions\": [");
    let mut f: Vec<u64> = r.fns.iter().copied().collect();
    f.sort_unstable();
    let f: Vec<String> = f.iter().map(|x| format!("\"{x:016x}\"")).collect();
    o.push_str(&f.join(","));
    o.push_str("]\n}\n");
    o
}
