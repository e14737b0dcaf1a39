//! Per-path symbolic state: terms, facts, path condition, decisions.
use crate::explore::{Ctx, Job};
use crate::poly::*;
use crate::solver::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub const TAG64: u64 = 0xC5A7_31F9;
/// Ids step by ten so that every tagged value ends in the digit 0: parsing one
/// from decimal text then meets no other tagged value on the way.
pub const TAG128: u128 = 0xc5a731f95eb2d40b;
const ID0: u32 = 8;

#[derive(Debug, Clone)]
pub enum Abort {
    Infeasible,
    Incomplete(String),
    Violation(String, String),
    EngineError(String),
}

pub fn incomplete(why: &str) -> ! {
    std::panic::resume_unwind(Box::new(Abort::Incomplete(why.to_string())))
}
pub fn abort(a: Abort) -> ! {
    std::panic::resume_unwind(Box::new(a))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B { val: bool, forced: bool, hash: u64 },
    Choice(u32),
    Conc { v: I, eq: bool, forced: bool },
}

#[derive(Clone, Debug)]
pub enum Con {
    Ge(Poly), // >= 0
    Eq(Poly),
    Ne(Poly),
}
impl Con {
    pub fn neg(&self) -> Con {
        match self {
            // not (p >= 0)  <=>  -p - 1 >= 0
            Con::Ge(p) => Con::Ge(p.neg().addc(I::NEG_ONE)),
            Con::Eq(p) => Con::Ne(p.clone()),
            Con::Ne(p) => Con::Eq(p.clone()),
        }
    }
    pub fn poly(&self) -> &Poly {
        match self {
            Con::Ge(p) | Con::Eq(p) | Con::Ne(p) => p,
        }
    }
}

pub enum Kind {
    Var(String),
    Quot(Poly, Poly),
}
pub struct Atom {
    pub kind: Kind,
    pub lo: I,
    pub hi: I,
    pub lo0: I,
    pub hi0: I,
}

pub struct Engine {
    pub atoms: Vec<Atom>,
    terms: Vec<Poly>,
    term_ix: HashMap<Poly, u32>,
    bounds: HashMap<Poly, (Option<I>, Option<I>)>,
    ne: HashSet<Poly>,
    quot_ix: HashMap<(Poly, Poly), u32>,
    quot_s: HashMap<(Poly, Poly), Poly>,
    pub pc: Vec<Con>,
    pub model: HashMap<u32, I>,
    prefix: Arc<Vec<Dec>>,
    pos: usize,
    pub trace: Vec<Dec>,
    /// (name, what) in order of creation
    pub inputs: Vec<(String, Input)>,
    pub observed: Vec<(String, Obs)>,
    pub covers: BTreeSet<String>,
    pub checks: BTreeMap<String, CheckStat>,
    pub undecided: u32,
    pub ctx: Arc<Ctx>,
    pub scenario: usize,
    pub fns: HashSet<u64>,
    cur_label: Option<String>,
}
#[derive(Clone)]
pub enum Input {
    Atom(u32),
    Choice(u32),
}
#[derive(Clone)]
pub enum Obs {
    Term(Poly),
    Text(String),
}
#[derive(Clone, Default, Debug)]
pub struct CheckStat {
    pub evals: u64,
    pub by_solver: u64,
    pub by_interval: u64,
    pub undecided: u64,
}

thread_local! {
    pub static ENGINE: RefCell<Option<Box<Engine>>> = const { RefCell::new(None) };
    pub static SOLVER: RefCell<Solver> = RefCell::new(Solver::new());
    pub static ACTIVE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENGINE.with(|e| {
        let mut b = e.borrow_mut();
        match b.as_mut() {
            Some(e) => f(e),
            None => panic!("symbolic value used outside of an exploration"),
        }
    })
}

fn hash_poly(kind: u8, p: &Poly) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    kind.hash(&mut h);
    for (m, c) in &p.0 {
        m.hash(&mut h);
        c.to_bits().digits().hash(&mut h);
    }
    h.finish()
}

/// p = s*g*m + c with m primitive, no constant, leading coefficient positive
struct Norm {
    m: Poly,
    k: I,
    c: I,
}
fn norm(p: &Poly) -> Norm {
    let c = p.constant_part();
    let n = p.without_const();
    if n.0.is_empty() {
        return Norm { m: n, k: I::ONE, c };
    }
    let mut g = n.content();
    if n.0[0].1.is_negative() {
        g = -g;
    }
    let m = if g == I::ONE { n } else { n.div_exact(g) };
    Norm { m, k: g, c }
}
fn div_ceil(a: I, b: I) -> I {
    -div_floor(-a, b)
}

impl Engine {
    pub fn new(job: &Job, ctx: Arc<Ctx>) -> Self {
        Engine {
            atoms: vec![],
            terms: vec![],
            term_ix: HashMap::new(),
            bounds: HashMap::new(),
            ne: HashSet::new(),
            quot_ix: HashMap::new(),
            quot_s: HashMap::new(),
            pc: vec![],
            model: job.model.clone(),
            prefix: job.prefix.clone(),
            pos: 0,
            trace: vec![],
            inputs: vec![],
            observed: vec![],
            covers: BTreeSet::new(),
            checks: BTreeMap::new(),
            undecided: 0,
            ctx,
            scenario: job.scenario,
            fns: HashSet::new(),
            cur_label: None,
        }
    }

    // ---- terms ----
    pub fn intern(&mut self, p: Poly) -> u32 {
        if let Some(i) = self.term_ix.get(&p) {
            return *i;
        }
        let i = ID0 + 10 * self.terms.len() as u32;
        self.terms.push(p.clone());
        self.term_ix.insert(p, i);
        i
    }
    pub fn term(&self, id: u32) -> Poly {
        match self.terms.get((id.wrapping_sub(ID0) / 10) as usize) {
            Some(p) => p.clone(),
            None => abort(Abort::EngineError(format!("stale term id {id}"))),
        }
    }

    fn atom_bounds(&self, a: u32) -> (I, I) {
        let a = &self.atoms[a as usize];
        (a.lo, a.hi)
    }
    fn naive(&self, p: &Poly) -> (I, I) {
        let (mut lo, mut hi) = (I::ZERO, I::ZERO);
        for (m, c) in &p.0 {
            let (mut l, mut h) = (I::ONE, I::ONE);
            for &a in m {
                let (al, ah) = self.atom_bounds(a);
                l = mul(l, al);
                h = mul(h, ah);
            }
            if c.is_negative() {
                lo = add(lo, mul(*c, h));
                hi = add(hi, mul(*c, l));
            } else {
                lo = add(lo, mul(*c, l));
                hi = add(hi, mul(*c, h));
            }
        }
        (lo, hi)
    }
    pub fn interval(&self, p: &Poly) -> (I, I) {
        if let Some(c) = p.as_const() {
            return (c, c);
        }
        let (mut lo, mut hi) = self.naive(p);
        let n = norm(p);
        if let Some((bl, bh)) = self.bounds.get(&n.m) {
            let (mut l, mut h) = (*bl, *bh);
            if n.k.is_negative() {
                std::mem::swap(&mut l, &mut h);
            }
            if let Some(l) = l {
                lo = lo.max(add(mul(n.k, l), n.c));
            }
            if let Some(h) = h {
                hi = hi.min(add(mul(n.k, h), n.c));
            }
        }
        (lo, hi)
    }
    fn set_bound(&mut self, m: &Poly, lo: Option<I>, hi: Option<I>) {
        if m.0.len() == 1 && m.0[0].0.len() == 1 && m.0[0].1 == I::ONE {
            let a = &mut self.atoms[m.0[0].0[0] as usize];
            if let Some(l) = lo {
                a.lo = a.lo.max(l);
            }
            if let Some(h) = hi {
                a.hi = a.hi.min(h);
            }
            // disequalities at the ends
            loop {
                let (l, h) = (self.atoms[m.0[0].0[0] as usize].lo, self.atoms[m.0[0].0[0] as usize].hi);
                if l < h && self.ne.contains(&m.addc(-l)) {
                    self.atoms[m.0[0].0[0] as usize].lo = add(l, I::ONE);
                } else if l < h && self.ne.contains(&m.addc(-h)) {
                    self.atoms[m.0[0].0[0] as usize].hi = sub(h, I::ONE);
                } else {
                    break;
                }
            }
            return;
        }
        let e = self.bounds.entry(m.clone()).or_insert((None, None));
        if let Some(l) = lo {
            e.0 = Some(e.0.map_or(l, |x| x.max(l)));
        }
        if let Some(h) = hi {
            e.1 = Some(e.1.map_or(h, |x| x.min(h)));
        }
    }
    /// record a constraint known to hold on this path
    pub fn fact(&mut self, c: &Con) {
        let p = c.poly();
        if p.as_const().is_some() {
            return;
        }
        let n = norm(p);
        match c {
            Con::Ge(_) => {
                // k*m + c >= 0
                if n.k.is_negative() {
                    // m <= floor(c / -k)
                    self.set_bound(&n.m, None, Some(div_floor(n.c, -n.k)));
                } else {
                    self.set_bound(&n.m, Some(div_ceil(-n.c, n.k)), None);
                }
            }
            Con::Eq(_) => {
                if (n.c % n.k).is_zero() {
                    let v = -(n.c / n.k);
                    self.set_bound(&n.m, Some(v), Some(v));
                }
            }
            Con::Ne(_) => {
                if (n.c % n.k).is_zero() {
                    let v = -(n.c / n.k);
                    self.ne.insert(n.m.addc(-v));
                    let (l, h) = self.interval(&n.m);
                    if l == v {
                        self.set_bound(&n.m, Some(add(v, I::ONE)), None);
                    } else if h == v {
                        self.set_bound(&n.m, None, Some(sub(v, I::ONE)));
                    }
                }
            }
        }
    }
    fn quick(&self, c: &Con) -> Option<bool> {
        let p = c.poly();
        let (lo, hi) = self.interval(p);
        match c {
            Con::Ge(_) => {
                if !lo.is_negative() {
                    Some(true)
                } else if hi.is_negative() {
                    Some(false)
                } else {
                    None
                }
            }
            Con::Eq(_) | Con::Ne(_) => {
                let pos = matches!(c, Con::Eq(_));
                if lo.is_zero() && hi.is_zero() {
                    return Some(pos);
                }
                if lo > I::ZERO || hi.is_negative() {
                    return Some(!pos);
                }
                let n = norm(p);
                if !(n.c % n.k).is_zero() {
                    return Some(!pos);
                }
                let v = -(n.c / n.k);
                if self.ne.contains(&n.m.addc(-v)) {
                    return Some(!pos);
                }
                None
            }
        }
    }

    // ---- models ----
    pub fn val_atom(&self, a: u32, model: &HashMap<u32, I>, memo: &mut HashMap<u32, I>) -> I {
        if let Some(v) = memo.get(&a) {
            return *v;
        }
        let v = match &self.atoms[a as usize].kind {
            Kind::Var(_) => match model.get(&a) {
                Some(v) => *v,
                None => self.atoms[a as usize].lo0,
            },
            Kind::Quot(n, d) => {
                let n = self.eval(n, model, memo);
                let d = self.eval(d, model, memo);
                if d <= I::ZERO {
                    I::ZERO
                } else {
                    div_floor(n, d)
                }
            }
        };
        memo.insert(a, v);
        v
    }
    pub fn eval(&self, p: &Poly, model: &HashMap<u32, I>, memo: &mut HashMap<u32, I>) -> I {
        let mut s = I::ZERO;
        for (m, c) in &p.0 {
            let mut t = *c;
            for &a in m {
                t = mul(t, self.val_atom(a, model, memo));
            }
            s = add(s, t);
        }
        s
    }
    pub fn value(&self, p: &Poly) -> I {
        self.eval(p, &self.model, &mut HashMap::new())
    }
    fn holds(&self, c: &Con, model: &HashMap<u32, I>, memo: &mut HashMap<u32, I>) -> bool {
        let v = self.eval(c.poly(), model, memo);
        match c {
            Con::Ge(_) => !v.is_negative(),
            Con::Eq(_) => v.is_zero(),
            Con::Ne(_) => !v.is_zero(),
        }
    }

    // ---- solver ----
    fn query(&mut self, extra: &Con) -> Option<Option<HashMap<u32, I>>> {
        // relevant slice
        let mut want: BTreeSet<u32> = BTreeSet::new();
        let mut stack = Vec::new();
        extra.poly().atoms(&mut stack);
        let pcat: Vec<Vec<u32>> = self
            .pc
            .iter()
            .map(|c| {
                let mut v = vec![];
                c.poly().atoms(&mut v);
                v
            })
            .collect();
        let mut used = vec![false; self.pc.len()];
        loop {
            while let Some(a) = stack.pop() {
                if want.insert(a) {
                    if let Kind::Quot(n, d) = &self.atoms[a as usize].kind {
                        n.atoms(&mut stack);
                        d.atoms(&mut stack);
                    }
                }
            }
            let mut grew = false;
            for (k, v) in pcat.iter().enumerate() {
                if !used[k] && v.iter().any(|a| self.touches(*a, &want)) {
                    used[k] = true;
                    stack.extend_from_slice(v);
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        let mut s = String::with_capacity(2048);
        let mut vars = Vec::new();
        for &a in &want {
            let at = &self.atoms[a as usize];
            s.push_str(&format!("(declare-const a{a} Int)\n"));
            s.push_str(&format!("(assert (<= {} a{a} {}))\n", num(at.lo), num(at.hi)));
            if let Kind::Var(_) = at.kind {
                vars.push(a);
            }
        }
        for &a in &want {
            if let Kind::Quot(n, d) = &self.atoms[a as usize].kind {
                let r = n.sub(&d.mul(&Poly::atom(a)));
                s.push_str(&format!("(assert (<= 0 {}))\n", smt(&r)));
                s.push_str(&format!("(assert (< {} {}))\n", smt(&r), smt(d)));
            }
        }
        // quotients by the same divisor are ordered as what is divided
        let quots: Vec<u32> = want
            .iter()
            .copied()
            .filter(|a| matches!(&self.atoms[*a as usize].kind, Kind::Quot(_, d) if d.as_const().is_none()))
            .collect();
        let mut lemmas = 0;
        for (i, &a) in quots.iter().enumerate() {
            for &b in &quots[..i] {
                let (Kind::Quot(n, d), Kind::Quot(m, e)) = (&self.atoms[a as usize].kind, &self.atoms[b as usize].kind) else {
                    continue;
                };
                if d == e && lemmas < 60 {
                    let r = smt(&n.sub(m));
                    s.push_str(&format!("(assert (=> (<= 0 {r}) (<= a{b} a{a})))\n(assert (=> (>= 0 {r}) (>= a{b} a{a})))\n"));
                    lemmas += 1;
                }
            }
        }
        for (k, c) in self.pc.iter().enumerate() {
            if used[k] {
                s.push_str(&smt_con(c));
            }
        }
        s.push_str(&smt_con(extra));
        let (ms, fb) = (self.ctx.opts.query_ms, self.ctx.opts.fallback_ms);
        if let Some(r) = self.ctx.cache.lock().unwrap().get(&s) {
            match r {
                None => return Some(None),
                Some(v) => {
                    let mut m = self.model.clone();
                    for (a, v) in v {
                        m.insert(*a, *v);
                    }
                    let mut memo = HashMap::new();
                    if self.pc.iter().all(|c| self.holds(c, &m, &mut memo))
                        && self.holds(extra, &m, &mut memo)
                    {
                        return Some(Some(m));
                    }
                }
            }
        }
        let r = SOLVER.with(|x| x.borrow_mut().check(&s, &vars, ms, fb));
        match r {
            Res::Unsat => {
                self.ctx.cache.lock().unwrap().insert(s, None);
                Some(None)
            }
            Res::Unknown => None,
            Res::Sat(v) => {
                let mut m = self.model.clone();
                let mut got = vec![];
                for (a, t) in v {
                    let Ok(x) = t.parse::<I>() else {
                        return None;
                    };
                    got.push((a, x));
                    m.insert(a, x);
                }
                let mut memo = HashMap::new();
                let ok = self.pc.iter().all(|c| self.holds(c, &m, &mut memo))
                    && self.holds(extra, &m, &mut memo)
                    && m.iter().all(|(a, v)| {
                        let at = &self.atoms.get(*a as usize);
                        at.map_or(true, |at| *v >= at.lo0 && *v <= at.hi0)
                    });
                if !ok {
                    self.ctx.mismatch.fetch_add(1, Relaxed);
                    return None;
                }
                self.ctx.cache.lock().unwrap().insert(s, Some(got));
                Some(Some(m))
            }
        }
    }
    fn touches(&self, a: u32, want: &BTreeSet<u32>) -> bool {
        if want.contains(&a) {
            return true;
        }
        if let Kind::Quot(n, d) = &self.atoms[a as usize].kind {
            let mut v = vec![];
            n.atoms(&mut v);
            d.atoms(&mut v);
            return v.into_iter().any(|x| self.touches(x, want));
        }
        false
    }

    fn enqueue(&self, dec: Dec, model: HashMap<u32, I>) {
        let mut t = self.trace.clone();
        t.push(dec);
        self.ctx.push(Job { scenario: self.scenario, prefix: Arc::new(t), model });
    }

    /// Decides a constraint on this path, forking when both answers are possible.
    pub fn decide(&mut self, c: Con) -> bool {
        if let Some(b) = self.quick(&c) {
            if let Some(l) = self.cur_label.clone() {
                self.checks.entry(l).or_default().by_interval += 1;
            }
            return b;
        }
        let hash = hash_poly(
            match c {
                Con::Ge(_) => 0,
                Con::Eq(_) => 1,
                Con::Ne(_) => 2,
            },
            c.poly(),
        );
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            let Dec::B { val, forced, hash: h } = d else {
                abort(Abort::EngineError("replay diverged (kind)".into()))
            };
            if h != hash {
                abort(Abort::EngineError("replay diverged (constraint)".into()));
            }
            let cc = if val { c } else { c.neg() };
            self.fact(&cc);
            if !forced {
                self.pc.push(cc);
            }
            self.trace.push(Dec::B { val, forced, hash });
            return val;
        }
        self.ctx.check_time();
        let b = self.holds(&c, &self.model, &mut HashMap::new());
        let other = if b { c.neg() } else { c.clone() };
        let mut forced = false;
        match self.query(&other) {
            Some(Some(m)) => self.enqueue(Dec::B { val: !b, forced: false, hash }, m),
            Some(None) => {
                forced = true;
                if let Some(l) = self.cur_label.clone() {
                    self.checks.entry(l).or_default().by_solver += 1;
                }
            }
            None => {
                self.undecided += 1;
                self.ctx.undecided.fetch_add(1, Relaxed);
                if let Some(l) = self.cur_label.clone() {
                    self.checks.entry(l).or_default().undecided += 1;
                }
            }
        }
        let cc = if b { c } else { c.neg() };
        self.fact(&cc);
        if !forced {
            self.pc.push(cc);
        }
        self.trace.push(Dec::B { val: b, forced, hash });
        b
    }
    pub fn decide_labelled(&mut self, label: &str, c: Con) -> bool {
        self.checks.entry(label.to_string()).or_default().evals += 1;
        self.cur_label = Some(label.to_string());
        let r = self.decide(c);
        self.cur_label = None;
        r
    }

    pub fn assume(&mut self, c: Con) {
        match self.quick(&c) {
            Some(true) => return,
            Some(false) => abort(Abort::Infeasible),
            None => {}
        }
        if !self.holds(&c, &self.model, &mut HashMap::new()) {
            match self.query(&c) {
                Some(Some(m)) => self.model = m,
                Some(None) => abort(Abort::Infeasible),
                None => {
                    self.ctx.undecided.fetch_add(1, Relaxed);
                    abort(Abort::Incomplete("assumption undecided".into()))
                }
            }
        }
        self.fact(&c);
        self.pc.push(c);
    }

    pub fn concretize(&mut self, p: &Poly) -> I {
        let mut tries = 0;
        loop {
            if let Some(c) = p.as_const() {
                return c;
            }
            let (lo, hi) = self.interval(p);
            if lo == hi {
                return lo;
            }
            tries += 1;
            if tries > self.ctx.opts.conc_limit {
                self.ctx.conc_limited.fetch_add(1, Relaxed);
                if std::env::var("SYM_TRACE_CONC").is_ok() {
                    eprintln!("concretized here: {}", std::backtrace::Backtrace::force_capture());
                }
                incomplete("too many values to enumerate");
            }
            if self.pos < self.prefix.len() {
                let d = self.prefix[self.pos].clone();
                self.pos += 1;
                let Dec::Conc { v, eq, forced } = d else {
                    abort(Abort::EngineError("replay diverged (conc)".into()))
                };
                let e = p.addc(-v);
                let c = if eq { Con::Eq(e) } else { Con::Ne(e) };
                self.fact(&c);
                if !forced {
                    self.pc.push(c);
                }
                self.trace.push(d_clone(&self.prefix[self.pos - 1]));
                if eq {
                    return v;
                }
                continue;
            }
            self.ctx.check_time();
            let v = self.value(p);
            let e = p.addc(-v);
            let mut forced = false;
            match self.query(&Con::Ne(e.clone())) {
                Some(Some(m)) => self.enqueue(Dec::Conc { v, eq: false, forced: false }, m),
                Some(None) => forced = true,
                None => {
                    self.undecided += 1;
                    self.ctx.undecided.fetch_add(1, Relaxed);
                }
            }
            let c = Con::Eq(e);
            self.fact(&c);
            if !forced {
                self.pc.push(c);
            }
            self.trace.push(Dec::Conc { v, eq: true, forced });
            return v;
        }
    }

    pub fn choose(&mut self, name: &str, n: u32) -> u32 {
        let k = if self.pos < self.prefix.len() {
            let Dec::Choice(k) = self.prefix[self.pos] else {
                abort(Abort::EngineError("replay diverged (choice)".into()))
            };
            self.pos += 1;
            k
        } else {
            for k in (1..n).rev() {
                self.enqueue(Dec::Choice(k), self.model.clone());
            }
            0
        };
        self.trace.push(Dec::Choice(k));
        self.inputs.push((name.to_string(), Input::Choice(k)));
        k
    }

    pub fn var(&mut self, name: &str, lo: I, hi: I) -> Poly {
        if lo > hi {
            abort(Abort::Infeasible);
        }
        if lo == hi {
            // still an input for the replay
            let a = self.atoms.len() as u32;
            self.atoms.push(Atom { kind: Kind::Var(name.into()), lo, hi, lo0: lo, hi0: hi });
            self.inputs.push((name.to_string(), Input::Atom(a)));
            return Poly::konst(lo);
        }
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom { kind: Kind::Var(name.into()), lo, hi, lo0: lo, hi0: hi });
        self.inputs.push((name.to_string(), Input::Atom(a)));
        Poly::atom(a)
    }

    /// floor(n / d) for d known to be positive, n >= 0
    pub fn quot(&mut self, n: &Poly, d: &Poly) -> Poly {
        if let Some(r) = self.quot_s.get(&(n.clone(), d.clone())) {
            return r.clone();
        }
        let r = self.quot_inner(n, d);
        self.quot_s.insert((n.clone(), d.clone()), r.clone());
        r
    }
    fn quot_inner(&mut self, n: &Poly, d: &Poly) -> Poly {
        if let (Some(a), Some(b)) = (n.as_const(), d.as_const()) {
            return Poly::konst(div_floor(a, b));
        }
        if n == d {
            return Poly::konst(I::ONE);
        }
        if let Some(b) = d.as_const() {
            if b == I::ONE {
                return n.clone();
            }
            // exact part
            let mut e = Vec::new();
            let mut r = Vec::new();
            for (m, c) in &n.0 {
                if m.is_empty() {
                    let q = div_floor(*c, b);
                    let rem = *c - q * b;
                    if !q.is_zero() {
                        e.push((m.clone(), q));
                    }
                    if !rem.is_zero() {
                        r.push((m.clone(), rem));
                    }
                } else if (*c % b).is_zero() {
                    e.push((m.clone(), *c / b));
                } else {
                    r.push((m.clone(), *c));
                }
            }
            let (e, mut r) = (Poly(e), Poly(r));
            let (lo, hi) = self.interval(&r);
            let mut e = e;
            if lo.is_negative() {
                // the split is only usable when the rest is non-negative
                r = n.clone();
                e = Poly::zero();
            } else if hi < b {
                return e;
            }
            let mut b = b;
            // common factor
            let g = gcd(r.content(), b);
            if g > I::ONE {
                let c = r.constant_part();
                r = r.without_const().div_exact(g).addc(div_floor(c, g));
                b = b / g;
                if b == I::ONE {
                    return e.add(&r);
                }
            }
            // floor(floor(x/a)/b) = floor(x/(a*b))
            if r.0.len() == 1 && r.0[0].1 == I::ONE && r.0[0].0.len() == 1 {
                let a = r.0[0].0[0];
                if let Kind::Quot(x, y) = &self.atoms[a as usize].kind {
                    if let Some(yc) = y.as_const() {
                        let x = x.clone();
                        let nd = Poly::konst(mul(yc, b));
                        let q = self.quot(&x, &nd);
                        return e.add(&q);
                    }
                }
            }
            let q = self.quot_atom(r, Poly::konst(b));
            return e.add(&q);
        }
        if let Some(q) = n.try_div(d) {
            return q;
        }
        // common numeric factor of both
        let gn = {
            let mut g = I::ZERO;
            for (_, c) in &n.0 {
                g = gcd(g, *c);
            }
            g
        };
        let gd = {
            let mut g = I::ZERO;
            for (_, c) in &d.0 {
                g = gcd(g, *c);
            }
            g
        };
        let g = gcd(gn, gd);
        if g > I::ONE {
            return self.quot(&n.div_exact(g), &d.div_exact(g));
        }
        // common monomial factor (atoms that divide every term of both and are nonzero)
        for (k, _) in n.0.first().map(|x| x.0.clone()).unwrap_or_default().iter().enumerate() {
            let a = n.0[0].0[k];
            let one = vec![a];
            if self.atom_bounds(a).0 > I::ZERO
                && n.0.iter().all(|(m, _)| mono_div(m, &one).is_some())
                && d.0.iter().all(|(m, _)| mono_div(m, &one).is_some())
            {
                let f = |p: &Poly| {
                    let mut v: Vec<_> =
                        p.0.iter().map(|(m, c)| (mono_div(m, &one).unwrap(), *c)).collect();
                    v.sort_by(|a, b| mono_cmp(&a.0, &b.0));
                    Poly(v)
                };
                let (n2, d2) = (f(n), f(d));
                return self.quot(&n2, &d2);
            }
        }
        // single-term divisor: split off the terms it divides
        if d.0.len() == 1 {
            let (dm, dc) = (&d.0[0].0, d.0[0].1);
            let mut e = Vec::new();
            let mut r = Vec::new();
            for (m, c) in &n.0 {
                match mono_div(m, dm) {
                    Some(q) if (*c % dc).is_zero() && !c.is_negative() => e.push((q, *c / dc)),
                    _ => r.push((m.clone(), *c)),
                }
            }
            let r = Poly(r);
            if !e.is_empty() && !self.interval(&r).0.is_negative() {
                e.sort_by(|a, b| mono_cmp(&a.0, &b.0));
                let q = self.quot(&r, d);
                return Poly(e).add(&q);
            }
        }
        // numerator certainly below the divisor
        if !self.interval(n).0.is_negative() && !self.interval(&d.sub(n).addc(I::NEG_ONE)).0.is_negative() {
            return Poly::zero();
        }
        self.quot_atom(n.clone(), d.clone())
    }
    fn quot_atom(&mut self, n: Poly, d: Poly) -> Poly {
        if let Some(a) = self.quot_ix.get(&(n.clone(), d.clone())) {
            return Poly::atom(*a);
        }
        // the same as before, with what is known by now
        if d.as_const().is_none() {
            for (k, at) in self.atoms.iter().enumerate() {
                if let Kind::Quot(m, e) = &at.kind {
                    if *e == d && self.interval(&n.sub(m)) == (I::ZERO, I::ZERO) {
                        return Poly::atom(k as u32);
                    }
                }
            }
        }
        let (nl, nh) = self.interval(&n);
        let (dl, dh) = self.interval(&d);
        let dl = dl.max(I::ONE);
        let nl = nl.max(I::ZERO);
        let nh = nh.max(I::ZERO);
        let lo = div_floor(nl, dh.max(I::ONE));
        let hi = div_floor(nh, dl);
        if lo == hi {
            return Poly::konst(lo);
        }
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom { kind: Kind::Quot(n.clone(), d.clone()), lo, hi, lo0: lo, hi0: hi });
        self.quot_ix.insert((n.clone(), d.clone()), a);
        let r = n.sub(&d.mul(&Poly::atom(a)));
        self.fact(&Con::Ge(r.clone()));
        self.fact(&Con::Ge(d.sub(&r).addc(I::NEG_ONE)));
        Poly::atom(a)
    }
}

fn d_clone(d: &Dec) -> Dec {
    d.clone()
}

pub fn num(v: I) -> String {
    if v.is_negative() {
        format!("(- {})", -v)
    } else {
        format!("{v}")
    }
}
pub fn smt(p: &Poly) -> String {
    if p.0.is_empty() {
        return "0".into();
    }
    let mut parts = Vec::new();
    for (m, c) in &p.0 {
        if m.is_empty() {
            parts.push(num(*c));
        } else if *c == I::ONE && m.len() == 1 {
            parts.push(format!("a{}", m[0]));
        } else {
            let mut s = String::from("(*");
            if *c != I::ONE {
                s.push(' ');
                s.push_str(&num(*c));
            }
            for a in m {
                s.push_str(&format!(" a{a}"));
            }
            s.push(')');
            parts.push(s);
        }
    }
    if parts.len() == 1 {
        parts.pop().unwrap()
    } else {
        format!("(+ {})", parts.join(" "))
    }
}
fn smt_con(c: &Con) -> String {
    match c {
        Con::Ge(p) => format!("(assert (>= {} 0))\n", smt(p)),
        Con::Eq(p) => format!("(assert (= {} 0))\n", smt(p)),
        Con::Ne(p) => format!("(assert (not (= {} 0)))\n", smt(p)),
    }
}
