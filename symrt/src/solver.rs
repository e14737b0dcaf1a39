//! SMT solver processes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Res {
    Sat(Vec<(u32, String)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Option<(Arc<Mutex<Child>>, ChildStdin, std::sync::mpsc::Receiver<String>)>,
}

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);
pub static UNKNOWN: AtomicU64 = AtomicU64::new(0);
pub static FALLBACK: AtomicU64 = AtomicU64::new(0);
pub static MICROS: AtomicU64 = AtomicU64::new(0);
pub static MAX_MICROS: AtomicU64 = AtomicU64::new(0);

impl Solver {
    pub fn new() -> Self {
        Solver { child: None }
    }
    fn start(&mut self) {
        let mut c = Command::new("z3-new")
            .args(["-in", "-memory:3000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let stdin = c.stdin.take().unwrap();
        let out = c.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((Arc::new(Mutex::new(c)), stdin, rx));
    }
    fn kill(&mut self) {
        if let Some((c, _, _)) = self.child.take() {
            let mut c = c.lock().unwrap();
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// `body`: declarations and assertions. `vars`: atoms whose values are wanted.
    pub fn check(&mut self, body: &str, vars: &[u32], ms: u64, fb_ms: u64) -> Res {
        let t = Instant::now();
        QUERIES.fetch_add(1, Ordering::Relaxed);
        let mut r = self.primary(body, vars, ms);
        if matches!(r, Res::Unknown) && fb_ms > 0 {
            FALLBACK.fetch_add(1, Ordering::Relaxed);
            r = portfolio(body, vars, fb_ms);
        }
        let us = t.elapsed().as_micros() as u64;
        MICROS.fetch_add(us, Ordering::Relaxed);
        MAX_MICROS.fetch_max(us, Ordering::Relaxed);
        match r {
            Res::Sat(_) => SAT.fetch_add(1, Ordering::Relaxed),
            Res::Unsat => UNSAT.fetch_add(1, Ordering::Relaxed),
            Res::Unknown => {
                if let Ok(d) = std::env::var("SYM_DUMP_UNKNOWN") {
                    let n = UNKNOWN.load(Ordering::Relaxed);
                    let _ = std::fs::write(format!("{d}/unk{n}.smt2"), format!("{body}(check-sat)\n"));
                }
                UNKNOWN.fetch_add(1, Ordering::Relaxed)
            }
        };
        r
    }
    fn primary(&mut self, body: &str, vars: &[u32], ms: u64) -> Res {
        if self.child.is_none() {
            self.start();
        }
        let q = format!("(reset)\n(set-option :timeout {ms})\n{body}(check-sat)\n");
        let (_, stdin, rx) = self.child.as_mut().unwrap();
        if stdin.write_all(q.as_bytes()).and_then(|_| stdin.flush()).is_err() {
            self.kill();
            return Res::Unknown;
        }
        let line = match rx.recv_timeout(Duration::from_millis(ms + 1500)) {
            Ok(l) => l,
            Err(_) => {
                self.kill();
                return Res::Unknown;
            }
        };
        match line.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vars.is_empty() {
                    return Res::Sat(vec![]);
                }
                let (_, stdin, rx) = self.child.as_mut().unwrap();
                let mut g = String::from("(get-value (");
                for v in vars {
                    g.push_str(&format!("a{v} "));
                }
                g.push_str("))\n(echo \"END\")\n");
                if stdin.write_all(g.as_bytes()).and_then(|_| stdin.flush()).is_err() {
                    self.kill();
                    return Res::Unknown;
                }
                let mut txt = String::new();
                loop {
                    match rx.recv_timeout(Duration::from_millis(5000)) {
                        Ok(l) if l.trim() == "END" => break,
                        Ok(l) => {
                            txt.push_str(&l);
                            txt.push(' ');
                        }
                        Err(_) => {
                            self.kill();
                            return Res::Unknown;
                        }
                    }
                }
                match parse_values(&txt) {
                    Some(v) => Res::Sat(v),
                    None => Res::Unknown,
                }
            }
            l if l.starts_with("(error") => {
                eprintln!("solver error: {l}\n{body}");
                self.kill();
                Res::Unknown
            }
            _ => Res::Unknown,
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

fn parse_values(t: &str) -> Option<Vec<(u32, String)>> {
    // ((a1 5) (a2 (- 3)))
    let toks: Vec<String> = t
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        if let Some(id) = toks[i].strip_prefix('a') {
            if let Ok(id) = id.parse::<u32>() {
                if toks.get(i + 1)? == "(" {
                    // (- n)
                    out.push((id, format!("-{}", toks.get(i + 3)?)));
                    i += 4;
                } else {
                    out.push((id, toks.get(i + 1)?.clone()));
                    i += 1;
                }
            }
        }
        i += 1;
    }
    Some(out)
}

/// Runs several solvers on the same query at once; the first definite answer wins.
fn portfolio(body: &str, vars: &[u32], ms: u64) -> Res {
    let mut q = String::from("(set-logic ALL)\n(set-option :produce-models true)\n");
    q.push_str(body);
    q.push_str("(check-sat)\n");
    if !vars.is_empty() {
        q.push_str("(get-value (");
        for v in vars {
            q.push_str(&format!("a{v} "));
        }
        q.push_str("))\n");
    }
    let cfgs: [(&str, Vec<String>); 4] = [
        ("z3", vec!["-in".into(), format!("-t:{ms}"), "-memory:3000".into()]),
        ("z3-new", vec!["-in".into(), format!("-t:{ms}"), "-memory:3000".into(), "smt.arith.solver=2".into()]),
        ("cvc5", vec!["--lang=smt2".into(), format!("--tlimit={ms}"), "--nl-cov".into(), "-".into()]),
        ("z3-new", vec!["-in".into(), format!("-t:{ms}"), "-memory:3000".into(), "smt.random_seed=7".into(), "smt.arith.nl.order=true".into()]),
    ];
    let (tx, rx) = std::sync::mpsc::channel::<Option<(String, String)>>();
    let mut kids: Vec<Arc<Mutex<Child>>> = Vec::new();
    for (bin, args) in cfgs {
        let Ok(mut c) = Command::new(bin)
            .args(&args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        else {
            let _ = tx.send(None);
            continue;
        };
        let mut i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let q = q.clone();
        let tx = tx.clone();
        kids.push(Arc::new(Mutex::new(c)));
        std::thread::spawn(move || {
            let _ = i.write_all(q.as_bytes());
            drop(i);
            let mut r = BufReader::new(o);
            let mut l = String::new();
            let _ = r.read_line(&mut l);
            let first = l.trim().to_string();
            if first != "sat" && first != "unsat" {
                let _ = tx.send(None);
                return;
            }
            let mut rest = String::new();
            if first == "sat" {
                let _ = std::io::Read::read_to_string(&mut r, &mut rest);
            }
            let _ = tx.send(Some((first, rest)));
        });
    }
    let deadline = Instant::now() + Duration::from_millis(ms + 1500);
    let mut left = kids.len();
    let mut res = Res::Unknown;
    while left > 0 {
        let now = Instant::now();
        if now >= deadline {
            break;
        }
        match rx.recv_timeout(deadline - now) {
            Ok(Some((f, rest))) => {
                if f == "unsat" {
                    res = Res::Unsat;
                    break;
                }
                if let Some(v) = parse_values(&rest) {
                    if v.len() == vars.len() {
                        res = Res::Sat(v);
                        break;
                    }
                }
                left -= 1;
            }
            Ok(None) => left -= 1,
            Err(_) => break,
        }
    }
    for k in kids {
        let mut k = k.lock().unwrap();
        let _ = k.kill();
        let _ = k.wait();
    }
    res
}
