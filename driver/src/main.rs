//! symrustc: rustc with one extra MIR pass.
//!
//! Every operation on `u64` / `u128` values in instrumented code (arithmetic,
//! comparison, casts, switches, a few intrinsics) is replaced by a call into
//! the `symrt` crate, which decides at run time whether an operand is an
//! ordinary machine integer (then it performs the ordinary operation) or a
//! handle to a symbolic term (then it builds a new term / consults the solver).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Spanned;
use rustc_span::{sym, Span, DUMMY_SP};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Mutex, OnceLock};

type LocalProv = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Body<'tcx>;
type ExternProv = for<'tcx> fn(TyCtxt<'tcx>, DefId) -> &'tcx Body<'tcx>;
static ORIG_LOCAL: OnceLock<LocalProv> = OnceLock::new();
static ORIG_EXTERN: OnceLock<ExternProv> = OnceLock::new();

thread_local! {
    static HOOKS: RefCell<Option<Option<HashMap<String, DefId>>>> = const { RefCell::new(None) };
}

fn find_hooks(tcx: TyCtxt<'_>) -> Option<HashMap<String, DefId>> {
    let mut out = HashMap::new();
    for &c in tcx.crates(()) {
        if tcx.crate_name(c).as_str() != "symrt" {
            continue;
        }
        for ch in tcx.module_children(c.as_def_id()) {
            if let Res::Def(DefKind::Fn, d) = ch.res {
                let n = ch.ident.name.as_str().to_string();
                if n.starts_with("h_") {
                    out.insert(n, d);
                }
            }
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

fn hook(tcx: TyCtxt<'_>, name: &str) -> Option<DefId> {
    HOOKS.with(|h| {
        if h.borrow().is_none() {
            let f = find_hooks(tcx);
            *h.borrow_mut() = Some(f);
        }
        let b = h.borrow();
        let m = b.as_ref().unwrap().as_ref()?;
        match m.get(name) {
            Some(d) => Some(*d),
            None => panic!("symrt has no hook {name}"),
        }
    })
}

fn enabled(tcx: TyCtxt<'_>) -> bool {
    HOOKS.with(|h| {
        if h.borrow().is_none() {
            let f = find_hooks(tcx);
            *h.borrow_mut() = Some(f);
        }
        h.borrow().as_ref().unwrap().is_some()
    })
}

/// Crates whose code is never instrumented: they only move, print or parse
/// values, or they are the runtime itself.
const SKIP_CRATES: &[&str] = &[
    "symrt", "sym", "std", "hashbrown", "serde", "serde_json_wasm", "serde_json", "serde_core",
    "serde_cw_value", "bnum", "schemars", "prost", "bech32", "hex", "sha2", "base64", "thiserror",
    "itoa", "ryu", "anyhow", "digest", "generic_array", "bytes", "itertools", "semver",
];

fn instrumentable(tcx: TyCtxt<'_>, def: DefId) -> bool {
    let krate = tcx.crate_name(def.krate);
    let k = krate.as_str();
    if def.krate == LOCAL_CRATE && SKIP_CRATES.contains(&k) {
        return false;
    }
    // a skipped crate never becomes instrumented through its own build
    if SKIP_CRATES.contains(&tcx.crate_name(LOCAL_CRATE).as_str()) {
        return false;
    }
    if SKIP_CRATES.contains(&k) {
        return false;
    }
    if k == "core" || k == "alloc" {
        let p = tcx.def_path_str(def);
        let p = p.trim_start_matches('<');
        // decide by defining module
        let mut path = String::new();
        for d in tcx.def_path(def).data {
            path.push_str("::");
            path.push_str(&d.data.to_string());
        }
        let _ = p;
        const BAD: &[&str] = &[
            "::fmt", "::hash", "::slice", "::str", "::mem", "::ptr", "::alloc", "::char", "::time",
            "::unicode", "::intrinsics", "::array", "::ascii", "::sync", "::escape", "::num::fmt",
            "::num::flt2dec", "::num::dec2flt", "::num::bignum", "::num::diy_float",
            "::num::imp::fmt", "::num::imp::flt2dec", "::num::imp::dec2flt", "::num::imp::bignum",
            "::raw_vec", "::vec", "::string", "::random", "::panic", "::any", "::f64", "::f32",
        ];
        return !BAD.iter().any(|b| {
            path.starts_with(b)
                && (path.len() == b.len() || path.as_bytes()[b.len()] == b':')
        });
    }
    true
}

fn local_mir<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Body<'tcx> {
    let body = ORIG_LOCAL.get().unwrap()(tcx, def);
    transform(tcx, def.to_def_id(), body)
}
fn extern_mir<'tcx>(tcx: TyCtxt<'tcx>, def: DefId) -> &'tcx Body<'tcx> {
    let body = ORIG_EXTERN.get().unwrap()(tcx, def);
    transform(tcx, def, body)
}

fn transform<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, body: &'tcx Body<'tcx>) -> &'tcx Body<'tcx> {
    if !enabled(tcx) || !instrumentable(tcx, def) {
        return body;
    }
    let mut rw = Rw { tcx, body: body.clone(), extra: Vec::new(), changed: false, first: false, fn_id: repo_fn(tcx, def) };
    rw.run();
    if !rw.changed {
        return body;
    }
    tcx.arena.alloc(rw.body)
}

static FN_NAMES: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());

/// An id for functions whose source lies in the code under test.
fn repo_fn(tcx: TyCtxt<'_>, def: DefId) -> Option<u64> {
    if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
        return None;
    }
    let root = ROOT.get_or_init(|| std::env::var("SYM_REPO").unwrap_or_else(|_| "/repo".into()) + "/");
    let f = tcx.sess.source_map().span_to_filename(tcx.def_span(def));
    let f = f.prefer_local_unconditionally().to_string();
    let rel = f.strip_prefix(root.as_str())?;
    if tcx.def_span(def).from_expansion() {
        return None;
    }
    let name = format!("{} {}", rel, tcx.def_path_str(def));
    let mut h: u64 = 0xcbf29ce484222325;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h >>= 1; // never looks like a tagged value
    FN_NAMES.lock().unwrap().insert(h, name);
    Some(h)
}
static ROOT: OnceLock<String> = OnceLock::new();

struct Rw<'tcx> {
    fn_id: Option<u64>,
    tcx: TyCtxt<'tcx>,
    body: Body<'tcx>,
    extra: Vec<BasicBlockData<'tcx>>,
    changed: bool,
    first: bool,
}

fn op_name(op: BinOp) -> Option<&'static str> {
    use BinOp::*;
    Some(match op {
        Add | AddUnchecked => "add",
        Sub | SubUnchecked => "sub",
        Mul | MulUnchecked => "mul",
        AddWithOverflow => "addo",
        SubWithOverflow => "subo",
        MulWithOverflow => "mulo",
        Div => "div",
        Rem => "rem",
        BitXor => "xor",
        BitAnd => "and",
        BitOr => "or",
        Shl | ShlUnchecked => "shl",
        Shr | ShrUnchecked => "shr",
        Eq => "eq",
        Ne => "ne",
        Lt => "lt",
        Le => "le",
        Gt => "gt",
        Ge => "ge",
        Cmp => "cmp",
        Offset => return None,
    })
}

impl<'tcx> Rw<'tcx> {
    fn kind_of(&self, t: Ty<'tcx>) -> Option<&'static str> {
        if t == self.tcx.types.u64 {
            Some("u64")
        } else if t == self.tcx.types.u128 {
            Some("u128")
        } else {
            None
        }
    }
    fn oty(&self, o: &Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&self.body.local_decls, self.tcx)
    }
    fn is_const(o: &Operand<'tcx>) -> bool {
        matches!(o, Operand::Constant(_))
    }
    fn copy(o: &Operand<'tcx>) -> Operand<'tcx> {
        match o {
            Operand::Move(p) | Operand::Copy(p) => Operand::Copy(*p),
            c => c.clone(),
        }
    }
    fn temp(&mut self, ty: Ty<'tcx>, span: Span) -> Local {
        self.body.local_decls.push(LocalDecl::new(ty, span))
    }

    fn run(&mut self) {
        let n = self.body.basic_blocks.len();
        let mut done: Vec<BasicBlockData<'tcx>> = Vec::with_capacity(n);
        let blocks: Vec<BasicBlockData<'tcx>> =
            self.body.basic_blocks.iter().cloned().collect();
        for (bi, b) in blocks.into_iter().enumerate() {
            self.first = bi == 0;
            if b.is_cleanup {
                done.push(b);
                continue;
            }
            let head = self.block(b, n);
            done.push(head);
        }
        if self.changed {
            done.append(&mut self.extra);
            *self.body.basic_blocks_mut() = done.into_iter().collect();
        }
    }

    /// Appends a finished block to the extra list and returns its index.
    fn block(&mut self, b: BasicBlockData<'tcx>, base: usize) -> BasicBlockData<'tcx> {
        // segments: list of (statements, terminator); the first goes to the original index
        let mut segs: Vec<BasicBlockData<'tcx>> = Vec::new();
        let mut cur: Vec<Statement<'tcx>> = Vec::new();
        let term = b.terminator.clone().unwrap();
        let next_index = |s: &Self, segs: &Vec<BasicBlockData<'tcx>>| {
            // segment 0 lives at the original index; segment k>0 at base+extra.len()+k-1
            BasicBlock::from_usize(base + s.extra.len() + segs.len())
        };
        macro_rules! call {
            ($name:expr, $args:expr, $dest:expr, $si:expr) => {{
                let d = hook(self.tcx, $name).unwrap();
                let span = $si.span;
                let target = next_index(self, &segs);
                let t = Terminator {
                    source_info: $si,
                    kind: TerminatorKind::Call {
                        func: Operand::function_handle(self.tcx, d, &[], span),
                        args: $args
                            .into_iter()
                            .map(|a| Spanned { node: a, span: DUMMY_SP })
                            .collect(),
                        destination: $dest,
                        target: Some(target),
                        unwind: UnwindAction::Continue,
                        call_source: CallSource::Misc,
                        fn_span: span,
                    },
                };
                segs.push(BasicBlockData::new_stmts(std::mem::take(&mut cur), Some(t), false));
                self.changed = true;
            }};
        }
        if let (true, Some(id)) = (self.first, self.fn_id) {
            let si = term.source_info;
            let c = Operand::const_from_scalar(
                self.tcx,
                self.tcx.types.u64,
                interpret::Scalar::from_u64(id),
                si.span,
            );
            let t = self.temp(self.tcx.types.unit, si.span);
            call!("h_fn", vec![c], Place::from(t), si);
        }
        for st in b.statements.into_iter() {
            let si = st.source_info;
            let StatementKind::Assign(ref ass) = st.kind else {
                cur.push(st);
                continue;
            };
            let (dest, rv) = (&ass.0, &ass.1);
            match rv {
                Rvalue::BinaryOp(op, ops) => {
                    let (a, c) = (&ops.0, &ops.1);
                    let k = self.kind_of(self.oty(a));
                    let name = op_name(*op);
                    if let (Some(k), Some(name)) = (k, name) {
                        if Self::is_const(a) && Self::is_const(c) {
                            cur.push(st);
                            continue;
                        }
                        let mut rhs = Self::copy(c);
                        if name == "shl" || name == "shr" {
                            let rt = self.oty(c);
                            // shift amounts: bring to u32
                            if let Some(rk) = self.kind_of(rt) {
                                if !Self::is_const(c) {
                                    let t = self.temp(rt, si.span);
                                    call!(&format!("h_conc_{rk}"), vec![rhs], Place::from(t), si);
                                    rhs = Operand::Copy(Place::from(t));
                                }
                            }
                            if rt != self.tcx.types.u32 {
                                let t = self.temp(self.tcx.types.u32, si.span);
                                cur.push(Statement::new(
                                    si,
                                    StatementKind::Assign(Box::new((
                                        Place::from(t),
                                        Rvalue::Cast(CastKind::IntToInt, rhs, self.tcx.types.u32),
                                    ))),
                                ));
                                rhs = Operand::Copy(Place::from(t));
                            }
                        }
                        let args = vec![Self::copy(a), rhs];
                        // Call destination must not alias args: go through a temp
                        let dt = dest.ty(&self.body.local_decls, self.tcx).ty;
                        let t = self.temp(dt, si.span);
                        call!(&format!("h_{name}_{k}"), args, Place::from(t), si);
                        cur.push(Statement::new(
                            si,
                            StatementKind::Assign(Box::new((
                                *dest,
                                Rvalue::Use(Operand::Copy(Place::from(t)), WithRetag::No),
                            ))),
                        ));
                        continue;
                    }
                }
                Rvalue::UnaryOp(UnOp::Not, a) => {
                    if let Some(k) = self.kind_of(self.oty(a)) {
                        if !Self::is_const(a) {
                            let t = self.temp(self.oty(a), si.span);
                            call!(&format!("h_not_{k}"), vec![Self::copy(a)], Place::from(t), si);
                            cur.push(Statement::new(
                                si,
                                StatementKind::Assign(Box::new((
                                    *dest,
                                    Rvalue::Use(Operand::Copy(Place::from(t)), WithRetag::No),
                                ))),
                            ));
                            continue;
                        }
                    }
                }
                Rvalue::Cast(ck, a, to) => {
                    if let Some(k) = self.kind_of(self.oty(a)) {
                        let tk = self.kind_of(*to);
                        let special = match ck {
                            CastKind::IntToInt => match (k, tk) {
                                ("u64", Some("u128")) => Some("h_cast_u64_u128"),
                                ("u128", Some("u64")) => Some("h_cast_u128_u64"),
                                (_, Some(_)) => None,
                                ("u64", None) => Some("h_conc_u64"),
                                _ => Some("h_conc_u128"),
                            },
                            CastKind::IntToFloat => {
                                Some(if k == "u64" { "h_conc_u64" } else { "h_conc_u128" })
                            }
                            // bytes are taken out of the value
                            CastKind::Transmute if matches!(to.kind(), ty::Array(..)) => {
                                Some(if k == "u64" { "h_bytes_u64" } else { "h_bytes_u128" })
                            }
                            _ => None,
                        };
                        if let (Some(h), false) = (special, Self::is_const(a)) {
                            if h.starts_with("h_cast") {
                                let t = self.temp(*to, si.span);
                                call!(h, vec![Self::copy(a)], Place::from(t), si);
                                cur.push(Statement::new(
                                    si,
                                    StatementKind::Assign(Box::new((
                                        *dest,
                                        Rvalue::Use(Operand::Copy(Place::from(t)), WithRetag::No),
                                    ))),
                                ));
                            } else {
                                let t = self.temp(self.oty(a), si.span);
                                call!(h, vec![Self::copy(a)], Place::from(t), si);
                                cur.push(Statement::new(
                                    si,
                                    StatementKind::Assign(Box::new((
                                        *dest,
                                        Rvalue::Cast(*ck, Operand::Copy(Place::from(t)), *to),
                                    ))),
                                ));
                            }
                            continue;
                        }
                    }
                }
                _ => {}
            }
            cur.push(st);
        }
        // terminator
        let si = term.source_info;
        let mut term = term;
        match &term.kind {
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = self.oty(discr);
                if let (Some(k), false) = (self.kind_of(dt), Self::is_const(discr)) {
                    let bool_ty = self.tcx.types.bool;
                    let pairs: Vec<(u128, BasicBlock)> = targets.iter().collect();
                    let otherwise = targets.otherwise();
                    let d = Self::copy(discr);
                    // keep the value: the operand may be moved-from storage
                    for (v, bb) in pairs {
                        let t = self.temp(bool_ty, si.span);
                        let size = if k == "u64" { 8 } else { 16 };
                        let c = Operand::const_from_scalar(
                            self.tcx,
                            dt,
                            interpret::Scalar::from_uint(v, rustc_abi::Size::from_bytes(size)),
                            si.span,
                        );
                        call!(&format!("h_eq_{k}"), vec![d.clone(), c], Place::from(t), si);
                        let next = next_index(self, &segs);
                        let tk = TerminatorKind::SwitchInt {
                            discr: Operand::Copy(Place::from(t)),
                            targets: SwitchTargets::static_if(0, next, bb),
                        };
                        segs.push(BasicBlockData::new_stmts(
                            std::mem::take(&mut cur),
                            Some(Terminator { source_info: si, kind: tk }),
                            false,
                        ));
                    }
                    term.kind = TerminatorKind::Goto { target: otherwise, loop_hint_attrs: Default::default() };
                }
            }
            TerminatorKind::Call { func, args, destination, .. } => {
                if let Some((did, _)) = func.const_fn_def() {
                    if let Some(intr) = self.tcx.intrinsic(did) {
                        let n = intr.name;
                        let first = args.first().map(|a| self.oty(&a.node));
                        if let Some(k) = first.and_then(|t| self.kind_of(t)) {
                            let _ = destination;
                            let nm = n.as_str();
                            let short = match nm {
                                "saturating_add" => "sadd",
                                "saturating_sub" => "ssub",
                                "integer_min" => "min",
                                "integer_max" => "max",
                                _ => "",
                            };
                            if !short.is_empty() {
                                let d = hook(self.tcx, &format!("h_{short}_{k}")).unwrap();
                                let f = Operand::function_handle(self.tcx, d, &[], si.span);
                                if let TerminatorKind::Call { func, .. } = &mut term.kind {
                                    *func = f;
                                }
                                self.changed = true;
                            } else if !matches!(nm, "black_box" | "forget" | "transmute" | "transmute_unchecked" | "volatile_store" | "write_via_move") {
                                // any other works on the machine value
                                let args: Vec<_> = args.iter().map(|a| a.node.clone()).collect();
                                let mut newargs = Vec::new();
                                for a in args {
                                    if let (Some(k), false) =
                                        (self.kind_of(self.oty(&a)), Self::is_const(&a))
                                    {
                                        let t = self.temp(self.oty(&a), si.span);
                                        call!(
                                            &format!("h_conc_{k}"),
                                            vec![Self::copy(&a)],
                                            Place::from(t),
                                            si
                                        );
                                        newargs.push(Operand::Copy(Place::from(t)));
                                    } else {
                                        newargs.push(a);
                                    }
                                }
                                if let TerminatorKind::Call { args, .. } = &mut term.kind {
                                    *args = newargs
                                        .into_iter()
                                        .map(|a| Spanned { node: a, span: DUMMY_SP })
                                        .collect();
                                }
                            }
                            let _ = k;
                        }
                    }
                }
            }
            _ => {}
        }
        segs.push(BasicBlockData::new_stmts(cur, Some(term), false));
        let mut it = segs.into_iter();
        let head = it.next().unwrap();
        self.extra.extend(it);
        head
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_, p| {
            let _ = ORIG_LOCAL.set(p.queries.optimized_mir);
            let _ = ORIG_EXTERN.set(p.extern_queries.optimized_mir);
            p.queries.optimized_mir = local_mir;
            p.extern_queries.optimized_mir = extern_mir;
        });
    }
}

fn main() -> std::process::ExitCode {
    let _ = sym::u64;
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WRAPPER-less RUSTC: argv[0] is ourselves
    args[0] = "rustc".into();
    rustc_driver::install_ice_hook("symrustc", |_| ());
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
        let names = FN_NAMES.lock().unwrap();
        if let (Ok(dir), false) = (std::env::var("SYM_FNMAP"), names.is_empty()) {
            let mut t = String::new();
            for (h, n) in names.iter() {
                t.push_str(&format!("{h:016x} {n}\n"));
            }
            let k = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(format!("{dir}/{}.txt", k.unwrap_or_default()), t);
        }
    })
}
