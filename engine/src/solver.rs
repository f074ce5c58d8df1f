//! Thin FFI layer over libz3 (QF_BV queries only) plus a verdict cache.
use crate::expr::{self, BinOp, Ex, Op, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_context_rc(c: P) -> P;
}

extern "C" fn on_error(_c: P, _e: c_int) {}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub enum Verdict {
    Sat(Arc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache_hits: AtomicU64,
    pub solver_us: AtomicU64,
    pub errors: AtomicU64,
}

pub struct Shared {
    pub stats: Stats,
    cache: Vec<Mutex<HashMap<u128, Verdict>>>,
    /// Directory for dumping sampled queries (cross-checking with another solver).
    pub dump: Option<String>,
    pub dump_every: u64,
    pub dumped: AtomicU64,
    pub bad: AtomicBool,
}

impl Shared {
    pub fn new(dump: Option<String>, dump_every: u64) -> Self {
        Shared {
            stats: Stats::default(),
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            dump,
            dump_every,
            dumped: AtomicU64::new(0),
            bad: AtomicBool::new(false),
        }
    }
}

pub struct Solver {
    ctx: P,
    solver: P,
    shared: Arc<Shared>,
    memo_b: HashMap<u64, P>,
    memo_v: HashMap<u64, P>,
    refs: Vec<P>,
    since_reset: u32,
    timeout_ms: u32,
}

impl Solver {
    pub fn new(shared: Arc<Shared>, timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            shared,
            memo_b: HashMap::new(),
            memo_v: HashMap::new(),
            refs: vec![],
            since_reset: 0,
            timeout_ms,
        };
        s.init();
        s
    }

    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, ls);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
        let _ = (Z3_mk_context as *const (), Z3_mk_and as *const (), Z3_mk_or as *const ());
    }

    fn keep(&mut self, p: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, p) };
        self.refs.push(p);
        p
    }

    fn num(&mut self, w: u32, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            Z3_inc_ref(self.ctx, s);
            self.refs.push(s);
            if let Ok(x) = u64::try_from(v) {
                Z3_mk_unsigned_int64(self.ctx, x, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }

    fn b(&mut self, e: &Ex) -> P {
        if let Some(p) = self.memo_b.get(&e.id) {
            return *p;
        }
        let c = self.ctx;
        let r = unsafe {
            match &e.op {
                Op::Const(v) => {
                    if *v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not(a) => {
                    let x = self.b(a);
                    Z3_mk_not(c, x)
                }
                Op::Cmp(p, a, d) => {
                    let (x, y) = (self.v(a), self.v(d));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        _ => unreachable!(),
                    }
                }
                Op::Bin(BinOp::And, a, d) => {
                    let v = [self.b(a), self.b(d)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Bin(BinOp::Or, a, d) => {
                    let v = [self.b(a), self.b(d)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Bin(BinOp::Xor, a, d) => {
                    let (x, y) = (self.b(a), self.b(d));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite(i, t, f) => {
                    let (x, y, z) = (self.b(i), self.b(t), self.b(f));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.v(e);
                    let one = self.num(1, 1);
                    let one = self.keep(one);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.memo_b.insert(e.id, r);
        r
    }

    fn v(&mut self, e: &Ex) -> P {
        if let Some(p) = self.memo_v.get(&e.id) {
            return *p;
        }
        let c = self.ctx;
        let r = unsafe {
            match &e.op {
                Op::Const(v) => self.num(e.w, *v),
                Op::Sym(s) => {
                    let so = Z3_mk_bv_sort(c, e.w);
                    let n = Z3_mk_int_symbol(c, (*s * 1024 + e.w) as c_int);
                    Z3_mk_const(c, n, so)
                }
                Op::Cmp(..) => {
                    let x = self.b(e);
                    let one = self.num(1, 1);
                    let one = self.keep(one);
                    let zero = self.num(1, 0);
                    let zero = self.keep(zero);
                    Z3_mk_ite(c, x, one, zero)
                }
                Op::Bin(o, a, d) => {
                    let (x, y) = (self.v(a), self.v(d));
                    match o {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOp::AShr => Z3_mk_bvashr(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Op::Not(a) => {
                    let x = self.v(a);
                    Z3_mk_bvnot(c, x)
                }
                Op::ZExt(a) => {
                    let x = self.v(a);
                    Z3_mk_zero_ext(c, e.w - a.w, x)
                }
                Op::SExt(a) => {
                    let x = self.v(a);
                    Z3_mk_sign_ext(c, e.w - a.w, x)
                }
                Op::Extract(a, lo) => {
                    let x = self.v(a);
                    Z3_mk_extract(c, lo + e.w - 1, *lo, x)
                }
                Op::Concat(h, l) => {
                    let (x, y) = (self.v(h), self.v(l));
                    Z3_mk_concat(c, x, y)
                }
                Op::Ite(i, t, f) => {
                    let x = self.b(i);
                    let (y, z) = (self.v(t), self.v(f));
                    Z3_mk_ite(c, x, y, z)
                }
            }
        };
        let r = self.keep(r);
        self.memo_v.insert(e.id, r);
        r
    }

    fn clear(&mut self) {
        self.memo_b.clear();
        self.memo_v.clear();
        for p in self.refs.drain(..) {
            unsafe { Z3_dec_ref(self.ctx, p) };
        }
    }

    /// Decides satisfiability of the conjunction.
    pub fn check(&mut self, cs: &[Ex]) -> Verdict {
        let mut key: u128 = 0x51;
        for c in cs {
            if expr::as_const(c) == Some(0) {
                return Verdict::Unsat;
            }
            // order independent
            key = key.wrapping_add(c.hash.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835) ^ (c.hash >> 64));
        }
        let shard = (key >> 64) as usize % 64;
        let shared = self.shared.clone();
        if let Some(v) = shared.cache[shard].lock().unwrap().get(&key) {
            shared.stats.cache_hits.fetch_add(1, Ordering::Relaxed);
            return v.clone();
        }
        let t0 = Instant::now();
        let v = self.check_z3(cs);
        shared.stats.solver_us.fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
        let n = shared.stats.queries.fetch_add(1, Ordering::Relaxed);
        match &v {
            Verdict::Sat(_) => &shared.stats.sat,
            Verdict::Unsat => &shared.stats.unsat,
            Verdict::Unknown => &shared.stats.unknown,
        }
        .fetch_add(1, Ordering::Relaxed);
        if let Some(dir) = &shared.dump {
            if n % shared.dump_every == 0 {
                self.dump(dir, n, cs, &v);
            }
        }
        shared.cache[shard].lock().unwrap().insert(key, v.clone());
        v
    }

    fn dump(&self, dir: &str, n: u64, cs: &[Ex], v: &Verdict) {
        let mut body = String::new();
        let mut names = HashMap::new();
        let mut decls = HashMap::new();
        let mut asserts = String::new();
        for c in cs {
            let t = expr::smt(c, &mut body, &mut names, &mut decls);
            asserts.push_str(&format!("(assert (= {t} #b1))\n"));
        }
        let mut s = String::from("(set-logic QF_BV)\n");
        for (i, w) in decls {
            s.push_str(&format!("(declare-fun s{i}_{w} () (_ BitVec {w}))\n"));
        }
        s.push_str(&body);
        s.push_str(&asserts);
        s.push_str("(check-sat)\n");
        let verdict = match v {
            Verdict::Sat(_) => "sat",
            Verdict::Unsat => "unsat",
            Verdict::Unknown => "unknown",
        };
        let _ = std::fs::write(format!("{dir}/q{n}.{verdict}.smt2"), s);
        self.shared.dumped.fetch_add(1, Ordering::Relaxed);
    }

    fn check_z3(&mut self, cs: &[Ex]) -> Verdict {
        self.since_reset += 1;
        let mut vars: HashMap<u32, Ex> = HashMap::new();
        for c in cs {
            collect_syms(c, &mut vars);
        }
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for c in cs {
                let p = self.b(c);
                Z3_solver_assert(self.ctx, self.solver, p);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                if m.is_null() {
                    Verdict::Unknown
                } else {
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = vec![];
                    let mut ok = true;
                    for (i, e) in &vars {
                        let p = self.v(e);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if !Z3_model_eval(self.ctx, m, p, true, &mut o) || !Z3_get_numeral_uint64(self.ctx, o, &mut x) {
                            ok = false;
                        }
                        vals.push((*i, x));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    if ok {
                        Verdict::Sat(Arc::new(vals))
                    } else {
                        Verdict::Unknown
                    }
                }
            } else if r == -1 {
                Verdict::Unsat
            } else {
                Verdict::Unknown
            };
            if Z3_get_error_code(self.ctx) != 0 {
                self.shared.stats.errors.fetch_add(1, Ordering::Relaxed);
                self.shared.bad.store(true, Ordering::Relaxed);
            }
            Z3_solver_pop(self.ctx, self.solver, 1);
            if self.since_reset > 200 || self.refs.len() > 200_000 {
                self.since_reset = 0;
                self.clear();
            }
            out
        }
    }
}

fn collect_syms(e: &Ex, out: &mut HashMap<u32, Ex>) {
    let mut seen = std::collections::HashSet::new();
    let mut stack = vec![e.clone()];
    while let Some(e) = stack.pop() {
        if !seen.insert(e.id) {
            continue;
        }
        match &e.op {
            Op::Const(_) => {}
            Op::Sym(s) => {
                out.insert(*s, e.clone());
            }
            Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) => {
                stack.push(a.clone());
                stack.push(b.clone());
            }
            Op::Not(a) | Op::ZExt(a) | Op::SExt(a) | Op::Extract(a, _) => stack.push(a.clone()),
            Op::Ite(a, b, c) => {
                stack.push(a.clone());
                stack.push(b.clone());
                stack.push(c.clone());
            }
        }
    }
}
