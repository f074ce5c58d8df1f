//! Symbolic executor: interprets the loaded IR, forks on symbolic decisions.
use crate::expr::{self, BinOp, Ex, Pred};
use crate::ir::{self, Callee, CastOp, Const, Func, Module, Op, Opd, RmwOp, Ty, NODST};
use crate::mem::{Kind, Mem, MemErr, Obj};
use crate::solver::{self, Solver, Verdict};
use crate::val::Val;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------ decoded code

#[derive(Clone)]
pub enum D {
    R(u32),
    V(Val),
}

pub enum X {
    Bin(BinOp, u32, D, D),
    Icmp(Pred, u32, D, D),
    /// scalar condition, scalar or aggregate value
    Select(Ty, D, D, D),
    LoadI(u32, u8, D),
    StoreI(u8, D, D),
    Gep1(D, i64),
    Gep(D, i64, Vec<(D, u32, i64)>),
    Ext(CastOp, u32, u32, D),
    Br(u32),
    CondBr(D, u32, u32),
    Call { f: u32, args: Vec<D>, normal: Option<u32> },
    CallInd { f: D, args: Vec<D>, normal: Option<u32> },
    Builtin { b: B, f: u32, args: Vec<(D, u32)>, ret: Ty, normal: Option<u32> },
    Ret(Option<D>),
    Alloca(u64, Option<D>),
    Slow(SlowOp),
}

pub enum SlowOp {
    VBin(BinOp, Ty, D, D),
    VIcmp(Pred, Ty, D, D),
    VSelect(Ty, D, D, D),
    Cast(CastOp, Ty, Ty, D),
    Load(Ty, D),
    Store(Ty, D, D),
    Switch(u32, D, u32, HashMap<u64, u32>, Vec<(u64, u32)>),
    Unreachable,
    ExtractValue(D, Vec<u32>),
    InsertValue(Ty, D, D, Vec<u32>),
    ExtractElem(D, D),
    InsertElem(Ty, D, D, D),
    Shuffle(Ty, D, D, Vec<Option<u32>>),
    Freeze(D),
    AtomicRmw(RmwOp, Ty, D, D),
    CmpXchg(Ty, D, D, D),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Nop,
    Identity,
    MemCpy,
    MemSet,
    MemCmp(bool),
    StrLen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    GetRandom,
    Write,
    Abort,
    Panic,
    RetZero,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    WithOverflow(BinOp, bool),
    IsConstant,
    Expect,
    SymNew,
    SymPick,
    SymAssume,
    SymAssert,
    SymNote,
    SymReach,
    SymParam,
    SymPanicOk,
    SymHashMode,
    SymConcrete,
    SymHashSeed,
    SymLive,
    HashWrite,
    HashFinish,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    CharClass(u8),
    Unsupported,
}

pub struct XFunc {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<XBlock>,
    pub hash: Option<B>,
}

pub struct XBlock {
    pub edges: Vec<(u32, Vec<(u32, D)>)>,
    pub code: Vec<(u32, X)>,
}

pub struct Prog {
    pub funcs: Vec<XFunc>,
    pub builtins: Vec<Option<B>>,
    pub module_funcs: HashMap<String, u32>,
    pub init: Mem,
}

fn const_val(c: &Const, t: &Ty) -> Val {
    match (c, t) {
        (Const::Int(v), _) => Val::from_u128(*v, t.bits()),
        (Const::Zero, Ty::Struct(..) | Ty::Vec(..) | Ty::Arr(..)) => {
            Val::A(Arc::new((0..t.n_fields()).map(|i| const_val(&Const::Zero, t.field_ty(i))).collect()))
        }
        (Const::Zero, _) => Val::from_u128(0, t.bits().max(1)),
        (Const::Agg(v), _) => {
            Val::A(Arc::new(v.iter().enumerate().map(|(i, c)| const_val(c, t.field_ty(i))).collect()))
        }
        (Const::Bytes(b), _) => Val::A(Arc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
        (Const::Unsupported(_), _) => Val::I(0),
    }
}

fn write_const(c: &Const, t: &Ty, out: &mut [u8]) {
    match c {
        Const::Int(v) => {
            let n = t.store_size() as usize;
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        Const::Zero | Const::Unsupported(_) => {}
        Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
        Const::Agg(v) => {
            for (i, c) in v.iter().enumerate() {
                let o = t.field_off(i) as usize;
                write_const(c, t.field_ty(i), &mut out[o..]);
            }
        }
    }
}

fn builtin_of(n: &str) -> Option<B> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let base = r.split('.').next().unwrap_or("");
        return Some(match base {
            "lifetime" | "assume" | "dbg" | "experimental" | "donothing" | "prefetch" | "invariant" | "pseudoprobe" => B::Nop,
            "threadlocal" => B::Identity,
            "memcpy" | "memmove" => B::MemCpy,
            "memset" => B::MemSet,
            "umax" => B::UMax,
            "umin" => B::UMin,
            "smax" => B::SMax,
            "smin" => B::SMin,
            "usub" if r.starts_with("usub.sat") => B::USubSat,
            "uadd" if r.starts_with("uadd.sat") => B::UAddSat,
            "usub" => B::WithOverflow(BinOp::Sub, false),
            "uadd" => B::WithOverflow(BinOp::Add, false),
            "umul" => B::WithOverflow(BinOp::Mul, false),
            "sadd" if r.starts_with("sadd.with") => B::WithOverflow(BinOp::Add, true),
            "ssub" if r.starts_with("ssub.with") => B::WithOverflow(BinOp::Sub, true),
            "smul" if r.starts_with("smul.with") => B::WithOverflow(BinOp::Mul, true),
            "ctlz" => B::Ctlz,
            "cttz" => B::Cttz,
            "ctpop" => B::Ctpop,
            "bswap" => B::Bswap,
            "bitreverse" => B::Bitreverse,
            "fshl" => B::Fshl,
            "fshr" => B::Fshr,
            "abs" => B::Abs,
            "ucmp" => B::UCmp,
            "scmp" => B::SCmp,
            "trap" | "ubsantrap" | "debugtrap" => B::Abort,
            "is" => B::IsConstant,
            "expect" => B::Expect,
            "x86" if r.contains("pause") => B::Nop,
            "vector" if r.starts_with("vector.reduce.or") => B::ReduceOr,
            "vector" if r.starts_with("vector.reduce.and") => B::ReduceAnd,
            "vector" if r.starts_with("vector.reduce.add") => B::ReduceAdd,
            _ => B::Unsupported,
        });
    }
    Some(match n {
        "memcpy" | "memmove" => B::MemCpy,
        "memset" => B::MemSet,
        "memcmp" => B::MemCmp(true),
        "bcmp" => B::MemCmp(false),
        "strlen" => B::StrLen,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "getrandom" => B::GetRandom,
        "write" | "writev" => B::Write,
        "abort" | "_exit" | "exit" => B::Abort,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" | "__errno_location" => B::RetZero,
        "sym_new" => B::SymNew,
        "sym_pick" => B::SymPick,
        "sym_assume" => B::SymAssume,
        "sym_assert" => B::SymAssert,
        "sym_note" => B::SymNote,
        "sym_reach" => B::SymReach,
        "sym_param" => B::SymParam,
        "sym_panic_ok" => B::SymPanicOk,
        "sym_hash_mode" => B::SymHashMode,
        "sym_hash_seed" => B::SymHashSeed,
        "sym_concrete" => B::SymConcrete,
        "sym_live" => B::SymLive,
        "sym_show" => B::Nop,
        _ => return None,
    })
}

/// Entry points of the panic machinery and of the hasher.
fn intercept_of(n: &str) -> Option<B> {
    if n.contains("rust_begin_unwind")
        || n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind")
        || n.contains("9panicking19panic_cannot_unwind")
        || n.contains("9panicking16panic_in_cleanup")
        || n.contains("18handle_alloc_error")
        || n.contains("15rust_panic_with_hook")
        || n == "rust_panic"
    {
        return Some(B::Panic);
    }
    crate::classes::class_of(n).map(B::CharClass)
}

fn hash_of(n: &str) -> Option<B> {
    // <std::hash::random::DefaultHasher as core::hash::Hasher>::{write*, finish}
    let rest = &n[n.find("13DefaultHasher")?..];
    let rest = &rest[rest.find("6Hasher")? + 7..];
    if rest.starts_with("6finish") {
        Some(B::HashFinish)
    } else if rest.contains("write") {
        Some(B::HashWrite)
    } else {
        None
    }
}

pub fn decode(m: Module) -> Prog {
    let mut init = Mem::new();
    for (i, g) in m.globals.iter().enumerate() {
        let size = g.ty.size() as usize;
        let mut bytes = vec![0u8; size];
        if let Some(c) = &g.init {
            write_const(c, &g.ty, &mut bytes);
        }
        init.add_fixed(
            i as u32 + 1,
            Obj { kind: if g.constant { Kind::Const } else { Kind::Global }, bytes, sym: None },
        );
    }
    let builtins: Vec<Option<B>> = m
        .funcs
        .iter()
        .map(|f| {
            if f.declared {
                Some(builtin_of(&f.name).unwrap_or(B::Unsupported))
            } else {
                intercept_of(&f.name).or_else(|| match f.name.as_str() {
                    // prefer exact models over interpreting libc-like symbols
                    "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" => builtin_of(&f.name),
                    _ => None,
                })
            }
        })
        .collect();
    let mut funcs = vec![];
    for f in &m.funcs {
        funcs.push(decode_func(f, &builtins));
    }
    Prog { funcs, builtins, module_funcs: m.func_ix, init }
}

fn d(o: &Opd) -> D {
    match o {
        Opd::Reg(r) => D::R(*r),
        Opd::C(c, t) => D::V(const_val(c, t)),
    }
}

fn decode_func(f: &Func, builtins: &[Option<B>]) -> XFunc {
    let mut blocks = vec![];
    for b in &f.blocks {
        let mut preds: Vec<u32> = vec![];
        for (_, inc) in &b.phis {
            for (p, _) in inc {
                if !preds.contains(p) {
                    preds.push(*p);
                }
            }
        }
        let mut edges = vec![];
        for p in preds {
            let mut moves = vec![];
            for (dst, inc) in &b.phis {
                if let Some((_, v)) = inc.iter().find(|(q, _)| *q == p) {
                    moves.push((*dst, d(v)));
                }
            }
            edges.push((p, moves));
        }
        let mut code = vec![];
        for i in &b.insts {
            code.push((i.dst, decode_op(&i.op, builtins)));
        }
        blocks.push(XBlock { edges, code });
    }
    XFunc {
        name: f.name.clone(),
        params: f.params.clone(),
        nregs: f.nregs as usize,
        blocks,
        hash: hash_of(&f.name),
    }
}

fn decode_op(op: &Op, builtins: &[Option<B>]) -> X {
    match op {
        Op::Bin(b, t, x, y) if t.is_scalar() => X::Bin(*b, t.bits(), d(x), d(y)),
        Op::Bin(b, t, x, y) => X::Slow(SlowOp::VBin(*b, t.clone(), d(x), d(y))),
        Op::Icmp(p, t, x, y) if t.is_scalar() => X::Icmp(*p, t.bits(), d(x), d(y)),
        Op::Icmp(p, t, x, y) => X::Slow(SlowOp::VIcmp(*p, t.clone(), d(x), d(y))),
        Op::Select(ct, t, c, x, y) if ct.is_scalar() => X::Select(t.clone(), d(c), d(x), d(y)),
        Op::Select(_, t, c, x, y) => X::Slow(SlowOp::VSelect(t.clone(), d(c), d(x), d(y))),
        Op::Load(t, p) if matches!(t, Ty::Int(_) | Ty::Ptr) && t.bits() <= 64 => {
            X::LoadI(t.bits(), t.store_size() as u8, d(p))
        }
        Op::Load(Ty::Float(_), _) => X::Slow(SlowOp::Unsupported("float load".into())),
        Op::Load(t, p) => X::Slow(SlowOp::Load(t.clone(), d(p))),
        Op::Store(t, v, p) if matches!(t, Ty::Int(_) | Ty::Ptr) && t.bits() <= 64 => {
            X::StoreI(t.store_size() as u8, d(v), d(p))
        }
        Op::Store(t, v, p) => X::Slow(SlowOp::Store(t.clone(), d(v), d(p))),
        Op::Gep { base, off, idx } => {
            if idx.is_empty() {
                X::Gep1(d(base), *off)
            } else {
                X::Gep(d(base), *off, idx.iter().map(|(o, w, s)| (d(o), *w, *s)).collect())
            }
        }
        Op::Alloca { size, count, .. } => X::Alloca(*size, count.as_ref().map(d)),
        Op::Cast(c, a, b, v) => {
            if a.is_scalar() && b.is_scalar() && *c != CastOp::Unsupported && a.bits() <= 64 && b.bits() <= 64 {
                X::Ext(*c, a.bits(), b.bits(), d(v))
            } else {
                X::Slow(SlowOp::Cast(*c, a.clone(), b.clone(), d(v)))
            }
        }
        Op::Call { callee, args, ret, normal } => match callee {
            Callee::Direct(f) => match builtins[*f as usize] {
                Some(b) => X::Builtin {
                    b,
                    f: *f,
                    args: args.iter().map(|(t, a)| (d(a), t.bits())).collect(),
                    ret: ret.clone(),
                    normal: *normal,
                },
                None => X::Call { f: *f, args: args.iter().map(|(_, a)| d(a)).collect(), normal: *normal },
            },
            Callee::Indirect(o) => {
                X::CallInd { f: d(o), args: args.iter().map(|(_, a)| d(a)).collect(), normal: *normal }
            }
        },
        Op::Br(b) => X::Br(*b),
        Op::CondBr(c, a, b) => X::CondBr(d(c), *a, *b),
        Op::Switch(w, v, def, cases) => {
            if *w > 64 {
                return X::Slow(SlowOp::Unsupported("wide switch".into()));
            }
            let l: Vec<(u64, u32)> = cases.iter().map(|(c, b)| (*c as u64, *b)).collect();
            X::Slow(SlowOp::Switch(*w, d(v), *def, l.iter().copied().collect(), l))
        }
        Op::Ret(v) => X::Ret(v.as_ref().map(|(_, v)| d(v))),
        Op::Unreachable => X::Slow(SlowOp::Unreachable),
        Op::ExtractValue(v, ix) => X::Slow(SlowOp::ExtractValue(d(v), ix.clone())),
        Op::InsertValue(t, v, e, ix) => X::Slow(SlowOp::InsertValue(t.clone(), d(v), d(e), ix.clone())),
        Op::ExtractElem(_, v, i) => X::Slow(SlowOp::ExtractElem(d(v), d(i))),
        Op::InsertElem(t, v, e, i) => X::Slow(SlowOp::InsertElem(t.clone(), d(v), d(e), d(i))),
        Op::Shuffle(t, a, b, m) => X::Slow(SlowOp::Shuffle(t.clone(), d(a), d(b), m.clone())),
        Op::Freeze(v) => X::Slow(SlowOp::Freeze(d(v))),
        Op::AtomicRmw(o, t, p, v) => X::Slow(SlowOp::AtomicRmw(*o, t.clone(), d(p), d(v))),
        Op::CmpXchg(t, p, c, n) => X::Slow(SlowOp::CmpXchg(t.clone(), d(p), d(c), d(n))),
        Op::Fence => X::Slow(SlowOp::Nop),
        Op::Unsupported(s) => X::Slow(SlowOp::Unsupported(s.clone())),
    }
}

// ------------------------------------------------------------ state

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    dst: u32,
    normal: Option<u32>,
    regs: Vec<Val>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    mem: Mem,
    frames: Vec<Frame>,
    pc: Vec<Ex>,
    model: Arc<Vec<u64>>,
    sym_w: Vec<u32>,
    known: u128,
    steps: u64,
    notes: Vec<Val>,
    panic_ok: u32,
    hash_const: bool,
    seed: u64,
    depth: u32,
    forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub id: u64,
    pub inputs: Vec<u64>,
    pub at: String,
}

pub struct Sample {
    pub inputs: Vec<u64>,
    pub notes: Vec<u64>,
    pub outcome: &'static str,
}

#[derive(Default)]
pub struct Report {
    pub paths_ok: AtomicU64,
    pub paths_assume: AtomicU64,
    pub paths_panic_ok: AtomicU64,
    pub paths_bad: AtomicU64,
    pub steps: AtomicU64,
    pub max_steps: AtomicU64,
    pub forks: AtomicU64,
    pub asserts: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub max_depth: AtomicU64,
    pub violations: Mutex<Vec<Violation>>,
    pub inconclusive: Mutex<BTreeMap<String, u64>>,
    pub reach: Mutex<BTreeMap<u64, u64>>,
    pub funcs: Mutex<HashSet<u32>>,
    pub samples: Mutex<Vec<Sample>>,
    pub sample_n: AtomicU64,
}

pub struct Config {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_violations: usize,
    pub threads: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    pub timeout_ms: u64,
    pub solver_timeout_ms: u32,
}

pub struct Shared {
    pub prog: Prog,
    pub cfg: Config,
    pub rep: Report,
    pub solver: Arc<solver::Shared>,
    queue: Mutex<Vec<State>>,
    cv: Condvar,
    idle: AtomicUsize,
    pub stop: AtomicBool,
    pub deadline: std::time::Instant,
    pub timed_out: AtomicBool,
}

enum Step {
    /// Advance to the next instruction.
    Next,
    /// Control was transferred (ip already set).
    Jumped,
    End(End),
}

enum End {
    Ok,
    AssumeFail,
    PanicOk,
    Violation(String, String, u64),
    Inconclusive(String),
}

struct Worker<'s> {
    sh: &'s Shared,
    solver: Solver,
    local: Vec<State>,
    funcs: HashSet<u32>,
    pool: Vec<Vec<Val>>,
}

type ER<T> = Result<T, End>;

fn memerr(e: MemErr) -> End {
    End::Violation("memory".into(), e.to_string(), 0)
}

impl State {
    fn add(&mut self, e: Ex) {
        if expr::as_const(&e) == Some(1) {
            return;
        }
        match &e.op {
            expr::Op::Bin(BinOp::And, a, b) if e.w == 1 => {
                let (a, b) = (a.clone(), b.clone());
                self.add(a);
                self.add(b);
                return;
            }
            expr::Op::Cmp(Pred::Eq, a, b) => {
                if let (expr::Op::Sym(s), Some(_)) = (&a.op, expr::as_const(b)) {
                    self.known |= 1 << *s;
                }
            }
            expr::Op::Sym(s) => self.known |= 1 << *s,
            expr::Op::Not(a) => {
                if let expr::Op::Sym(s) = &a.op {
                    self.known |= 1 << *s;
                }
            }
            _ => {}
        }
        self.pc.push(e);
    }
    fn update_model(&mut self, m: &[(u32, u64)]) {
        let mut v = (*self.model).clone();
        for (i, x) in m {
            if (*i as usize) < v.len() {
                v[*i as usize] = *x;
            }
        }
        self.model = Arc::new(v);
    }
}

impl<'s> Worker<'s> {
    fn slice(&self, st: &State, e: &Ex) -> Vec<Ex> {
        let mut vars = e.vars;
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] && c.vars & vars != 0 {
                    used[i] = true;
                    out.push(c.clone());
                    if c.vars & !vars != 0 {
                        vars |= c.vars;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out.push(e.clone());
        out
    }

    /// Is `e` satisfiable together with the path condition?
    fn sat(&mut self, st: &State, e: &Ex) -> ER<Option<Arc<Vec<(u32, u64)>>>> {
        if let Some(c) = expr::as_const(e) {
            return Ok(if c == 1 { Some(Arc::new(vec![])) } else { None });
        }
        if e.vars & !st.known == 0 {
            return Ok(if expr::eval(e, &st.model) == 1 { Some(Arc::new(vec![])) } else { None });
        }
        let q = self.slice(st, e);
        match self.solver.check(&q) {
            Verdict::Sat(m) => Ok(Some(m)),
            Verdict::Unsat => Ok(None),
            Verdict::Unknown => Err(End::Inconclusive("solver returned unknown".into())),
        }
    }

    fn push_fork(&mut self, st: State) {
        self.sh.rep.forks.fetch_add(1, Ordering::Relaxed);
        self.local.push(st);
    }

    /// Decides a symbolic condition; the other outcome (if possible) is pushed
    /// as a state that re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: &Ex) -> ER<bool> {
        self.split(st, c, None)
    }

    /// Same, but with `targets` the other state continues at its own block.
    fn split(&mut self, st: &mut State, c: &Ex, targets: Option<(u32, u32)>) -> ER<bool> {
        if let Some(v) = expr::as_const(c) {
            return Ok(v == 1);
        }
        let v = expr::eval(c, &st.model) == 1;
        if c.vars & !st.known == 0 {
            return Ok(v);
        }
        let (this, other) = if v { (c.clone(), expr::not(c)) } else { (expr::not(c), c.clone()) };
        if st.pc.iter().any(|p| p.hash == this.hash) {
            return Ok(v);
        }
        if let Some(m) = self.sat(st, &other)? {
            let mut alt = st.clone();
            alt.update_model(&m);
            alt.add(other);
            alt.forks += 1;
            if let Some((a, b)) = targets {
                self.goto(&mut alt, if v { b } else { a });
            }
            self.push_fork(alt);
            st.add(this);
            st.forks += 1;
        }
        Ok(v)
    }

    /// Picks one value of `e`; the remaining values are explored by a state
    /// that re-executes the current instruction.
    fn concretize(&mut self, st: &mut State, e: &Ex) -> ER<u128> {
        if let Some(v) = expr::as_const(e) {
            return Ok(v);
        }
        let v = expr::eval(e, &st.model);
        if e.vars & !st.known == 0 {
            return Ok(v);
        }
        let eq = expr::cmp(Pred::Eq, e, &expr::cst(e.w, v));
        let ne = expr::not(&eq);
        if let Some(m) = self.sat(st, &ne)? {
            let mut alt = st.clone();
            alt.update_model(&m);
            alt.add(ne);
            alt.forks += 1;
            self.push_fork(alt);
            st.add(eq);
            st.forks += 1;
        }
        Ok(v)
    }

    fn conc64(&mut self, st: &mut State, v: &Val) -> ER<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => Ok(self.concretize(st, e)? as u64),
            Val::A(_) => Err(End::Inconclusive("aggregate used as scalar".into())),
        }
    }

    #[inline]
    fn get<'a>(st: &'a State, o: &'a D) -> &'a Val {
        match o {
            D::R(r) => {
                let f = st.frames.last().unwrap();
                &f.regs[*r as usize]
            }
            D::V(v) => v,
        }
    }
    #[inline]
    fn set(st: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            let f = st.frames.last_mut().unwrap();
            f.regs[dst as usize] = v;
        }
    }

    fn goto(&self, st: &mut State, target: u32) {
        let f = st.frames.last_mut().unwrap();
        let xf = &self.sh.prog.funcs[f.func as usize];
        let b = &xf.blocks[target as usize];
        if !b.edges.is_empty() {
            let from = f.block;
            if let Some((_, moves)) = b.edges.iter().find(|(p, _)| *p == from) {
                if moves.len() == 1 {
                    let (dst, o) = &moves[0];
                    let v = match o {
                        D::R(r) => f.regs[*r as usize].clone(),
                        D::V(v) => v.clone(),
                    };
                    f.regs[*dst as usize] = v;
                } else {
                    let vals: Vec<Val> = moves
                        .iter()
                        .map(|(_, o)| match o {
                            D::R(r) => f.regs[*r as usize].clone(),
                            D::V(v) => v.clone(),
                        })
                        .collect();
                    for ((dst, _), v) in moves.iter().zip(vals) {
                        f.regs[*dst as usize] = v;
                    }
                }
            }
        }
        f.block = target;
        f.ip = 0;
    }

    fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> ER<()> {
        let xf = &self.sh.prog.funcs[f as usize];
        if xf.blocks.is_empty() {
            return Err(End::Inconclusive(format!("call to undefined function {}", xf.name)));
        }
        if st.frames.len() > 4000 {
            return Err(End::Violation("hang".into(), "call depth limit exceeded (stack overflow)".into(), 0));
        }
        self.funcs.insert(f);
        let mut regs = self.pool.pop().unwrap_or_default();
        if regs.len() < xf.nregs {
            regs.resize(xf.nregs, Val::I(0));
        } else {
            regs.truncate(xf.nregs);
        }
        for (p, a) in xf.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Frame { func: f, block: 0, ip: 0, dst, normal, regs, allocas: vec![] });
        Ok(())
    }

    fn do_return(&mut self, st: &mut State, v: Option<Val>) -> Step {
        let f = st.frames.pop().unwrap();
        for a in &f.allocas {
            st.mem.free_stack(*a);
        }
        let Frame { dst, normal, regs, .. } = f;
        if self.pool.len() < 64 {
            self.pool.push(regs);
        }
        if st.frames.is_empty() {
            return Step::End(End::Ok);
        }
        if let Some(v) = v {
            Self::set(st, dst, v);
        }
        match normal {
            Some(b) => self.goto(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Step::Jumped
    }

    fn bin_val(op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) if w <= 64 => Val::I(fold64(op, w, *x, *y)),
            _ => {
                if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
                    return Val::from_u128(expr::fold_bin(op, w, x, y), w);
                }
                Val::from_ex(expr::bin(op, &a.to_ex(w), &b.to_ex(w)))
            }
        }
    }

    fn cmp_val(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            return Val::I(expr::fold_cmp(p, w, x, y) as u64);
        }
        Val::from_ex(expr::cmp(p, &a.to_ex(w), &b.to_ex(w)))
    }

    fn cast_val(c: CastOp, from: u32, to: u32, v: &Val) -> Val {
        match v {
            Val::S(e) => Val::from_ex(match c {
                CastOp::SExt => expr::sext(e, to),
                _ => {
                    if to > from {
                        expr::zext(e, to)
                    } else {
                        expr::extract(e, 0, to)
                    }
                }
            }),
            v => {
                let x = v.conc().unwrap();
                match c {
                    CastOp::SExt => Val::from_u128(expr::sext128(x, from) as u128, to),
                    _ => Val::from_u128(x, to),
                }
            }
        }
    }

    /// Flattens a scalar or vector to one bit-vector.
    fn flatten(v: &Val, t: &Ty) -> Ex {
        match t {
            Ty::Vec(n, e) => {
                let Val::A(vs) = v else { return v.to_ex(t.bits()) };
                let w = e.bits();
                let mut acc = vs[*n as usize - 1].to_ex(w);
                for k in (0..*n as usize - 1).rev() {
                    acc = expr::concat(&acc, &vs[k].to_ex(w));
                }
                acc
            }
            _ => v.to_ex(t.bits()),
        }
    }
    fn flatten_conc(v: &Val, t: &Ty) -> Option<u128> {
        match (v, t) {
            (Val::A(vs), Ty::Vec(_, e)) => {
                let w = e.bits();
                if t.bits() > 128 {
                    return None;
                }
                let mut acc = 0u128;
                for (k, x) in vs.iter().enumerate() {
                    acc |= x.conc()? << (k as u32 * w);
                }
                Some(acc)
            }
            _ => v.conc(),
        }
    }
    fn unflatten_conc(x: u128, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, e) => {
                let w = e.bits();
                Val::A(Arc::new((0..*n).map(|k| Val::from_u128(x >> (k * w), w)).collect()))
            }
            _ => Val::from_u128(x, t.bits()),
        }
    }
    fn unflatten(x: &Ex, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, e) => {
                let w = e.bits();
                Val::A(Arc::new((0..*n).map(|k| Val::from_ex(expr::extract(x, k * w, w))).collect()))
            }
            _ => Val::from_ex(x.clone()),
        }
    }

    fn elems(v: &Val, t: &Ty) -> Vec<Val> {
        match v {
            Val::A(v) => v.to_vec(),
            _ => vec![v.clone(); t.n_fields()],
        }
    }

    /// Resolves an address operand to a concrete address.
    fn addr(&mut self, st: &mut State, o: &D) -> ER<u64> {
        match Self::get(st, o) {
            Val::I(a) => Ok(*a),
            Val::S(e) => {
                let e = e.clone();
                Ok(self.concretize(st, &e)? as u64)
            }
            _ => Err(End::Inconclusive("bad address".into())),
        }
    }

    /// Load through a symbolic address inside one object without forking.
    fn load_symbolic(&mut self, st: &mut State, e: &Ex, n: usize) -> ER<Option<Val>> {
        let cur = expr::eval(e, &st.model) as u64;
        let id = (cur >> 32) as u32;
        let Some(o) = st.mem.get(id) else { return Ok(None) };
        let size = o.bytes.len() as u64;
        let tz = tz_of(e).min(6);
        let stride = 1u64 << tz;
        let count = if size >= n as u64 { (size - n as u64) / stride + 1 } else { 0 };
        if count == 0 || count > 256 {
            return Ok(None);
        }
        let base = (id as u64) << 32;
        let off = expr::bin(BinOp::Sub, e, &expr::cst(64, base as u128));
        let outside = expr::cmp(Pred::Ult, &expr::cst(64, (size - n as u64) as u128), &off);
        if self.sat(st, &outside)?.is_some() {
            return Ok(None);
        }
        // value as nested ITE over the offsets, merging equal neighbours
        let w = 8 * n as u32;
        let mut acc: Option<Ex> = None;
        for k in (0..count).rev() {
            let v = st.mem.load(base + k * stride, n).map_err(memerr)?.to_ex(w);
            acc = Some(match acc {
                None => v,
                Some(a) => {
                    if a.hash == v.hash {
                        a
                    } else {
                        let c = expr::cmp(Pred::Ule, &off, &expr::cst(64, (k * stride) as u128));
                        expr::ite(&c, &v, &a)
                    }
                }
            });
        }
        Ok(acc.map(Val::from_ex))
    }

    fn load_ty(&mut self, st: &mut State, a: u64, t: &Ty) -> ER<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store_size() as usize;
                let v = st.mem.load(a, n).map_err(memerr)?;
                Ok(Self::cast_val(CastOp::Trunc, 8 * n as u32, t.bits(), &v))
            }
            Ty::Vec(_, e) if e.bits() % 8 != 0 => {
                let n = t.store_size() as usize;
                let v = st.mem.load(a, n).map_err(memerr)?;
                Ok(Self::unflatten(&v.to_ex(8 * n as u32), t))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = vec![];
                for i in 0..t.n_fields() {
                    v.push(self.load_ty(st, a + t.field_off(i), t.field_ty(i))?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => Err(End::Inconclusive("load of unsupported type".into())),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> ER<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                st.mem.store(a, t.store_size() as usize, v).map_err(memerr)
            }
            Ty::Vec(_, e) if e.bits() % 8 != 0 => {
                let x = Self::flatten(v, t);
                let n = t.store_size() as usize;
                let x = if x.w < 8 * n as u32 { expr::zext(&x, 8 * n as u32) } else { x };
                st.mem.store(a, n, &Val::from_ex(x)).map_err(memerr)
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let vs = Self::elems(v, t);
                for i in 0..t.n_fields() {
                    self.store_ty(st, a + t.field_off(i), t.field_ty(i), &vs[i])?;
                }
                Ok(())
            }
            _ => Err(End::Inconclusive("store of unsupported type".into())),
        }
    }

    fn select_val(c: &Ex, a: &Val, b: &Val, t: &Ty) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(Arc::new(
                x.iter()
                    .zip(y.iter())
                    .enumerate()
                    .map(|(i, (p, q))| Self::select_val(c, p, q, t.field_ty(i)))
                    .collect(),
            )),
            _ => Val::from_ex(expr::ite(c, &a.to_ex(t.bits()), &b.to_ex(t.bits()))),
        }
    }

    fn has_ptr(t: &Ty) -> bool {
        match t {
            Ty::Ptr => true,
            Ty::Struct(f, _) => f.iter().any(Self::has_ptr),
            Ty::Arr(_, t) | Ty::Vec(_, t) => Self::has_ptr(t),
            _ => false,
        }
    }

    fn step(&mut self, st: &mut State) -> ER<Step> {
        let sh = self.sh;
        let (func, block, ip) = {
            let f = st.frames.last().unwrap();
            (f.func, f.block, f.ip)
        };
        let (dst, op) = &sh.prog.funcs[func as usize].blocks[block as usize].code[ip as usize];
        let dst = *dst;
        match op {
            X::Bin(o, w, a, b) => {
                let r = Self::bin_val(*o, *w, Self::get(st, a), Self::get(st, b));
                Self::set(st, dst, r);
            }
            X::Icmp(p, w, a, b) => {
                let r = match (Self::get(st, a), Self::get(st, b)) {
                    (Val::I(x), Val::I(y)) => Val::I(cmp64(*p, *w, *x, *y) as u64),
                    (x, y) => Self::cmp_val(*p, *w, x, y),
                };
                Self::set(st, dst, r);
            }
            X::LoadI(w, n, p) => {
                let v = match Self::get(st, p) {
                    Val::I(a) => st.mem.load(*a, *n as usize).map_err(memerr)?,
                    Val::S(e) => {
                        let e = e.clone();
                        match self.load_symbolic(st, &e, *n as usize)? {
                            Some(v) => v,
                            None => {
                                let a = self.concretize(st, &e)? as u64;
                                st.mem.load(a, *n as usize).map_err(memerr)?
                            }
                        }
                    }
                    _ => return Err(End::Inconclusive("bad address".into())),
                };
                let v = if *w != 8 * *n as u32 { Self::cast_val(CastOp::Trunc, 8 * *n as u32, *w, &v) } else { v };
                Self::set(st, dst, v);
            }
            X::StoreI(n, v, p) => {
                let a = self.addr(st, p)?;
                let v = Self::get(st, v).clone();
                st.mem.store(a, *n as usize, &v).map_err(memerr)?;
            }
            X::Gep1(b, off) => {
                let r = match Self::get(st, b) {
                    Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                    v => Self::bin_val(BinOp::Add, 64, v, &Val::I(*off as u64)),
                };
                Self::set(st, dst, r);
            }
            X::Gep(b, off, idx) => {
                let mut acc = Self::bin_val(BinOp::Add, 64, Self::get(st, b), &Val::I(*off as u64));
                for (o, w, s) in idx {
                    let i = Self::get(st, o);
                    let i64v = if *w < 64 { Self::cast_val(CastOp::SExt, *w, 64, i) } else { i.clone() };
                    let t = Self::bin_val(BinOp::Mul, 64, &i64v, &Val::I(*s as u64));
                    acc = Self::bin_val(BinOp::Add, 64, &acc, &t);
                }
                Self::set(st, dst, acc);
            }
            X::Ext(c, from, to, v) => {
                let r = Self::cast_val(*c, *from, *to, Self::get(st, v));
                Self::set(st, dst, r);
            }
            X::Select(t, c, a, b) => {
                let r = match Self::get(st, c) {
                    Val::I(1) => Self::get(st, a).clone(),
                    Val::I(_) => Self::get(st, b).clone(),
                    Val::S(e) => {
                        let e = e.clone();
                        if Self::has_ptr(t) {
                            if self.decide(st, &e)? {
                                Self::get(st, a).clone()
                            } else {
                                Self::get(st, b).clone()
                            }
                        } else {
                            Self::select_val(&e, Self::get(st, a), Self::get(st, b), t)
                        }
                    }
                    _ => return Err(End::Inconclusive("bad select".into())),
                };
                Self::set(st, dst, r);
            }
            X::Br(b) => {
                self.goto(st, *b);
                return Ok(Step::Jumped);
            }
            X::CondBr(c, a, b) => {
                let take = match Self::get(st, c) {
                    Val::I(x) => *x == 1,
                    Val::S(e) => {
                        let e = e.clone();
                        self.split(st, &e, Some((*a, *b)))?
                    }
                    _ => return Err(End::Inconclusive("bad condition".into())),
                };
                self.goto(st, if take { *a } else { *b });
                return Ok(Step::Jumped);
            }
            X::Call { f, args, normal } => {
                if let Some(h) = sh.prog.funcs[*f as usize].hash {
                    if st.hash_const {
                        if h == B::HashFinish {
                            Self::set(st, dst, Val::I(0x1234_5678_9abc_def1));
                        }
                        return self.after_call(st, *normal);
                    }
                }
                let a: Vec<Val> = args.iter().map(|o| Self::get(st, o).clone()).collect();
                self.enter(st, *f, a, dst, *normal)?;
                return Ok(Step::Jumped);
            }
            X::CallInd { f, args, normal } => {
                let a = self.addr(st, f)?;
                let Some(fi) = ir::addr_func(a) else {
                    return Err(End::Violation("memory".into(), format!("call through bad pointer {a:#x}"), 0));
                };
                let vals: Vec<Val> = args.iter().map(|o| Self::get(st, o).clone()).collect();
                if let Some(b) = sh.prog.builtins[fi as usize] {
                    let av: Vec<(Val, u32)> = vals.into_iter().map(|v| (v, 64)).collect();
                    return self.builtin(st, b, fi, av, &Ty::Other, dst, *normal);
                }
                self.enter(st, fi, vals, dst, *normal)?;
                return Ok(Step::Jumped);
            }
            X::Builtin { b, f, args, ret, normal } => {
                let av: Vec<(Val, u32)> = args.iter().map(|(o, w)| (Self::get(st, o).clone(), *w)).collect();
                return self.builtin(st, *b, *f, av, ret, dst, *normal);
            }
            X::Ret(v) => {
                let v = v.as_ref().map(|v| Self::get(st, v).clone());
                return Ok(self.do_return(st, v));
            }
            X::Alloca(size, count) => {
                let n = match count {
                    Some(c) => {
                        let v = Self::get(st, c).clone();
                        self.conc64(st, &v)?
                    }
                    None => 1,
                };
                let a = st.mem.alloc(Kind::Stack, size * n);
                let f = st.frames.last_mut().unwrap();
                f.allocas.push((a >> 32) as u32);
                Self::set(st, dst, Val::I(a));
            }
            X::Slow(s) => return self.slow(st, s, dst),
        }
        Ok(Step::Next)
    }

    fn after_call(&mut self, st: &mut State, normal: Option<u32>) -> ER<Step> {
        match normal {
            Some(b) => {
                self.goto(st, b);
                Ok(Step::Jumped)
            }
            None => Ok(Step::Next),
        }
    }

    fn slow(&mut self, st: &mut State, s: &SlowOp, dst: u32) -> ER<Step> {
        match s {
            SlowOp::VBin(o, t, a, b) => {
                let (x, y) = (Self::elems(Self::get(st, a), t), Self::elems(Self::get(st, b), t));
                let w = t.field_ty(0).bits();
                let r = x.iter().zip(y.iter()).map(|(p, q)| Self::bin_val(*o, w, p, q)).collect();
                Self::set(st, dst, Val::A(Arc::new(r)));
            }
            SlowOp::VIcmp(p, t, a, b) => {
                let (x, y) = (Self::elems(Self::get(st, a), t), Self::elems(Self::get(st, b), t));
                let w = t.field_ty(0).bits();
                let r = x.iter().zip(y.iter()).map(|(m, q)| Self::cmp_val(*p, w, m, q)).collect();
                Self::set(st, dst, Val::A(Arc::new(r)));
            }
            SlowOp::VSelect(t, c, a, b) => {
                let cs = Self::elems(Self::get(st, c), t);
                let (x, y) = (Self::elems(Self::get(st, a), t), Self::elems(Self::get(st, b), t));
                let et = t.field_ty(0);
                let r = cs
                    .iter()
                    .zip(x.iter().zip(y.iter()))
                    .map(|(c, (p, q))| match c {
                        Val::I(1) => p.clone(),
                        Val::I(_) => q.clone(),
                        c => Self::select_val(&c.to_ex(1), p, q, et),
                    })
                    .collect();
                Self::set(st, dst, Val::A(Arc::new(r)));
            }
            SlowOp::Cast(c, a, b, v) => {
                let v = Self::get(st, v).clone();
                let r = match c {
                    CastOp::Bitcast => match Self::flatten_conc(&v, a) {
                        Some(x) => Self::unflatten_conc(x, b),
                        None => Self::unflatten(&Self::flatten(&v, a), b),
                    },
                    CastOp::Unsupported => return Err(End::Inconclusive("float cast".into())),
                    _ => match (a, b) {
                        (Ty::Vec(_, e), Ty::Vec(_, e2)) => Val::A(Arc::new(
                            Self::elems(&v, a).iter().map(|x| Self::cast_val(*c, e.bits(), e2.bits(), x)).collect(),
                        )),
                        _ => Self::cast_val(*c, a.bits(), b.bits(), &v),
                    },
                };
                Self::set(st, dst, r);
            }
            SlowOp::Load(t, p) => {
                let a = self.addr(st, p)?;
                let v = self.load_ty(st, a, t)?;
                Self::set(st, dst, v);
            }
            SlowOp::Store(t, v, p) => {
                let a = self.addr(st, p)?;
                let v = Self::get(st, v).clone();
                self.store_ty(st, a, t, &v)?;
            }
            SlowOp::Switch(w, v, def, map, list) => {
                let target = match Self::get(st, v) {
                    Val::I(x) => map.get(x).copied().unwrap_or(*def),
                    Val::S(e) => {
                        let e = e.clone();
                        self.switch(st, &e, *w, *def, map, list)?
                    }
                    _ => return Err(End::Inconclusive("bad switch".into())),
                };
                self.goto(st, target);
                return Ok(Step::Jumped);
            }
            SlowOp::Unreachable => {
                return Ok(Step::End(End::Violation("unreachable".into(), "reached unreachable code".into(), 0)))
            }
            SlowOp::ExtractValue(v, ix) => {
                let mut cur = Self::get(st, v).clone();
                for i in ix {
                    cur = match &cur {
                        Val::A(a) => a[*i as usize].clone(),
                        v => v.clone(),
                    };
                }
                Self::set(st, dst, cur);
            }
            SlowOp::InsertValue(t, v, e, ix) => {
                let e = Self::get(st, e).clone();
                let cur = Self::get(st, v).clone();
                let r = insert_at(&cur, t, ix, e);
                Self::set(st, dst, r);
            }
            SlowOp::ExtractElem(v, i) => {
                let iv = Self::get(st, i).clone();
                let i = self.conc64(st, &iv)?;
                let r = match Self::get(st, v) {
                    Val::A(a) => a.get(i as usize).cloned().unwrap_or(Val::I(0)),
                    v => v.clone(),
                };
                Self::set(st, dst, r);
            }
            SlowOp::InsertElem(t, v, e, i) => {
                let iv = Self::get(st, i).clone();
                let i = self.conc64(st, &iv)?;
                let mut vs = Self::elems(Self::get(st, v), t);
                if (i as usize) < vs.len() {
                    vs[i as usize] = Self::get(st, e).clone();
                }
                Self::set(st, dst, Val::A(Arc::new(vs)));
            }
            SlowOp::Shuffle(t, a, b, m) => {
                let (x, y) = (Self::elems(Self::get(st, a), t), Self::elems(Self::get(st, b), t));
                let r = m
                    .iter()
                    .map(|k| match k {
                        None => Val::I(0),
                        Some(k) if (*k as usize) < x.len() => x[*k as usize].clone(),
                        Some(k) => y[*k as usize - x.len()].clone(),
                    })
                    .collect();
                Self::set(st, dst, Val::A(Arc::new(r)));
            }
            SlowOp::Freeze(v) => {
                let v = Self::get(st, v).clone();
                Self::set(st, dst, v);
            }
            SlowOp::AtomicRmw(o, t, p, v) => {
                let a = self.addr(st, p)?;
                let old = self.load_ty(st, a, t)?;
                let v = Self::get(st, v).clone();
                let w = t.bits();
                let new = match o {
                    RmwOp::Xchg => v,
                    RmwOp::Add => Self::bin_val(BinOp::Add, w, &old, &v),
                    RmwOp::Sub => Self::bin_val(BinOp::Sub, w, &old, &v),
                    RmwOp::And => Self::bin_val(BinOp::And, w, &old, &v),
                    RmwOp::Or => Self::bin_val(BinOp::Or, w, &old, &v),
                    RmwOp::Xor => Self::bin_val(BinOp::Xor, w, &old, &v),
                    RmwOp::UMax | RmwOp::UMin => return Err(End::Inconclusive("atomicrmw min/max".into())),
                };
                self.store_ty(st, a, t, &new)?;
                Self::set(st, dst, old);
            }
            SlowOp::CmpXchg(t, p, c, n) => {
                let a = self.addr(st, p)?;
                let old = self.load_ty(st, a, t)?;
                let eq = Self::cmp_val(Pred::Eq, t.bits(), &old, Self::get(st, c));
                let ok = match &eq {
                    Val::I(x) => *x == 1,
                    Val::S(e) => {
                        let e = e.clone();
                        self.decide(st, &e)?
                    }
                    _ => false,
                };
                if ok {
                    let n = Self::get(st, n).clone();
                    self.store_ty(st, a, t, &n)?;
                }
                Self::set(st, dst, Val::A(Arc::new(vec![old, Val::I(ok as u64)])));
            }
            SlowOp::Nop => {}
            SlowOp::Unsupported(s) => return Err(End::Inconclusive(format!("unsupported: {s}"))),
        }
        Ok(Step::Next)
    }

    fn switch(
        &mut self,
        st: &mut State,
        e: &Ex,
        w: u32,
        def: u32,
        map: &HashMap<u64, u32>,
        list: &[(u64, u32)],
    ) -> ER<u32> {
        let v = expr::eval(e, &st.model) as u64;
        let taken = map.get(&v).copied().unwrap_or(def);
        if e.vars & !st.known == 0 {
            return Ok(taken);
        }
        // condition per distinct target
        let mut targets: Vec<(u32, Ex)> = vec![];
        let mut any = expr::fls();
        for (c, t) in list {
            let eq = expr::cmp(Pred::Eq, e, &expr::cst(w, *c as u128));
            any = expr::bin(BinOp::Or, &any, &eq);
            match targets.iter_mut().find(|(x, _)| x == t) {
                Some((_, ex)) => *ex = expr::bin(BinOp::Or, ex, &eq),
                None => targets.push((*t, eq)),
            }
        }
        let none = expr::not(&any);
        match targets.iter_mut().find(|(x, _)| *x == def) {
            Some((_, ex)) => *ex = expr::bin(BinOp::Or, ex, &none),
            None => targets.push((def, none)),
        }
        let mut forked = false;
        let mut mine = None;
        for (t, c) in targets {
            if t == taken {
                mine = Some(c);
                continue;
            }
            if let Some(m) = self.sat(st, &c)? {
                let mut alt = st.clone();
                alt.update_model(&m);
                alt.add(c);
                alt.forks += 1;
                self.goto(&mut alt, t);
                self.push_fork(alt);
                forked = true;
            }
        }
        if forked {
            st.add(mine.unwrap());
            st.forks += 1;
        }
        Ok(taken)
    }

    fn inputs(st: &State) -> Vec<u64> {
        (0..st.sym_w.len()).map(|i| st.model.get(i).copied().unwrap_or(0) & (expr::mask(st.sym_w[i]) as u64)).collect()
    }

    #[allow(clippy::too_many_arguments)]
    fn builtin(
        &mut self,
        st: &mut State,
        b: B,
        f: u32,
        args: Vec<(Val, u32)>,
        ret: &Ty,
        dst: u32,
        normal: Option<u32>,
    ) -> ER<Step> {
        let w0 = args.first().map_or(0, |a| a.1);
        macro_rules! a {
            ($i:expr) => {
                &args[$i].0
            };
        }
        match b {
            B::Nop => {}
            B::Identity | B::Expect => Self::set(st, dst, args[0].0.clone()),
            B::IsConstant => Self::set(st, dst, Val::I(0)),
            B::RetZero => Self::set(st, dst, Val::I(0)),
            B::MemCpy => {
                let d = self.conc64(st, a!(0))?;
                let s = self.conc64(st, a!(1))?;
                let n = self.conc64(st, a!(2))?;
                st.mem.copy(d, s, n).map_err(memerr)?;
                Self::set(st, dst, Val::I(d));
            }
            B::MemSet => {
                let d = self.conc64(st, a!(0))?;
                let n = self.conc64(st, a!(2))?;
                match a!(1) {
                    Val::I(v) => st.mem.set(d, *v as u8, n).map_err(memerr)?,
                    v => {
                        let x = if w0 > 8 { Self::cast_val(CastOp::Trunc, args[1].1, 8, v) } else { v.clone() };
                        for k in 0..n {
                            st.mem.store(d + k, 1, &x).map_err(memerr)?;
                        }
                    }
                }
                Self::set(st, dst, Val::I(d));
            }
            B::MemCmp(ordered) => {
                let p = self.conc64(st, a!(0))?;
                let q = self.conc64(st, a!(1))?;
                let n = self.conc64(st, a!(2))?;
                let mut r: Option<Val> = None;
                let mut concrete = true;
                for k in 0..n {
                    let x = st.mem.load(p + k, 1).map_err(memerr)?;
                    let y = st.mem.load(q + k, 1).map_err(memerr)?;
                    match (&x, &y) {
                        (Val::I(i), Val::I(j)) => {
                            if i != j {
                                r = Some(Val::I(if i < j { 0xffff_ffff } else { 1 }));
                                break;
                            }
                        }
                        _ => {
                            concrete = false;
                            break;
                        }
                    }
                }
                if concrete {
                    Self::set(st, dst, r.unwrap_or(Val::I(0)));
                } else {
                    let mut acc = expr::cst(32, 0);
                    for k in (0..n).rev() {
                        let x = st.mem.load(p + k, 1).map_err(memerr)?.to_ex(8);
                        let y = st.mem.load(q + k, 1).map_err(memerr)?.to_ex(8);
                        let eq = expr::cmp(Pred::Eq, &x, &y);
                        let ne = if ordered {
                            let lt = expr::cmp(Pred::Ult, &x, &y);
                            expr::ite(&lt, &expr::cst(32, 0xffff_ffff), &expr::cst(32, 1))
                        } else {
                            expr::cst(32, 1)
                        };
                        acc = expr::ite(&eq, &acc, &ne);
                    }
                    Self::set(st, dst, Val::from_ex(acc));
                }
            }
            B::StrLen => {
                let p = self.conc64(st, a!(0))?;
                let mut n = 0;
                loop {
                    let v = st.mem.load(p + n, 1).map_err(memerr)?;
                    if self.conc64(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Self::set(st, dst, Val::I(n));
            }
            B::Malloc | B::Calloc => {
                let mut n = self.conc64(st, a!(0))?;
                if b == B::Calloc {
                    n = n.saturating_mul(self.conc64(st, a!(1))?);
                }
                if n > (1 << 30) {
                    return Err(End::Violation("memory".into(), format!("allocation of {n} bytes"), 0));
                }
                let p = st.mem.alloc(Kind::Heap, n);
                Self::set(st, dst, Val::I(p));
            }
            B::PosixMemalign => {
                let out = self.conc64(st, a!(0))?;
                let n = self.conc64(st, a!(2))?;
                let p = st.mem.alloc(Kind::Heap, n);
                st.mem.store(out, 8, &Val::I(p)).map_err(memerr)?;
                Self::set(st, dst, Val::I(0));
            }
            B::Realloc => {
                let p = self.conc64(st, a!(0))?;
                let n = self.conc64(st, a!(1))?;
                if n > (1 << 30) {
                    return Err(End::Violation("memory".into(), format!("allocation of {n} bytes"), 0));
                }
                let np = st.mem.alloc(Kind::Heap, n);
                if p != 0 {
                    let old = st.mem.obj(p, 0).map_err(memerr)?.0.bytes.len() as u64;
                    st.mem.copy(np, p, old.min(n)).map_err(memerr)?;
                    st.mem.free_heap(p).map_err(memerr)?;
                }
                Self::set(st, dst, Val::I(np));
            }
            B::Free => {
                let p = self.conc64(st, a!(0))?;
                if p != 0 {
                    st.mem.free_heap(p).map_err(memerr)?;
                }
            }
            B::GetRandom => {
                let p = self.conc64(st, a!(0))?;
                let n = self.conc64(st, a!(1))?;
                for k in 0..n {
                    st.seed = st.seed.wrapping_add(0x9E3779B97F4A7C15);
                    let mut z = st.seed;
                    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                    st.mem.store(p + k, 1, &Val::I((z >> 31) & 0xff)).map_err(memerr)?;
                }
                Self::set(st, dst, Val::I(n));
            }
            B::Write => {
                let n = args.get(2).map_or(Val::I(0), |x| x.0.clone());
                Self::set(st, dst, n);
            }
            B::Abort => return Ok(Step::End(End::Violation("abort".into(), "process aborts".into(), 0))),
            B::Panic => {
                let loc = self.panic_location(st, &args);
                if st.panic_ok != 0 {
                    return Ok(Step::End(End::PanicOk));
                }
                return Ok(Step::End(End::Violation("panic".into(), format!("panic at {loc}"), 0)));
            }
            B::UMax | B::UMin | B::SMax | B::SMin => {
                let r = if let (Val::A(_), _) | (_, Val::A(_)) = (a!(0), a!(1)) {
                    let (x, y) = (Self::elems(a!(0), ret), Self::elems(a!(1), ret));
                    let t = ret.field_ty(0).clone();
                    Val::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| minmax(b, p, q, t.bits())).collect()))
                } else {
                    minmax(b, a!(0), a!(1), w0)
                };
                Self::set(st, dst, r);
            }
            B::USubSat | B::UAddSat => {
                let (x, y) = (a!(0).to_ex(w0), a!(1).to_ex(w0));
                let r = if b == B::USubSat {
                    expr::ite(&expr::cmp(Pred::Ult, &x, &y), &expr::cst(w0, 0), &expr::bin(BinOp::Sub, &x, &y))
                } else {
                    let s = expr::bin(BinOp::Add, &x, &y);
                    expr::ite(&expr::cmp(Pred::Ult, &s, &x), &expr::cst(w0, u128::MAX), &s)
                };
                Self::set(st, dst, Val::from_ex(r));
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitreverse | B::Abs => {
                let one = |v: &Val, w: u32| -> Val {
                    match v.conc() {
                        Some(x) => Val::from_u128(unary_conc(b, x, w), w),
                        None => Val::from_ex(unary_ex(b, &v.to_ex(w))),
                    }
                };
                let r = match a!(0) {
                    Val::A(vs) => {
                        let w = ret.field_ty(0).bits();
                        Val::A(Arc::new(vs.iter().map(|v| one(v, w)).collect()))
                    }
                    v => one(v, w0),
                };
                Self::set(st, dst, r);
            }
            B::Fshl | B::Fshr => {
                let sh = self.conc64(st, a!(2))? as u32 % w0;
                let hi = a!(0).to_ex(w0);
                let lo = a!(1).to_ex(w0);
                let r = if sh == 0 {
                    if b == B::Fshl {
                        hi
                    } else {
                        lo
                    }
                } else {
                    let l = if b == B::Fshl { sh } else { w0 - sh };
                    expr::bin(
                        BinOp::Or,
                        &expr::bin(BinOp::Shl, &hi, &expr::cst(w0, l as u128)),
                        &expr::bin(BinOp::LShr, &lo, &expr::cst(w0, (w0 - l) as u128)),
                    )
                };
                Self::set(st, dst, Val::from_ex(r));
            }
            B::UCmp | B::SCmp => {
                let rw = ret.bits();
                let (x, y) = (a!(0).to_ex(w0), a!(1).to_ex(w0));
                let p = if b == B::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = expr::cmp(p, &x, &y);
                let eq = expr::cmp(Pred::Eq, &x, &y);
                let r = expr::ite(
                    &lt,
                    &expr::cst(rw, u128::MAX),
                    &expr::ite(&eq, &expr::cst(rw, 0), &expr::cst(rw, 1)),
                );
                Self::set(st, dst, Val::from_ex(r));
            }
            B::WithOverflow(op, signed) => {
                let (x, y) = (a!(0).to_ex(w0), a!(1).to_ex(w0));
                let r = expr::bin(op, &x, &y);
                let ww = if op == BinOp::Mul { 2 * w0 } else { w0 + 1 };
                if ww > 128 {
                    return Err(End::Inconclusive("wide overflow check".into()));
                }
                let ov = if signed {
                    let wide = expr::bin(op, &expr::sext(&x, ww), &expr::sext(&y, ww));
                    expr::not(&expr::cmp(Pred::Eq, &wide, &expr::sext(&r, ww)))
                } else {
                    match op {
                        BinOp::Add => expr::cmp(Pred::Ult, &r, &x),
                        BinOp::Sub => expr::cmp(Pred::Ult, &x, &y),
                        _ => {
                            let wide = expr::bin(op, &expr::zext(&x, ww), &expr::zext(&y, ww));
                            expr::not(&expr::cmp(Pred::Eq, &wide, &expr::zext(&r, ww)))
                        }
                    }
                };
                Self::set(st, dst, Val::A(Arc::new(vec![Val::from_ex(r), Val::from_ex(ov)])));
            }
            B::ReduceOr | B::ReduceAnd | B::ReduceAdd => {
                let w = ret.bits();
                let o = match b {
                    B::ReduceOr => BinOp::Or,
                    B::ReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                let Val::A(vs) = a!(0) else { return Err(End::Inconclusive("reduce".into())) };
                let mut acc = vs[0].clone();
                for v in vs.iter().skip(1) {
                    acc = Self::bin_val(o, w, &acc, v);
                }
                Self::set(st, dst, acc);
            }
            // ---------------------------------------------- harness interface
            B::SymNew => {
                let w = self.conc64(st, a!(0))? as u32;
                let k = st.sym_w.len() as u32;
                if k >= 128 {
                    return Err(End::Inconclusive("too many symbolic inputs".into()));
                }
                st.sym_w.push(w);
                let mut m = (*st.model).clone();
                m.resize(k as usize + 1, 0);
                st.model = Arc::new(m);
                let e = expr::zext(&expr::sym(w, k), 64);
                Self::set(st, dst, Val::from_ex(e));
            }
            B::SymPick => {
                let n = self.conc64(st, a!(0))?;
                if n == 0 {
                    return Ok(Step::End(End::AssumeFail));
                }
                let k = st.sym_w.len() as u32;
                if k >= 128 {
                    return Err(End::Inconclusive("too many symbolic inputs".into()));
                }
                st.sym_w.push(32);
                let mut m = (*st.model).clone();
                m.resize(k as usize + 1, 0);
                st.model = Arc::new(m);
                let e = expr::sym(32, k);
                for v in (1..n).rev() {
                    let mut alt = st.clone();
                    alt.update_model(&[(k, v)]);
                    alt.add(expr::cmp(Pred::Eq, &e, &expr::cst(32, v as u128)));
                    Self::set(&mut alt, dst, Val::I(v));
                    match normal {
                        Some(b) => self.goto(&mut alt, b),
                        None => alt.frames.last_mut().unwrap().ip += 1,
                    }
                    self.push_fork(alt);
                }
                st.add(expr::cmp(Pred::Eq, &e, &expr::cst(32, 0)));
                Self::set(st, dst, Val::I(0));
            }
            B::SymConcrete => {
                let v = self.conc64(st, a!(0))?;
                Self::set(st, dst, Val::I(v));
            }
            B::SymAssume => match a!(0) {
                Val::I(0) => return Ok(Step::End(End::AssumeFail)),
                Val::I(_) => {}
                Val::S(e) => {
                    let e = if e.w != 1 { expr::not(&expr::cmp(Pred::Eq, e, &expr::cst(e.w, 0))) } else { e.clone() };
                    if expr::eval(&e, &st.model) == 1 {
                        st.add(e);
                    } else {
                        match self.sat(st, &e)? {
                            Some(m) => {
                                st.update_model(&m);
                                st.add(e);
                            }
                            None => return Ok(Step::End(End::AssumeFail)),
                        }
                    }
                }
                _ => return Err(End::Inconclusive("bad assume".into())),
            },
            B::SymAssert => {
                self.sh.rep.asserts.fetch_add(1, Ordering::Relaxed);
                let id = self.conc64(st, a!(1))?;
                match a!(0) {
                    Val::I(0) => {
                        return Ok(Step::End(End::Violation("assert".into(), format!("assertion {id} fails"), id)))
                    }
                    Val::I(_) => {}
                    Val::S(e) => {
                        self.sh.rep.asserts_solver.fetch_add(1, Ordering::Relaxed);
                        let e = if e.w != 1 { expr::not(&expr::cmp(Pred::Eq, e, &expr::cst(e.w, 0))) } else { e.clone() };
                        let n = expr::not(&e);
                        if let Some(m) = self.sat(st, &n)? {
                            let mut bad = st.clone();
                            bad.update_model(&m);
                            bad.add(n);
                            self.finish(bad, End::Violation("assert".into(), format!("assertion {id} fails"), id));
                            match self.sat(st, &e)? {
                                Some(m) => {
                                    st.update_model(&m);
                                    st.add(e);
                                }
                                None => return Ok(Step::End(End::AssumeFail)),
                            }
                        }
                    }
                    _ => return Err(End::Inconclusive("bad assert".into())),
                }
            }
            B::SymNote => st.notes.push(args[0].0.clone()),
            B::SymReach => {
                let id = self.conc64(st, a!(0))?;
                *self.sh.rep.reach.lock().unwrap().entry(id).or_insert(0) += 1;
            }
            B::SymParam => {
                let i = self.conc64(st, a!(0))? as usize;
                let Some(v) = self.sh.cfg.params.get(i) else {
                    return Err(End::Inconclusive(format!("parameter {i} not given")));
                };
                Self::set(st, dst, Val::I(*v));
            }
            B::SymPanicOk => st.panic_ok = self.conc64(st, a!(0))? as u32,
            B::SymHashMode => st.hash_const = self.conc64(st, a!(0))? == 0,
            B::SymHashSeed => st.seed = self.conc64(st, a!(0))?.wrapping_mul(0x2545F4914F6CDD1D),
            B::SymLive => Self::set(st, dst, Val::I(st.mem.heap_live)),
            B::HashWrite | B::HashFinish => {}
            B::CharClass(k) => {
                let v = match a!(0) {
                    Val::I(c) => Val::I(crate::classes::concrete(k, *c) as u64),
                    Val::S(e) => Val::from_ex(crate::classes::member(k, e)),
                    _ => return Err(End::Inconclusive("bad character".into())),
                };
                Self::set(st, dst, v);
            }
            B::Unsupported => {
                return Err(End::Inconclusive(format!("call to external {}", self.sh.prog.funcs[f as usize].name)))
            }
        }
        self.after_call(st, normal)
    }

    /// Best effort source location of a panic.
    fn panic_location(&self, st: &State, args: &[(Val, u32)]) -> String {
        let try_loc = |p: u64| -> Option<String> {
            let (o, off) = st.mem.obj(p, 24).ok()?;
            if o.kind != Kind::Const || off != 0 {
                return None;
            }
            let f = u64::from_le_bytes(o.bytes[0..8].try_into().ok()?);
            let n = u64::from_le_bytes(o.bytes[8..16].try_into().ok()?);
            let line = u32::from_le_bytes(o.bytes[16..20].try_into().ok()?);
            if n == 0 || n > 512 {
                return None;
            }
            let (s, so) = st.mem.obj(f, n).ok()?;
            let s = std::str::from_utf8(&s.bytes[so..so + n as usize]).ok()?;
            if s.contains(".rs") {
                Some(format!("{s}:{line}"))
            } else {
                None
            }
        };
        for (v, _) in args {
            if let Val::I(p) = v {
                if let Some(s) = try_loc(*p) {
                    return s;
                }
                for k in 0..6 {
                    if let Ok(Val::I(q)) = st.mem.load(p + 8 * k, 8) {
                        if let Some(s) = try_loc(q) {
                            return s;
                        }
                    }
                }
            }
        }
        "unknown location".into()
    }

    fn finish(&mut self, st: State, end: End) {
        let rep = &self.sh.rep;
        rep.steps.fetch_add(st.steps, Ordering::Relaxed);
        rep.max_steps.fetch_max(st.steps, Ordering::Relaxed);
        rep.max_depth.fetch_max(st.forks as u64, Ordering::Relaxed);
        let mut outcome = None;
        match end {
            End::Ok => {
                rep.paths_ok.fetch_add(1, Ordering::Relaxed);
                outcome = Some("ok");
            }
            End::AssumeFail => {
                rep.paths_assume.fetch_add(1, Ordering::Relaxed);
            }
            End::PanicOk => {
                rep.paths_panic_ok.fetch_add(1, Ordering::Relaxed);
                outcome = Some("panic");
            }
            End::Violation(kind, msg, id) => {
                rep.paths_bad.fetch_add(1, Ordering::Relaxed);
                let at = st
                    .frames
                    .iter()
                    .rev()
                    .take(12)
                    .map(|f| self.sh.prog.funcs[f.func as usize].name.clone())
                    .collect::<Vec<_>>()
                    .join(" < ");
                let v = Violation { kind, msg, id, inputs: Self::inputs(&st), at };
                let mut l = rep.violations.lock().unwrap();
                l.push(v);
                if l.len() >= self.sh.cfg.max_violations {
                    self.sh.stop.store(true, Ordering::Relaxed);
                }
            }
            End::Inconclusive(m) => {
                let mut l = rep.inconclusive.lock().unwrap();
                let at = st.frames.last().map(|f| self.sh.prog.funcs[f.func as usize].name.clone()).unwrap_or_default();
                *l.entry(format!("{m} in {at}")).or_insert(0) += 1;
            }
        }
        if let Some(o) = outcome {
            let n = rep.sample_n.fetch_add(1, Ordering::Relaxed);
            if (n + 1).is_power_of_two() || n % self.sh.cfg.sample_every == 0 {
                let mut l = rep.samples.lock().unwrap();
                if l.len() < self.sh.cfg.max_samples {
                    let notes = st
                        .notes
                        .iter()
                        .map(|v| match v {
                            Val::I(x) => *x,
                            Val::S(e) => expr::eval(e, &st.model) as u64,
                            _ => 0,
                        })
                        .collect();
                    l.push(Sample { inputs: Self::inputs(&st), notes, outcome: o });
                }
            }
        }
        // recycle register files
        for f in st.frames {
            if self.pool.len() < 64 {
                self.pool.push(f.regs);
            }
        }
    }

    fn run_state(&mut self, mut st: State) {
        let max = self.sh.cfg.max_steps;
        let mut ticks = 0u32;
        loop {
            st.steps += 1;
            ticks += 1;
            if ticks & 0xffff == 0 {
                if self.sh.stop.load(Ordering::Relaxed) {
                    return;
                }
                if std::time::Instant::now() > self.sh.deadline {
                    self.sh.timed_out.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    return;
                }
            }
            if st.steps > max {
                let m = format!("no result after {max} instructions");
                self.finish(st, End::Violation("hang".into(), m, 0));
                return;
            }
            match self.step(&mut st) {
                Ok(Step::Next) => st.frames.last_mut().unwrap().ip += 1,
                Ok(Step::Jumped) => {}
                Ok(Step::End(e)) => {
                    self.finish(st, e);
                    return;
                }
                Err(e) => {
                    self.finish(st, e);
                    return;
                }
            }
            if self.local.len() > 1 && self.sh.idle.load(Ordering::Relaxed) > 0 {
                self.share();
            }
        }
    }

    fn share(&mut self) {
        let idle = self.sh.idle.load(Ordering::Relaxed);
        if idle == 0 {
            return;
        }
        let mut q = self.sh.queue.lock().unwrap();
        if !q.is_empty() {
            return;
        }
        let give = (self.local.len() / 2).max(1).min(self.local.len());
        // the oldest states are nearest to the root
        q.extend(self.local.drain(..give));
        drop(q);
        self.sh.cv.notify_all();
    }

    fn work(&mut self) {
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let st = match self.local.pop() {
                Some(s) => Some(s),
                None => {
                    let mut q = self.sh.queue.lock().unwrap();
                    loop {
                        if let Some(s) = q.pop() {
                            break Some(s);
                        }
                        let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                        if idle == self.sh.cfg.threads || self.sh.stop.load(Ordering::Relaxed) {
                            self.sh.stop.store(true, Ordering::SeqCst);
                            self.sh.cv.notify_all();
                            break None;
                        }
                        q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                        if self.sh.stop.load(Ordering::Relaxed) {
                            break None;
                        }
                        self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                    }
                }
            };
            match st {
                Some(s) => self.run_state(s),
                None => break,
            }
        }
        self.sh.rep.funcs.lock().unwrap().extend(self.funcs.iter().copied());
        self.sh.cv.notify_all();
    }
}

fn insert_at(v: &Val, t: &Ty, ix: &[u32], e: Val) -> Val {
    if ix.is_empty() {
        return e;
    }
    let mut vs = Worker::elems(v, t);
    let i = ix[0] as usize;
    let inner = vs[i].clone();
    vs[i] = insert_at(&inner, t.field_ty(i), &ix[1..], e);
    Val::A(Arc::new(vs))
}

fn minmax(b: B, p: &Val, q: &Val, w: u32) -> Val {
    let (pred, swap) = match b {
        B::UMax => (Pred::Ult, true),
        B::UMin => (Pred::Ult, false),
        B::SMax => (Pred::Slt, true),
        _ => (Pred::Slt, false),
    };
    let c = Worker::cmp_val(pred, w, p, q);
    let (x, y) = if swap { (q, p) } else { (p, q) };
    match c {
        Val::I(1) => x.clone(),
        Val::I(_) => y.clone(),
        c => Val::from_ex(expr::ite(&c.to_ex(1), &x.to_ex(w), &y.to_ex(w))),
    }
}

fn unary_conc(b: B, x: u128, w: u32) -> u128 {
    match b {
        B::Ctlz => (x << (128 - w)).leading_zeros().min(w) as u128,
        B::Cttz => x.trailing_zeros().min(w) as u128,
        B::Ctpop => x.count_ones() as u128,
        B::Bswap => x.swap_bytes() >> (128 - w),
        B::Bitreverse => x.reverse_bits() >> (128 - w),
        B::Abs => {
            let s = expr::sext128(x, w);
            (s.wrapping_abs() as u128) & expr::mask(w)
        }
        _ => unreachable!(),
    }
}

fn unary_ex(b: B, e: &Ex) -> Ex {
    let w = e.w;
    match b {
        B::Ctlz => {
            let mut acc = expr::cst(w, w as u128);
            for i in 0..w {
                let bit = expr::extract(e, i, 1);
                acc = expr::ite(&bit, &expr::cst(w, (w - 1 - i) as u128), &acc);
            }
            acc
        }
        B::Cttz => {
            let mut acc = expr::cst(w, w as u128);
            for i in (0..w).rev() {
                let bit = expr::extract(e, i, 1);
                acc = expr::ite(&bit, &expr::cst(w, i as u128), &acc);
            }
            acc
        }
        B::Ctpop => {
            let mut acc = expr::cst(w, 0);
            for i in 0..w {
                acc = expr::bin(BinOp::Add, &acc, &expr::zext(&expr::extract(e, i, 1), w));
            }
            acc
        }
        B::Bswap => {
            let n = w / 8;
            let mut acc = expr::extract(e, 0, 8);
            for i in 1..n {
                acc = expr::concat(&acc, &expr::extract(e, 8 * i, 8));
            }
            acc
        }
        B::Bitreverse => {
            let mut acc = expr::extract(e, 0, 1);
            for i in 1..w {
                acc = expr::concat(&acc, &expr::extract(e, i, 1));
            }
            acc
        }
        B::Abs => {
            let neg = expr::cmp(Pred::Slt, e, &expr::cst(w, 0));
            expr::ite(&neg, &expr::bin(BinOp::Sub, &expr::cst(w, 0), e), e)
        }
        _ => unreachable!(),
    }
}

/// Number of low bits known to be zero.
fn tz_of(e: &Ex) -> u32 {
    match &e.op {
        expr::Op::Const(c) => c.trailing_zeros().min(e.w),
        expr::Op::Bin(BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor, a, b) => tz_of(a).min(tz_of(b)),
        expr::Op::Bin(BinOp::Mul, a, b) => (tz_of(a) + tz_of(b)).min(e.w),
        expr::Op::Bin(BinOp::Shl, a, b) => match expr::as_const(b) {
            Some(s) => (tz_of(a) + s as u32).min(e.w),
            None => tz_of(a),
        },
        expr::Op::Ite(_, a, b) => tz_of(a).min(tz_of(b)),
        expr::Op::ZExt(a) => {
            let t = tz_of(a);
            if t >= a.w {
                e.w
            } else {
                t
            }
        }
        expr::Op::Concat(_, l) => tz_of(l),
        _ => 0,
    }
}

#[inline]
fn fold64(op: BinOp, w: u32, x: u64, y: u64) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    match op {
        BinOp::Add => x.wrapping_add(y) & m,
        BinOp::Sub => x.wrapping_sub(y) & m,
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Mul => x.wrapping_mul(y) & m,
        BinOp::Shl if y < w as u64 => (x << y) & m,
        BinOp::LShr if y < w as u64 => x >> y,
        _ => expr::fold_bin(op, w, x as u128, y as u128) as u64,
    }
}

#[inline]
fn cmp64(p: Pred, w: u32, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        _ => expr::fold_cmp(p, w, x as u128, y as u128),
    }
}

pub fn run(sh: &Shared, entry: &str) -> Result<(), String> {
    let Some(f) = sh.prog.module_funcs.get(entry).copied() else {
        return Err(format!("entry {entry} not found"));
    };
    let mut st = State {
        mem: sh.prog.init.clone(),
        frames: vec![],
        pc: vec![],
        model: Arc::new(vec![]),
        sym_w: vec![],
        known: 0,
        steps: 0,
        notes: vec![],
        panic_ok: 0,
        hash_const: false,
        seed: 1,
        depth: 0,
        forks: 0,
    };
    let _ = st.depth;
    let xf = &sh.prog.funcs[f as usize];
    st.frames.push(Frame {
        func: f,
        block: 0,
        ip: 0,
        dst: NODST,
        normal: None,
        regs: vec![Val::I(0); xf.nregs],
        allocas: vec![],
    });
    sh.queue.lock().unwrap().push(st);
    std::thread::scope(|s| {
        for _ in 0..sh.cfg.threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut w = Worker {
                        sh,
                        solver: Solver::new(sh.solver.clone(), sh.cfg.solver_timeout_ms),
                        local: vec![],
                        funcs: HashSet::new(),
                        pool: vec![],
                    };
                    w.work();
                })
                .expect("spawn");
        }
    });
    Ok(())
}

impl Shared {
    pub fn new(prog: Prog, cfg: Config, solver: Arc<solver::Shared>) -> Self {
        let deadline = std::time::Instant::now() + std::time::Duration::from_millis(cfg.timeout_ms);
        Shared {
            prog,
            cfg,
            rep: Report::default(),
            solver,
            queue: Mutex::new(vec![]),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            deadline,
            timed_out: AtomicBool::new(false),
        }
    }
}
