//! Textual LLVM IR loader (the subset rustc emits on x86-64).
use crate::expr::{BinOp, Pred};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Vec<Ty>, bool),
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Other,
}

fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 / 8).max(1),
            Ty::Struct(_, true) => 1,
            Ty::Struct(fs, false) => fs.iter().map(|f| f.align()).max().unwrap_or(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => round_up(self.bits() as u64, 8).max(8) / 8,
            _ => 1,
        }
    }
    /// Number of bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => round_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !packed {
                        o = round_up(o, f.align());
                    }
                    o += f.size();
                }
                if *packed {
                    o
                } else {
                    round_up(o, self.align())
                }
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        o = round_up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.store_size(),
            _ => 0,
        }
    }
    pub fn field_ty(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => &Ty::Other,
        }
    }
    pub fn n_fields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// Bit width of scalars and vectors.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
}

/// Constants. Aggregates keep their parts.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Agg(Vec<Const>),
    Bytes(Vec<u8>),
    /// `zeroinitializer`, `undef` and `poison` (all read as zero).
    Zero,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Const, Ty),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    Unsupported,
}

#[derive(Clone, Copy, Debug)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(BinOp, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Cast(CastOp, Ty, Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { size: u64, count: Option<Opd>, align: u64 },
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElem(Ty, Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Freeze(Opd),
    AtomicRmw(RmwOp, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub op: Op,
}

pub const NODST: u32 = u32::MAX;

#[derive(Default, Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub declared: bool,
    pub ret: Ty,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub func_ix: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_ix: HashMap<String, u32>,
}

/// Address of function `i`.
pub fn func_addr(i: u32) -> u64 {
    (0x7f00_0000u64 << 32) | ((i as u64) << 4)
}
pub fn addr_func(a: u64) -> Option<u32> {
    if a >> 32 == 0x7f00_0000 && a & 15 == 0 {
        Some(((a & 0xffff_ffff) >> 4) as u32)
    } else {
        None
    }
}
/// Address of global `i` (object id i+1).
pub fn global_addr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    P(u8),
    Local(String),
    Global(String),
    Int(String),
    Hex(String),
    Str(Vec<u8>),
    Word(String),
    Meta(String),
    Attr(String),
    Dots,
    Nl,
    Label(String),
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
        } else if s[i] == b'\\' && i + 2 < s.len() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            out.push(u8::from_str_radix(h, 16).unwrap_or(b'?'));
            i += 3;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut out = Vec::with_capacity(b.len() / 4);
    let mut i = 0;
    let mut line_start = true;
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                if out.last() != Some(&Tok::Nl) {
                    out.push(Tok::Nl);
                }
                i += 1;
                line_start = true;
                continue;
            }
            b' ' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'%' | b'@' => {
                let mut j = i + 1;
                let name;
                if j < b.len() && b[j] == b'"' {
                    let s = j + 1;
                    j = s;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[s..j])).into_owned();
                    j += 1;
                } else {
                    let s = j;
                    while j < b.len() && is_word(b[j]) {
                        j += 1;
                    }
                    name = src[s..j].to_string();
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = j;
            }
            b'"' => {
                let s = i + 1;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                let v = unescape(&b[s..j]);
                i = j + 1;
                if line_start && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(String::from_utf8_lossy(&v).into_owned()));
                } else {
                    out.push(Tok::Str(v));
                }
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_word(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(src[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_word(b[j]) {
                    j += 1;
                }
                out.push(Tok::Attr(src[i + 1..j].to_string()));
                i = j;
            }
            b'.' if b[i..].starts_with(b"...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[s..j])));
                i = j + 1;
            }
            _ if is_word(c) => {
                let mut j = i;
                while j < b.len() && is_word(b[j]) {
                    j += 1;
                }
                let w = &src[i..j];
                if line_start && j < b.len() && b[j] == b':' {
                    out.push(Tok::Label(w.to_string()));
                    i = j + 1;
                } else {
                    let t = w.strip_prefix('-').unwrap_or(w);
                    if w.starts_with("0x") {
                        out.push(Tok::Hex(w.to_string()));
                    } else if t.bytes().all(|c| c.is_ascii_digit()) && !t.is_empty() {
                        out.push(Tok::Int(w.to_string()));
                    } else {
                        out.push(Tok::Word(w.to_string()));
                    }
                    i = j;
                }
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
        line_start = false;
    }
    out.push(Tok::Nl);
    out
}

// ---------------------------------------------------------------- parser

struct Parser<'a> {
    t: Vec<Tok>,
    p: usize,
    named: &'a HashMap<String, Ty>,
    funcs: &'a HashMap<String, u32>,
    globals: &'a HashMap<String, u32>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok {
        self.t.get(self.p).unwrap_or(&Tok::Nl)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.p).cloned().unwrap_or(Tok::Nl);
        self.p += 1;
        t
    }
    fn is_p(&self, c: u8) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn want_p(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected `{}` got {:?}", c as char, self.peek()))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<String> {
        match self.next() {
            Tok::Word(w) => Ok(w),
            t => Err(format!("expected word got {t:?}")),
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next() {
            Tok::Int(s) => s.parse::<i128>().map_err(|e| e.to_string()),
            t => Err(format!("expected int got {t:?}")),
        }
    }
    fn skip_nl(&mut self) {
        while self.p < self.t.len() && *self.peek() == Tok::Nl {
            self.p += 1;
        }
    }
    fn to_nl(&mut self) {
        while self.p < self.t.len() && *self.peek() != Tok::Nl {
            self.p += 1;
        }
    }
    fn skip_parens(&mut self) {
        if !self.is_p(b'(') {
            return;
        }
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Nl if self.p >= self.t.len() => return,
                _ => {}
            }
        }
    }

    fn at_type(&self) -> bool {
        match self.peek() {
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Local(n) => self.named.contains_key(n),
            Tok::Word(w) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token"
                ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "label" | "metadata" | "token" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("bad type {w}"))?),
                _ => return Err(format!("bad type {w}")),
            },
            Tok::Local(n) => self.named.get(&n).cloned().ok_or(format!("unknown type %{n}"))?,
            Tok::P(b'{') => {
                let fs = self.ty_list(b'}')?;
                Ty::Struct(fs, false)
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let fs = self.ty_list(b'}')?;
                    self.want_p(b'>')?;
                    Ty::Struct(fs, true)
                } else {
                    let n = self.int()?;
                    self.word()?; // x
                    let e = self.ty()?;
                    self.want_p(b'>')?;
                    Ty::Vec(n as u32, Box::new(e))
                }
            }
            Tok::P(b'[') => {
                let n = self.int()?;
                self.word()?;
                let e = self.ty()?;
                self.want_p(b']')?;
                Ty::Arr(n as u64, Box::new(e))
            }
            t => return Err(format!("bad type token {t:?}")),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut fs = vec![];
        if self.eat_p(end) {
            return Ok(fs);
        }
        loop {
            fs.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(fs);
            }
            self.want_p(b',')?;
        }
    }

    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self) -> R<u32> {
        if !self.eat_w("label") {
            return Err("expected label".into());
        }
        match self.next() {
            Tok::Local(n) => self.blocks.get(&n).copied().ok_or(format!("no block {n}")),
            t => Err(format!("bad block ref {t:?}")),
        }
    }

    fn global_value(&self, n: &str) -> R<u64> {
        if let Some(i) = self.funcs.get(n) {
            Ok(func_addr(*i))
        } else if let Some(i) = self.globals.get(n) {
            Ok(global_addr(*i))
        } else {
            Err(format!("unknown global @{n}"))
        }
    }

    /// Operand of known type.
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.p += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::C(self.konst(ty)?, ty.clone()))
    }
    fn tval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.param_attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn tconst(&mut self) -> R<(Ty, Const)> {
        let t = self.ty()?;
        let c = self.konst(&t)?;
        Ok((t, c))
    }
    fn const_list(&mut self, end: u8) -> R<Vec<Const>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tconst()?.1);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.want_p(b',')?;
        }
    }

    fn konst(&mut self, ty: &Ty) -> R<Const> {
        let m = crate::expr::mask(ty.bits().max(1));
        Ok(match self.next() {
            Tok::Int(s) => {
                let v = if let Some(n) = s.strip_prefix('-') {
                    n.parse::<u128>().map_err(|e| e.to_string())?.wrapping_neg()
                } else {
                    s.parse::<u128>().map_err(|e| e.to_string())?
                };
                Const::Int(v & m)
            }
            Tok::Hex(_) => Const::Unsupported("float constant".into()),
            Tok::Str(b) => Const::Bytes(b),
            Tok::Global(n) => Const::Int(self.global_value(&n)? as u128),
            Tok::P(b'{') => Const::Agg(self.const_list(b'}')?),
            Tok::P(b'[') => Const::Agg(self.const_list(b']')?),
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let l = self.const_list(b'}')?;
                    self.want_p(b'>')?;
                    Const::Agg(l)
                } else {
                    Const::Agg(self.const_list(b'>')?)
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" => Const::Int(0),
                "none" => Const::Zero,
                "undef" | "poison" | "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.want_p(b'(')?;
                    let (_, c) = self.tconst()?;
                    self.want_p(b')')?;
                    Const::Agg(vec![c; ty.n_fields()])
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.p += 1;
                        if self.is_p(b'(') && matches!(&self.t[self.p - 1], Tok::Word(w) if w == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.want_p(b'(')?;
                    let t = self.ty()?;
                    self.want_p(b',')?;
                    let (_, base) = self.tconst()?;
                    let Const::Int(mut a) = base else { return Err("gep base".into()) };
                    let mut first = true;
                    let mut cur = t.clone();
                    while self.eat_p(b',') {
                        self.eat_w("inrange");
                        let (it, i) = self.tconst()?;
                        let Const::Int(i) = i else { return Err("gep idx".into()) };
                        let i = crate::expr::sext128(i, it.bits());
                        if first {
                            a = a.wrapping_add((i * cur.size() as i128) as u128);
                            first = false;
                        } else {
                            let off = cur.field_off(i as usize) as i128;
                            let off = if matches!(cur, Ty::Arr(..)) { i * cur.field_ty(0).size() as i128 } else { off };
                            a = a.wrapping_add(off as u128);
                            cur = cur.field_ty(i as usize).clone();
                        }
                    }
                    self.want_p(b')')?;
                    Const::Int(a & mask64())
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.want_p(b'(')?;
                    let (_, c) = self.tconst()?;
                    if !self.eat_w("to") {
                        return Err("cast to".into());
                    }
                    let t2 = self.ty()?;
                    self.want_p(b')')?;
                    match c {
                        Const::Int(v) => Const::Int(v & crate::expr::mask(t2.bits())),
                        c => c,
                    }
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.p += 1;
                    }
                    self.want_p(b'(')?;
                    let (t1, a) = self.tconst()?;
                    self.want_p(b',')?;
                    let (_, b) = self.tconst()?;
                    self.want_p(b')')?;
                    let (Const::Int(a), Const::Int(b)) = (a, b) else { return Err("const arith".into()) };
                    let v = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a ^ b,
                    };
                    Const::Int(v & crate::expr::mask(t1.bits()))
                }
                _ if matches!(ty, Ty::Float(_)) => Const::Unsupported("float constant".into()),
                _ => return Err(format!("bad constant {w}")),
            },
            t => return Err(format!("bad constant token {t:?}")),
        })
    }

    /// Skips parameter/return attributes.
    fn param_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    let w = w.clone();
                    let known = matches!(
                        w.as_str(),
                        "noundef" | "noalias" | "nonnull" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext"
                            | "signext" | "inreg" | "returned" | "immarg" | "nofree" | "nest" | "swiftself"
                            | "allocptr" | "writable" | "dead_on_unwind" | "noext" | "allocalign" | "nofpclass"
                            | "dead_on_return"
                    );
                    let paren = matches!(
                        w.as_str(),
                        "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "byval" | "byref"
                            | "elementtype" | "initializes" | "inalloca" | "preallocated" | "nofpclass" | "dead_on_return"
                    );
                    if w == "align" {
                        self.p += 1;
                        if self.is_p(b'(') {
                            self.skip_parens();
                        } else {
                            self.p += 1;
                        }
                    } else if known || paren {
                        self.p += 1;
                        if self.is_p(b'(') && paren {
                            self.skip_parens();
                        }
                    } else {
                        return;
                    }
                }
                Tok::Str(_) => {
                    self.p += 1;
                    if self.eat_p(b'=') {
                        self.p += 1;
                    }
                }
                _ => return,
            }
        }
    }
    /// Skips linkage, calling convention etc. before a type.
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            match self.peek() {
                Tok::Nl => return,
                Tok::P(b'(') => self.skip_parens(),
                _ => self.p += 1,
            }
        }
    }

    fn gep_rest(&mut self) -> R<Op> {
        while matches!(self.peek(), Tok::Word(w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw")) {
            self.p += 1;
        }
        if self.eat_w("inrange") {
            self.skip_parens();
        }
        let mut cur = self.ty()?;
        self.want_p(b',')?;
        let (_, base) = self.tval()?;
        let mut off: i64 = 0;
        let mut idx = vec![];
        let mut first = true;
        while self.eat_p(b',') {
            if matches!(self.peek(), Tok::Meta(_)) {
                break;
            }
            let (it, i) = self.tval()?;
            let scale;
            if first {
                scale = cur.size() as i64;
                first = false;
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let Opd::C(Const::Int(k), _) = &i else { return Err("struct gep".into()) };
                        off += cur.field_off(*k as usize) as i64;
                        cur = cur.field_ty(*k as usize).clone();
                        continue;
                    }
                    _ => {
                        let e = cur.field_ty(0).clone();
                        scale = e.size() as i64;
                        cur = e;
                    }
                }
            }
            match &i {
                Opd::C(Const::Int(k), _) => {
                    off = off.wrapping_add((crate::expr::sext128(*k, it.bits()) as i64).wrapping_mul(scale))
                }
                Opd::C(Const::Zero, _) => {}
                _ => idx.push((i, it.bits(), scale)),
            }
        }
        Ok(Op::Gep { base, off, idx })
    }

    fn call_rest(&mut self, invoke: bool) -> R<Op> {
        // after `call`/`invoke`
        loop {
            match self.peek() {
                Tok::Word(w) if matches!(w.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") => {
                    self.p += 1
                }
                _ => break,
            }
        }
        self.skip_to_type();
        let mut ret = self.ty()?;
        if self.is_p(b'(') {
            // function type
            self.skip_parens();
        }
        if let Ty::Other = ret {
            ret = Ty::Other;
        }
        let callee = match self.next() {
            Tok::Global(n) => {
                Callee::Direct(*self.funcs.get(&n).ok_or(format!("call to unknown @{n}"))?)
            }
            Tok::Local(n) => Callee::Indirect(Opd::Reg(self.reg(&n))),
            Tok::Word(w) if w == "asm" => return Ok(Op::Unsupported("inline asm".into())),
            Tok::Word(w) if w == "inttoptr" => {
                self.p -= 1;
                let c = self.konst(&Ty::Ptr)?;
                Callee::Indirect(Opd::C(c, Ty::Ptr))
            }
            t => return Err(format!("bad callee {t:?}")),
        };
        self.want_p(b'(')?;
        let mut args = vec![];
        if !self.eat_p(b')') {
            loop {
                if self.eat_w("metadata") {
                    // debug/metadata argument: skip until , or )
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') if d == 0 => break,
                            Tok::P(b')') => d -= 1,
                            Tok::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        self.p += 1;
                    }
                } else {
                    let t = self.ty()?;
                    self.param_attrs();
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if self.eat_p(b')') {
                    break;
                }
                self.want_p(b',')?;
            }
        }
        let mut normal = None;
        if invoke {
            while !self.is_w("to") {
                self.p += 1;
                if self.p >= self.t.len() {
                    return Err("invoke".into());
                }
            }
            self.p += 1;
            normal = Some(self.block()?);
            self.skip_nl();
        }
        Ok(Op::Call { callee, args, ret, normal })
    }

    fn inst(&mut self) -> R<(Option<(u32, Vec<(u32, Opd)>)>, Option<Inst>)> {
        let mut dst = NODST;
        if let (Tok::Local(n), Some(Tok::P(b'='))) = (self.peek().clone(), self.t.get(self.p + 1)) {
            dst = self.reg(&n);
            self.p += 2;
        }
        let mut w = self.word()?;
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = self.word()?;
        }
        let flags = |s: &mut Self| {
            while matches!(s.peek(), Tok::Word(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign")) {
                s.p += 1;
            }
        };
        let binop = match w.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(b) = binop {
            flags(self);
            let (t, x) = self.tval()?;
            self.want_p(b',')?;
            let y = self.val(&t)?;
            return Ok((None, Some(Inst { dst, op: Op::Bin(b, t, x, y) })));
        }
        let castop = match w.as_str() {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "bitcast" | "addrspacecast" => Some(CastOp::Bitcast),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => Some(CastOp::Unsupported),
            _ => None,
        };
        if let Some(c) = castop {
            flags(self);
            let (t, x) = self.tval()?;
            if !self.eat_w("to") {
                return Err("cast".into());
            }
            let t2 = self.ty()?;
            return Ok((None, Some(Inst { dst, op: Op::Cast(c, t, t2, x) })));
        }
        let op = match w.as_str() {
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.want_p(b'[')?;
                    let x = self.val(&t)?;
                    self.want_p(b',')?;
                    let Tok::Local(n) = self.next() else { return Err("phi".into()) };
                    let b = *self.blocks.get(&n).ok_or("phi block")?;
                    self.want_p(b']')?;
                    v.push((b, x));
                    if !self.is_p(b',') || !matches!(self.t.get(self.p + 1), Some(Tok::P(b'['))) {
                        break;
                    }
                    self.p += 1;
                }
                return Ok((Some((dst, v)), None));
            }
            "icmp" => {
                flags(self);
                let p = match self.word()?.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    p => return Err(format!("icmp {p}")),
                };
                let (t, x) = self.tval()?;
                self.want_p(b',')?;
                let y = self.val(&t)?;
                Op::Icmp(p, t, x, y)
            }
            "select" => {
                let (ct, c) = self.tval()?;
                self.want_p(b',')?;
                let (t, x) = self.tval()?;
                self.want_p(b',')?;
                let (_, y) = self.tval()?;
                Op::Select(ct, t, c, x, y)
            }
            "load" => {
                while matches!(self.peek(), Tok::Word(w) if w == "atomic" || w == "volatile") {
                    self.p += 1;
                }
                let t = self.ty()?;
                self.want_p(b',')?;
                let (_, p) = self.tval()?;
                Op::Load(t, p)
            }
            "store" => {
                while matches!(self.peek(), Tok::Word(w) if w == "atomic" || w == "volatile") {
                    self.p += 1;
                }
                let (t, v) = self.tval()?;
                self.want_p(b',')?;
                let (_, p) = self.tval()?;
                Op::Store(t, v, p)
            }
            "getelementptr" => self.gep_rest()?,
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut count = None;
                let mut align = t.align();
                while self.eat_p(b',') {
                    if self.eat_w("align") {
                        align = self.int()? as u64;
                    } else if self.at_type() {
                        count = Some(self.tval()?.1);
                    } else {
                        break;
                    }
                }
                Op::Alloca { size: t.size(), count, align }
            }
            "call" => self.call_rest(false)?,
            "invoke" => self.call_rest(true)?,
            "br" => {
                if self.is_w("label") {
                    Op::Br(self.block()?)
                } else {
                    let (_, c) = self.tval()?;
                    self.want_p(b',')?;
                    let a = self.block()?;
                    self.want_p(b',')?;
                    let b = self.block()?;
                    Op::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tval()?;
                self.want_p(b',')?;
                let d = self.block()?;
                self.want_p(b'[')?;
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(b']') {
                        break;
                    }
                    let (_, c) = self.tconst()?;
                    let Const::Int(c) = c else { return Err("switch case".into()) };
                    self.want_p(b',')?;
                    let b = self.block()?;
                    cases.push((c, b));
                }
                Op::Switch(t.bits(), v, d, cases)
            }
            "ret" => {
                if self.is_w("void") {
                    Op::Ret(None)
                } else {
                    Op::Ret(Some(self.tval()?))
                }
            }
            "unreachable" => Op::Unreachable,
            "extractvalue" => {
                let (_, v) = self.tval()?;
                let mut ix = vec![];
                while self.eat_p(b',') {
                    if let Tok::Int(s) = self.peek() {
                        ix.push(s.parse().unwrap());
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                Op::ExtractValue(v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tval()?;
                self.want_p(b',')?;
                let (_, e) = self.tval()?;
                let mut ix = vec![];
                while self.eat_p(b',') {
                    if let Tok::Int(s) = self.peek() {
                        ix.push(s.parse().unwrap());
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                Op::InsertValue(t, v, e, ix)
            }
            "extractelement" => {
                let (t, v) = self.tval()?;
                self.want_p(b',')?;
                let (_, i) = self.tval()?;
                Op::ExtractElem(t, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tval()?;
                self.want_p(b',')?;
                let (_, e) = self.tval()?;
                self.want_p(b',')?;
                let (_, i) = self.tval()?;
                Op::InsertElem(t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tval()?;
                self.want_p(b',')?;
                let (_, b) = self.tval()?;
                self.want_p(b',')?;
                let (mt, m) = self.tconst()?;
                let n = mt.n_fields();
                let mask = match m {
                    Const::Zero => vec![Some(0); n],
                    Const::Agg(v) => v
                        .into_iter()
                        .map(|c| match c {
                            Const::Int(i) => Some(i as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Op::Shuffle(t, a, b, mask)
            }
            "freeze" => Op::Freeze(self.tval()?.1),
            "fence" => Op::Fence,
            "atomicrmw" => {
                self.eat_w("volatile");
                let o = match self.word()?.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    o => return Err(format!("atomicrmw {o}")),
                };
                let (_, p) = self.tval()?;
                self.want_p(b',')?;
                let (t, v) = self.tval()?;
                Op::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                while matches!(self.peek(), Tok::Word(w) if w == "weak" || w == "volatile") {
                    self.p += 1;
                }
                let (_, p) = self.tval()?;
                self.want_p(b',')?;
                let (t, c) = self.tval()?;
                self.want_p(b',')?;
                let (_, n) = self.tval()?;
                Op::CmpXchg(t, p, c, n)
            }
            "landingpad" => {
                // clauses on the following lines
                loop {
                    self.to_nl();
                    self.skip_nl();
                    if !(self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter")) {
                        break;
                    }
                }
                // step back onto a newline
                self.p -= 1;
                Op::Unsupported("landingpad".into())
            }
            "resume" => Op::Unsupported("resume".into()),
            w => Op::Unsupported(format!("instruction {w}")),
        };
        Ok((None, Some(Inst { dst, op })))
    }

    fn func_body(&mut self, name: &str, params: Vec<u32>, ret: Ty) -> R<Func> {
        // self.p is after `{` newline; find blocks first
        let mut i = self.p;
        let mut n = 0u32;
        let mut has_entry = false;
        let start = self.p;
        while i < self.t.len() {
            if let Tok::Label(l) = &self.t[i] {
                self.blocks.insert(l.clone(), n);
                n += 1;
                if n == 1 {
                    // is this label the first thing?
                    has_entry = self.t[start..i].iter().all(|t| *t == Tok::Nl);
                }
            }
            i += 1;
        }
        if !has_entry {
            // implicit entry block: numbered after the parameters
            for v in self.blocks.values_mut() {
                *v += 1;
            }
            let imp = params.len().to_string();
            self.blocks.insert(imp, 0);
            n += 1;
        }
        let mut blocks: Vec<Block> = (0..n).map(|_| Block::default()).collect();
        let mut cur = 0usize;
        loop {
            self.skip_nl();
            match self.peek().clone() {
                Tok::P(b'}') => break,
                Tok::Label(l) => {
                    cur = self.blocks[&l] as usize;
                    blocks[cur].name = l;
                    self.p += 1;
                    continue;
                }
                Tok::P(b'#') | Tok::Attr(_) => {
                    // debug record
                    self.to_nl();
                    continue;
                }
                _ => {}
            }
            let at = self.p;
            match self.inst() {
                Ok((Some(phi), _)) => blocks[cur].phis.push(phi),
                Ok((None, Some(i))) => blocks[cur].insts.push(i),
                Ok(_) => {}
                Err(e) => {
                    return Err(format!("{name}: {e} near {:?}", &self.t[at..(at + 12).min(self.t.len())]));
                }
            }
            self.to_nl();
        }
        Ok(Func { name: name.to_string(), params, nregs: self.regs.len() as u32, blocks, declared: false, ret })
    }
}

fn mask64() -> u128 {
    u64::MAX as u128
}

fn name_of(line: &str, at: usize) -> Option<(String, usize)> {
    let b = line.as_bytes();
    if b.get(at) != Some(&b'@') && b.get(at) != Some(&b'%') {
        return None;
    }
    let mut j = at + 1;
    if b.get(j) == Some(&b'"') {
        j += 1;
        let s = j;
        while b[j] != b'"' {
            j += 1;
        }
        Some((String::from_utf8_lossy(&unescape(&b[s..j])).into_owned(), j + 1))
    } else {
        let s = j;
        while j < b.len() && is_word(b[j]) {
            j += 1;
        }
        Some((line[s..j].to_string(), j))
    }
}

pub fn load(src: &str) -> Result<Module, String> {
    // Split into top level entities.
    let mut types: Vec<(String, &str)> = vec![];
    let mut globs: Vec<(String, &str)> = vec![];
    let mut defs: Vec<(String, &str)> = vec![];
    let mut decls: Vec<(String, &str)> = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    let mut pos = 0;
    while pos < src.len() {
        let end = src[pos..].find('\n').map_or(src.len(), |e| pos + e);
        let line = &src[pos..end];
        if line.starts_with("define ") {
            let at = line.find('@').ok_or("define")?;
            let (n, _) = name_of(line, at).ok_or("define name")?;
            let fin = src[pos..].find("\n}").ok_or("function end")? + pos + 2;
            defs.push((n, &src[pos..fin]));
            pos = fin + 1;
            continue;
        } else if line.starts_with("declare ") {
            let at = line.find('@').ok_or("declare")?;
            let (n, _) = name_of(line, at).ok_or("declare name")?;
            decls.push((n, line));
        } else if line.starts_with('@') {
            let (n, e) = name_of(line, 0).ok_or("global name")?;
            let rest = &line[e..];
            if rest.contains(" alias ") {
                let at = line.rfind('@').unwrap();
                let (t, _) = name_of(line, at).unwrap();
                aliases.push((n, t));
            } else {
                globs.push((n, line));
            }
        } else if line.starts_with('%') && line.contains(" = type ") {
            let (n, _) = name_of(line, 0).ok_or("type name")?;
            types.push((n, line));
        }
        pos = end + 1;
    }
    let mut func_ix = HashMap::new();
    for (i, (n, _)) in defs.iter().chain(decls.iter()).enumerate() {
        func_ix.insert(n.clone(), i as u32);
    }
    let mut global_ix = HashMap::new();
    for (i, (n, _)) in globs.iter().enumerate() {
        global_ix.insert(n.clone(), i as u32);
    }
    for (n, t) in &aliases {
        if let Some(i) = func_ix.get(t).copied() {
            func_ix.insert(n.clone(), i);
        } else if let Some(i) = global_ix.get(t).copied() {
            global_ix.insert(n.clone(), i);
        }
    }
    let mut named: HashMap<String, Ty> = HashMap::new();
    for (n, line) in &types {
        let at = line.find(" = type ").unwrap() + 8;
        let toks = lex(&line[at..]);
        let ty = {
            let mut p = Parser {
                t: toks,
                p: 0,
                named: &named,
                funcs: &func_ix,
                globals: &global_ix,
                regs: HashMap::new(),
                blocks: HashMap::new(),
            };
            if p.is_w("opaque") {
                Ty::Other
            } else {
                p.ty()?
            }
        };
        named.insert(n.clone(), ty);
    }
    let mut globals = vec![];
    for (n, line) in &globs {
        let toks = lex(line);
        let mut p = Parser {
            t: toks,
            p: 0,
            named: &named,
            funcs: &func_ix,
            globals: &global_ix,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        p.p = 2; // @name =
        let mut constant = false;
        let mut external = false;
        loop {
            match p.peek().clone() {
                Tok::Word(w) if w == "constant" => {
                    constant = true;
                    p.p += 1;
                    break;
                }
                Tok::Word(w) if w == "global" => {
                    p.p += 1;
                    break;
                }
                Tok::Word(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    p.p += 1;
                    if p.is_p(b'(') {
                        p.skip_parens();
                    }
                }
                Tok::Nl => return Err(format!("global {n}")),
                _ => p.p += 1,
            }
        }
        let ty = p.ty().map_err(|e| format!("global {n}: {e}"))?;
        let init = if external { None } else { Some(p.konst(&ty).map_err(|e| format!("global {n}: {e}"))?) };
        let mut align = ty.align();
        while p.p < p.t.len() {
            if p.eat_w("align") {
                align = p.int()? as u64;
            } else {
                p.p += 1;
            }
        }
        globals.push(Global { name: n.clone(), ty, init, constant, align });
    }
    let mut funcs = vec![];
    for (n, text) in &defs {
        let toks = lex(text);
        let mut p = Parser {
            t: toks,
            p: 1,
            named: &named,
            funcs: &func_ix,
            globals: &global_ix,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        p.skip_to_type();
        let ret = p.ty()?;
        // function name
        match p.next() {
            Tok::Global(_) => {}
            t => return Err(format!("define {n}: {t:?}")),
        }
        p.want_p(b'(')?;
        let mut params = vec![];
        let mut cnt = 0;
        if !p.eat_p(b')') {
            loop {
                if *p.peek() == Tok::Dots {
                    p.p += 1;
                } else {
                    let _t = p.ty().map_err(|e| format!("define {n}: {e}"))?;
                    p.param_attrs();
                    let name = if let Tok::Local(x) = p.peek().clone() {
                        p.p += 1;
                        x
                    } else {
                        cnt.to_string()
                    };
                    cnt += 1;
                    let r = p.reg(&name);
                    params.push(r);
                }
                if p.eat_p(b')') {
                    break;
                }
                p.want_p(b',').map_err(|e| format!("define {n}: {e}"))?;
            }
        }
        // skip to `{` at end of line
        loop {
            if p.is_p(b'{') && matches!(p.t.get(p.p + 1), Some(Tok::Nl)) {
                p.p += 1;
                break;
            }
            p.p += 1;
            if p.p >= p.t.len() {
                return Err(format!("define {n}: no body"));
            }
        }
        funcs.push(p.func_body(n, params, ret)?);
    }
    for (n, line) in &decls {
        let toks = lex(line);
        let mut p = Parser {
            t: toks,
            p: 1,
            named: &named,
            funcs: &func_ix,
            globals: &global_ix,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        p.skip_to_type();
        let ret = p.ty().unwrap_or(Ty::Other);
        funcs.push(Func { name: n.clone(), params: vec![], nregs: 0, blocks: vec![], declared: true, ret });
    }
    Ok(Module { funcs, func_ix, globals, global_ix })
}
