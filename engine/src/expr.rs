//! Bit-vector expression DAG with constructor-time simplification.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub type Ex = Arc<Node>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

pub enum Op {
    Const(u128),
    Sym(u32),
    Bin(BinOp, Ex, Ex),
    /// Only Eq, Ult, Ule, Slt, Sle are stored.
    Cmp(Pred, Ex, Ex),
    Not(Ex),
    ZExt(Ex),
    SExt(Ex),
    Extract(Ex, u32),
    Concat(Ex, Ex),
    Ite(Ex, Ex, Ex),
}

pub struct Node {
    pub id: u64,
    pub w: u32,
    pub hash: u128,
    pub vars: u128,
    pub size: u32,
    pub op: Op,
}

static NEXT_ID: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static ID_BLOCK: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
}

fn fresh_id() -> u64 {
    ID_BLOCK.with(|c| {
        let (cur, end) = c.get();
        if cur < end {
            c.set((cur + 1, end));
            cur
        } else {
            let s = NEXT_ID.fetch_add(4096, Ordering::Relaxed);
            c.set((s + 1, s + 4096));
            s
        }
    })
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w;
        ((v << sh) as i128) >> sh
    }
}

fn mix(h: u128, x: u128) -> u128 {
    let mut v = h ^ x.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    v ^= v >> 67;
    v = v.wrapping_mul(0xDA942042E4DD58B5C6A4A7935BD1E995);
    v ^= v >> 59;
    v = v.wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
    v ^ (v >> 71)
}

fn mk(w: u32, op: Op) -> Ex {
    let (tag, parts): (u128, [u128; 4]) = match &op {
        Op::Const(c) => (1, [*c, 0, 0, 0]),
        Op::Sym(s) => (2, [*s as u128, 0, 0, 0]),
        Op::Bin(o, a, b) => (3, [*o as u128, a.hash, b.hash, 0]),
        Op::Cmp(o, a, b) => (4, [*o as u128, a.hash, b.hash, 0]),
        Op::Not(a) => (5, [a.hash, 0, 0, 0]),
        Op::ZExt(a) => (6, [a.hash, 0, 0, 0]),
        Op::SExt(a) => (7, [a.hash, 0, 0, 0]),
        Op::Extract(a, lo) => (8, [a.hash, *lo as u128, 0, 0]),
        Op::Concat(a, b) => (9, [a.hash, b.hash, 0, 0]),
        Op::Ite(c, a, b) => (10, [c.hash, a.hash, b.hash, 0]),
    };
    let mut h = mix(0x1234_5678_9abc_def0_0fed_cba9_8765_4321, tag);
    h = mix(h, w as u128);
    for p in parts {
        h = mix(h, p);
    }
    let (vars, size) = match &op {
        Op::Const(_) => (0, 1),
        Op::Sym(s) => {
            assert!(*s < 128, "too many symbols on one path");
            (1u128 << *s, 1)
        }
        Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) => {
            (a.vars | b.vars, a.size.saturating_add(b.size).saturating_add(1))
        }
        Op::Not(a) | Op::ZExt(a) | Op::SExt(a) | Op::Extract(a, _) => (a.vars, a.size.saturating_add(1)),
        Op::Ite(c, a, b) => (
            c.vars | a.vars | b.vars,
            c.size.saturating_add(a.size).saturating_add(b.size).saturating_add(1),
        ),
    };
    Arc::new(Node { id: fresh_id(), w, hash: h, vars, size, op })
}

pub fn cst(w: u32, v: u128) -> Ex {
    mk(w, Op::Const(v & mask(w)))
}
pub fn sym(w: u32, idx: u32) -> Ex {
    mk(w, Op::Sym(idx))
}
pub fn tru() -> Ex {
    cst(1, 1)
}
pub fn fls() -> Ex {
    cst(1, 0)
}
pub fn as_const(e: &Ex) -> Option<u128> {
    if let Op::Const(c) = e.op {
        Some(c)
    } else {
        None
    }
}

fn same(a: &Ex, b: &Ex) -> bool {
    Arc::ptr_eq(a, b) || (a.hash == b.hash && a.w == b.w)
}

pub fn fold_bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            (x >> (s.min(127) as u32)) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & m
}

pub fn fold_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    let (sa, sb) = (sext128(a, w), sext128(b, w));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sa < sb,
        Pred::Sle => sa <= sb,
        Pred::Sgt => sa > sb,
        Pred::Sge => sa >= sb,
    }
}

/// Upper bound on the (unsigned) value, derived structurally.
fn umax(e: &Ex) -> u128 {
    match &e.op {
        Op::Const(c) => *c,
        Op::ZExt(a) => umax(a),
        Op::Bin(BinOp::And, a, b) => umax(a).min(umax(b)),
        Op::Bin(BinOp::LShr, a, b) => match as_const(b) {
            Some(s) if s < 128 => umax(a) >> s,
            _ => mask(e.w),
        },
        Op::Bin(BinOp::URem, _, b) => match as_const(b) {
            Some(s) if s > 0 => s - 1,
            _ => mask(e.w),
        },
        Op::Ite(_, a, b) if e.size < 64 => umax(a).max(umax(b)),
        _ => mask(e.w),
    }
}

pub fn bin(op: BinOp, a: &Ex, b: &Ex) -> Ex {
    let w = a.w;
    debug_assert_eq!(w, b.w);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(w, fold_bin(op, w, x, y));
    }
    let comm = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
    let (a, b) = if comm && as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        let m = mask(w);
        match op {
            BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if y == 0 => {
                return a.clone()
            }
            BinOp::Mul if y == 1 => return a.clone(),
            BinOp::UDiv if y == 1 => return a.clone(),
            BinOp::Mul | BinOp::And if y == 0 => return cst(w, 0),
            BinOp::And if y == m => return a.clone(),
            BinOp::Or if y == m => return cst(w, m),
            BinOp::Xor if y == m => return not(a),
            BinOp::Shl | BinOp::LShr if y >= w as u128 => return cst(w, 0),
            _ => {}
        }
        match op {
            BinOp::Sub => return bin(BinOp::Add, a, &cst(w, y.wrapping_neg())),
            BinOp::Add => {
                if let Op::Bin(BinOp::Add, x, c) = &a.op {
                    if let Some(cv) = as_const(c) {
                        return bin(BinOp::Add, x, &cst(w, cv.wrapping_add(y)));
                    }
                }
                if let Op::Ite(c, t, f) = &a.op {
                    if as_const(t).is_some() && as_const(f).is_some() {
                        return ite(c, &bin(op, t, b), &bin(op, f, b));
                    }
                }
            }
            BinOp::And => {
                // low mask: zext(extract)
                let ones = (!y).trailing_zeros().min(w);
                if y == mask(ones) && ones < w && ones > 0 {
                    if umax(a) <= y {
                        return a.clone();
                    }
                    return zext(&extract(a, 0, ones), w);
                }
                if let Op::Bin(BinOp::And, x, c) = &a.op {
                    if let Some(cv) = as_const(c) {
                        return bin(BinOp::And, x, &cst(w, cv & y));
                    }
                }
                if let Op::ZExt(x) = &a.op {
                    let inner = y & mask(x.w);
                    return zext(&bin(BinOp::And, x, &cst(x.w, inner)), w);
                }
                if let Op::Ite(c, t, f) = &a.op {
                    if as_const(t).is_some() && as_const(f).is_some() {
                        return ite(c, &bin(op, t, b), &bin(op, f, b));
                    }
                }
            }
            BinOp::LShr => {
                // lshr by constant = zext(extract high part)
                let s = y as u32;
                return zext(&extract(a, s, w - s), w);
            }
            BinOp::URem if y.is_power_of_two() => {
                return bin(BinOp::And, a, &cst(w, y - 1));
            }
            BinOp::UDiv if y.is_power_of_two() => {
                return bin(BinOp::LShr, a, &cst(w, y.trailing_zeros() as u128));
            }
            BinOp::Xor => {
                if let Op::Bin(BinOp::Xor, x, c) = &a.op {
                    if let Some(cv) = as_const(c) {
                        return bin(BinOp::Xor, x, &cst(w, cv ^ y));
                    }
                }
                if let Op::Ite(c, t, f) = &a.op {
                    if as_const(t).is_some() && as_const(f).is_some() {
                        return ite(c, &bin(op, t, b), &bin(op, f, b));
                    }
                }
            }
            _ => {}
        }
    }
    if same(a, b) {
        match op {
            BinOp::Sub | BinOp::Xor => return cst(w, 0),
            BinOp::And | BinOp::Or => return a.clone(),
            _ => {}
        }
    }
    if w == 1 {
        match op {
            BinOp::Add | BinOp::Sub => return bin(BinOp::Xor, a, b),
            BinOp::Mul => return bin(BinOp::And, a, b),
            BinOp::And => {
                if is_neg_of(a, b) {
                    return fls();
                }
            }
            BinOp::Or => {
                if is_neg_of(a, b) {
                    return tru();
                }
            }
            _ => {}
        }
    }
    mk(w, Op::Bin(op, a.clone(), b.clone()))
}

fn is_neg_of(a: &Ex, b: &Ex) -> bool {
    match (&a.op, &b.op) {
        (Op::Not(x), _) if same(x, b) => true,
        (_, Op::Not(x)) if same(x, a) => true,
        _ => false,
    }
}

pub fn not(a: &Ex) -> Ex {
    match &a.op {
        Op::Const(c) => cst(a.w, !*c),
        Op::Not(x) => x.clone(),
        Op::Cmp(Pred::Ult, x, y) => mk(1, Op::Cmp(Pred::Ule, y.clone(), x.clone())),
        Op::Cmp(Pred::Ule, x, y) => mk(1, Op::Cmp(Pred::Ult, y.clone(), x.clone())),
        Op::Cmp(Pred::Slt, x, y) => mk(1, Op::Cmp(Pred::Sle, y.clone(), x.clone())),
        Op::Cmp(Pred::Sle, x, y) => mk(1, Op::Cmp(Pred::Slt, y.clone(), x.clone())),
        _ => mk(a.w, Op::Not(a.clone())),
    }
}

pub fn cmp(p: Pred, a: &Ex, b: &Ex) -> Ex {
    let w = a.w;
    debug_assert_eq!(w, b.w);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return if fold_cmp(p, w, x, y) { tru() } else { fls() };
    }
    match p {
        Pred::Ne => return not(&cmp(Pred::Eq, a, b)),
        Pred::Ugt => return cmp(Pred::Ult, b, a),
        Pred::Uge => return cmp(Pred::Ule, b, a),
        Pred::Sgt => return cmp(Pred::Slt, b, a),
        Pred::Sge => return cmp(Pred::Sle, b, a),
        _ => {}
    }
    if same(a, b) {
        return match p {
            Pred::Eq | Pred::Ule | Pred::Sle => tru(),
            _ => fls(),
        };
    }
    if p == Pred::Eq {
        let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = as_const(b) {
            if w == 1 {
                return if y == 1 { a.clone() } else { not(a) };
            }
            match &a.op {
                Op::ZExt(x) => {
                    if y > mask(x.w) {
                        return fls();
                    }
                    return cmp(Pred::Eq, x, &cst(x.w, y));
                }
                Op::SExt(x) => {
                    let t = y & mask(x.w);
                    if (sext128(t, x.w) as u128) & mask(w) != y {
                        return fls();
                    }
                    return cmp(Pred::Eq, x, &cst(x.w, t));
                }
                Op::Ite(c, t, f) => match (as_const(t), as_const(f)) {
                    (Some(tv), Some(fv)) => {
                        return match (tv == y, fv == y) {
                            (true, true) => tru(),
                            (true, false) => c.clone(),
                            (false, true) => not(c),
                            (false, false) => fls(),
                        }
                    }
                    (Some(tv), None) if tv != y => {
                        return bin(BinOp::And, &not(c), &cmp(Pred::Eq, f, b));
                    }
                    (None, Some(fv)) if fv != y => {
                        return bin(BinOp::And, c, &cmp(Pred::Eq, t, b));
                    }
                    (Some(tv), None) if tv == y => {
                        return bin(BinOp::Or, c, &cmp(Pred::Eq, f, b));
                    }
                    (None, Some(fv)) if fv == y => {
                        return bin(BinOp::Or, &not(c), &cmp(Pred::Eq, t, b));
                    }
                    _ => {}
                },
                Op::Bin(BinOp::Add, x, c) => {
                    if let Some(cv) = as_const(c) {
                        return cmp(Pred::Eq, x, &cst(w, y.wrapping_sub(cv)));
                    }
                }
                Op::Bin(BinOp::Xor, x, c) => {
                    if let Some(cv) = as_const(c) {
                        return cmp(Pred::Eq, x, &cst(w, y ^ cv));
                    }
                }
                Op::Not(x) => {
                    return cmp(Pred::Eq, x, &cst(w, !y));
                }
                Op::Concat(h, l) => {
                    return bin(
                        BinOp::And,
                        &cmp(Pred::Eq, h, &cst(h.w, y >> l.w)),
                        &cmp(Pred::Eq, l, &cst(l.w, y)),
                    );
                }
                _ => {
                    if y > umax(a) {
                        return fls();
                    }
                }
            }
            return mk(1, Op::Cmp(Pred::Eq, a.clone(), b.clone()));
        }
        if let (Op::ZExt(x), Op::ZExt(y)) = (&a.op, &b.op) {
            if x.w == y.w {
                return cmp(Pred::Eq, x, y);
            }
        }
        if w == 1 {
            return not(&bin(BinOp::Xor, a, b));
        }
        // canonical order
        let (a, b) = if a.hash <= b.hash { (a, b) } else { (b, a) };
        return mk(1, Op::Cmp(Pred::Eq, a.clone(), b.clone()));
    }
    if p == Pred::Ult || p == Pred::Ule {
        if let (Op::ZExt(x), Op::ZExt(y)) = (&a.op, &b.op) {
            if x.w == y.w {
                return cmp(p, x, y);
            }
        }
        if let (Op::ZExt(x), Some(y)) = (&a.op, as_const(b)) {
            if y > mask(x.w) {
                return tru();
            }
            return cmp(p, x, &cst(x.w, y));
        }
        if let (Some(x), Op::ZExt(y)) = (as_const(a), &b.op) {
            if x > mask(y.w) {
                return fls();
            }
            return cmp(p, &cst(y.w, x), y);
        }
        if let Some(y) = as_const(b) {
            if p == Pred::Ult {
                if y == 0 {
                    return fls();
                }
                if y == 1 {
                    return cmp(Pred::Eq, a, &cst(w, 0));
                }
                if umax(a) < y {
                    return tru();
                }
            } else {
                if y == 0 {
                    return cmp(Pred::Eq, a, &cst(w, 0));
                }
                if umax(a) <= y {
                    return tru();
                }
            }
            if let Op::Ite(c, t, f) = &a.op {
                if as_const(t).is_some() && as_const(f).is_some() {
                    return ite(c, &cmp(p, t, b), &cmp(p, f, b));
                }
            }
        }
        if let Some(x) = as_const(a) {
            if p == Pred::Ule && x == 0 {
                return tru();
            }
            if x > umax(b) || (p == Pred::Ult && x == umax(b)) {
                return fls();
            }
            if let Op::Ite(c, t, f) = &b.op {
                if as_const(t).is_some() && as_const(f).is_some() {
                    return ite(c, &cmp(p, a, t), &cmp(p, a, f));
                }
            }
        }
    }
    if p == Pred::Slt || p == Pred::Sle {
        // zext'ed values are non-negative
        let nn = |e: &Ex| matches!(&e.op, Op::ZExt(_)) || as_const(e).map_or(false, |c| sext128(c, w) >= 0);
        if nn(a) && nn(b) {
            return cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, a, b);
        }
    }
    mk(1, Op::Cmp(p, a.clone(), b.clone()))
}

pub fn zext(a: &Ex, w: u32) -> Ex {
    if a.w == w {
        return a.clone();
    }
    debug_assert!(w > a.w);
    match &a.op {
        Op::Const(c) => cst(w, *c),
        Op::ZExt(x) => zext(x, w),
        Op::Ite(c, t, f) if as_const(t).is_some() && as_const(f).is_some() => ite(c, &zext(t, w), &zext(f, w)),
        _ => mk(w, Op::ZExt(a.clone())),
    }
}

pub fn sext(a: &Ex, w: u32) -> Ex {
    if a.w == w {
        return a.clone();
    }
    match &a.op {
        Op::Const(c) => cst(w, sext128(*c, a.w) as u128),
        Op::ZExt(x) => zext(x, w),
        Op::SExt(x) => sext(x, w),
        Op::Ite(c, t, f) if as_const(t).is_some() && as_const(f).is_some() => ite(c, &sext(t, w), &sext(f, w)),
        _ => mk(w, Op::SExt(a.clone())),
    }
}

pub fn extract(a: &Ex, lo: u32, w: u32) -> Ex {
    if lo == 0 && w == a.w {
        return a.clone();
    }
    debug_assert!(lo + w <= a.w);
    match &a.op {
        Op::Const(c) => cst(w, *c >> lo),
        Op::Extract(x, l2) => extract(x, lo + l2, w),
        Op::ZExt(x) => {
            if lo >= x.w {
                cst(w, 0)
            } else if lo + w <= x.w {
                extract(x, lo, w)
            } else {
                zext(&extract(x, lo, x.w - lo), w)
            }
        }
        Op::SExt(x) if lo + w <= x.w => extract(x, lo, w),
        Op::Concat(h, l) => {
            if lo >= l.w {
                extract(h, lo - l.w, w)
            } else if lo + w <= l.w {
                extract(l, lo, w)
            } else {
                concat(&extract(h, 0, lo + w - l.w), &extract(l, lo, l.w - lo))
            }
        }
        Op::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
            if as_const(y).is_some() || a.size < 40 {
                bin(*op, &extract(x, lo, w), &extract(y, lo, w))
            } else {
                mk(w, Op::Extract(a.clone(), lo))
            }
        }
        Op::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
            bin(*op, &extract(x, 0, w), &extract(y, 0, w))
        }
        Op::Bin(BinOp::Shl, x, s) => match as_const(s) {
            Some(sv) if (sv as u32) <= lo => extract(x, lo - sv as u32, w),
            Some(sv) if (sv as u32) >= lo + w => cst(w, 0),
            _ => mk(w, Op::Extract(a.clone(), lo)),
        },
        Op::Not(x) => not(&extract(x, lo, w)),
        Op::Ite(c, t, f) if as_const(t).is_some() || as_const(f).is_some() => {
            ite(c, &extract(t, lo, w), &extract(f, lo, w))
        }
        _ => mk(w, Op::Extract(a.clone(), lo)),
    }
}

pub fn concat(h: &Ex, l: &Ex) -> Ex {
    let w = h.w + l.w;
    if let (Some(a), Some(b)) = (as_const(h), as_const(l)) {
        if w <= 128 {
            return cst(w, (a << l.w) | b);
        }
    }
    if as_const(h) == Some(0) {
        return zext(l, w);
    }
    if let (Op::Extract(x, lx), Op::Extract(y, ly)) = (&h.op, &l.op) {
        if same(x, y) && *lx == *ly + l.w {
            return extract(x, *ly, w);
        }
    }
    // h may itself be Concat(hh, hl) with hl adjacent to l
    if let Op::Concat(hh, hl) = &h.op {
        if let (Op::Extract(x, lx), Op::Extract(y, ly)) = (&hl.op, &l.op) {
            if same(x, y) && *lx == *ly + l.w {
                return concat(hh, &extract(x, *ly, hl.w + l.w));
            }
        }
    }
    if let Op::ZExt(x) = &h.op {
        // zext(x) ++ l  => zext(x ++ l)
        return zext(&concat(x, l), w);
    }
    mk(w, Op::Concat(h.clone(), l.clone()))
}

pub fn ite(c: &Ex, t: &Ex, f: &Ex) -> Ex {
    debug_assert_eq!(t.w, f.w);
    if let Some(v) = as_const(c) {
        return if v == 1 { t.clone() } else { f.clone() };
    }
    if same(t, f) {
        return t.clone();
    }
    if t.w == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(BinOp::Or, c, f),
            (Some(0), _) => return bin(BinOp::And, &not(c), f),
            (_, Some(0)) => return bin(BinOp::And, c, t),
            (_, Some(1)) => return bin(BinOp::Or, &not(c), t),
            _ => {}
        }
    }
    if let Op::Not(x) = &c.op {
        return ite(x, f, t);
    }
    mk(t.w, Op::Ite(c.clone(), t.clone(), f.clone()))
}

/// Evaluates `e` under the assignment.
pub fn eval(e: &Ex, m: &[u64]) -> u128 {
    if e.size < 48 {
        eval_plain(e, m)
    } else {
        let mut memo = HashMap::new();
        eval_memo(e, m, &mut memo)
    }
}

fn eval_node(e: &Ex, m: &[u64], rec: &mut dyn FnMut(&Ex) -> u128) -> u128 {
    match &e.op {
        Op::Const(c) => *c,
        Op::Sym(s) => (m.get(*s as usize).copied().unwrap_or(0) as u128) & mask(e.w),
        Op::Bin(o, a, b) => {
            let x = rec(a);
            let y = rec(b);
            fold_bin(*o, e.w, x, y)
        }
        Op::Cmp(p, a, b) => {
            let x = rec(a);
            let y = rec(b);
            fold_cmp(*p, a.w, x, y) as u128
        }
        Op::Not(a) => !rec(a) & mask(e.w),
        Op::ZExt(a) => rec(a),
        Op::SExt(a) => (sext128(rec(a), a.w) as u128) & mask(e.w),
        Op::Extract(a, lo) => (rec(a) >> lo) & mask(e.w),
        Op::Concat(h, l) => {
            let x = rec(h);
            let y = rec(l);
            (x << l.w) | y
        }
        Op::Ite(c, t, f) => {
            if rec(c) == 1 {
                rec(t)
            } else {
                rec(f)
            }
        }
    }
}

fn eval_plain(e: &Ex, m: &[u64]) -> u128 {
    eval_node(e, m, &mut |x| eval_plain(x, m))
}

fn eval_memo(e: &Ex, m: &[u64], memo: &mut HashMap<u64, u128>) -> u128 {
    if e.size < 8 {
        return eval_plain(e, m);
    }
    if let Some(v) = memo.get(&e.id) {
        return *v;
    }
    let v = {
        // Manual recursion: closures cannot borrow memo mutably twice.
        match &e.op {
            Op::Const(c) => *c,
            Op::Sym(_) => eval_plain(e, m),
            Op::Bin(o, a, b) => {
                let x = eval_memo(a, m, memo);
                if e.w == 1 && ((*o == BinOp::And && x == 0) || (*o == BinOp::Or && x == 1)) {
                    memo.insert(e.id, x);
                    return x;
                }
                let y = eval_memo(b, m, memo);
                fold_bin(*o, e.w, x, y)
            }
            Op::Cmp(p, a, b) => {
                let x = eval_memo(a, m, memo);
                let y = eval_memo(b, m, memo);
                fold_cmp(*p, a.w, x, y) as u128
            }
            Op::Not(a) => !eval_memo(a, m, memo) & mask(e.w),
            Op::ZExt(a) => eval_memo(a, m, memo),
            Op::SExt(a) => (sext128(eval_memo(a, m, memo), a.w) as u128) & mask(e.w),
            Op::Extract(a, lo) => (eval_memo(a, m, memo) >> lo) & mask(e.w),
            Op::Concat(h, l) => {
                let x = eval_memo(h, m, memo);
                let y = eval_memo(l, m, memo);
                (x << l.w) | y
            }
            Op::Ite(c, t, f) => {
                if eval_memo(c, m, memo) == 1 {
                    eval_memo(t, m, memo)
                } else {
                    eval_memo(f, m, memo)
                }
            }
        }
    };
    memo.insert(e.id, v);
    v
}

/// SMT-LIB2 rendering (used to cross-check verdicts with a second solver).
pub fn smt(e: &Ex, out: &mut String, names: &mut HashMap<u64, String>, decls: &mut HashMap<u32, u32>) -> String {
    if let Some(n) = names.get(&e.id) {
        return n.clone();
    }
    let bv = |b: String| format!("(ite {b} #b1 #b0)");
    let s = match &e.op {
        Op::Const(c) => format!("(_ bv{} {})", c, e.w),
        Op::Sym(i) => {
            decls.insert(*i, e.w);
            format!("s{i}_{}", e.w)
        }
        Op::Bin(o, a, b) => {
            let (x, y) = (smt(a, out, names, decls), smt(b, out, names, decls));
            let n = match o {
                BinOp::Add => "bvadd",
                BinOp::Sub => "bvsub",
                BinOp::Mul => "bvmul",
                BinOp::UDiv => "bvudiv",
                BinOp::SDiv => "bvsdiv",
                BinOp::URem => "bvurem",
                BinOp::SRem => "bvsrem",
                BinOp::Shl => "bvshl",
                BinOp::LShr => "bvlshr",
                BinOp::AShr => "bvashr",
                BinOp::And => "bvand",
                BinOp::Or => "bvor",
                BinOp::Xor => "bvxor",
            };
            format!("({n} {x} {y})")
        }
        Op::Cmp(p, a, b) => {
            let (x, y) = (smt(a, out, names, decls), smt(b, out, names, decls));
            let n = match p {
                Pred::Eq => "=",
                Pred::Ult => "bvult",
                Pred::Ule => "bvule",
                Pred::Slt => "bvslt",
                Pred::Sle => "bvsle",
                _ => unreachable!(),
            };
            bv(format!("({n} {x} {y})"))
        }
        Op::Not(a) => format!("(bvnot {})", smt(a, out, names, decls)),
        Op::ZExt(a) => format!("((_ zero_extend {}) {})", e.w - a.w, smt(a, out, names, decls)),
        Op::SExt(a) => format!("((_ sign_extend {}) {})", e.w - a.w, smt(a, out, names, decls)),
        Op::Extract(a, lo) => {
            format!("((_ extract {} {}) {})", lo + e.w - 1, lo, smt(a, out, names, decls))
        }
        Op::Concat(h, l) => {
            let (x, y) = (smt(h, out, names, decls), smt(l, out, names, decls));
            format!("(concat {x} {y})")
        }
        Op::Ite(c, t, f) => {
            let x = smt(c, out, names, decls);
            let (y, z) = (smt(t, out, names, decls), smt(f, out, names, decls));
            format!("(ite (= {x} #b1) {y} {z})")
        }
    };
    let name = format!("t{}", e.id);
    out.push_str(&format!("(define-fun {name} () (_ BitVec {}) {s})\n", e.w));
    names.insert(e.id, name.clone());
    name
}
