//! Object based memory. An address is (object id << 32) | offset.
use crate::expr::{self, Ex};
use crate::val::Val;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, (Ex, u8)>>>,
}

const CHUNK: usize = 64;
type Chunk = [Option<Arc<Obj>>; CHUNK];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Arc<Chunk>>,
    next: u32,
    free_stack: Vec<u32>,
    freed: VecDeque<u32>,
    pub heap_live: u64,
}

const QUARANTINE: usize = 1024;

fn empty_chunk() -> Arc<Chunk> {
    Arc::new(std::array::from_fn(|_| None))
}

#[derive(Debug, Clone)]
pub enum MemErr {
    Null(u64),
    Dangling(u64),
    Oob(u64, u64, u64),
    ReadOnly(u64),
    BadFree(u64),
}

impl std::fmt::Display for MemErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            MemErr::Null(a) => write!(f, "access through null or invented pointer {a:#x}"),
            MemErr::Dangling(a) => write!(f, "access to freed memory {a:#x}"),
            MemErr::Oob(a, n, s) => write!(f, "out of bounds access at {a:#x} of {n} bytes (object has {s})"),
            MemErr::ReadOnly(a) => write!(f, "write to constant memory {a:#x}"),
            MemErr::BadFree(a) => write!(f, "invalid free of {a:#x}"),
        }
    }
}

pub type MR<T> = Result<T, MemErr>;

impl Mem {
    pub fn new() -> Self {
        Mem { chunks: vec![empty_chunk()], next: 1, free_stack: vec![], freed: VecDeque::new(), heap_live: 0 }
    }
    fn slot(&mut self, id: u32) -> &mut Option<Arc<Obj>> {
        let c = id as usize / CHUNK;
        while self.chunks.len() <= c {
            self.chunks.push(empty_chunk());
        }
        &mut Arc::make_mut(&mut self.chunks[c])[id as usize % CHUNK]
    }
    pub fn add_fixed(&mut self, id: u32, o: Obj) {
        *self.slot(id) = Some(Arc::new(o));
        self.next = self.next.max(id + 1);
    }
    pub fn alloc(&mut self, kind: Kind, size: u64) -> u64 {
        let id = match kind {
            Kind::Stack if !self.free_stack.is_empty() => self.free_stack.pop().unwrap(),
            Kind::Heap if self.freed.len() > QUARANTINE => self.freed.pop_front().unwrap(),
            _ => {
                let i = self.next;
                self.next += 1;
                i
            }
        };
        if kind == Kind::Heap {
            self.heap_live += 1;
        }
        *self.slot(id) = Some(Arc::new(Obj { kind, bytes: vec![0; size as usize], sym: None }));
        (id as u64) << 32
    }
    pub fn free_stack(&mut self, id: u32) {
        *self.slot(id) = None;
        self.free_stack.push(id);
    }
    pub fn free_heap(&mut self, addr: u64) -> MR<()> {
        let id = (addr >> 32) as u32;
        if addr & 0xffff_ffff != 0 {
            return Err(MemErr::BadFree(addr));
        }
        match self.get(id) {
            Some(o) if o.kind == Kind::Heap => {}
            Some(_) => return Err(MemErr::BadFree(addr)),
            None => return Err(MemErr::Dangling(addr)),
        }
        *self.slot(id) = None;
        self.freed.push_back(id);
        self.heap_live -= 1;
        Ok(())
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Arc<Obj>> {
        self.chunks.get(id as usize / CHUNK)?[id as usize % CHUNK].as_ref()
    }
    #[inline]
    pub fn obj(&self, addr: u64, n: u64) -> MR<(&Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match self.get(id) {
            None => Err(if id == 0 || id >= self.next { MemErr::Null(addr) } else { MemErr::Dangling(addr) }),
            Some(o) => {
                if off + n > o.bytes.len() as u64 {
                    Err(MemErr::Oob(addr, n, o.bytes.len() as u64))
                } else {
                    Ok((o, off as usize))
                }
            }
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64, n: u64) -> MR<(&mut Obj, usize)> {
        let (o, off) = self.obj(addr, n)?;
        if o.kind == Kind::Const {
            return Err(MemErr::ReadOnly(addr));
        }
        let id = (addr >> 32) as u32;
        let ch = Arc::make_mut(&mut self.chunks[id as usize / CHUNK]);
        let o = Arc::make_mut(ch[id as usize % CHUNK].as_mut().unwrap());
        Ok((o, off))
    }

    /// Loads an integer of `n` bytes (n <= 16).
    #[inline]
    pub fn load(&self, addr: u64, n: usize) -> MR<Val> {
        let (o, off) = self.obj(addr, n as u64)?;
        if let Some(s) = &o.sym {
            if s.range(off as u32..(off + n) as u32).next().is_some() {
                return Ok(load_sym(o, s, off, n));
            }
        }
        let b = &o.bytes[off..off + n];
        Ok(match n {
            1 => Val::I(b[0] as u64),
            8 => Val::I(u64::from_le_bytes(b.try_into().unwrap())),
            4 => Val::I(u32::from_le_bytes(b.try_into().unwrap()) as u64),
            2 => Val::I(u16::from_le_bytes(b.try_into().unwrap()) as u64),
            _ => {
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                if n <= 8 {
                    Val::I(v as u64)
                } else {
                    Val::W(Box::new(v))
                }
            }
        })
    }
    /// Stores an integer of `n` bytes.
    #[inline]
    pub fn store(&mut self, addr: u64, n: usize, v: &Val) -> MR<()> {
        let (o, off) = self.obj_mut(addr, n as u64)?;
        match v {
            Val::I(x) => {
                let le = x.to_le_bytes();
                if n <= 8 {
                    o.bytes[off..off + n].copy_from_slice(&le[..n]);
                } else {
                    o.bytes[off..off + 8].copy_from_slice(&le);
                    o.bytes[off + 8..off + n].fill(0);
                }
                clear_sym(o, off, n);
            }
            Val::W(x) => {
                o.bytes[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                clear_sym(o, off, n);
            }
            Val::S(e) => {
                let e = if e.w != 8 * n as u32 { expr::zext(e, 8 * n as u32) } else { e.clone() };
                let m = o.sym.get_or_insert_with(Default::default);
                for i in 0..n {
                    let piece = expr::extract(&e, 8 * i as u32, 8);
                    if let Some(c) = expr::as_const(&piece) {
                        o.bytes[off + i] = c as u8;
                        m.remove(&((off + i) as u32));
                    } else {
                        m.insert((off + i) as u32, (e.clone(), i as u8));
                    }
                }
            }
            Val::A(_) => unreachable!("aggregate store"),
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(src, n)?;
        let b = so.bytes[soff..soff + n as usize].to_vec();
        let syms: Vec<(u32, (Ex, u8))> = match &so.sym {
            Some(s) => {
                s.range(soff as u32..soff as u32 + n as u32).map(|(k, v)| (k - soff as u32, v.clone())).collect()
            }
            None => vec![],
        };
        let (o, off) = self.obj_mut(dst, n)?;
        o.bytes[off..off + n as usize].copy_from_slice(&b);
        clear_sym(o, off, n as usize);
        if !syms.is_empty() {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, v) in syms {
                m.insert(off as u32 + k, v);
            }
        }
        Ok(())
    }
    pub fn set(&mut self, dst: u64, v: u8, n: u64) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_mut(dst, n)?;
        o.bytes[off..off + n as usize].fill(v);
        clear_sym(o, off, n as usize);
        Ok(())
    }
}

fn clear_sym(o: &mut Obj, off: usize, n: usize) {
    if let Some(m) = &mut o.sym {
        let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
        for k in ks {
            m.remove(&k);
        }
        if m.is_empty() {
            o.sym = None;
        }
    }
}

fn load_sym(o: &Obj, s: &BTreeMap<u32, (Ex, u8)>, off: usize, n: usize) -> Val {
    // whole expression?
    if let Some((e, 0)) = s.get(&(off as u32)).map(|(e, i)| (e, *i)) {
        if e.w == 8 * n as u32
            && (1..n).all(|k| match s.get(&((off + k) as u32)) {
                Some((e2, i2)) => Arc::ptr_eq(e, e2) && *i2 as usize == k,
                None => expr::as_const(&expr::extract(e, 8 * k as u32, 8)) == Some(o.bytes[off + k] as u128),
            })
        {
            return Val::S(e.clone());
        }
    }
    let byte = |k: usize| -> Ex {
        match s.get(&((off + k) as u32)) {
            Some((e, i)) => expr::extract(e, 8 * *i as u32, 8),
            None => expr::cst(8, o.bytes[off + k] as u128),
        }
    };
    let mut e = byte(n - 1);
    for k in (0..n - 1).rev() {
        e = expr::concat(&e, &byte(k));
    }
    Val::from_ex(e)
}
