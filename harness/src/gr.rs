//! Symbolic grammars, the reference algorithms for them and readers for what
//! the parser crate returns.
use crate::rt;
use pango_lexer::Lexer;
use pango_parser::{Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::fmt::{Debug, Write};
use std::hash::Hash;

// ---------------------------------------------------------------- symbol types

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct V(pub u8);

/// A terminal: its kind decides what it matches, its value is carried along.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct T {
    pub k: u8,
    pub v: u16,
}

/// What of a symbol goes into its hash: all of it (255), its lowest bit (1) or
/// nothing (0), for `Hash` and for `TerminalHash`. Hashing nothing is a legal
/// choice of the user, keeps symbolic symbols out of the hash function and
/// makes every pair of symbols collide.
static mut HASHED: (u8, u8) = (0, 0);

pub fn hash_bits(hash: u8, terminal_hash: u8) {
    // SAFETY: harnesses are single-threaded.
    unsafe { HASHED = (hash, terminal_hash) }
}
fn hash_id<H: std::hash::Hasher>(mask: u8, id: u8, state: &mut H) {
    if mask != 0 {
        state.write_u8(id & mask);
    }
}
impl Hash for V {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // SAFETY: as above.
        hash_id(unsafe { HASHED.0 }, self.0, state);
    }
}
impl Hash for T {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // SAFETY: as above.
        let mask = unsafe { HASHED.0 };
        hash_id(mask, self.k, state);
        if mask == 255 {
            state.write_u16(self.v);
        }
    }
}

impl TerminalEq for T {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.k == other.k
    }
}
impl TerminalHash for T {
    fn terminal_hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // SAFETY: as above.
        hash_id(unsafe { HASHED.1 }, self.k, state);
    }
}

/// What has been printed. Printing writes the number of the entry instead of
/// the (possibly symbolic) contents, so that printed texts are concrete.
#[derive(Clone, Copy)]
pub enum Printed {
    V(u8),
    T(u8, u16),
}
static mut PRINTED: Vec<Printed> = Vec::new();
const MARK: u32 = 0xF0000;

pub fn print(p: Printed, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    // SAFETY: harnesses are single-threaded.
    let all = unsafe { &mut *std::ptr::addr_of_mut!(PRINTED) };
    all.push(p);
    f.write_char(char::from_u32(MARK + all.len() as u32 - 1).unwrap_or('?'))
}
/// The entry a character stands for.
pub fn printed(c: char) -> Option<Printed> {
    // SAFETY: as above.
    let all = unsafe { &*std::ptr::addr_of!(PRINTED) };
    let c = c as u32;
    if c >= MARK {
        all.get((c - MARK) as usize).copied()
    } else {
        None
    }
}
impl Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        print(Printed::V(self.0), f)
    }
}
impl Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        print(Printed::T(self.k, self.v), f)
    }
}

// ---------------------------------------------------------------- grammars

/// A symbol as it is written in a rule.
#[derive(Clone, Copy)]
pub enum S {
    T(u8),
    V(u8),
    E,
}

impl S {
    pub fn real(self, values: &[u16]) -> Symbol<V, T> {
        match self {
            S::T(k) => Symbol::Terminal(T { k, v: values.get(k as usize).copied().unwrap_or(0) }),
            S::V(v) => Symbol::Variable(V(v)),
            S::E => Symbol::Epsilon,
        }
    }
    /// Equality without branching on the contents.
    fn same(self, other: S) -> bool {
        match (self, other) {
            (S::T(a), S::T(b)) => a == b,
            (S::V(a), S::V(b)) => a == b,
            (S::E, S::E) => true,
            _ => false,
        }
    }
}

/// Whether two rules are written the same, without branching on the symbols.
pub fn same_rule(a: &(u8, Vec<S>), b: &(u8, Vec<S>)) -> bool {
    let mut same = (a.0 == b.0) & (a.1.len() == b.1.len());
    for (x, y) in a.1.iter().zip(&b.1) {
        same &= x.same(*y);
    }
    same
}

/// A grammar as it is written down: variables below `nv`, terminals below `nt`,
/// possibly symbolic.
#[derive(Clone)]
pub struct Spec {
    pub nv: u8,
    pub nt: u8,
    pub start: u8,
    pub rules: Vec<(u8, Vec<S>)>,
    /// Value carried by the terminals of each kind, 0 beyond the end.
    pub values: Vec<u16>,
}

pub fn any_below(n: u8) -> u8 {
    if n == 1 {
        return 0;
    }
    let v = rt::new(8) as u8;
    rt::assume(v < n);
    v
}

pub fn any_symbol(nv: u8, nt: u8) -> S {
    let id = any_below(nv + nt);
    if id < nv {
        S::V(id)
    } else {
        S::T(id - nv)
    }
}

/// How much of a symbolic grammar is split into cases before it is used.
pub const LAZY: usize = 0;
pub const SPLIT: usize = 1;

/// Reads a grammar template: rules `head:body`, variables `S A B C D`,
/// terminals `a` to `h`, `?` any symbol, `*` any symbol or nothing, `^` any
/// variable, `.` any terminal, `_` an epsilon, `~` an epsilon or nothing.
/// Grammars that use a variable without rules are left out.
pub fn spec(nv: u8, nt: u8, template: &[&str], mode: usize) -> Spec {
    let var = |c: u8| match c {
        b'S' => Some(0),
        b'A'..=b'D' => Some(c - b'A' + 1),
        _ => None,
    };
    let mut rules = Vec::new();
    for r in template {
        let r = r.as_bytes();
        let head = if r[0] == b'^' { any_below(nv) } else { var(r[0]).unwrap_or(0) };
        let mut body = Vec::new();
        for c in &r[2..] {
            match *c {
                b'?' | b'*' => {
                    let id = any_below(nv + nt + (*c == b'*') as u8);
                    if id < nv {
                        body.push(S::V(id))
                    } else if id < nv + nt {
                        body.push(S::T(id - nv))
                    }
                }
                b'^' => body.push(S::V(any_below(nv))),
                b'.' => body.push(S::T(any_below(nt))),
                b'_' => body.push(S::E),
                b'~' => {
                    if rt::new(1) == 1 {
                        body.push(S::E)
                    }
                }
                c => body.push(match var(c) {
                    Some(v) => S::V(v),
                    None => S::T(c - b'a'),
                }),
            }
        }
        rules.push((head, body));
    }
    let mut g = Spec { nv, nt, start: 0, rules, values: Vec::new() };
    rt::assume(g.complete());
    if mode == SPLIT {
        for (head, body) in &mut g.rules {
            *head = rt::concrete(*head as u64) as u8;
            for s in body {
                *s = match *s {
                    S::T(t) => S::T(rt::concrete(t as u64) as u8),
                    S::V(v) => S::V(rt::concrete(v as u64) as u8),
                    S::E => S::E,
                }
            }
        }
    }
    g
}

impl Spec {
    /// Whether the start variable and all used variables have a rule.
    pub fn complete(&self) -> bool {
        let has = |v: u8| self.rules.iter().fold(false, |a, (h, _)| a | (*h == v));
        let mut ok = has(self.start);
        for (_, body) in &self.rules {
            for s in body {
                if let S::V(v) = s {
                    ok &= has(*v);
                }
            }
        }
        ok
    }
    pub fn build(&self) -> Grammar<V, T> {
        let mut b = Grammar::builder().with_start_variable(V(self.start));
        for (head, body) in &self.rules {
            b = b.with_rule(V(*head), body.iter().map(|s| s.real(&self.values)).collect::<Vec<_>>());
        }
        b.build()
    }
    pub fn show(&self) {
        let mut t = Vec::new();
        for (head, body) in &self.rules {
            t.push(b'A' + head % 26);
            t.push(b':');
            for s in body {
                t.push(match s {
                    S::T(k) => b'a' + k % 26,
                    S::V(v) => b'A' + v % 26,
                    S::E => b'_',
                });
            }
            t.push(b' ');
        }
        // SAFETY: all of it is ASCII.
        rt::show(unsafe { std::str::from_utf8_unchecked(&t) });
    }
    /// The rule with this head and this body, epsilons left aside.
    pub fn has_rule(&self, head: u8, body: &[S]) -> bool {
        let mut found = false;
        for (h, b) in &self.rules {
            let b: Vec<S> = b.iter().copied().filter(|s| !matches!(s, S::E)).collect();
            if b.len() == body.len() {
                let mut same = *h == head;
                for (x, y) in b.iter().zip(body) {
                    same &= x.same(*y);
                }
                found |= same;
            }
        }
        found
    }
}

// ---------------------------------------------------------------- reference

/// A symbol with its class number.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Sy {
    V(usize),
    T(usize),
}

/// A grammar up to renaming: symbols are numbered in order of appearance,
/// epsilons and repeated rules are dropped. All of it is concrete.
pub struct Canon {
    pub nv: usize,
    pub rules: Vec<(usize, Vec<Sy>)>,
    /// The (possibly symbolic) name behind each class.
    pub vars: Vec<u8>,
    pub terms: Vec<u8>,
}

fn class(names: &mut Vec<u8>, name: u8) -> usize {
    for (i, n) in names.iter().enumerate() {
        if *n == name {
            return i;
        }
    }
    names.push(name);
    names.len() - 1
}

pub fn canon(g: &Spec) -> Canon {
    let mut vars = vec![g.start];
    let mut terms = Vec::new();
    let mut rules: Vec<(usize, Vec<Sy>)> = Vec::new();
    for (head, body) in &g.rules {
        let h = class(&mut vars, *head);
        let mut b = Vec::new();
        for s in body {
            match s {
                S::V(v) => b.push(Sy::V(class(&mut vars, *v))),
                S::T(t) => b.push(Sy::T(class(&mut terms, *t))),
                S::E => (),
            }
        }
        if !rules.iter().any(|(h2, b2)| *h2 == h && *b2 == b) {
            rules.push((h, b));
        }
    }
    Canon { nv: vars.len(), rules, vars, terms }
}

/// An item set: sorted (rule, dot) pairs. The rule after the last one is the
/// added start rule.
pub type Items = Vec<(usize, usize)>;

pub struct Automaton {
    pub states: Vec<Items>,
    pub moves: Vec<Vec<(Sy, usize)>>,
}

impl Canon {
    /// The class of a symbol as it was printed.
    pub fn symbol(&self, s: S) -> Option<Sy> {
        match s {
            S::V(v) => self.vars.iter().position(|x| *x == v).map(Sy::V),
            S::T(t) => self.terms.iter().position(|x| *x == t).map(Sy::T),
            S::E => None,
        }
    }
    /// The rule a printed item belongs to.
    pub fn find(&self, head: u8, body: &[S]) -> Option<usize> {
        let Some(Sy::V(head)) = self.symbol(S::V(head)) else { return None };
        let mut b = Vec::new();
        for s in body {
            b.push(self.symbol(*s)?);
        }
        self.rules.iter().position(|(h, x)| *h == head && *x == b)
    }
    pub fn after(&self, item: (usize, usize)) -> Option<Sy> {
        if item.0 == self.rules.len() {
            return if item.1 == 0 { Some(Sy::V(0)) } else { None };
        }
        self.rules[item.0].1.get(item.1).copied()
    }
    pub fn close(&self, mut items: Items) -> Items {
        let mut i = 0;
        while i < items.len() {
            if let Some(Sy::V(v)) = self.after(items[i]) {
                for r in 0..self.rules.len() {
                    if self.rules[r].0 == v && !items.contains(&(r, 0)) {
                        items.push((r, 0));
                    }
                }
            }
            i += 1;
        }
        items.sort_unstable();
        items
    }
    /// LR(0) automaton; with `augmented` the start state is that of an added
    /// start rule, otherwise that of all rules of the start variable.
    pub fn automaton(&self, augmented: bool) -> Automaton {
        let kernel = if augmented {
            vec![(self.rules.len(), 0)]
        } else {
            (0..self.rules.len()).filter(|r| self.rules[*r].0 == 0).map(|r| (r, 0)).collect()
        };
        let mut a = Automaton { states: vec![self.close(kernel)], moves: Vec::new() };
        let mut i = 0;
        while i < a.states.len() {
            let mut by: Vec<(Sy, Items)> = Vec::new();
            for item in &a.states[i] {
                if let Some(s) = self.after(*item) {
                    let next = (item.0, item.1 + 1);
                    match by.iter_mut().find(|(t, _)| *t == s) {
                        Some((_, l)) => l.push(next),
                        None => by.push((s, vec![next])),
                    }
                }
            }
            let mut moves = Vec::new();
            for (s, kernel) in by {
                let set = self.close(kernel);
                let to = match a.states.iter().position(|x| *x == set) {
                    Some(k) => k,
                    None => {
                        a.states.push(set);
                        a.states.len() - 1
                    }
                };
                moves.push((s, to));
            }
            a.moves.push(moves);
            i += 1;
        }
        a
    }
    fn nullable(&self) -> u128 {
        let mut n = 0u128;
        loop {
            let old = n;
            for (h, b) in &self.rules {
                if b.iter().all(|s| matches!(s, Sy::V(v) if n >> v & 1 == 1)) {
                    n |= 1 << h;
                }
            }
            if n == old {
                return n;
            }
        }
    }
    /// FOLLOW sets as masks of terminal classes; bit 127 is the end of input.
    pub fn follow(&self) -> Vec<u128> {
        let nullable = self.nullable();
        let mut first = vec![0u128; self.nv];
        loop {
            let old = first.clone();
            for (h, b) in &self.rules {
                for s in b {
                    match s {
                        Sy::T(t) => {
                            first[*h] |= 1 << t;
                            break;
                        }
                        Sy::V(v) => {
                            first[*h] |= first[*v];
                            if nullable >> v & 1 == 0 {
                                break;
                            }
                        }
                    }
                }
            }
            if first == old {
                break;
            }
        }
        let mut follow = vec![0u128; self.nv];
        follow[0] = 1 << 127;
        loop {
            let old = follow.clone();
            for (h, b) in &self.rules {
                let mut behind = follow[*h];
                for s in b.iter().rev() {
                    match s {
                        Sy::T(t) => behind = 1 << t,
                        Sy::V(v) => {
                            follow[*v] |= behind;
                            behind = if nullable >> v & 1 == 1 { behind | first[*v] } else { first[*v] };
                        }
                    }
                }
            }
            if follow == old {
                return follow;
            }
        }
    }
    /// The grammar without rules out of reach.
    pub fn reachable(&self) -> Canon {
        let mut seen = 1u128;
        loop {
            let old = seen;
            for (h, b) in &self.rules {
                if seen >> h & 1 == 1 {
                    for s in b {
                        if let Sy::V(v) = s {
                            seen |= 1 << v;
                        }
                    }
                }
            }
            if seen == old {
                break;
            }
        }
        let rules = self.rules.iter().filter(|(h, _)| seen >> h & 1 == 1).cloned().collect();
        Canon { nv: self.nv, rules, vars: self.vars.clone(), terms: self.terms.clone() }
    }
    /// The SLR(1) condition.
    pub fn is_slr(&self) -> bool {
        let a = self.automaton(true);
        let follow = self.follow();
        for (items, moves) in a.states.iter().zip(&a.moves) {
            let mut used = 0u128;
            for (s, _) in moves {
                if let Sy::T(t) = s {
                    used |= 1 << t;
                }
            }
            for item in items {
                if self.after(*item).is_none() {
                    let on = if item.0 == self.rules.len() { 1 << 127 } else { follow[self.rules[item.0].0] };
                    if used & on != 0 {
                        return false;
                    }
                    used |= on;
                }
            }
        }
        true
    }
    /// Whether the start variable derives the tokens. No branch depends on
    /// the tokens, which may be symbolic.
    pub fn derives(&self, tokens: &[u8]) -> bool {
        let n = tokens.len();
        // is[c][k]: token k belongs to terminal class c
        let is: Vec<Vec<bool>> = self.terms.iter().map(|t| tokens.iter().map(|k| *k == *t).collect()).collect();
        let w = n + 1;
        // var[v][i * w + j]: variable v derives tokens i..j
        let mut var = vec![vec![false; w * w]; self.nv];
        for len in 0..=n {
            for i in 0..=n - len {
                let j = i + len;
                // Enough rounds for chains of unit rules.
                for _ in 0..self.nv {
                    for (h, b) in &self.rules {
                        // ends[m]: the part read so far derives i..m
                        let mut ends = vec![false; w];
                        ends[i] = true;
                        for s in b {
                            let mut next = vec![false; w];
                            match s {
                                Sy::T(t) => {
                                    for m in i..j {
                                        next[m + 1] = ends[m] & is[*t][m];
                                    }
                                }
                                Sy::V(v) => {
                                    for m in i..=j {
                                        let mut x = false;
                                        for l in i..=m {
                                            x |= ends[l] & var[*v][l * w + m];
                                        }
                                        next[m] = x;
                                    }
                                }
                            }
                            ends = next;
                        }
                        let x = var[*h][i * w + j] | ends[j];
                        var[*h][i * w + j] = x;
                    }
                }
            }
        }
        var[0][n]
    }
}

// ---------------------------------------------------------------- sentences

/// Token `k` with value `v` is written as the character 0x10000 + 64 v + k.
pub fn token_char(k: u8, v: u16) -> char {
    // SAFETY: lies between 0x10000 and 0x1FFFF for v below 1024 and k below 64.
    unsafe { char::from_u32_unchecked(0x10000 + ((v as u32) << 6 | k as u32)) }
}
pub fn token_of(s: &str) -> T {
    let c = s.chars().next().map_or(0, |c| c as u32);
    T { k: (c & 63) as u8, v: ((c - 0x10000) >> 6) as u16 }
}

/// `n` symbolic tokens with kinds up to and including `nt`, the last of which
/// is foreign to every grammar.
pub fn tokens(n: usize, nt: u8) -> Vec<u8> {
    (0..n).map(|_| any_below(nt + 1)).collect()
}
pub fn text_of(tokens: &[u8]) -> String {
    tokens.iter().map(|k| token_char(*k, 0)).collect()
}
pub fn lexer(text: &str) -> Lexer<'_, T> {
    match Lexer::builder().with_token_map(".", token_of) {
        Ok(b) => b.tokenize(text),
        Err(_) => {
            rt::assume(false);
            unreachable!()
        }
    }
}

/// Creates a parser; grammars it refuses are another property.
pub fn parser(g: &Spec) -> Slr<V, T> {
    rt::panic_ok(true);
    let p = Slr::new(g.build());
    rt::panic_ok(false);
    p
}

// ---------------------------------------------------------------- trees

pub struct Tree {
    pub symbol: Printed,
    pub children: Vec<Tree>,
}

enum Part {
    Mark(Printed),
    List(Vec<Part>),
    Group(Vec<Part>),
}

/// Reads printed text as nested groups; names and punctuation are ignored.
fn parts(text: &mut std::str::Chars<'_>) -> Vec<Part> {
    let mut out = Vec::new();
    while let Some(c) = text.next() {
        match c {
            '{' | '(' => out.push(Part::Group(parts(text))),
            '[' => out.push(Part::List(parts(text))),
            '}' | ')' | ']' => break,
            c => {
                if let Some(p) = printed(c) {
                    out.push(Part::Mark(p));
                }
            }
        }
    }
    out
}
fn collect(parts: Vec<Part>, symbol: &mut Vec<Printed>, children: &mut Vec<Tree>) -> bool {
    for p in parts {
        let ok = match p {
            Part::Mark(m) => {
                symbol.push(m);
                true
            }
            Part::Group(g) => collect(g, symbol, children),
            Part::List(l) => {
                let mut ok = true;
                for c in l {
                    match node(vec![c]) {
                        Some(t) => children.push(t),
                        None => ok = false,
                    }
                }
                ok
            }
        };
        if !ok {
            return false;
        }
    }
    true
}
fn node(parts: Vec<Part>) -> Option<Tree> {
    let mut symbol = Vec::new();
    let mut children = Vec::new();
    if collect(parts, &mut symbol, &mut children) && symbol.len() == 1 {
        Some(Tree { symbol: symbol[0], children })
    } else {
        None
    }
}
/// The tree behind a printed parse result.
pub fn tree(printed: &str) -> Option<Tree> {
    node(parts(&mut printed.chars()))
}

impl Tree {
    /// Whether every inner node follows a rule, children last to first, and
    /// collects the leaves from right to left.
    pub fn follows(&self, g: &Spec, leaves: &mut Vec<(u8, u16)>) -> bool {
        match self.symbol {
            Printed::T(k, v) => {
                leaves.push((k, v));
                self.children.is_empty()
            }
            Printed::V(head) => {
                let body: Vec<S> = self
                    .children
                    .iter()
                    .rev()
                    .map(|c| match c.symbol {
                        Printed::V(v) => S::V(v),
                        Printed::T(k, _) => S::T(k),
                    })
                    .collect();
                let mut ok = g.has_rule(head, &body);
                for c in self.children.iter().rev() {
                    ok &= c.follows(g, leaves);
                }
                ok
            }
        }
    }
    pub fn same(&self, other: &Tree) -> bool {
        let mut ok = match (self.symbol, other.symbol) {
            (Printed::V(a), Printed::V(b)) => a == b,
            (Printed::T(a, v), Printed::T(b, w)) => (a == b) & (v == w),
            _ => false,
        };
        if self.children.len() != other.children.len() {
            return false;
        }
        for (a, b) in self.children.iter().zip(&other.children) {
            ok &= a.same(b);
        }
        ok
    }
    pub fn leaves(&self, out: &mut Vec<(u8, u16)>) {
        if let Printed::T(k, v) = self.symbol {
            out.push((k, v));
        }
        for c in self.children.iter().rev() {
            c.leaves(out);
        }
    }
}
