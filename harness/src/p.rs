//! Harnesses for the parser generator properties P01 to P12.
use crate::gr::{self, Canon, Printed, Spec, S, T, V};
use crate::rt;
use pango_lexer::Lexer;
use pango_parser::{Cfsm, Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::fmt::{Debug, Write};

type Template = (u8, u8, &'static [&'static str]);

/// Number of variables and terminals, rules (see `gr::spec`).
const TEMPLATES: &[Template] = &[
    // 0: one variable
    (1, 2, &["S:**", "S:***"]),
    (1, 2, &["S:***", "S:***"]),
    (1, 2, &["S:**", "S:**", "S:**"]),
    (1, 2, &["S:****", "S:**"]),
    // 4: two variables
    (2, 2, &["S:**", "A:**"]),
    (2, 2, &["S:***", "A:**"]),
    (2, 2, &["S:**", "S:*", "A:**"]),
    (2, 2, &["S:**", "A:**", "A:*"]),
    (2, 2, &["S:**", "^:**", "A:**"]),
    (2, 1, &["S:**", "S:**", "A:**", "A:*"]),
    // 10: three variables
    (3, 1, &["S:**", "A:**", "B:**"]),
    (3, 2, &["S:**", "A:**", "B:**"]),
    (3, 2, &["S:?A?", "S:*", "A:B*", "B:*"]),
    (3, 2, &["S:**", "S:AB", "A:*", "B:**"]),
    // 14: expressions
    (3, 5, &["S:SaA", "S:A", "A:AbB", "A:B", "B:cSd", "B:e"]),
    (3, 5, &["S:S?A", "S:A", "A:A?B", "A:B", "B:cSd", "B:e"]),
    (3, 5, &["S:SaA", "S:?", "A:AbB", "A:?", "B:cSd", "B:e"]),
    (3, 5, &["S:SaA", "S:A", "A:AbB", "A:B", "B:c?d", "B:*"]),
    (2, 4, &["S:SaA", "S:A", "A:bSc", "A:d", "A:*"]),
    // 19: dangling else
    (1, 3, &["S:aSbS", "S:aS", "S:c"]),
    (1, 3, &["S:aSbS", "S:aS*", "S:c"]),
    (2, 4, &["S:aSA", "S:c", "A:bS", "A:*"]),
    // 22: not SLR but LALR, LR(1) and so on
    (2, 4, &["S:Aa", "S:bAc", "S:dc", "S:bda", "A:d"]),
    (2, 4, &["S:Aa", "S:bAc", "S:dc", "S:b?a", "A:?"]),
    (3, 3, &["S:AaB", "S:B", "A:bB", "A:c", "B:A"]),
    (3, 3, &["S:AaB", "S:B", "A:bB", "A:c", "B:?"]),
    (3, 5, &["S:aAd", "S:bBd", "S:aBe", "S:bAe", "A:c", "B:c"]),
    (3, 4, &["S:Aa", "S:Bb", "S:c", "A:?", "B:?"]),
    // 28: lists
    (2, 2, &["S:SA", "S:*", "A:a", "A:*"]),
    (2, 2, &["S:AS", "S:*", "A:a", "A:*"]),
    (3, 3, &["S:aAb", "A:", "A:B", "B:BcS", "B:?"]),
    (3, 3, &["S:aAb", "A:*", "A:B", "B:ScB", "B:S", "S:?"]),
    // 32: nullable chains
    (4, 4, &["S:ABCd", "A:a", "A:", "B:b", "B:", "C:c", "C:"]),
    (4, 4, &["S:ABC?", "A:a", "A:", "B:b", "B:", "C:c", "C:*"]),
    (4, 4, &["S:ABC", "A:a", "A:*", "B:b", "B:*", "C:c", "C:"]),
    (4, 3, &["S:aAb", "A:B*", "B:C*", "C:*"]),
    (4, 3, &["S:Aa", "S:Bb", "A:C*", "B:C*", "C:*"]),
    // 37: balanced, palindromes, mixed recursion
    (1, 3, &["S:aSbS", "S:*"]),
    (1, 3, &["S:aSa", "S:bSb", "S:*"]),
    (2, 3, &["S:aA", "A:Sb", "A:*", "S:*"]),
    (3, 3, &["S:AB", "A:aAb", "A:*", "B:cB", "B:*"]),
    (2, 2, &["S:AA", "A:aA", "A:b"]),
    (2, 2, &["S:AA", "A:?A", "A:?"]),
    // 43: rules out of reach, rules that never end
    (3, 2, &["S:*", "A:**", "B:?S"]),
    (3, 3, &["S:a*", "A:A*", "B:*c"]),
    (4, 3, &["S:b", "S:aAB", "B:B*", "A:*", "C:Ac"]),
    (3, 3, &["S:aB", "S:Ab", "B:AB?", "A:*"]),
    (4, 4, &["S:b", "S:aAB", "B:Bb", "A:*", "A:c", "C:Ad"]),
    // 48: four variables and a long body
    (4, 4, &["S:AaBb", "A:C?", "B:C?", "C:*"]),
    (1, 3, &["S:abcabc", "S:abc*bc"]),
    (4, 4, &["S:A", "A:B", "B:C", "C:?S", "C:*"]),
    // 51: same beginnings and endings
    (3, 3, &["S:abA", "S:ab*", "S:aB", "A:c", "B:b?"]),
    (3, 3, &["S:Aa", "S:Ab", "S:B", "A:?", "B:?a"]),
    (2, 3, &["S:aAb", "S:cA?", "A:a*", "A:*"]),
    // 54: larger families
    (2, 2, &["S:**", "S:**", "A:**", "A:**"]),
    (2, 2, &["S:***", "A:***"]),
    (3, 2, &["S:**", "S:*", "A:**", "B:**"]),
    (1, 3, &["S:***", "S:***", "S:*"]),
    // 58: empty by way of other variables, sets that grow late
    (4, 4, &["S:CAc", "A:B*", "B:b", "B:*", "C:d"]),
    (4, 4, &["S:CAc", "A:BB", "B:b", "B:*", "C:d"]),
    (3, 4, &["S:aAb", "S:cBd", "A:aB", "B:b?", "B:*"]),
    (4, 4, &["S:ABd", "A:a", "B:Cb", "B:*", "C:c", "C:*"]),
    (3, 3, &["S:ABS", "S:c", "A:a", "A:", "B:b", "B:*"]),
    // 63: indirect and hidden left recursion
    (2, 3, &["S:Aa", "S:b", "A:Sc", "A:*"]),
    (2, 3, &["S:ASb", "S:c", "A:*", "A:a"]),
    (3, 4, &["S:Aa", "A:Bb", "A:c", "B:Sd", "B:*"]),
];

fn hashing(seeds: usize) {
    if seeds == 0 {
        rt::real_hash(false);
    } else {
        rt::real_hash(true);
        gr::hash_bits(255, 255);
        let s = rt::pick(seeds as u32) as u64;
        rt::hash_seed(s.wrapping_mul(0x9E3779B97F4A7C15));
    }
}

/// Small grammars with holes, large ones of a given size from 1000 on and from
/// 100000 on these with one more rule.
fn template(t: usize, mode: usize) -> Spec {
    if t >= 100_000 {
        return extended(large(t / 1000 % 100, t % 1000));
    }
    if t >= 1000 {
        return large(t / 1000, t % 1000);
    }
    let (nv, nt, rules) = TEMPLATES[t];
    gr::spec(nv, nt, rules, mode)
}

/// Large grammars, all of them SLR(1).
fn large(kind: usize, n: usize) -> Spec {
    let n8 = n as u8;
    let mut rules: Vec<(u8, Vec<S>)> = Vec::new();
    let (nv, nt);
    match kind {
        // one long body
        1 => {
            (nv, nt) = (1, n.min(60) as u8);
            rules.push((0, (0..n).map(|i| S::T((i % 60) as u8)).collect()));
        }
        // many alternatives, each with a variable of its own
        2 => {
            (nv, nt) = (n8 + 1, n8);
            for i in 0..n8 {
                rules.push((0, vec![S::V(i + 1)]));
                rules.push((i + 1, vec![S::T(i)]));
            }
        }
        // a chain of unit rules
        3 => {
            (nv, nt) = (n8 + 1, 2);
            for i in 0..n8 {
                rules.push((i, vec![S::V(i + 1)]));
            }
            rules.push((n8, vec![S::T(0), S::V(0)]));
            rules.push((n8, vec![S::T(1)]));
        }
        // variables that can be empty, in a row
        4 => {
            (nv, nt) = (n8 + 1, n8 + 1);
            let mut body: Vec<S> = (1..=n8).map(S::V).collect();
            body.push(S::T(n8));
            rules.push((0, body));
            for i in 0..n8 {
                rules.push((i + 1, vec![S::T(i)]));
                rules.push((i + 1, vec![]));
            }
        }
        // operators of n precedences
        5 => {
            (nv, nt) = (n8 + 1, n8 + 3);
            for i in 0..n8 {
                rules.push((i, vec![S::V(i), S::T(i), S::V(i + 1)]));
                rules.push((i, vec![S::V(i + 1)]));
            }
            rules.push((n8, vec![S::T(n8), S::V(0), S::T(n8 + 1)]));
            rules.push((n8, vec![S::T(n8 + 2)]));
        }
        // many bodies of one variable with a common beginning
        6 => {
            (nv, nt) = (1, n8 + 1);
            for i in 0..n8 {
                rules.push((0, vec![S::T(n8), S::T(n8), S::T(i)]));
            }
        }
        // nested brackets, lists to the left and to the right, expressions
        7 => {
            (nv, nt) = (1, 4);
            rules.push((0, vec![S::T(0), S::V(0), S::T(1)]));
            rules.push((0, vec![S::T(2), S::V(0), S::T(3)]));
            rules.push((0, vec![]));
        }
        8 => {
            (nv, nt) = (1, 2);
            rules.push((0, vec![S::V(0), S::T(0), S::T(1)]));
            rules.push((0, vec![S::T(1)]));
        }
        // FOLLOW sets along a chain that each variable adds to
        10 => {
            (nv, nt) = (n8 + 1, 3 * n8);
            for i in 0..n8 {
                rules.push((0, vec![S::T(i), S::V(i + 1), S::T(n8 + i)]));
                let mut body = vec![S::T(2 * n8 + i)];
                if i + 1 < n8 {
                    body.push(S::V(i + 2));
                }
                rules.push((i + 1, body));
            }
        }
        // FIRST sets along a chain that each variable adds to
        11 => {
            (nv, nt) = (n8 + 2, 2 * n8 + 1);
            rules.push((0, vec![S::V(n8 + 1), S::V(1)]));
            rules.push((n8 + 1, vec![S::T(2 * n8)]));
            for i in 0..n8 {
                if i + 1 < n8 {
                    rules.push((i + 1, vec![S::V(i + 2), S::T(i)]));
                }
                rules.push((i + 1, vec![S::T(n8 + i)]));
            }
        }
        // a variable that is empty by way of a chain
        12 => {
            (nv, nt) = (n8 + 2, 3);
            rules.push((0, vec![S::V(n8 + 1), S::V(1), S::T(2)]));
            rules.push((n8 + 1, vec![S::T(0)]));
            for i in 1..n8 {
                rules.push((i, vec![S::V(i + 1)]));
            }
            rules.push((n8, vec![S::T(1)]));
            rules.push((n8, vec![]));
        }
        _ => {
            (nv, nt) = (1, 2);
            rules.push((0, vec![S::T(1), S::T(0), S::V(0)]));
            rules.push((0, vec![S::T(1)]));
        }
    }
    Spec { nv, nt, start: 0, rules, values: Vec::new() }
}

/// One more rule for the first, a middle or the last variable: any one symbol,
/// alone, in front of or behind a body the grammar has.
fn extended(mut g: Spec) -> Spec {
    let head = [0, g.nv / 2, g.nv - 1][rt::pick(3) as usize];
    let symbol = gr::any_symbol(g.nv, g.nt);
    let of = [0, g.rules.len() / 2, g.rules.len() - 1][rt::pick(3) as usize];
    let mut body = g.rules[of].1.clone();
    match rt::pick(3) {
        0 => body = vec![symbol],
        1 => body.insert(0, symbol),
        _ => body.push(symbol),
    }
    let at = [0, g.rules.len()][rt::pick(2) as usize];
    g.rules.insert(at, (head, body));
    g
}

/// A sentence of a large grammar.
fn sentence(kind: usize, n: usize) -> Vec<u8> {
    let n8 = n as u8;
    match kind {
        1 => (0..n).map(|i| (i % 60) as u8).collect(),
        2 => vec![n8 / 2],
        3 => vec![0, 0, 1],
        4 => (0..=n8).filter(|i| *i == n8 || i % 3 == 1).collect(),
        5 => vec![n8, n8 + 2, n8 - 1, n8 + 2, n8 + 1, 0, n8 + 2],
        6 => vec![n8, n8, n8 - 1],
        7 => (0..n).map(|i| if i % 3 == 1 { 2 } else { 0 }).chain((0..n).rev().map(|i| if i % 3 == 1 { 3 } else { 1 })).collect(),
        10 => std::iter::once(0).chain(2 * n8..3 * n8).chain(std::iter::once(n8)).collect(),
        11 => [2 * n8, 2 * n8 - 1].into_iter().chain((0..n8 - 1).rev()).collect(),
        12 => vec![0, 2],
        _ => (0..2 * n + 1).map(|i| if i % 2 == 0 { 1 } else { 0 }).collect(),
    }
}

/// Tokens to parse: any `n`, or for a large grammar a sentence of it in which
/// `n` of the tokens (at any place, or near the ends and the middle of long
/// ones) are any others and which may end early or go on.
fn input(t: usize, n: usize, g: &Spec) -> Vec<u8> {
    if t < 1000 {
        return gr::tokens(n, g.nt);
    }
    let mut s = sentence(t / 1000 % 100, t % 1000);
    for _ in 0..n {
        let l = s.len();
        let at = if l <= 16 {
            rt::pick(l as u32) as usize
        } else {
            [0, 1, l / 2 - 1, l / 2, l - 2, l - 1][rt::pick(6) as usize]
        };
        s[at] = gr::any_below(g.nt + 1);
    }
    match rt::pick(3) {
        0 => (),
        1 => {
            s.pop();
        }
        _ => s.push(gr::any_below(g.nt + 1)),
    }
    s
}

/// Parses and returns the printed tree.
fn parse(p: &Slr<V, T>, text: &str) -> Option<String> {
    match p.parse(gr::lexer(text)) {
        Ok(t) => Some(format!("{t:?}")),
        Err(()) => None,
    }
}

fn parse_tokens(p: &Slr<V, T>, tokens: &[u8]) -> Option<String> {
    parse(p, &gr::text_of(tokens))
}

/// Whether the grammar derives the tokens.
fn derives(t: usize, c: &Canon, tokens: &[u8]) -> bool {
    match t / 1000 {
        1 => {
            let mut ok = tokens.len() == t % 1000;
            for (i, k) in tokens.iter().enumerate() {
                ok &= *k == (i % 60) as u8;
            }
            ok
        }
        7 => {
            let mut open = Vec::new();
            let mut closing = false;
            for k in tokens {
                if *k == 0 || *k == 2 {
                    if closing {
                        return false;
                    }
                    open.push(*k);
                } else {
                    closing = true;
                    match open.pop() {
                        Some(o) if *k == o + 1 => (),
                        _ => return false,
                    }
                }
            }
            open.is_empty()
        }
        8 | 9 => {
            let mut ok = tokens.len() % 2 == 1;
            for (i, k) in tokens.iter().enumerate() {
                ok &= *k == (i % 2 == 0) as u8;
            }
            ok
        }
        _ => c.derives(tokens),
    }
}

// ---------------------------------------------------------------- P01

/// `rules` builder calls that add rules with up to `len` symbols, and calls
/// that set the start variable, in any order.
fn calls(nv: u8, nt: u8, rules: usize, len: usize, n: usize, forms: bool) {
    let mut b = Grammar::builder();
    let mut start = None;
    let mut list: Vec<(u8, Vec<S>)> = Vec::new();
    macro_rules! set_start {
        () => {
            let v = gr::any_below(nv);
            start = Some(v);
            if !forms || rt::pick(2) == 0 {
                b = b.with_start_variable(V(v));
            } else {
                b.set_start_variable(V(v));
            }
        };
    }
    for _ in 0..rules {
        if rt::pick(2) == 1 {
            set_start!();
        }
        let head = gr::any_below(nv);
        let mut bodies = Vec::new();
        let how = if forms { rt::pick(4) } else { 0 };
        let count = if how < 2 { 1 } else { rt::pick(3) };
        for _ in 0..count {
            let body: Vec<S> = (0..rt::pick(len as u32 + 1)).map(|_| gr::any_symbol(nv, nt)).collect();
            list.push((head, body.clone()));
            bodies.push(body.iter().map(|s| s.real(&[])).collect::<Vec<_>>());
        }
        match how {
            0 => b = b.with_rule(V(head), bodies.swap_remove(0)),
            1 => {
                b.add_rule(V(head), bodies.swap_remove(0));
            }
            2 => b = b.with_rules(V(head), bodies),
            _ => b.add_rules(V(head), bodies),
        }
    }
    if rt::pick(2) == 1 {
        set_start!();
    }
    let g = Spec { nv, nt, start: start.unwrap_or(0), rules: list, values: Vec::new() };
    let ok = start.is_some() & g.complete();
    rt::note(ok as u64);
    if ok {
        rt::reach(1);
        let built = b.build();
        let c = gr::canon(&g);
        if n > 0 && c.is_slr() {
            rt::panic_ok(true);
            let p = Slr::new(built);
            rt::panic_ok(false);
            for n in 0..n {
                let tokens = gr::tokens(n, nt);
                rt::check(p.parse(gr::lexer(&gr::text_of(&tokens))).is_ok() == c.derives(&tokens), 2);
            }
        }
    } else {
        rt::reach(2);
        rt::panic_ok(true);
        let built = b.build();
        rt::panic_ok(false);
        std::mem::forget(built);
        rt::check(false, 1);
    }
}

/// Parameters: variables, terminals, rule calls, body length, sentences, whether
/// all forms of the calls are used.
#[no_mangle]
pub extern "C" fn h_p01() {
    rt::real_hash(false);
    calls(rt::param(0) as u8, rt::param(1) as u8, rt::param(2), rt::param(3), rt::param(4), rt::param(5) == 1);
}

/// Parameters: number of variables. One symbol of the rules `V0 -> V1`,
/// `V1 -> V2`, ..., the rule that is left out and the start variable vary.
#[no_mangle]
pub extern "C" fn h_p01_large() {
    rt::real_hash(false);
    let n = rt::param(0) as u8;
    let at = [0, 1, n / 2, n - 2, n - 1][rt::pick(5) as usize];
    let left_out = [0, 1, n / 2, n - 1, n][rt::pick(5) as usize];
    let mut g = Spec { nv: n + 1, nt: 1, start: [0, 1, n / 2, n - 1, n][rt::pick(5) as usize], rules: Vec::new(), values: Vec::new() };
    for i in 0..n {
        if i != left_out {
            let to = if i == at { gr::any_below(n + 1) } else { (i + 1) % n };
            g.rules.push((i, vec![S::T(0), S::V(to)]));
            if rt::param(1) == 1 {
                g.rules.push((i, vec![S::T(0)]));
            }
        }
    }
    let ok = g.complete();
    rt::note(ok as u64);
    if ok {
        rt::reach(1);
        g.build();
    } else {
        rt::reach(2);
        rt::panic_ok(true);
        let built = g.build();
        rt::panic_ok(false);
        std::mem::forget(built);
        rt::check(false, 1);
    }
}

// ---------------------------------------------------------------- P02

/// Parameters: template, mode.
#[no_mangle]
pub extern "C" fn h_p02() {
    rt::real_hash(false);
    let g = template(rt::param(0), rt::param(1));
    g.show();
    verdict(&g);
}

/// Creating a parser has to fail exactly if the grammar is not SLR(1).
fn verdict(g: &Spec) {
    let c = gr::canon(g);
    let ok = c.is_slr();
    // Rules out of reach add to FOLLOW in the usual algorithm, but not by its
    // definition.
    if !ok && c.reachable().is_slr() {
        return;
    }
    rt::note(ok as u64);
    let built = g.build();
    if ok {
        rt::reach(1);
        Slr::new(built);
    } else {
        rt::reach(2);
        rt::panic_ok(true);
        let p = Slr::new(built);
        rt::panic_ok(false);
        std::mem::forget(p);
        rt::check(false, 1);
    }
}

// ---------------------------------------------------------------- P03, P04

/// A parser and its grammar; paths with other grammars end here.
fn accepted(t: usize, mode: usize) -> (Spec, Slr<V, T>) {
    let g = template(t, mode);
    g.show();
    let p = gr::parser(&g);
    (g, p)
}

/// Parameters: template, mode, number of tokens.
#[no_mangle]
pub extern "C" fn h_p03() {
    rt::real_hash(false);
    let (g, p) = accepted(rt::param(0), rt::param(1));
    let c = gr::canon(&g);
    let tokens = input(rt::param(0), rt::param(2), &g);
    let got = p.parse(gr::lexer(&gr::text_of(&tokens))).is_ok();
    rt::note(got as u64);
    rt::reach(if got { 1 } else { 2 });
    rt::check(got == derives(rt::param(0), &c, &tokens), 1);
}

/// Parameters: template, mode, number of tokens.
#[no_mangle]
pub extern "C" fn h_p04() {
    rt::real_hash(false);
    let (g, p) = accepted(rt::param(0), rt::param(1));
    let tokens = input(rt::param(0), rt::param(2), &g);
    let Some(text) = parse_tokens(&p, &tokens) else { return };
    rt::reach(1);
    let Some(tree) = gr::tree(&text) else {
        rt::check(false, 1);
        return;
    };
    rt::note(text.len() as u64);
    let mut leaves = Vec::new();
    let ok = tree.follows(&g, &mut leaves);
    rt::check(ok, 2);
    rt::check(matches!(tree.symbol, Printed::V(v) if v == g.start), 3);
    rt::check(leaves.len() == tokens.len(), 4);
    let mut same = true;
    for (l, k) in leaves.iter().zip(&tokens) {
        same &= l.0 == *k;
    }
    rt::check(same, 5);
}

// ---------------------------------------------------------------- P05

/// Parameters: template, mode, tokens of the first and of the second input.
/// Only completion of parsing counts here, so any grammar will do for which a
/// parser is created.
#[no_mangle]
pub extern "C" fn h_p05() {
    rt::real_hash(false);
    let (g, p) = accepted(rt::param(0), rt::param(1));
    let x = input(rt::param(0), rt::param(2), &g);
    let first = parse_tokens(&p, &x);
    rt::reach(if first.is_some() { 1 } else { 2 });
    rt::note(first.is_some() as u64);
    if rt::param(3) > 0 {
        let y = gr::tokens(rt::param(3) - 1, g.nt);
        let other = parse_tokens(&p, &y);
        let again = parse_tokens(&p, &x);
        rt::note(other.is_some() as u64);
        same_result(&first, &again, 1);
    }
}

fn same_result(a: &Option<String>, b: &Option<String>, id: u32) {
    rt::check(a.is_some() == b.is_some(), id);
    if let (Some(a), Some(b)) = (a, b) {
        match (gr::tree(a), gr::tree(b)) {
            (Some(a), Some(b)) => rt::check(a.same(&b), id + 1),
            _ => rt::check(false, id + 2),
        }
    }
}

// ---------------------------------------------------------------- P06

/// Parameters: template, mode, number of tokens, hash seeds.
#[no_mangle]
pub extern "C" fn h_p06() {
    hashing(rt::param(3));
    if rt::param(3) > 0 {
        gr::hash_bits(255, [255, 1, 0][rt::pick(3) as usize]);
    }
    let mut g = template(rt::param(0), rt::param(1));
    g.show();
    // One placeholder value for all terminals of a kind.
    let seeds = rt::param(3) > 0;
    let value = || {
        if seeds {
            // The real hash function needs definite values.
            rt::concrete(rt::below(2, 3)) as u16 * 341
        } else {
            rt::new(10) as u16
        }
    };
    g.values = (0..g.nt).map(|k| if seeds { k as u16 % 3 } else { value() }).collect();
    let c = gr::canon(&g);
    let p = gr::parser(&g);
    let mut tokens = input(rt::param(0), rt::param(2), &g);
    let mut values = Vec::new();
    let mut text = String::new();
    for k in &mut tokens {
        if seeds {
            *k = rt::concrete(*k as u64) as u8;
        }
        let v = value();
        values.push(v);
        text.push(gr::token_char(*k, v));
    }
    let got = parse(&p, &text);
    rt::note(got.is_some() as u64);
    rt::reach(if got.is_some() { 1 } else { 2 });
    rt::check(got.is_some() == derives(rt::param(0), &c, &tokens), 1);
    let Some(got) = got else { return };
    let Some(tree) = gr::tree(&got) else {
        rt::check(false, 2);
        return;
    };
    let mut leaves = Vec::new();
    tree.leaves(&mut leaves);
    rt::check(leaves.len() == tokens.len(), 3);
    let mut same = true;
    for (l, (k, v)) in leaves.iter().zip(tokens.iter().zip(&values)) {
        same &= (l.0 == *k) & (l.1 == *v);
    }
    rt::check(same, 4);
}

/// A terminal type whose variants do not decide what it matches.
#[derive(Clone, PartialEq, Eq)]
enum E {
    Number(u8, u16),
    Text(u8, String),
    Plain(u8),
}

impl E {
    fn new(form: u16, k: u8, v: u16) -> Self {
        match form % 3 {
            0 => E::Number(k, v),
            1 => E::Text(k, gr::token_char(0, v).into()),
            _ => E::Plain(k),
        }
    }
    fn parts(&self) -> (u8, u16) {
        match self {
            E::Number(k, v) => (*k, *v),
            E::Text(k, s) => (*k, gr::token_of(s).v),
            E::Plain(k) => (*k, 0),
        }
    }
}
impl std::hash::Hash for E {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl TerminalEq for E {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.parts().0 == other.parts().0
    }
}
impl TerminalHash for E {
    fn terminal_hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (k, v) = self.parts();
        gr::print(gr::Printed::T(k, v), f)
    }
}

/// Parameters: template, mode, number of tokens. Terminals of one kind come in
/// several variants of an enum, some of which own memory.
#[no_mangle]
pub extern "C" fn h_p06_variants() {
    rt::real_hash(false);
    let g = template(rt::param(0), rt::param(1));
    g.show();
    let c = gr::canon(&g);
    // One form for all terminals of the grammar or one that depends on the kind.
    let form = rt::pick(4) as u16;
    let mut b = Grammar::builder().with_start_variable(V(g.start));
    for (head, body) in &g.rules {
        let body = body.iter().map(|s| match s {
            S::T(k) => Symbol::Terminal(E::new(if form < 3 { form } else { *k as u16 }, *k, 5)),
            S::V(v) => Symbol::Variable(V(*v)),
            S::E => Symbol::Epsilon,
        });
        b = b.with_rule(V(*head), body.collect::<Vec<_>>());
    }
    rt::panic_ok(true);
    let p = Slr::new(b.build());
    rt::panic_ok(false);
    let tokens = input(rt::param(0), rt::param(2), &g);
    let forms: Vec<u16> = tokens.iter().map(|_| rt::pick(3) as u16).collect();
    // The value says which form the token gets.
    let text: String = tokens.iter().zip(&forms).map(|(k, f)| gr::token_char(*k, *f)).collect();
    let lexer = Lexer::builder().with_token_map(".", |s| {
        let t = gr::token_of(s);
        E::new(t.v, t.k, t.v)
    });
    let Ok(lexer) = lexer else {
        rt::assume(false);
        return;
    };
    let got = p.parse(lexer.tokenize(&text));
    rt::note(got.is_ok() as u64);
    rt::reach(if got.is_ok() { 1 } else { 2 });
    rt::check(got.is_ok() == derives(rt::param(0), &c, &tokens), 1);
    let Ok(got) = got else { return };
    drop(p);
    let Some(tree) = gr::tree(&format!("{got:?}")) else {
        rt::check(false, 2);
        return;
    };
    let mut leaves = Vec::new();
    tree.leaves(&mut leaves);
    rt::check(leaves.len() == tokens.len(), 3);
    let mut same = true;
    for (l, (k, f)) in leaves.iter().zip(tokens.iter().zip(&forms)) {
        same &= (l.0 == *k) & (l.1 == if *f < 2 { *f } else { 0 });
    }
    rt::check(same, 4);
}

/// A terminal without any contents.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct U;
impl TerminalEq for U {
    fn terminal_eq(&self, _: &Self) -> bool {
        true
    }
}
impl TerminalHash for U {
    fn terminal_hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

/// Parameters: template, mode, most tokens. All terminals are the same.
#[no_mangle]
pub extern "C" fn h_p06_unit() {
    rt::real_hash(false);
    let mut g = template(rt::param(0), rt::param(1));
    for (_, body) in &mut g.rules {
        for s in body {
            if let S::T(k) = s {
                *k = 0;
            }
        }
    }
    g.show();
    let c = gr::canon(&g);
    let mut b = Grammar::builder().with_start_variable(V(g.start));
    for (head, body) in &g.rules {
        let body = body.iter().map(|s| match s {
            S::T(_) => Symbol::Terminal(U),
            S::V(v) => Symbol::Variable(V(*v)),
            S::E => Symbol::Epsilon,
        });
        b = b.with_rule(V(*head), body.collect::<Vec<_>>());
    }
    rt::panic_ok(true);
    let p = Slr::new(b.build());
    rt::panic_ok(false);
    let n = rt::pick(rt::param(2) as u32 + 1) as usize;
    let Ok(lexer) = Lexer::builder().with_token_unit("a", U) else {
        rt::assume(false);
        return;
    };
    let got = p.parse(lexer.tokenize(&"a".repeat(n))).is_ok();
    rt::note(got as u64);
    rt::reach(if got { 1 } else { 2 });
    rt::check(got == c.derives(&vec![0; n]), 1);
}

// ---------------------------------------------------------------- P07

/// Parameters: template, mode, length of the text, lexer.
#[no_mangle]
pub extern "C" fn h_p07() {
    rt::real_hash(false);
    let (_, p) = accepted(rt::param(0), rt::param(1));
    // Token kinds up to 7 are tokens, 8 and above are characters no token matches.
    let mut chars: Vec<u8> = (0..rt::param(2)).map(|_| gr::any_below(16)).collect();
    let mut text = gr::text_of(&chars);
    if rt::param(3) == 3 && !chars.is_empty() {
        // any character at all among the tokens
        let at = rt::pick(chars.len() as u32) as usize;
        let c = rt::any_char();
        let k = (c as u32).wrapping_sub(0x10000);
        let ok = k < 8;
        text = chars.iter().enumerate().map(|(i, k)| if i == at { c } else { gr::token_char(*k, 0) }).collect();
        chars[at] = (k as u8 & 7) | (!ok as u8) << 3;
    }
    let mut bad = false;
    for k in &chars {
        bad |= *k > 7;
    }
    let builder = Lexer::builder();
    let lexer = match rt::param(3) {
        0 | 3 => builder.with_token_map("[\u{10000}-\u{10007}]", gr::token_of),
        // longer tokens that can fail half way
        1 => builder
            .with_token_map("[\u{10000}-\u{10007}]", gr::token_of)
            .and_then(|b| b.with_token_map("[\u{10000}-\u{10007}]\u{10008}\u{10008}", gr::token_of)),
        // one token per kind
        _ => (0..8u8).try_fold(builder, |b, k| b.with_token_unit(&gr::token_char(k, 0).to_string(), T { k, v: 0 })),
    };
    let Ok(lexer) = lexer else {
        rt::assume(false);
        return;
    };
    let got = p.parse(lexer.tokenize(&text)).is_ok();
    rt::note(got as u64);
    if rt::param(3) == 1 {
        // A kind followed by two 8s is one token.
        let mut i = 0;
        bad = false;
        while i < chars.len() && !bad {
            bad = chars[i] > 7;
            i += if i + 2 < chars.len() && chars[i + 1] == 8 && chars[i + 2] == 8 { 3 } else { 1 };
        }
    }
    if bad {
        rt::reach(2);
    } else {
        rt::reach(1);
    }
    rt::check(!(got & bad), 1);
}

// ---------------------------------------------------------------- P08

/// One state of the printed automaton: items as (head, body, dot).
struct Printout {
    id: u64,
    items: Vec<(u8, Vec<S>, usize)>,
}

/// Reads dot text; `None` if it cannot be understood.
fn read_dot(text: &str) -> Option<(Vec<Printout>, Vec<(u64, u64, S)>)> {
    let mut states = Vec::new();
    let mut moves = Vec::new();
    for line in text.lines() {
        let number = |s: &str| -> Option<u64> {
            let s = s.trim().trim_matches('"');
            let s = s.trim_start_matches(|c: char| !c.is_ascii_digit());
            let n: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
            n.parse().ok()
        };
        let Some(at) = line.find("label") else { continue };
        let (left, right) = line.split_at(at);
        let from = right.find('"')?;
        let to = right.rfind('"')?;
        if to <= from {
            return None;
        }
        let label = &right[from + 1..to];
        if let Some((a, b)) = left.split_once("->") {
            let mut symbols = symbols(label)?;
            if symbols.len() != 1 {
                return None;
            }
            moves.push((number(a)?, number(b)?, symbols.pop()?.0?));
        } else {
            let mut items = Vec::new();
            if !label.is_empty() {
                for item in label.split("\\n") {
                    let mut head = None;
                    let mut body = Vec::new();
                    let mut dot = None;
                    for (s, is_dot) in symbols(item)?.into_iter().map(|s| (s.0, s.0.is_none())) {
                        if is_dot {
                            if dot.is_some() {
                                return None;
                            }
                            dot = Some(body.len());
                        } else if head.is_none() {
                            match s {
                                Some(S::V(v)) => head = Some(v),
                                _ => return None,
                            }
                        } else if let Some(s) = s {
                            body.push(s);
                        }
                    }
                    items.push((head?, body, dot?));
                }
            }
            states.push(Printout { id: number(left)?, items });
        }
    }
    Some((states, moves))
}

/// The symbols and bullets (`None`) in a label.
#[allow(clippy::type_complexity)]
fn symbols(label: &str) -> Option<Vec<(Option<S>,)>> {
    let mut out = Vec::new();
    for c in label.chars() {
        if c == '\u{2022}' {
            out.push((None,));
        } else if let Some(p) = gr::printed(c) {
            out.push((Some(match p {
                Printed::V(v) => S::V(v),
                Printed::T(k, _) => S::T(k),
            }),));
        }
    }
    Some(out)
}

/// Parameters: template, mode, hash seeds.
#[no_mangle]
pub extern "C" fn h_p08() {
    hashing(rt::param(2));
    let g = template(rt::param(0), rt::param(1));
    g.show();
    let c = gr::canon(&g);
    let a = c.automaton(false);
    rt::note(a.states.len() as u64);
    rt::reach(if a.states.len() > 4 { 1 } else { 2 });
    let cfsm = Cfsm::from_grammar(g.build());
    let text = cfsm.to_dot();
    let Some((states, moves)) = read_dot(&text) else {
        rt::check(false, 1);
        return;
    };
    // Which canonical state is behind each printed one; item by item with the
    // canonical rules, all of which is concrete once the grammar is canonical.
    let mut to = Vec::new();
    for s in &states {
        let mut items = Vec::new();
        for (head, body, dot) in &s.items {
            let Some(r) = c.find(*head, body) else {
                rt::check(false, 2);
                return;
            };
            items.push((r, *dot));
        }
        let n = items.len();
        items.sort_unstable();
        items.dedup();
        rt::check(items.len() == n, 3);
        let Some(k) = a.states.iter().position(|x| *x == items) else {
            rt::check(false, 4);
            return;
        };
        rt::check(!to.iter().any(|(id, j)| *id == s.id || *j == k), 5);
        rt::check((s.id == 0) == (k == 0), 6);
        to.push((s.id, k));
    }
    rt::check(to.len() == a.states.len(), 7);
    let find = |id: u64| to.iter().find(|(i, _)| *i == id).map(|(_, k)| *k);
    let mut seen = Vec::new();
    for (from, dest, s) in &moves {
        let (Some(from), Some(dest)) = (find(*from), find(*dest)) else {
            rt::check(false, 8);
            return;
        };
        let Some(s) = c.symbol(*s) else {
            rt::check(false, 9);
            return;
        };
        rt::check(a.moves[from].contains(&(s, dest)), 10);
        rt::check(!seen.contains(&(from, dest, s)), 11);
        seen.push((from, dest, s));
    }
    rt::check(seen.len() == a.moves.iter().map(|m| m.len()).sum::<usize>(), 12);
}

// ---------------------------------------------------------------- P09

/// The rules in another order, some of them twice.
fn shuffled(g: &Spec, all: bool, twice: bool) -> Spec {
    let mut left = g.rules.clone();
    let mut rules = Vec::new();
    if all {
        while !left.is_empty() {
            let i = if left.len() == 1 { 0 } else { rt::pick(left.len() as u32) };
            rules.push(left.remove(i as usize));
        }
    } else {
        // rotated, possibly backwards
        let by = rt::pick(left.len() as u32) as usize;
        left.rotate_left(by);
        if rt::pick(2) == 1 {
            left.reverse();
        }
        rules = left;
    }
    if twice {
        let i = rt::pick(rules.len() as u32) as usize;
        let r = rules[i].clone();
        let at = rt::pick(2) as usize * rules.len();
        rules.insert(at, r);
    }
    Spec { rules, ..g.clone() }
}

/// Parameters: template, mode, number of tokens, hash seeds, orders (1 for all
/// of them, plus 2 for a repeated rule).
#[no_mangle]
pub extern "C" fn h_p09() {
    rt::real_hash(false);
    let g = template(rt::param(0), rt::param(1));
    g.show();
    if rt::param(3) > 0 {
        rt::real_hash(true);
        rt::hash_seed(1);
        gr::hash_bits(255, 0);
    }
    // If there is a parser for one of them, there is one for the other.
    let turned = rt::pick(2) == 1;
    let mut first = None;
    if !turned {
        first = Some(gr::parser(&g));
    }
    let h = shuffled(&g, rt::param(4) & 1 == 1, rt::param(4) & 2 == 2);
    let first = first.unwrap_or_else(|| gr::parser(&h));
    if rt::param(3) > 0 {
        let s = rt::pick(rt::param(3) as u32) as u64;
        rt::hash_seed(s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(7));
    }
    let second = Slr::new(if turned { &g } else { &h }.build());
    if turned {
        rt::reach(2);
        return;
    }
    rt::reach(1);
    let tokens = input(rt::param(0), rt::param(2), &g);
    let a = parse_tokens(&first, &tokens);
    let b = parse_tokens(&second, &tokens);
    rt::note(a.is_some() as u64);
    same_result(&a, &b, 10);
}

// ---------------------------------------------------------------- P10

/// Parameters: template, mode, number of tokens, number of epsilons.
#[no_mangle]
pub extern "C" fn h_p10() {
    rt::real_hash(false);
    let g = template(rt::param(0), rt::param(1));
    // If there is a parser for one of them, there is one for the other.
    let turned = rt::pick(2) == 1;
    let mut first = None;
    if !turned {
        first = Some(gr::parser(&g));
    }
    let mut e = g.clone();
    // Several single epsilons, or a row of them (ten times its length).
    let (places, row) = if rt::param(3) < 10 { (rt::param(3), 1) } else { (1, rt::param(3) / 10) };
    for _ in 0..places {
        let r = rt::pick(e.rules.len() as u32) as usize;
        let body = &mut e.rules[r].1;
        let at = rt::pick(body.len() as u32 + 1) as usize;
        for _ in 0..row {
            body.insert(at, S::E);
        }
    }
    e.show();
    let first = first.unwrap_or_else(|| gr::parser(&e));
    let second = Slr::new(if turned { &g } else { &e }.build());
    if turned {
        rt::reach(2);
        return;
    }
    rt::reach(1);
    let tokens = input(rt::param(0), rt::param(2), &g);
    let a = parse_tokens(&first, &tokens);
    let b = parse_tokens(&second, &tokens);
    rt::note(a.is_some() as u64);
    rt::check(a.is_some() == b.is_some(), 10);
    let (Some(a), Some(b)) = (a, b) else { return };
    let (Some(a), Some(b)) = (gr::tree(&a), gr::tree(&b)) else {
        rt::check(false, 11);
        return;
    };
    let (mut x, mut y) = (Vec::new(), Vec::new());
    a.leaves(&mut x);
    b.leaves(&mut y);
    rt::check(x.len() == y.len(), 12);
    let mut same = true;
    for (l, m) in x.iter().zip(&y) {
        same &= l.0 == m.0;
    }
    rt::check(same, 13);
}

// ---------------------------------------------------------------- P11

/// A terminal that owns memory.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Owner {
    k: u8,
    text: Box<[u8]>,
}
impl Owner {
    fn new(k: u8) -> Self {
        Owner { k, text: vec![k; 3].into() }
    }
}
impl Debug for Owner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_char((b'a' + self.text[2]) as char)
    }
}
impl TerminalEq for Owner {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.text[0] == other.text[0]
    }
}
impl TerminalHash for Owner {
    fn terminal_hash<H: std::hash::Hasher>(&self, state: &mut H) {
        std::hash::Hash::hash(&self.text[1], state)
    }
}

fn owning(g: &Spec) -> Grammar<V, Owner> {
    let mut b = Grammar::builder().with_start_variable(V(g.start));
    for (head, body) in &g.rules {
        let body: Vec<Symbol<V, Owner>> = body
            .iter()
            .map(|s| match s {
                S::T(k) => Symbol::Terminal(Owner::new(*k)),
                S::V(v) => Symbol::Variable(V(*v)),
                S::E => Symbol::Epsilon,
            })
            .collect();
        b = b.with_rule(V(*head), body);
    }
    b.build()
}
fn owning_lexer(text: &str) -> Lexer<'_, Owner> {
    match Lexer::builder().with_token_map(".", |s| Owner::new(gr::token_of(s).k)) {
        Ok(b) => b.tokenize(text),
        Err(_) => {
            rt::assume(false);
            unreachable!()
        }
    }
}

enum Thing {
    Parser(Slr<V, Owner>),
    Boxed(Box<Slr<V, Owner>>),
    Automaton(std::pin::Pin<Box<Cfsm<V, Owner>>>),
}

/// Parameters: template, mode, number of operations, number of tokens.
/// Every access is checked by whoever runs this.
#[no_mangle]
pub extern "C" fn h_p11() {
    rt::real_hash(false);
    let g = template(rt::param(0), rt::param(1));
    g.show();
    let c = gr::canon(&g);
    let ok = c.is_slr();
    let mut things: Vec<Thing> = Vec::new();
    let mut trees: Vec<Box<dyn Debug>> = Vec::new();
    for _ in 0..rt::param(2) {
        match rt::pick(6) {
            0 => {
                let a = Cfsm::from_grammar(owning(&g));
                things.push(Thing::Automaton(a));
            }
            1 => {
                // A failed creation drops everything as well, but ends the run.
                if ok {
                    things.insert(0, Thing::Parser(Slr::new(owning(&g))));
                }
            }
            2 => {
                things.reverse();
                if let Some(t) = things.pop() {
                    let t = match t {
                        Thing::Parser(p) => Thing::Boxed(Box::new(p)),
                        Thing::Boxed(p) => Thing::Parser(*p),
                        t => t,
                    };
                    things.push(t);
                }
            }
            3 => {
                if !things.is_empty() {
                    let t = things.swap_remove(0);
                    drop(t);
                    rt::reach(2);
                }
            }
            4 => {
                let moved = std::mem::take(&mut things);
                things = moved.into_iter().rev().collect();
                if let Some(t) = things.last() {
                    let n = match t {
                        Thing::Parser(p) => format!("{p:?}").len(),
                        Thing::Boxed(p) => format!("{p:?}").len(),
                        Thing::Automaton(a) => a.to_dot().len() + format!("{a:?}").len(),
                    };
                    rt::check(n > 0, 1);
                }
            }
            _ => {
                let tokens = gr::tokens(rt::param(3), g.nt);
                let text = gr::text_of(&tokens);
                for t in &things {
                    let p = match t {
                        Thing::Parser(p) => p,
                        Thing::Boxed(p) => p,
                        Thing::Automaton(_) => continue,
                    };
                    let tree = p.parse(owning_lexer(&text));
                    rt::check(tree.is_ok() == derives(rt::param(0), &c, &tokens), 2);
                    if let Ok(tree) = tree {
                        rt::reach(1);
                        rt::check(!format!("{tree:?}").is_empty(), 3);
                        trees.push(Box::new(tree));
                    }
                }
            }
        }
    }
    // Trees outlive the parsers they come from.
    drop(things);
    for tree in trees {
        rt::check(!format!("{tree:?}").is_empty(), 4);
    }
}

// ---------------------------------------------------------------- P12

fn plain(rule: &(u8, Vec<S>)) -> (u8, Vec<S>) {
    (rule.0, rule.1.iter().filter(|s| !matches!(s, S::E)).copied().collect())
}

/// Parameters: variables, terminals, calls, body length. Each call adds a rule
/// whose symbols may be epsilons, in one of the forms, or sets the start variable.
#[no_mangle]
pub extern "C" fn h_p12() {
    rt::real_hash(false);
    let (nv, nt, len) = (rt::param(0) as u8, rt::param(1) as u8, rt::param(3) as u32);
    let mut b = Grammar::builder();
    let mut list: Vec<(u8, Vec<S>)> = Vec::new();
    for _ in 0..rt::param(2) {
        let how = rt::pick(4);
        if how == 3 {
            b.set_start_variable(V(gr::any_below(nv)));
            continue;
        }
        let head = gr::any_below(nv);
        let n = rt::pick(len + 1);
        let body: Vec<S> = (0..n).map(|_| if rt::pick(2) == 0 { S::E } else { gr::any_symbol(nv, nt) }).collect();
        // An empty body is one epsilon.
        let rule = (head, if body.is_empty() { vec![S::E] } else { body.clone() });
        let real = body.iter().map(|s| s.real(&[])).collect::<Vec<_>>();
        match how {
            0 => {
                // Bodies that differ in epsilons only may count as the same or not.
                let known = list.iter().fold(false, |a, r| a | gr::same_rule(r, &rule));
                let alike = list.iter().fold(false, |a, r| a | gr::same_rule(&plain(r), &plain(&rule)));
                let new = b.add_rule(V(head), real);
                rt::note(new as u64);
                rt::reach(if new { 1 } else { 2 });
                rt::check(!(new & known), 1);
                rt::check(new | alike, 2);
            }
            1 => b = b.with_rule(V(head), real),
            _ => b.add_rules(V(head), [real]),
        }
        list.push(rule);
    }
}

/// Parameters: number of rules. Many different rules, then any of them again.
#[no_mangle]
pub extern "C" fn h_p12_large() {
    rt::real_hash(false);
    let n = rt::param(0) as u8;
    let rule = |i: u8| (i / 8, vec![S::T(i % 8), S::V(i / 16), S::E, S::T(i)]);
    let mut b = Grammar::builder();
    let real = |r: &(u8, Vec<S>)| r.1.iter().map(|s| s.real(&[])).collect::<Vec<_>>();
    for i in 0..n {
        let r = rule(i);
        rt::check(b.add_rule(V(r.0), real(&r)), 1);
    }
    let at = [0, 1, n / 2, n - 1][rt::pick(4) as usize];
    let mut r = rule(at);
    let place = rt::pick(4) as usize;
    let k = gr::any_below(n);
    match place {
        0 => r.1[0] = S::T(k),
        1 => r.1[1] = S::V(k),
        2 => r.1[3] = S::T(k),
        _ => r.0 = k,
    }
    let known = (0..n).fold(false, |a, i| a | gr::same_rule(&rule(i), &r));
    let new = b.add_rule(V(r.0), real(&r));
    rt::note(new as u64);
    rt::reach(if new { 1 } else { 2 });
    rt::check(new != known, 2);
    rt::check(!b.add_rule(V(r.0), real(&r)), 3);
}

/// Parameters: template, mode, number of tokens. A copy of a grammar is taken
/// directly, by way of another copy, from an automaton or after use, and has to
/// give the same parser.
#[no_mangle]
pub extern "C" fn h_p12_copy() {
    rt::real_hash(false);
    let g = template(rt::param(0), rt::param(1));
    g.show();
    let built = g.build();
    let copy = match rt::pick(4) {
        0 => built.clone(),
        1 => {
            let first = built.clone();
            let second = first.clone();
            drop(first);
            second
        }
        2 => {
            let automaton = Cfsm::from_grammar(built.clone());
            let copy = automaton.as_ref().get_grammar().clone();
            let lines = |c: &Cfsm<V, T>| c.to_dot().lines().count();
            rt::check(lines(&automaton) == lines(&Cfsm::from_grammar(copy.clone())), 5);
            copy
        }
        _ => {
            let mut copy = Grammar::builder().with_rule(V(0), [S::T(0).real(&[])]).with_start_variable(V(0)).build();
            copy.clone_from(&built);
            copy
        }
    };
    let turned = rt::pick(2) == 1;
    let (a, b) = if turned { (copy, built) } else { (built, copy) };
    rt::panic_ok(true);
    let first = Slr::new(a);
    rt::panic_ok(false);
    let second = Slr::new(b);
    if turned {
        rt::reach(2);
        return;
    }
    rt::reach(1);
    let tokens = input(rt::param(0), rt::param(2), &g);
    let x = parse_tokens(&first, &tokens);
    drop(first);
    let y = parse_tokens(&second, &tokens);
    rt::note(x.is_some() as u64);
    same_result(&x, &y, 10);
}
