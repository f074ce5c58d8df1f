//! Summaries of the Unicode tables of the standard library. A look-up with a
//! symbolic character becomes a decision diagram over the bits of the character
//! that was computed from the same tables (the engine and the code under test
//! are built by the same toolchain) for all scalar values.
use crate::expr::{self, Ex};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

pub type Class = (&'static str, fn(char) -> bool);

pub const CLASSES: [Class; 5] = [
    ("10alphabetic", char::is_alphabetic),
    ("11white_space", char::is_whitespace),
    ("1n", char::is_numeric),
    ("9lowercase", char::is_lowercase),
    ("9uppercase", char::is_uppercase),
];

pub fn class_of(name: &str) -> Option<u8> {
    let rest = name.split("12unicode_data").nth(1)?;
    CLASSES.iter().position(|(m, _)| {
        rest.strip_prefix(m).is_some_and(|r| r.starts_with("6lookup") || r.starts_with("11lookup_slow"))
    }).map(|k| k as u8)
}

pub fn concrete(k: u8, c: u64) -> bool {
    char::from_u32(c as u32).is_some_and(CLASSES[k as usize].1)
}

const BITS: u32 = 21;

/// Nodes (bit, low, high); 0 and 1 are the constants.
struct Diagram {
    nodes: Vec<(u32, u32, u32)>,
    root: u32,
}

fn diagram(k: u8) -> &'static Diagram {
    static D: [OnceLock<Diagram>; CLASSES.len()] = [const { OnceLock::new() }; CLASSES.len()];
    D[k as usize].get_or_init(|| {
        let mut level: Vec<u32> = (0..1u64 << BITS).map(|c| concrete(k, c) as u32).collect();
        let mut nodes = vec![(0, 0, 0), (0, 0, 0)];
        for bit in 0..BITS {
            let mut seen = HashMap::new();
            level = level
                .chunks(2)
                .map(|p| {
                    if p[0] == p[1] {
                        return p[0];
                    }
                    *seen.entry((p[0], p[1])).or_insert_with(|| {
                        nodes.push((bit, p[0], p[1]));
                        nodes.len() as u32 - 1
                    })
                })
                .collect();
        }
        Diagram { nodes, root: level[0] }
    })
}

thread_local! {
    static CACHE: RefCell<HashMap<(u8, u128), Ex>> = RefCell::new(HashMap::new());
}

/// Membership of the character `x` (32 bits wide) in class `k`.
pub fn member(k: u8, x: &Ex) -> Ex {
    if let Some(e) = CACHE.with(|c| c.borrow().get(&(k, x.hash)).cloned()) {
        return e;
    }
    let d = diagram(k);
    let bits: Vec<Ex> = (0..BITS).map(|b| expr::extract(x, b, 1)).collect();
    let mut ex: Vec<Ex> = vec![expr::cst(1, 0), expr::cst(1, 1)];
    for &(bit, lo, hi) in &d.nodes[2..] {
        ex.push(expr::ite(&bits[bit as usize], &ex[hi as usize].clone(), &ex[lo as usize].clone()));
    }
    let e = ex[d.root as usize].clone();
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 1000 {
            c.clear();
        }
        c.insert((k, x.hash), e.clone());
    });
    e
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn diagrams_agree_with_the_tables() {
        for k in 0..CLASSES.len() as u8 {
            let d = diagram(k);
            for c in 0..=0x10FFFFu64 {
                let mut n = d.root;
                while n > 1 {
                    let (b, lo, hi) = d.nodes[n as usize];
                    n = if (c >> b) & 1 == 1 { hi } else { lo };
                }
                assert_eq!(n == 1, concrete(k, c), "{k} {c:x}");
            }
        }
    }
}
