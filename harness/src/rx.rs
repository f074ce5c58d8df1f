//! Reference semantics of token patterns, written from the documentation only.
//!
//! The matcher works on bit masks of positions and avoids branching, so on
//! symbolic characters and counts it yields one formula instead of a case split.

pub const INF: u64 = u64::MAX;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Cls {
    Any,
    Word,
    NotWord,
    Digit,
    NotDigit,
    Space,
    NotSpace,
}

#[derive(Clone, Copy)]
pub enum Item {
    One(u32),
    Range(u32, u32),
    Class(Cls),
}

#[derive(Clone)]
pub enum Node {
    Empty,
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Set { neg: bool, items: Vec<Item> },
    Rep(Box<Node>, u64, u64),
}

enum El {
    Char(u32),
    Class(Cls),
    Quant(u64, u64),
    Op(u8),
    Bad,
}

/// Why a pattern is rejected: where the first element starts that fits no
/// valid pattern, or that the pattern ends too early.
#[derive(Clone, Copy)]
pub enum Fail {
    At(usize),
    Early,
}

fn is(c: u32, x: char) -> bool {
    c == x as u32
}

fn hex(c: u32) -> Option<u32> {
    if c >= '0' as u32 && c <= '9' as u32 {
        Some(c - '0' as u32)
    } else if c >= 'a' as u32 && c <= 'f' as u32 {
        Some(c - 'a' as u32 + 10)
    } else if c >= 'A' as u32 && c <= 'F' as u32 {
        Some(c - 'A' as u32 + 10)
    } else {
        None
    }
}

fn scalar(v: u32) -> bool {
    v < 0xD800 || (v > 0xDFFF && v < 0x110000)
}

/// Decimal number at `i`: end position and value, which is `None` beyond 32 bits.
fn number(p: &[u32], mut i: usize) -> Option<(usize, Option<u64>)> {
    let start = i;
    let mut v = 0u64;
    let mut fits = true;
    while i < p.len() && p[i] >= '0' as u32 && p[i] <= '9' as u32 {
        if fits {
            v = v * 10 + (p[i] - '0' as u32) as u64;
            if v > u32::MAX as u64 {
                fits = false;
            }
        }
        i += 1;
    }
    if i == start {
        None
    } else {
        Some((i, if fits { Some(v) } else { None }))
    }
}

fn counted(p: &[u32], i: usize) -> Option<(El, usize)> {
    let (mut i, lo) = number(p, i)?;
    if i >= p.len() {
        return None;
    }
    if is(p[i], '}') {
        let lo = lo?;
        return Some((El::Quant(lo, lo), i + 1));
    }
    if !is(p[i], ',') {
        return None;
    }
    i += 1;
    if i >= p.len() {
        return None;
    }
    if is(p[i], '}') {
        return Some((El::Quant(lo?, INF), i + 1));
    }
    let (i, hi) = number(p, i)?;
    if i >= p.len() || !is(p[i], '}') {
        return None;
    }
    Some((El::Quant(lo?, hi?), i + 1))
}

fn hexes(p: &[u32], i: usize, max: usize) -> (usize, u32) {
    let mut k = 0;
    let mut v = 0;
    while k < max && i + k < p.len() {
        match hex(p[i + k]) {
            Some(d) => v = v * 16 + d,
            None => break,
        }
        k += 1;
    }
    (k, v)
}

fn escape(p: &[u32], i: usize) -> Option<(El, usize)> {
    if i >= p.len() {
        return None;
    }
    let c = p[i];
    const CLASSES: [(char, Cls); 6] = [
        ('w', Cls::Word),
        ('W', Cls::NotWord),
        ('d', Cls::Digit),
        ('D', Cls::NotDigit),
        ('s', Cls::Space),
        ('S', Cls::NotSpace),
    ];
    for (x, k) in CLASSES {
        if is(c, x) {
            return Some((El::Class(k), i + 1));
        }
    }
    const NAMED: [(char, u32); 6] = [('f', 12), ('n', 10), ('r', 13), ('t', 9), ('v', 11), ('0', 0)];
    for (x, v) in NAMED {
        if is(c, x) {
            return Some((El::Char(v), i + 1));
        }
    }
    for x in "^$\\.*+?()[]|/{}-".chars() {
        if is(c, x) {
            return Some((El::Char(x as u32), i + 1));
        }
    }
    if is(c, 'c') {
        if i + 1 >= p.len() {
            return None;
        }
        let l = p[i + 1];
        let v = if l >= 'a' as u32 && l <= 'z' as u32 {
            l - 'a' as u32 + 1
        } else if l >= 'A' as u32 && l <= 'Z' as u32 {
            l - 'A' as u32 + 1
        } else {
            return None;
        };
        return Some((El::Char(v), i + 2));
    }
    if is(c, 'x') {
        let (k, v) = hexes(p, i + 1, 2);
        return if k == 2 { Some((El::Char(v), i + 3)) } else { None };
    }
    if is(c, 'u') {
        if i + 1 < p.len() && is(p[i + 1], '{') {
            let (k, v) = hexes(p, i + 2, 5);
            let e = i + 2 + k;
            if k < 4 || e >= p.len() || !is(p[e], '}') || !scalar(v) {
                return None;
            }
            return Some((El::Char(v), e + 1));
        }
        let (k, v) = hexes(p, i + 1, 4);
        return if k == 4 && scalar(v) {
            Some((El::Char(v), i + 5))
        } else {
            None
        };
    }
    None
}

/// Pattern element starting at `i` and the position after it.
fn element(p: &[u32], i: usize) -> (El, usize) {
    let c = p[i];
    if is(c, '\\') {
        return escape(p, i + 1).unwrap_or((El::Bad, i + 1));
    }
    if is(c, '{') {
        return counted(p, i + 1).unwrap_or((El::Bad, i + 1));
    }
    let e = if is(c, '.') {
        El::Class(Cls::Any)
    } else if is(c, '*') {
        El::Quant(0, INF)
    } else if is(c, '+') {
        El::Quant(1, INF)
    } else if is(c, '?') {
        El::Quant(0, 1)
    } else if is(c, '[') || is(c, ']') || is(c, '(') || is(c, ')') || is(c, '^') || is(c, '|') || is(c, '-') {
        for x in "[]()^|-".chars() {
            if is(c, x) {
                return (El::Op(x as u8), i + 1);
            }
        }
        El::Bad
    } else {
        El::Char(c)
    };
    (e, i + 1)
}

struct Rd<'a> {
    p: &'a [u32],
    i: usize,
}

impl Rd<'_> {
    /// Whether the element at the current position is the operator `x`.
    fn at(&self, x: u8) -> bool {
        self.i < self.p.len() && self.p[self.i] == x as u32
    }

    fn here(&self) -> Fail {
        if self.i < self.p.len() {
            Fail::At(self.i)
        } else {
            Fail::Early
        }
    }

    fn alternatives(&mut self) -> Result<Node, Fail> {
        let mut alts = vec![self.sequence()?];
        while self.at(b'|') {
            self.i += 1;
            alts.push(self.sequence()?);
        }
        Ok(if alts.len() == 1 { alts.remove(0) } else { Node::Alt(alts) })
    }

    fn sequence(&mut self) -> Result<Node, Fail> {
        let mut parts = Vec::new();
        while self.i < self.p.len() && !self.at(b'|') && !self.at(b')') {
            let atom = self.atom()?;
            parts.push(self.quantified(atom));
        }
        match parts.len() {
            0 => Err(self.here()),
            1 => Ok(parts.remove(0)),
            _ => Ok(Node::Cat(parts)),
        }
    }

    fn quantified(&mut self, n: Node) -> Node {
        if self.i < self.p.len() {
            if let (El::Quant(lo, hi), e) = element(self.p, self.i) {
                self.i = e;
                return Node::Rep(Box::new(n), lo, hi);
            }
        }
        n
    }

    fn atom(&mut self) -> Result<Node, Fail> {
        let at = self.i;
        let (e, next) = element(self.p, at);
        match e {
            El::Char(c) => {
                self.i = next;
                Ok(Node::Set { neg: false, items: vec![Item::One(c)] })
            }
            El::Class(c) => {
                self.i = next;
                Ok(Node::Set { neg: false, items: vec![Item::Class(c)] })
            }
            El::Op(b'(') => {
                self.i = next;
                let n = self.alternatives()?;
                if !self.at(b')') {
                    return Err(self.here());
                }
                self.i += 1;
                Ok(n)
            }
            El::Op(b'[') => {
                self.i = next;
                self.set()
            }
            _ => Err(Fail::At(at)),
        }
    }

    fn set(&mut self) -> Result<Node, Fail> {
        let neg = self.at(b'^');
        if neg {
            self.i += 1;
        }
        let mut items = Vec::new();
        loop {
            if self.i >= self.p.len() {
                return Err(Fail::Early);
            }
            if self.at(b']') {
                self.i += 1;
                return Ok(Node::Set { neg, items });
            }
            let at = self.i;
            match element(self.p, at) {
                (El::Class(c), e) => {
                    self.i = e;
                    items.push(Item::Class(c));
                }
                (El::Char(a), e) => {
                    self.i = e;
                    if !self.at(b'-') {
                        items.push(Item::One(a));
                        continue;
                    }
                    self.i += 1;
                    if self.i >= self.p.len() {
                        return Err(Fail::Early);
                    }
                    match element(self.p, self.i) {
                        (El::Char(b), e) => {
                            self.i = e;
                            items.push(Item::Range(a, b));
                        }
                        _ => return Err(Fail::At(self.i)),
                    }
                }
                _ => return Err(Fail::At(at)),
            }
        }
    }
}

pub fn parse(p: &[u32]) -> Result<Node, Fail> {
    if p.is_empty() {
        return Ok(Node::Empty);
    }
    let mut r = Rd { p, i: 0 };
    let n = r.alternatives()?;
    if r.i < p.len() {
        return Err(Fail::At(r.i));
    }
    Ok(n)
}

fn class(c: Cls, x: u32) -> bool {
    // SAFETY: all characters come from the harness and are scalar values.
    let ch = unsafe { char::from_u32_unchecked(x) };
    match c {
        Cls::Any => true,
        Cls::Word => ch.is_alphabetic(),
        Cls::NotWord => !ch.is_alphabetic(),
        Cls::Digit => (x >= '0' as u32) & (x <= '9' as u32),
        Cls::NotDigit => (x < '0' as u32) | (x > '9' as u32),
        Cls::Space => ch.is_whitespace(),
        Cls::NotSpace => !ch.is_whitespace(),
    }
}

fn member(neg: bool, items: &[Item], x: u32) -> bool {
    let mut r = false;
    for i in items {
        r |= match *i {
            Item::One(c) => c == x,
            Item::Range(a, b) => (a <= x) & (x <= b),
            Item::Class(c) => class(c, x),
        };
    }
    r ^ neg
}

fn all_if(c: bool) -> u32 {
    0u32.wrapping_sub(c as u32)
}

/// Positions where a match of `n` can end that starts at one of `from`.
pub fn ends(n: &Node, from: u32, s: &[u32]) -> u32 {
    match n {
        Node::Empty => from,
        Node::Cat(v) => {
            let mut m = from;
            for k in v {
                m = ends(k, m, s);
            }
            m
        }
        Node::Alt(v) => {
            let mut m = 0;
            for k in v {
                m |= ends(k, from, s);
            }
            m
        }
        Node::Set { neg, items } => {
            let mut m = 0;
            for (i, x) in s.iter().enumerate() {
                m |= ((from >> i) & 1 & member(*neg, items, *x) as u32) << (i + 1);
            }
            m
        }
        Node::Rep(b, lo, hi) => {
            let (lo, hi) = (*lo, *hi);
            let mut cur = from;
            let mut m = 0;
            for k in 0..=s.len() as u64 {
                m |= cur & all_if((lo <= k) & (k <= hi));
                cur = ends(b, cur, s);
            }
            // From here on further iterations change nothing: either every
            // iteration takes a character and none is left, or the body can be
            // empty and the set has stopped growing.
            m | cur & all_if((lo <= hi) & (hi > s.len() as u64))
        }
    }
}

/// The same for texts with few symbolic characters: positions are listed and
/// every test of a character splits the path.
pub fn ends_long(n: &Node, from: &[usize], s: &[u32]) -> Vec<usize> {
    match n {
        Node::Empty => from.to_vec(),
        Node::Cat(v) => {
            let mut m = from.to_vec();
            for k in v {
                if m.is_empty() {
                    break;
                }
                m = ends_long(k, &m, s);
            }
            m
        }
        Node::Alt(v) => {
            let mut m = Vec::new();
            for k in v {
                m = union(&m, &ends_long(k, from, s));
            }
            m
        }
        Node::Set { neg, items } => {
            let mut m = Vec::new();
            for &i in from {
                if i < s.len() && member(*neg, items, s[i]) {
                    m.push(i + 1);
                }
            }
            m
        }
        Node::Rep(b, lo, hi) => {
            let mut cur = from.to_vec();
            let mut m = Vec::new();
            let mut k = 0;
            while k <= *hi && !cur.is_empty() {
                if k >= *lo {
                    if m.last() < cur.first() {
                        m.extend(&cur);
                    } else {
                        m = union(&m, &cur);
                    }
                }
                let next = ends_long(b, &cur, s);
                if next == cur {
                    // The body can be empty and nothing new is reached.
                    if lo <= hi {
                        m = union(&m, &cur);
                    }
                    break;
                }
                cur = next;
                k += 1;
            }
            m
        }
    }
}

/// Union of two ascending lists.
fn union(a: &[usize], b: &[usize]) -> Vec<usize> {
    let mut m = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i] <= b[j]) {
            if j < b.len() && a[i] == b[j] {
                j += 1;
            }
            m.push(a[i]);
            i += 1;
        } else {
            m.push(b[j]);
            j += 1;
        }
    }
    m
}
