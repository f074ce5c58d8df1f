//! Harnesses for the lexer properties L01 to L10.
use crate::{
    rt,
    rx::{self, Fail, Node},
};
use pango_lexer::Lexer;

/// Text built in parallel as a string and as a list of code points.
#[derive(Default, Clone)]
pub struct Text {
    pub s: String,
    pub c: Vec<u32>,
}

impl Text {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn push(&mut self, c: char) {
        self.s.push(c);
        self.c.push(c as u32);
    }
    pub fn str(&mut self, s: &str) {
        for c in s.chars() {
            self.push(c);
        }
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
}

/// Which characters a symbolic letter ranges over: lower-case letters, also 256
/// four-byte characters, or all of Unicode.
pub const NARROW: usize = 0;
pub const WIDE: usize = 1;
pub const ANY: usize = 2;

pub fn letter(range: usize) -> char {
    if range == ANY {
        return rt::any_char();
    }
    let v = rt::new(21) as u32;
    let small = (v >= 'a' as u32) & (v <= 'z' as u32);
    if range == WIDE {
        rt::assume(small | ((v >= 0x1F300) & (v <= 0x1F3FF)));
    } else {
        rt::assume(small);
    }
    // SAFETY: both ranges consist of scalar values.
    unsafe { char::from_u32_unchecked(v) }
}

fn digit(n: u64) -> char {
    let v = rt::new(8) as u32;
    rt::assume((v >= 48) & (v < 48 + n as u32));
    // SAFETY: an ASCII digit.
    unsafe { char::from_u32_unchecked(v) }
}

/// Instantiates a pattern template. `L` is a symbolic letter, `Q` any
/// quantifier with symbolic one-digit bounds below `digits`, `S` any of the
/// quantifiers written with one sign, `C` any counted quantifier and `X` any
/// sign out of a small pattern alphabet.
fn template(t: &str, digits: u64, range: usize) -> Text {
    let mut p = Text::new();
    for c in t.chars() {
        match c {
            'L' => p.push(letter(range.min(WIDE))),
            'Q' => {
                let k = rt::pick(7);
                quantifier(&mut p, k, digits)
            }
            'S' => {
                let k = rt::pick(4);
                quantifier(&mut p, k, digits)
            }
            'C' => {
                let k = 4 + rt::pick(3);
                quantifier(&mut p, k, digits)
            }
            'X' => p.push(rt::char_of(&['a', 'b', '*', '+', '?', '|', '(', ')'])),
            c => p.push(c),
        }
    }
    p
}

fn quantifier(p: &mut Text, k: u32, digits: u64) {
    match k {
        0 => (),
        1 => p.push('*'),
        2 => p.push('+'),
        3 => p.push('?'),
        _ => {
            p.push('{');
            p.push(digit(digits));
            if k > 4 {
                p.push(',');
            }
            if k > 5 {
                p.push(digit(digits));
            }
            p.push('}');
        }
    }
}

fn input(n: usize, range: usize) -> Text {
    let mut t = Text::new();
    for _ in 0..n {
        t.push(letter(range));
    }
    t
}

fn any_text(n: usize) -> Text {
    let mut t = Text::new();
    for _ in 0..n {
        t.push(rt::any_char());
    }
    t
}

/// Chooses between the constant hash and real hashing with several seeds.
pub fn hashing(param: u32) {
    let seeds = rt::param(param);
    rt::real_hash(seeds > 0);
    if seeds > 0 {
        let k = rt::pick(seeds as u32);
        rt::hash_seed(k as u64 + 1);
    }
}

// ---------------------------------------------------------------- L01, L05

fn accepts_exactly(p: &Text) {
    rt::show(&p.s);
    let got = Lexer::builder().with_token_unit(&p.s, 1u32).is_ok();
    let want = rx::parse(&p.c).is_ok();
    rt::reach(if want { 1 } else { 2 });
    rt::note(got as u64);
    rt::check(got == want, 1);
}

fn points_at_offender(p: &Text) {
    rt::show(&p.s);
    let shown = match Lexer::builder().with_token_unit(&p.s, 1u32) {
        Ok(_) => return,
        Err(e) => format!("{}", e),
    };
    let (start, end) = span(&shown);
    rt::note(start as u64);
    rt::note(end as u64);
    rt::check(start < end, 1);
    rt::check(end <= p.len(), 2);
    match rx::parse(&p.c) {
        // Whether the pattern should have been accepted is another property.
        Ok(_) => (),
        Err(Fail::At(i)) => {
            rt::reach(1);
            rt::check(start == i, 3);
        }
        Err(Fail::Early) => {
            rt::reach(2);
            rt::check((start + 1 == p.len()) & (end == p.len()), 4);
        }
    }
}

/// The first two numbers in the text.
fn span(t: &str) -> (usize, usize) {
    let mut v = [0usize; 2];
    let mut k = 0;
    let mut inside = false;
    for b in t.bytes() {
        if b.is_ascii_digit() {
            v[k] = v[k] * 10 + (b - b'0') as usize;
            inside = true;
        } else if inside {
            inside = false;
            k += 1;
            if k == 2 {
                return (v[0], v[1]);
            }
        }
    }
    rt::check(false, 9);
    (0, 0)
}

/// Decimal numbers around the places where 32 bits overflow: a fixed beginning
/// and up to `n` symbolic digits.
fn number(p: &mut Text, n: u32) {
    const BEGIN: [&str; 6] = ["", "429496", "4294967", "42949672", "00000000", "99999999"];
    let b = rt::pick(BEGIN.len() as u32);
    p.str(BEGIN[b as usize]);
    let k = 1 + rt::pick(n);
    for _ in 0..k {
        p.push(digit(10));
    }
}

/// `a{…}` in its three forms, optionally followed by an arbitrary character.
fn counted_shape(n: u32) -> Text {
    let mut p = Text::new();
    p.str("a{");
    let form = rt::pick(4);
    if form == 3 {
        p.push(digit(10));
    } else {
        number(&mut p, n);
    }
    if form > 0 {
        p.push(',');
    }
    if form == 2 {
        p.push(digit(10));
    } else if form == 3 {
        number(&mut p, n);
    }
    p.push('}');
    if rt::pick(2) == 1 {
        p.push(rt::any_char());
    }
    p
}

/// Beginning of an escape, a counted quantifier or a set followed by `n`
/// arbitrary characters.
fn escape_shape(k: usize, n: usize) -> Text {
    const BEGIN: [&str; 16] = [
        "\\x", "\\u", "\\u{", "\\c", "[\\x", "[a-\\u", "[\\u{", "a{1", "a{1,", "a{1,2", "(a|b){3",
        "[a-", "[^ab", "a|(b", "[\\w\\d", "a{4294967295",
    ];
    let mut p = Text::new();
    p.str(BEGIN[k]);
    for _ in 0..n {
        p.push(rt::any_char());
    }
    p
}

/// Escape prefix followed by `n` hexadecimal digits, braces or other signs.
fn digits_shape(k: usize, n: usize) -> Text {
    let mut p = Text::new();
    p.str(["\\x", "\\u", "\\u{", "[\\u{", "[a-\\u{"][k]);
    for _ in 0..n {
        let c = rt::new(8) as u32;
        rt::assume(((c >= 48) & (c < 58)) | ((c >= 65) & (c < 72)) | ((c >= 97) & (c < 103)) | (c == 125) | (c == 93));
        // SAFETY: ASCII.
        p.push(unsafe { char::from_u32_unchecked(c) });
    }
    p
}

/// Nested brackets and operators only.
fn operator_shape(n: usize) -> Text {
    let mut p = Text::new();
    for _ in 0..n {
        p.push(rt::char_of(&['(', ')', '|', '[', ']', '^', '-', '*', 'a']));
    }
    p
}

/// Counted quantifiers, sets and escapes.
fn counter_shape(n: usize) -> Text {
    let mut p = Text::new();
    for _ in 0..n {
        p.push(rt::char_of(&['a', '{', '}', ',', '1', '?', '(', ')', '\\']));
    }
    p
}

/// A long beginning (or a long middle) and `n` arbitrary characters at its end.
fn long_shape(k: usize, m: usize, n: usize) -> Text {
    let mut p = Text::new();
    let times = |p: &mut Text, m: usize, s: &str| {
        for _ in 0..m {
            p.str(s);
        }
    };
    match k {
        0 => times(&mut p, m, "a"),
        1 => times(&mut p, m, "(a"),
        2 => {
            times(&mut p, m, "(");
            p.push('a');
            times(&mut p, m - 1, ")");
        }
        3 => times(&mut p, m, "a|"),
        4 => {
            p.push('[');
            times(&mut p, m, "ab-d");
        }
        5 => times(&mut p, m, "a{1,2}"),
        6 => times(&mut p, m, "\\x41"),
        7 => times(&mut p, m, "\\u{1F315}🌕"),
        8 => times(&mut p, m, "(a)*"),
        9 => times(&mut p, m, "[^a]\\w"),
        10 => times(&mut p, m, "\\cA\\n"),
        11 => {
            p.push('(');
            times(&mut p, m, "a|b");
            p.push(')');
        }
        12 => {
            p.str("a{1");
            times(&mut p, m, "0");
        }
        13 => {
            p.str("a{");
            times(&mut p, m, "0");
            p.push('1');
        }
        14 => {
            times(&mut p, m, "(a|");
            p.push('b');
            times(&mut p, m - 1, ")?");
        }
        _ => {
            p.str("\\u{");
            times(&mut p, m, "0");
        }
    }
    for _ in 0..n {
        p.push(rt::any_char());
    }
    p
}

#[no_mangle]
pub extern "C" fn h_l01_long() {
    rt::real_hash(false);
    accepts_exactly(&long_shape(rt::param(0), rt::param(1), rt::param(2)));
}
#[no_mangle]
pub extern "C" fn h_l05_long() {
    rt::real_hash(false);
    points_at_offender(&long_shape(rt::param(0), rt::param(1), rt::param(2)));
}
#[no_mangle]
pub extern "C" fn h_l01() {
    rt::real_hash(false);
    accepts_exactly(&any_text(rt::param(0)));
}
#[no_mangle]
pub extern "C" fn h_l01_count() {
    rt::real_hash(false);
    accepts_exactly(&counted_shape(rt::param(0) as u32));
}
#[no_mangle]
pub extern "C" fn h_l01_escape() {
    rt::real_hash(false);
    accepts_exactly(&escape_shape(rt::param(0), rt::param(1)));
}
#[no_mangle]
pub extern "C" fn h_l01_digits() {
    rt::real_hash(false);
    accepts_exactly(&digits_shape(rt::param(0), rt::param(1)));
}
#[no_mangle]
pub extern "C" fn h_l01_counter() {
    rt::real_hash(false);
    accepts_exactly(&counter_shape(rt::param(0)));
}
#[no_mangle]
pub extern "C" fn h_l01_operator() {
    rt::real_hash(false);
    accepts_exactly(&operator_shape(rt::param(0)));
}
#[no_mangle]
pub extern "C" fn h_l05() {
    rt::real_hash(false);
    points_at_offender(&any_text(rt::param(0)));
}
#[no_mangle]
pub extern "C" fn h_l05_count() {
    rt::real_hash(false);
    points_at_offender(&counted_shape(rt::param(0) as u32));
}
#[no_mangle]
pub extern "C" fn h_l05_escape() {
    rt::real_hash(false);
    points_at_offender(&escape_shape(rt::param(0), rt::param(1)));
}
#[no_mangle]
pub extern "C" fn h_l05_digits() {
    rt::real_hash(false);
    points_at_offender(&digits_shape(rt::param(0), rt::param(1)));
}
#[no_mangle]
pub extern "C" fn h_l05_counter() {
    rt::real_hash(false);
    points_at_offender(&counter_shape(rt::param(0)));
}
#[no_mangle]
pub extern "C" fn h_l05_operator() {
    rt::real_hash(false);
    points_at_offender(&operator_shape(rt::param(0)));
}

// ---------------------------------------------------------------- L02, L03, L04

/// Whether a one-token lexer turns the whole input into one token.
fn covers(p: &Text, s: &Text) -> Option<bool> {
    let lexer = Lexer::builder().with_token_unit(&p.s, 1u32).ok()?;
    let mut it = lexer.tokenize(&s.s);
    Some(match it.next() {
        Some(t) => t.source.len() == s.s.len() && it.next().is_none(),
        None => false,
    })
}

/// What is demanded of patterns that only one side accepts.
#[derive(Clone, Copy, PartialEq)]
enum Accepted {
    Either,
    IfValid,
    IffValid,
}

fn language_equal(p: &Text, s: &Text, accepted: Accepted) {
    rt::show(&p.s);
    rt::show(&s.s);
    let Ok(n) = rx::parse(&p.c) else {
        if accepted == Accepted::IffValid {
            rt::check(Lexer::builder().with_token_unit(&p.s, 1u32).is_err(), 2);
        }
        return;
    };
    let Some(got) = covers(p, s) else {
        rt::check(accepted == Accepted::Either, 3);
        return;
    };
    let want = if s.len() < 32 {
        (rx::ends(&n, 1, &s.c) >> s.len()) & 1 == 1
    } else {
        rx::ends_long(&n, &[0], &s.c).contains(&s.len())
    };
    rt::reach(if got { 1 } else { 2 });
    rt::note(got as u64);
    rt::check(got == want, 1);
}

pub const SHAPES: [&str; 31] = [
    "LQ",
    "LQLQ",
    "L|LQ",
    "(LQ)Q",
    "(LQLQ)S",
    "(LS|LS)Q",
    "((LQ)S)Q",
    "((LS)Q)S",
    "(LS|L)QL",
    "L(LS)QL",
    "((LSL)S|L)Q",
    "(L|LL)QL",
    "((LS|LS)SL)Q",
    "(L(LS)Q)S",
    "((LQ)Q)C",
    "(((LS)S)S)Q",
    "(L?LQ)Q",
    "(L*|L?L)QLS",
    "((L?){2}L?)QL?",
    "(LL|L)C(L|LL)C",
    "((L{2}|L)CL?)C",
    "(LCLC)C",
    // sets and classes next to each other
    "[LL]L|[^LL]L",
    "[L-L]S[^L]S",
    "([L]|[^L]L)S",
    ".L|LS|[^L]L",
    "([L-L]|[^L-L]L)Q",
    "[^L]L|L[^L]|LL",
    "[L][LL]|[LL]SL",
    "\\wS|\\DL|\\W|.LL",
    "([^LL]|[LL]L)SL",
];

/// Shape, input length, number of digits.
#[no_mangle]
pub extern "C" fn h_l02() {
    rt::real_hash(false);
    let p = template(SHAPES[rt::param(0)], rt::param(2) as u64, NARROW);
    let s = input(rt::param(1), NARROW);
    language_equal(&p, &s, Accepted::Either);
}
/// Every pattern of a length over a small alphabet.
#[no_mangle]
pub extern "C" fn h_l02_text() {
    rt::real_hash(false);
    let t = &"XXXXXXXXXX"[..rt::param(0)];
    let p = template(t, 4, NARROW);
    let mut s = Text::new();
    for _ in 0..rt::param(1) {
        s.push(rt::char_of(&['a', 'b']));
    }
    language_equal(&p, &s, Accepted::Either);
}

const FIXED: [&str; 10] = [
    "(a|b)*abb",
    "(a?b?){2,3}",
    "((ab|a)(b|ab))+",
    "(a|ab)(c|bcd)?",
    "[ab]*[bc]*c?",
    "(a{1,2}b){2}|a+",
    "((a|b)+c?)*",
    "a(b|cd?)*e?",
    "(a*b*){2}c",
    "(b|a)b|(a|b){3,}",
];
/// Pattern, input length, number of hash seeds.
#[no_mangle]
pub extern "C" fn h_l02_seed() {
    hashing(2);
    let mut p = Text::new();
    p.str(FIXED[rt::param(0)]);
    let s = input(rt::param(1), NARROW);
    language_equal(&p, &s, Accepted::Either);
}

/// Any text as pattern, any text as input.
#[no_mangle]
pub extern "C" fn h_l02_any() {
    rt::real_hash(false);
    let p = any_text(rt::param(0));
    let s = any_text(rt::param(1));
    language_equal(&p, &s, Accepted::Either);
}

/// Long patterns and inputs with few symbolic letters.
fn long_pattern(k: usize, m: usize) -> (Text, Text) {
    let (mut p, mut s) = (Text::new(), Text::new());
    let times = |t: &mut Text, m: usize, x: &str| {
        for _ in 0..m {
            t.str(x);
        }
    };
    // Almost as many as the pattern asks for, or about half as many.
    let run = |m: usize| if rt::pick(2) == 0 { m } else { m / 2 + 20 };
    match k {
        0 => {
            for i in 0..m {
                let c = (b'a' + (i % 26) as u8) as char;
                p.push(if i == m / 2 { letter(NARROW) } else { c });
                s.push(if i == m / 2 || i + 1 == m { letter(NARROW) } else { c });
            }
        }
        1 => {
            p.str(&format!("(ab|cd){{{}}}", m));
            times(&mut s, m - 2, "ab");
            let k = rt::pick(3);
            times(&mut s, k as usize, "cd");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
        2 => {
            times(&mut p, m, "a?");
            times(&mut p, m, "a");
            let k = rt::pick(3);
            times(&mut s, m - 1 + k as usize, "a");
            s.push(letter(NARROW));
        }
        3 => {
            p.push('a');
            for i in 0..m {
                let mut q = Text::new();
                q.push('(');
                q.str(&p.s);
                q.str(["b?)*", ")?", "c)+", ")"][i % 4]);
                p = q;
            }
            s.str("a");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        4 => {
            for i in 0..m {
                if i > 0 {
                    p.push('|');
                }
                p.push((b'a' + (i / 26) as u8) as char);
                p.push((b'a' + (i % 26) as u8) as char);
            }
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
        5 => {
            p.str(&format!("[a-f]{{{}}}g{{2,}}", m));
            times(&mut s, m - 1, "a");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        6 => {
            times(&mut p, m, "\\w\\d\\s.\\W");
            for i in 0..m {
                s.str("a1 ");
                s.push(if i + 1 == m { rt::any_char() } else { 'x' });
                s.push('-');
            }
            let last = s.s.pop();
            s.c.pop();
            if last.is_some() {
                s.push(rt::any_char());
            }
        }
        7 => {
            p.str(".*needle.*");
            times(&mut s, m, "nee");
            s.str("nee");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
            s.push('e');
            times(&mut s, m, "dle");
        }
        8 => {
            p.str(&format!("(a{{2}}b{{3}}){{{}}}", m));
            times(&mut s, m - 1, "aabbb");
            s.str("aab");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
        9 => {
            p.str(&format!("(([ab]{{{}}}c)+d)*", m));
            times(&mut s, m - 1, "a");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        10 => {
            p.str(&format!("a{{{},{}}}b", m, m + 2));
            times(&mut s, run(m - 1), "a");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        11 => {
            times(&mut p, m, "(a|b)");
            p.str("c*");
            times(&mut s, m - 2, "b");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        12 => {
            p.str(&format!("a{{{},}}b", m));
            times(&mut s, run(m - 1), "a");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        13 => {
            p.str(&format!("(ab?){{{},}}", m));
            times(&mut s, run(m - 2), "ab");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        14 => {
            p.str(&format!("[ab]{{2,{}}}c", m));
            times(&mut s, run(m - 3), "b");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        15 => {
            p.str("a+(b|c)?[^a]*a");
            times(&mut s, m, "a");
            s.push(letter(NARROW));
            times(&mut s, m, "b");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
        16 => {
            p.str(&format!("(a|bc){{{},{}}}", m - 1, m));
            times(&mut s, run(m - 2), "bc");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
        18 => {
            // Many counts at the same time.
            p.str(&format!("[ab]*a[ab]{{{}}}", m));
            for _ in 0..3 {
                s.push(letter(NARROW));
            }
            for i in 0..m - 2 {
                s.push(if i % 3 == 2 { 'b' } else { 'a' });
            }
            s.push(letter(NARROW));
        }
        _ => {
            // Every element may be missing.
            times(&mut p, m, "a?");
            p.str("b");
            times(&mut s, m - 3, "a");
            for _ in 0..4 {
                s.push(letter(NARROW));
            }
        }
    }
    (p, s)
}
#[no_mangle]
pub extern "C" fn h_l02_long() {
    let k = rt::param(0);
    // Symbolic letters in a pattern need the constant hash.
    rt::real_hash(k != 0);
    let (p, s) = long_pattern(k, rt::param(1));
    language_equal(&p, &s, Accepted::IfValid);
}

/// `[` arbitrary text `]` against one arbitrary character.
#[no_mangle]
pub extern "C" fn h_l03_set() {
    rt::real_hash(false);
    let mut p = Text::new();
    p.push('[');
    for _ in 0..rt::param(0) {
        p.push(rt::any_char());
    }
    p.push(']');
    let mut s = Text::new();
    s.push(rt::any_char());
    if rt::param(1) == 1 {
        // Keeps the table look-ups behind the word class out of large sets.
        rt::assume(s.c[0] < 0x80);
    }
    language_equal(&p, &s, Accepted::IfValid);
}
/// Arbitrary text of at most two characters against one arbitrary character.
#[no_mangle]
pub extern "C" fn h_l03_one() {
    rt::real_hash(false);
    let p = any_text(rt::param(0));
    let s = any_text(1);
    language_equal(&p, &s, Accepted::IfValid);
}
const SETS: [&str; 24] = [
    ".", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S", "[\\w]", "[^\\w]", "[\\W]", "[^\\W]", "[\\d]",
    "[^\\d]", "[\\D]", "[\\s]", "[^\\s]", "[^\\S]", "[.]", "[^.]", "[\\w\\d]", "[^\\w\\s]",
    "[\\W\\d]", "[\\s\\d]", "[^\\d\\s]",
];
/// Each class against every character.
#[no_mangle]
pub extern "C" fn h_l03_class() {
    rt::real_hash(false);
    let mut p = Text::new();
    p.str(SETS[rt::param(0)]);
    let s = any_text(1);
    language_equal(&p, &s, Accepted::IfValid);
}
/// Sets of ranges and members with symbolic ends: `r` range, `m` member.
#[no_mangle]
pub extern "C" fn h_l03_ranges() {
    rt::real_hash(false);
    const FORMS: [&str; 6] = ["r", "^r", "rm", "^rr", "mrm", "rrm"];
    let plain = || {
        let c = rt::any_char();
        let mut ok = true;
        for x in "\\.[]()^|-*+?{".chars() {
            ok &= c != x;
        }
        rt::assume(ok);
        c
    };
    let mut p = Text::new();
    p.push('[');
    for f in FORMS[rt::param(0)].chars() {
        match f {
            'r' => {
                p.push(plain());
                p.push('-');
                p.push(plain());
            }
            'm' => p.push(plain()),
            c => p.push(c),
        }
    }
    p.push(']');
    let s = any_text(1);
    language_equal(&p, &s, Accepted::IfValid);
}

/// Sets with `m` members of which the last one is symbolic.
#[no_mangle]
pub extern "C" fn h_l03_long() {
    rt::real_hash(false);
    let (k, m) = (rt::param(0), rt::param(1) as u32);
    let mut p = Text::new();
    p.str(if k % 2 == 0 { "[" } else { "[^" });
    for i in 0..m {
        // SAFETY: below the surrogates.
        let at = |i: u32| unsafe { char::from_u32_unchecked(0x100 + i) };
        match k / 2 {
            0 => p.push(at(2 * i)),
            1 => {
                p.push(at(4 * i));
                p.push('-');
                p.push(at(4 * i + 2));
            }
            2 => p.str(["\\d", "b-f", "\\x41", "é", "\\s", "\\cB"][i as usize % 6]),
            _ => p.push('a'),
        }
    }
    p.push(letter(WIDE));
    p.push(']');
    let s = any_text(1);
    language_equal(&p, &s, Accepted::IfValid);
}

/// An escape with arbitrary hexadecimal digits, then `tail` further characters.
#[no_mangle]
pub extern "C" fn h_l04_hex() {
    rt::real_hash(false);
    let (open, n, close) = [
        ("\\x", 2, ""),
        ("\\u", 4, ""),
        ("\\u{", 4, "}"),
        ("\\u{", 5, "}"),
        ("[\\x", 2, "]"),
        ("[^\\u", 4, "]"),
        ("[\\u{", 5, "}]"),
    ][rt::param(0)];
    let mut p = Text::new();
    p.str(open);
    for _ in 0..n {
        let c = rt::new(8) as u32;
        rt::assume(((c >= 48) & (c < 58)) | ((c >= 65) & (c < 71)) | ((c >= 97) & (c < 103)));
        // SAFETY: ASCII.
        p.push(unsafe { char::from_u32_unchecked(c) });
    }
    p.str(close);
    let tail = rt::param(1);
    for _ in 0..tail {
        let c = rt::new(8) as u32;
        rt::assume(((c >= 48) & (c < 58)) | ((c >= 65) & (c < 71)) | ((c >= 97) & (c < 123)));
        // SAFETY: ASCII.
        p.push(unsafe { char::from_u32_unchecked(c) });
    }
    let s = any_text(1 + tail);
    language_equal(&p, &s, Accepted::IffValid);
}
/// Every one-letter escape and what follows it.
#[no_mangle]
pub extern "C" fn h_l04_letter() {
    rt::real_hash(false);
    let (open, n, close) = [
        ("\\", 1, ""),
        ("\\", 2, ""),
        ("[\\", 1, "]"),
        ("[\\", 2, "]"),
        ("\\c", 1, ""),
        ("\\c", 2, ""),
        ("[\\c", 1, "]"),
        ("[\\0-\\", 1, "]"),
    ][rt::param(0)];
    let mut p = Text::new();
    p.str(open);
    for _ in 0..n {
        let c = rt::new(8) as u32;
        rt::assume(c < 128);
        // SAFETY: ASCII.
        p.push(unsafe { char::from_u32_unchecked(c) });
    }
    p.str(close);
    let n = 1 + rt::param(1);
    let s = any_text(n);
    // The word class has its own harness.
    for c in &s.c {
        rt::assume(*c < 0x80);
    }
    language_equal(&p, &s, Accepted::IffValid);
}
/// Bounds with `k` digits each against a run of `n` characters.
#[no_mangle]
pub extern "C" fn h_l04_bound() {
    rt::real_hash(false);
    let (form, k, n) = (rt::param(0), rt::param(1), rt::param(2));
    let mut p = Text::new();
    p.str("z{");
    for _ in 0..k {
        p.push(digit(10));
    }
    if form > 0 {
        p.push(',');
    }
    if form > 1 {
        for _ in 0..k {
            p.push(digit(10));
        }
    }
    p.push('}');
    let mut s = Text::new();
    for _ in 0..n {
        s.push('z');
    }
    language_equal(&p, &s, Accepted::IffValid);
}

/// Bounds around the places where machine words overflow against a short run.
#[no_mangle]
pub extern "C" fn h_l04_wrap() {
    rt::real_hash(false);
    let form = rt::param(0);
    let mut p = Text::new();
    p.str(if form == 2 { "z{1," } else { "z{" });
    number(&mut p, rt::param(1) as u32);
    p.str(if form == 1 { ",}" } else { "}" });
    let n = 1 + rt::pick(3);
    let mut s = Text::new();
    for _ in 0..n {
        s.push('z');
    }
    language_equal(&p, &s, Accepted::IffValid);
}
/// Case split on a digit, for runs too long to keep it symbolic.
fn split(c: char) -> char {
    // SAFETY: the value is that of a character.
    unsafe { char::from_u32_unchecked(rt::concrete(c as u64) as u32) }
}
/// Bounds from `10 m` to `10 m + 9` against a run of about as many characters.
#[no_mangle]
pub extern "C" fn h_l04_far() {
    rt::real_hash(true);
    let (form, m) = (rt::param(0), rt::param(1));
    let mut p = Text::new();
    p.str(&format!("z{{{}", m));
    p.push(split(digit(10)));
    match form {
        0 => (),
        1 => p.push(','),
        _ => {
            p.str(&format!(",{}", m));
            p.push(split(digit(10)));
        }
    }
    p.push('}');
    let mut s = Text::new();
    let k = rt::pick(4) as usize;
    for _ in 0..10 * m + 3 * k {
        s.push('z');
    }
    language_equal(&p, &s, Accepted::IffValid);
}
/// Escapes behind a long beginning of the pattern.
#[no_mangle]
pub extern "C" fn h_l04_late() {
    rt::real_hash(false);
    let (k, m) = (rt::param(0), rt::param(1));
    let (open, n, close) = [("\\x", 2, ""), ("\\u", 4, ""), ("\\u{", 5, "}"), ("[\\x41-\\u", 4, "]"), ("\\c", 1, "")][k];
    let (mut p, mut s) = (Text::new(), Text::new());
    for i in 0..m {
        p.str(["\\x61", "b", "\\u0063", "\\u{0064}"][i % 4]);
        s.push(['a', 'b', 'c', 'd'][i % 4]);
    }
    p.str(open);
    for _ in 0..n {
        let c = rt::new(8) as u32;
        rt::assume(((c >= 48) & (c < 58)) | ((c >= 65) & (c < 71)) | ((c >= 97) & (c < 103)));
        // SAFETY: ASCII.
        p.push(unsafe { char::from_u32_unchecked(c) });
    }
    p.str(close);
    s.push(rt::any_char());
    language_equal(&p, &s, Accepted::IffValid);
}

// ---------------------------------------------------------------- L06 to L09

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Kind {
    id: u32,
    sum: u32,
}

fn checksum(s: &str) -> u32 {
    let mut h = 1u32;
    for b in s.bytes() {
        h = h.wrapping_mul(31).wrapping_add(b as u32);
    }
    h
}
fn unit<const I: u32>() -> Kind {
    Kind { id: I, sum: 7 }
}
fn map<const I: u32>(s: &str) -> Kind {
    Kind { id: I, sum: checksum(s) }
}

struct Tok {
    kind: Kind,
    source: String,
    pos: (usize, usize),
}

struct Run {
    nodes: Vec<Node>,
    how: Vec<u32>,
    text: Text,
    toks: Vec<Tok>,
    after: bool,
}

const TOKEN_SETS: [&[&str]; 50] = [
    // read-ahead and give-back
    &["L", "LLLL"],
    &["LL", "LLLL", "L"],
    &["L", "LL", "LLLLL"],
    &["L", "LLL*L"],
    &["LL*L", "L", "L"],
    &["LLL", "LLLL", "LL|L"],
    &["L", "LLL", "LLLL"],
    &["L+L", "L", "LL"],
    &["(LL)+", "L"],
    &["(LL)*L", "LL", "L"],
    &["L{2,3}", "L", "LL"],
    &["LSLS", "LL"],
    &["LS", "LS", "L"],
    // overlaps
    &["LQ", "LQ"],
    &["L", "L", "L"],
    &["L|LL", "LL?", "LL"],
    &["[a-m]+", "L", "LL"],
    &["[a-m]", "[h-z]+", "L"],
    &[".", "L", "LL"],
    &["L.", "L+", "..."],
    &["\\w+", "LLL"],
    &["L?", "L*", "LL"],
    &["(L|L)S", "LL", "L"],
    &["XXX", "XX"],
    &["XXX", "XXX"],
    &["", "L", "LL?"],
    // without symbolic parts, for runs with the real hash function
    &["a", "b", "ab", "[ab]"],
    &["ab|a", "a*b?", "[ab]+"],
    &["[a-m]+", "[h-z]", "a|b|m", "[^q]"],
    &["(a|b)*c", "a+", "b", "abc"],
    &["ab*", "a(b|c)*", "a.?", "abc"],
    &["\\w\\w", "[a-c]+", "(a|b|c){2}", "c", "..?"],
    &["aaaa", "aa", "a", "(ab)+"],
    &["a?b?c?", "c|b|a", "ca|ab"],
    // for arbitrary characters
    &[".", "L"],
    &["\\s+", "\\w+", "[^\\s\\w]"],
    &["..", "[^a-z]", "a"],
    &["[^ ]+", " "],
    &["\\w", "\\W\\W", "\\d+", "\\s"],
    &["[\\0-\\x20]+", "[\\x7f-\\u{10ff}f]", "\\D"],
    // far read-ahead
    &["a", "aaaaaaaaaaaaaaaaaaaaab", "b"],
    &["a", "a(aa)*b", "bb"],
    &["a+", "a+b", "a{14,}c"],
    &["aa", "a", "(a|aa){11}b", "b"],
    &["a{3}", "a{7}", "(a{5})+", "a?b"],
    &["[a-z]+0", "[a-f]", "ab*"],
    // sets and their complements
    &["[LL]L", "[^LL]L", "L"],
    &["[^L]S", "[L-L]L", "."],
    &["\\wL", "\\WL", "[^L]"],
    &["([L]|[^L]L)S", "[^L]"],
];

/// Fixed beginning of the input of the sets for far read-ahead.
fn beginning(set: usize) -> &'static str {
    match set {
        40..=42 => "aaaaaaaaaaaaaaaaaa",
        43 => "aaaaaaaaaaa",
        44 => "aaaaaaaaaaaaaaaa",
        45 => "abbcdefabcdefff",
        _ => "",
    }
}

fn lex(set: usize, n: usize, range: usize, method: u32) -> Option<Run> {
    let set_texts = TOKEN_SETS[set];
    let patterns: Vec<Text> = set_texts.iter().map(|t| template(t, 4, range)).collect();
    let small = set_texts.iter().any(|t| t.contains('X'));
    let text = if small {
        let mut s = Text::new();
        for _ in 0..n {
            s.push(rt::char_of(&['a', 'b']));
        }
        s
    } else {
        let mut s = Text::new();
        s.str(beginning(set));
        for _ in 0..n {
            s.push(letter(range));
        }
        s
    };
    run(&patterns, text, method)
}

fn run(patterns: &[Text], text: Text, method: u32) -> Option<Run> {
    let mut b = Lexer::builder();
    let mut nodes = Vec::new();
    let mut how = Vec::new();
    for (i, p) in patterns.iter().enumerate() {
        rt::show(&p.s);
        let Ok(node) = rx::parse(&p.c) else { return None };
        nodes.push(node);
        let m = match method {
            3 => rt::pick(3),
            _ if i > 4 => 0,
            4 => i as u32 % 3,
            m => m,
        };
        how.push(m);
        let r = match (m, i) {
            (0, i) => b.with_token_unit(&p.s, Kind { id: i as u32, sum: 3 }),
            (1, 0) => b.with_token(&p.s, unit::<0>),
            (1, 1) => b.with_token(&p.s, unit::<1>),
            (1, 2) => b.with_token(&p.s, unit::<2>),
            (1, 3) => b.with_token(&p.s, unit::<3>),
            (1, _) => b.with_token(&p.s, unit::<4>),
            (_, 0) => b.with_token_map(&p.s, map::<0>),
            (_, 1) => b.with_token_map(&p.s, map::<1>),
            (_, 2) => b.with_token_map(&p.s, map::<2>),
            (_, 3) => b.with_token_map(&p.s, map::<3>),
            (_, _) => b.with_token_map(&p.s, map::<4>),
        };
        let Ok(nb) = r else { return None };
        b = nb;
    }
    rt::show(&text.s);
    let mut toks = Vec::new();
    let mut it = b.tokenize(&text.s);
    // One more than there can be, so that repeated empty tokens are noticed.
    while toks.len() <= text.len() {
        match it.next() {
            Some(t) => {
                rt::note(t.pos.1 as u64);
                toks.push(Tok { kind: t.kind, source: t.source, pos: t.pos })
            }
            None => break,
        }
    }
    let mut after = false;
    for _ in 0..3 {
        after |= it.next().is_some();
    }
    drop(it);
    Some(Run { nodes, how, text, toks, after })
}

impl Run {
    /// Longest match of each token at a position, as a mask of lengths.
    fn masks(&self, at: usize) -> Vec<u32> {
        let rest = &self.text.c[at..];
        self.nodes.iter().map(|n| rx::ends(n, 1, rest)).collect()
    }
    /// Whether each token matches at a position with a length.
    fn matching(&self, at: usize, len: usize) -> Vec<bool> {
        if self.text.len() < 32 {
            return self.masks(at).iter().map(|m| (m >> len) & 1 == 1).collect();
        }
        let reaches = |n: &Node| rx::ends_long(n, &[at], &self.text.c).contains(&(at + len));
        self.nodes.iter().map(reaches).collect()
    }
    /// Longest non-empty match of any token.
    fn longest(&self, at: usize) -> usize {
        if self.text.len() >= 32 {
            let last = |n: &Node| rx::ends_long(n, &[at], &self.text.c).last().map_or(0, |e| e - at);
            return self.nodes.iter().map(last).max().unwrap_or(0);
        }
        let all = self.masks(at).iter().fold(0, |a, b| a | b);
        for l in (1..=self.text.len() - at).rev() {
            if (all >> l) & 1 == 1 {
                return l;
            }
        }
        0
    }
    /// Byte range of a character range.
    fn slice(&self, from: usize, to: usize) -> &str {
        let mut b = [self.text.s.len(); 2];
        for (k, (i, _)) in self.text.s.char_indices().enumerate() {
            if k == from {
                b[0] = i;
            }
            if k == to {
                b[1] = i;
            }
        }
        &self.text.s[b[0]..b[1]]
    }
    /// Tokens that lie inside the text in the right order.
    fn sane(&self) -> bool {
        self.toks.iter().all(|t| t.pos.0 < t.pos.1 && t.pos.1 <= self.text.len())
    }
}

/// Large token sets and long texts with few symbolic characters.
fn long_run(k: usize, m: usize) -> Option<Run> {
    let mut sets: Vec<String> = Vec::new();
    let mut s = Text::new();
    let times = |t: &mut Text, m: usize, x: &str| {
        for _ in 0..m {
            t.str(x);
        }
    };
    let word = |i: usize| format!("x{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
    let of = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    match k {
        0 => {
            for i in 0..m {
                sets.push(word(i));
            }
            sets.extend(of(&["x", "[a-z]", "x[a-z]y"]));
            s.str(&word(0));
            s.str(&word(m - 1));
            s.push('x');
            s.push(letter(NARROW));
            s.push(letter(NARROW));
            s.str(&word(m / 2));
        }
        1 => {
            sets = of(&["[a-y]+", "z", "\\s"]);
            for i in 0..m {
                s.push(if i == m / 3 || i + 3 == m || i + 1 == m { letter(NARROW) } else { 'b' });
            }
        }
        2 => {
            sets = of(&["b", "a+", "ba*c"]);
            s.push('b');
            times(&mut s, m, "a");
            s.push(letter(NARROW));
            s.push('b');
        }
        3 => {
            sets = of(&["a", "b", "ab?c"]);
            times(&mut s, m, "ab");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
        4 => {
            sets = of(&["🌕🌕?", "é+", "."]);
            times(&mut s, m, "é🌕");
            s.push(rt::any_char());
            s.push('é');
        }
        5 => {
            sets = of(&["\\w+", "\\s+", "\\d+", "[^\\w\\s\\d]"]);
            times(&mut s, m, "foo  42+bär\n");
            s.push(rt::any_char());
        }
        6 => {
            sets = of(&["a", &format!("a{{{}}}b", m)]);
            times(&mut s, m, "a");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
        7 => {
            sets = of(&[&format!("a{{{}}}", m), "a", &format!("b{{{},}}", m), "b"]);
            times(&mut s, m, "a");
            s.push(letter(NARROW));
            times(&mut s, m - 1, "b");
            s.push(letter(NARROW));
        }
        8 => {
            let run: String = (0..m).map(|_| 'a').collect();
            sets = of(&[&format!("{}x", run), &format!("{}y", run), "a+", "[a-z]"]);
            s.str(&run);
            s.push(letter(NARROW));
            s.str(&run);
            s.push(letter(NARROW));
        }
        9 => {
            sets = of(&[
                "if", "else", "while", "for", "return", "fn", "let", "mut", "true", "false", "[a-z_][a-z0-9_]*", "[0-9]+(\\.[0-9]+)?", "[ \\n]+",
                "\\+=?", "==?", "\\(", "\\)", "\\{", "\\}", ";", "\"[^\"]*\"", "//[^\n]*", "/\\*([^\\*]|\\*[^/])*\\*/",
            ]);
            times(&mut s, m, "fn f(x) { let y = 1.5; }\n");
            s.str("while i");
            s.push(letter(NARROW));
            s.str(" == \"x\"+1");
            s.push(rt::char_of(&['.', '0', 'a', ' ', ';', '"']));
            s.str("5 // e");
            s.push(rt::char_of(&['\n', 'x']));
            s.str("els");
            s.push(letter(NARROW));
        }
        10 => {
            sets = of(&["[a-y]+", "z"]);
            times(&mut s, m, "b");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
            s.push('z');
        }
        12 => {
            // Many different characters may come next, both inside a token and at its start.
            let c = |i: usize| char::from_u32(0x4E00 + 2 * i as u32).unwrap_or('?');
            let list: String = (0..m).map(c).collect();
            let words: Vec<String> = (0..m).map(|i| c(i).to_string()).collect();
            sets = of(&[&format!("a[{}]", list), &format!("b({})", words.join("|")), &format!("[{}]+", list), "a", "b"]);
            s.push(rt::char_of(&['a', 'b', c(m - 1)]));
            let near = rt::new(21) as u32;
            rt::assume((near >= 0x4E00) & (near <= 0x4E00 + 2 * m as u32));
            // SAFETY: the range consists of scalar values.
            s.push(unsafe { char::from_u32_unchecked(near) });
            s.push(c(m / 2));
        }
        _ => {
            sets = of(&["(ab)+", "a", "b", "(ab)*c"]);
            times(&mut s, m, "ab");
            s.push(letter(NARROW));
            s.push(letter(NARROW));
        }
    }
    let patterns: Vec<Text> = sets
        .iter()
        .map(|x| {
            let mut t = Text::new();
            t.str(x);
            t
        })
        .collect();
    run(&patterns, s, 4)
}

/// Token set, input length, range of letters, way of registering kinds, number of
/// hash seeds (none: constant hash).
fn lex_params() -> Option<Run> {
    hashing(4);
    if rt::param(0) >= 100 {
        return long_run(rt::param(0) - 100, rt::param(1));
    }
    lex(rt::param(0), rt::param(1), rt::param(2), rt::param(3) as u32)
}

#[no_mangle]
pub extern "C" fn h_l06() {
    let Some(r) = lex_params() else { return };
    let mut at = 0;
    for t in &r.toks {
        rt::check(t.pos.0 == at, 1);
        rt::check(t.pos.1 > at, 2);
        rt::check(t.pos.1 <= r.text.len(), 3);
        if t.pos.0 != at || t.pos.1 <= at || t.pos.1 > r.text.len() {
            return;
        }
        rt::check(t.source == r.slice(at, t.pos.1), 4);
        at = t.pos.1;
    }
    if r.toks.len() > 1 {
        rt::reach(1);
    }
    if at < r.text.len() {
        rt::reach(2);
    }
}

#[no_mangle]
pub extern "C" fn h_l07() {
    let Some(r) = lex_params() else { return };
    if !r.sane() {
        return;
    }
    for t in &r.toks {
        let l = r.longest(t.pos.0);
        rt::check(t.pos.1 - t.pos.0 == l, 1);
        rt::check(t.source.chars().count() == l, 2);
        if l > 1 {
            rt::reach(1);
        }
        if t.pos.1 < r.text.len() {
            rt::reach(2);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_l08() {
    let Some(r) = lex_params() else { return };
    if !r.sane() {
        return;
    }
    for t in &r.toks {
        let len = t.pos.1 - t.pos.0;
        let matching = r.matching(t.pos.0, len);
        let mut want = r.nodes.len();
        let mut count = 0;
        for i in (0..r.nodes.len()).rev() {
            if matching[i] {
                want = i;
                count += 1;
            }
        }
        if want == r.nodes.len() {
            // Not a match at all, which is another property.
            continue;
        }
        if count > 1 {
            rt::reach(1);
        }
        if want > 0 {
            rt::reach(2);
        }
        rt::check(t.kind.id == want as u32, 1);
        let sum = match r.how[want] {
            0 => 3,
            1 => 7,
            _ => checksum(r.slice(t.pos.0, t.pos.1)),
        };
        rt::check(t.kind.sum == sum, 2);
    }
}

#[no_mangle]
pub extern "C" fn h_l09() {
    let Some(r) = lex_params() else { return };
    if !r.sane() {
        return;
    }
    let end = r.toks.last().map_or(0, |t| t.pos.1);
    let l = r.longest(end);
    rt::check(l == 0, 1);
    rt::check(!r.after, 2);
    if end < r.text.len() {
        rt::reach(1);
    } else {
        rt::reach(2);
    }
    // Everything before the end has been delivered.
    let mut n = 0;
    for t in &r.toks {
        n += t.source.chars().count();
    }
    rt::check(n == end, 3);
}

// ---------------------------------------------------------------- L10

/// Building and iterating comes to an end; the executor watches for panics and
/// for paths beyond the instruction budget.
fn runs_through(p: &Text, s: &str) {
    rt::show(&p.s);
    rt::show(s);
    let Ok(b) = Lexer::builder().with_token_unit(&p.s, 1u32) else { return };
    let mut k = 0;
    for _ in b.tokenize(s) {
        k += 1;
        rt::check(k <= s.len(), 1);
    }
    rt::note(k as u64);
    rt::reach(if k == 0 { 1 } else { 2 });
}

#[no_mangle]
pub extern "C" fn h_l10() {
    rt::real_hash(false);
    let p = template(SHAPES[rt::param(0)], rt::param(2) as u64, NARROW);
    let s = input(rt::param(1), NARROW);
    runs_through(&p, &s.s);
}
#[no_mangle]
pub extern "C" fn h_l10_text() {
    rt::real_hash(false);
    let p = template(&"XXXXXXXXXX"[..rt::param(0)], 4, NARROW);
    let mut s = String::new();
    for _ in 0..rt::param(1) {
        s.push(rt::char_of(&['a', 'b']));
    }
    runs_through(&p, &s);
}
/// Any text as pattern, any text as input.
#[no_mangle]
pub extern "C" fn h_l10_any() {
    rt::real_hash(false);
    let p = any_text(rt::param(0));
    let s = any_text(rt::param(1));
    for c in &s.c {
        rt::assume(*c < 0x80);
    }
    runs_through(&p, &s.s);
}
/// `N` is a bound with symbolic last digits.
const LARGE: [&str; 8] = [
    "a{N}",
    "a{N,}",
    "a{N,N}",
    "(a?){N}",
    "(a*){N,}",
    "((a?){N}b?){N,N}",
    "((a|b*){N,})*",
    "(a{N}|b?){N}",
];
#[no_mangle]
pub extern "C" fn h_l10_large() {
    rt::real_hash(false);
    let mut p = Text::new();
    for c in LARGE[rt::param(0)].chars() {
        match c {
            'N' => number(&mut p, 2),
            c => p.push(c),
        }
    }
    let mut s = String::new();
    for _ in 0..rt::param(1) {
        s.push(rt::char_of(&['a', 'b']));
    }
    runs_through(&p, &s);
}
/// Ambiguous repetitions over longer inputs; `n` letters out of which the last
/// two are symbolic.
const AMBIGUOUS: [&str; 14] = [
    "([ab]|a)*",
    "(a|aa)*",
    "(a*)*",
    "(a*b?)*",
    "((a|aa)*)*b",
    "(a?){12}a{12}",
    "(a|[a-c]|.)+c",
    "((a{1,3}){1,3}){1,3}",
    "(a+)+",
    "((a+)+)+b",
    "(a{0,5}a{0,5})*",
    "(.*)(.*)(.*)b",
    "((ab?)*|a)*",
    "(\\w|a)*(\\w|b)*",
];
#[no_mangle]
pub extern "C" fn h_l10_long() {
    rt::real_hash(false);
    let mut p = Text::new();
    p.str(AMBIGUOUS[rt::param(0)]);
    let mut s = String::new();
    for _ in 0..rt::param(1) {
        s.push('a');
    }
    for _ in 0..2 {
        s.push(rt::char_of(&['a', 'b', 'c']));
    }
    runs_through(&p, &s);
}
/// Long patterns, against inputs they are made for.
#[no_mangle]
pub extern "C" fn h_l10_far() {
    let k = rt::param(0);
    rt::real_hash(k != 0);
    let (p, s) = long_pattern(k, rt::param(1));
    runs_through(&p, &s.s);
}
/// Long patterns with an arbitrary end.
#[no_mangle]
pub extern "C" fn h_l10_shape() {
    rt::real_hash(false);
    let p = long_shape(rt::param(0), rt::param(1), rt::param(2));
    let mut s = String::new();
    for _ in 0..2 {
        s.push(rt::char_of(&['a', 'b', 'A']));
    }
    runs_through(&p, &s);
}
