//! I-Regexp (RFC 9485): syntax, a matcher on position sets, a generator
//! of patterns and of subjects near their language.

use crate::engine::Src;

#[derive(Debug, Clone, PartialEq)]
pub enum Re {
    Alt(Vec<Vec<Piece>>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Piece {
    pub atom: Atom,
    pub min: u32,
    pub max: Option<u32>,
    /// text of the quantifier
    pub quant: String,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Atom {
    Char(char, bool),
    Dot,
    /// negated, ranges, categories, text
    Class(bool, Vec<(char, char)>, Vec<Cat>, String),
    Cat(Cat),
    Group(Re),
}

/// Whether the complement is meant, and the category
pub type Cat = (bool, &'static str);

pub const CATEGORIES: [&str; 36] = [
    "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C", "Cc",
    "Cf", "Cn", "Co",
];

/// Characters of each category beyond ASCII
pub const KNOWN: [(&str, &[char]); 27] = [
    ("Ll", &['é', 'ß', 'я', 'ω', '𝒶']),
    ("Lu", &['É', 'Я', 'Ω', '𝒜', '𐐀']),
    ("Lt", &['ǅ', 'ᾈ']),
    ("Lm", &['ʰ', 'ー', '々']),
    ("Lo", &['ª', 'א', '日', '한', 'ب', '𠀀']),
    ("Mn", &['\u{301}', '\u{fe0f}', '\u{e0100}']),
    ("Mc", &['\u{903}', '\u{93e}']),
    ("Me", &['\u{20dd}', '\u{488}']),
    ("Nd", &['٣', '１', '९', '𝟘']),
    ("Nl", &['Ⅷ', '〇', 'ⅷ']),
    ("No", &['²', '½', '①']),
    ("Pc", &['‿']),
    ("Pd", &['–', '—', '〜']),
    ("Ps", &['「', '⁅']),
    ("Pe", &['」', '⁆']),
    ("Pi", &['«', '‘']),
    ("Pf", &['»', '’']),
    ("Po", &['§', '…', '、', '¿']),
    ("Sm", &['±', '×', '∑']),
    ("Sc", &['€', '¢', '₿']),
    ("Sk", &['¨', '´', '🏻']),
    ("So", &['©', '😀', '☃', '\u{fffd}']),
    ("Zs", &['\u{a0}', '\u{3000}', '\u{2003}']),
    ("Zl", &['\u{2028}']),
    ("Zp", &['\u{2029}']),
    ("Cf", &['\u{200d}', '\u{feff}', '\u{ad}']),
    ("Cc", &['\u{85}', '\u{9f}']),
];

/// The category, of ASCII characters and some others
fn category(c: char) -> Option<&'static str> {
    Some(match c {
        '\0'..='\u{1f}' | '\u{7f}' => "Cc",
        ' ' => "Zs",
        '0'..='9' => "Nd",
        'A'..='Z' => "Lu",
        'a'..='z' => "Ll",
        '$' => "Sc",
        '+' | '<'..='>' | '|' | '~' => "Sm",
        '^' | '`' => "Sk",
        '_' => "Pc",
        '-' => "Pd",
        '(' | '[' | '{' => "Ps",
        ')' | ']' | '}' => "Pe",
        c if c.is_ascii() => "Po",
        '\u{e000}'..='\u{f8ff}' => "Co",
        '\u{fdd0}'..='\u{fdef}' => "Cn",
        c => return KNOWN.iter().find(|(_, cs)| cs.contains(&c)).map(|k| k.0),
    })
}

fn is_in(c: char, cat: Cat) -> Option<bool> {
    category(c).map(|x| x.starts_with(cat.1) != cat.0)
}

impl Atom {
    /// or `unknown`, if that is not known
    fn accepts(&self, c: char, unknown: bool) -> bool {
        match self {
            Atom::Char(x, _) => *x == c,
            Atom::Dot => c != '\n' && c != '\r',
            Atom::Cat(cat) => is_in(c, *cat).unwrap_or(unknown),
            Atom::Class(neg, rs, cats, _) => {
                let cats: Vec<_> = cats.iter().map(|k| is_in(c, *k)).collect();
                if rs.iter().any(|(a, b)| *a <= c && c <= *b) || cats.contains(&Some(true)) {
                    !*neg
                } else if cats.contains(&None) {
                    unknown
                } else {
                    *neg
                }
            }
            Atom::Group(_) => unreachable!(),
        }
    }
}

/// The end positions of matches of `re` that begin at one of `from`
fn step(re: &Re, s: &[char], from: &[bool], unknown: bool) -> Vec<bool> {
    let Re::Alt(branches) = re;
    let mut out = vec![false; s.len() + 1];
    for b in branches {
        let mut at = from.to_vec();
        for p in b {
            at = repeat(p, s, &at, unknown);
        }
        for (o, a) in out.iter_mut().zip(at) {
            *o |= a;
        }
    }
    out
}

fn atom_step(a: &Atom, s: &[char], from: &[bool], unknown: bool) -> Vec<bool> {
    if let Atom::Group(re) = a {
        return step(re, s, from, unknown);
    }
    let mut out = vec![false; s.len() + 1];
    for i in 0..s.len() {
        if from[i] && a.accepts(s[i], unknown) {
            out[i + 1] = true;
        }
    }
    out
}

fn repeat(p: &Piece, s: &[char], from: &[bool], unknown: bool) -> Vec<bool> {
    let mut at = from.to_vec();
    for _ in 0..p.min {
        at = atom_step(&p.atom, s, &at, unknown);
    }
    let mut out = at.clone();
    let mut n = p.min;
    while p.max.is_none_or(|m| n < m) {
        at = atom_step(&p.atom, s, &at, unknown);
        let mut new = false;
        for i in 0..out.len() {
            if at[i] && !out[i] {
                out[i] = true;
                new = true;
            }
        }
        n += 1;
        if !new && p.max.is_none() {
            break;
        }
        if !at.iter().any(|x| *x) {
            break;
        }
    }
    out
}

/// Whether the subject, or a part of it, matches, unless that depends on a category that is not known here
fn judge(s: &str, go: impl Fn(&[char], bool) -> bool) -> Option<bool> {
    let s: Vec<char> = s.chars().collect();
    // to accept more characters never makes less match
    let (least, most) = (go(&s, false), go(&s, true));
    (least == most).then_some(most)
}

pub fn full_match(re: &Re, subject: &str) -> Option<bool> {
    judge(subject, |s, unknown| {
        let mut from = vec![false; s.len() + 1];
        from[0] = true;
        step(re, s, &from, unknown)[s.len()]
    })
}

pub fn search(re: &Re, subject: &str) -> Option<bool> {
    judge(subject, |s, unknown| step(re, s, &vec![true; s.len() + 1], unknown).iter().any(|x| *x))
}

const META: &str = "()*+.?[\\]{|}";

struct P<'a> {
    s: &'a [char],
    i: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == Some(c);
        if y {
            self.i += 1;
        }
        y
    }
    fn alt(&mut self, depth: u32) -> Option<Re> {
        let mut bs = vec![self.branch(depth)?];
        while self.eat('|') {
            bs.push(self.branch(depth)?);
        }
        Some(Re::Alt(bs))
    }
    fn branch(&mut self, depth: u32) -> Option<Vec<Piece>> {
        let mut ps = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let atom = self.atom(depth)?;
            let start = self.i;
            let (min, max) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    self.i += 1;
                    let lo = self.num()?;
                    let hi = if self.eat(',') {
                        if self.peek() == Some('}') { None } else { Some(self.num()?) }
                    } else {
                        Some(lo)
                    };
                    if self.peek() != Some('}') || hi.is_some_and(|h| h < lo) {
                        return None;
                    }
                    (lo, hi)
                }
                _ => {
                    ps.push(Piece { atom, min: 1, max: Some(1), quant: String::new() });
                    continue;
                }
            };
            self.i += 1;
            let quant = self.s[start..self.i].iter().collect();
            ps.push(Piece { atom, min, max, quant });
        }
        Some(ps)
    }
    fn num(&mut self) -> Option<u32> {
        let start = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        let t: String = self.s[start..self.i].iter().collect();
        t.parse().ok().filter(|n| *n <= 60)
    }
    fn escape(&mut self) -> Option<char> {
        // after the backslash
        let c = self.peek()?;
        self.i += 1;
        match c {
            'n' => Some('\n'),
            'r' => Some('\r'),
            't' => Some('\t'),
            '-' | '^' => Some(c),
            c if META.contains(c) => Some(c),
            _ => None,
        }
    }
    /// after the backslash
    fn cat(&mut self) -> Option<Cat> {
        let neg = match self.peek() {
            Some('p') => false,
            Some('P') => true,
            _ => return None,
        };
        let end = self.s[self.i..].iter().take(5).position(|c| *c == '}')? + self.i;
        let name: String = self.s[self.i + 1..end].iter().collect();
        let name = CATEGORIES.iter().find(|c| name.strip_prefix('{') == Some(c))?;
        self.i = end + 1;
        Some((neg, name))
    }
    fn atom(&mut self, depth: u32) -> Option<Atom> {
        let c = self.peek()?;
        self.i += 1;
        match c {
            '.' => Some(Atom::Dot),
            '\\' => match self.cat() {
                Some(c) => Some(Atom::Cat(c)),
                None => self.escape().map(|c| Atom::Char(c, true)),
            },
            '(' => {
                if depth > 20 {
                    return None;
                }
                let re = self.alt(depth + 1)?;
                self.eat(')').then_some(Atom::Group(re))
            }
            '[' => {
                let start = self.i - 1;
                let neg = self.eat('^');
                let mut rs = vec![];
                let mut cats = vec![];
                let mut first = true;
                loop {
                    let c = self.peek()?;
                    self.i += 1;
                    if c == '\\' {
                        if let Some(k) = self.cat() {
                            // not the start of a range
                            if self.peek() == Some('-') && self.s.get(self.i + 1) != Some(&']') {
                                return None;
                            }
                            cats.push(k);
                            first = false;
                            continue;
                        }
                    }
                    let lo = match c {
                        ']' if first => return None,
                        ']' => break,
                        '-' if first || self.peek() == Some(']') => '-',
                        '-' | '[' | '^' | '&' | '~' => return None,
                        '\\' => self.escape()?,
                        c => c,
                    };
                    first = false;
                    if self.peek() == Some('-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
                        if c == '-' {
                            return None;
                        }
                        self.i += 1;
                        let c = self.peek()?;
                        self.i += 1;
                        let hi = match c {
                            '-' | '[' | '^' | '&' | '~' => return None,
                            '\\' => self.escape()?,
                            c => c,
                        };
                        if hi < lo {
                            return None;
                        }
                        rs.push((lo, hi));
                    } else {
                        rs.push((lo, lo));
                    }
                }
                Some(Atom::Class(neg, rs, cats, self.s[start..self.i].iter().collect()))
            }
            '^' | '$' => None,
            c if META.contains(c) => None,
            c => Some(Atom::Char(c, false)),
        }
    }
}

/// How much the counted repetitions multiply, so that only patterns of ordinary size are judged
fn weight(re: &Re) -> u64 {
    let Re::Alt(bs) = re;
    bs.iter()
        .flatten()
        .map(|p| {
            let w = match &p.atom {
                Atom::Group(re) => weight(re),
                Atom::Cat(_) => 40,
                Atom::Class(_, _, cats, _) => 1 + 40 * cats.len() as u64,
                _ => 1,
            };
            w * u64::from(p.max.unwrap_or(p.min + 1).max(1))
        })
        .sum::<u64>()
        + 1
}

/// The pattern as I-Regexp, if it is one on whose meaning the regex dialects agree
pub fn parse(text: &str) -> Option<Re> {
    let s: Vec<char> = text.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let re = p.alt(0)?;
    (p.i == s.len() && weight(&re) <= 2000).then_some(re)
}

pub fn cat_text((neg, name): Cat) -> String {
    format!("\\{}{{{name}}}", if neg { 'P' } else { 'p' })
}

pub fn render(re: &Re) -> String {
    let Re::Alt(bs) = re;
    let mut out = String::new();
    for (i, b) in bs.iter().enumerate() {
        if i > 0 {
            out.push('|');
        }
        for p in b {
            match &p.atom {
                Atom::Char('\n', true) => out.push_str("\\n"),
                Atom::Char('\r', true) => out.push_str("\\r"),
                Atom::Char('\t', true) => out.push_str("\\t"),
                Atom::Char(c, esc) => {
                    if *esc {
                        out.push('\\');
                    }
                    out.push(*c);
                }
                Atom::Dot => out.push('.'),
                Atom::Class(_, _, _, t) => out.push_str(t),
                Atom::Cat(c) => out.push_str(&cat_text(*c)),
                Atom::Group(re) => {
                    out.push('(');
                    out.push_str(&render(re));
                    out.push(')');
                }
            }
            out.push_str(&p.quant);
        }
    }
    out
}

// ---------------------------------------------------------------- generation

const CHARS: [char; 16] = ['a', 'b', 'c', 'A', 'B', '0', '1', '-', ' ', '_', '/', 'é', '😀', '"', '\'', '#'];
const ESCAPED: [char; 19] = ['(', ')', '*', '+', '-', '.', '?', '[', '\\', ']', '^', '{', '|', '}', '\n', '\r', '\t', '(', '|'];

pub fn gen(src: &mut Src, depth: u32) -> Re {
    let n = 1 + src.weighted(&[6, 3, 1]);
    Re::Alt((0..n).map(|_| (0..src.size(if n > 1 { 0 } else { 1 }, 4)).map(|_| gen_piece(src, depth)).collect()).collect())
}

fn gen_piece(src: &mut Src, depth: u32) -> Piece {
    let atom = match src.weighted(&[27, 9, 9, 6, if depth > 0 { 12 } else { 0 }, 3]) {
        0 => Atom::Char(src.of(&CHARS), false),
        1 => Atom::Dot,
        2 => gen_class(src),
        3 => Atom::Char(src.of(&ESCAPED), true),
        4 => Atom::Group(gen(src, depth - 1)),
        _ => Atom::Cat(gen_cat(src)),
    };
    let (min, max, quant) = match src.weighted(&[10, 2, 2, 2, 2, 1, 1]) {
        0 => (1, Some(1), String::new()),
        1 => (0, None, "*".into()),
        2 => (1, None, "+".into()),
        3 => (0, Some(1), "?".into()),
        k => {
            let lo = src.below(4) as u32;
            match k {
                4 => (lo, Some(lo), format!("{{{lo}}}")),
                5 => (lo, None, format!("{{{lo},}}")),
                _ => {
                    let hi = lo + src.below(3) as u32;
                    (lo, Some(hi), format!("{{{lo},{hi}}}"))
                }
            }
        }
    };
    Piece { atom, min, max, quant }
}

fn gen_cat(src: &mut Src) -> Cat {
    (src.chance(1, 3), src.of(&CATEGORIES))
}

fn gen_class(src: &mut Src) -> Atom {
    let neg = src.chance(1, 3);
    let mut t = String::from(if neg { "[^" } else { "[" });
    let mut rs = vec![];
    let mut cats = vec![];
    let n = src.size(1, 4);
    if src.chance(1, 8) {
        t.push('-');
        rs.push(('-', '-'));
    }
    for _ in 0..n {
        match src.weighted(&[12, 9, 6, 1]) {
            3 => {
                let k = gen_cat(src);
                t.push_str(&cat_text(k));
                cats.push(k);
            }
            0 => {
                let c = src.of(&['a', 'b', 'c', 'A', '0', '1', ' ', '_', 'é', '😀', '.', '*', '(', '|', '$']);
                t.push(c);
                rs.push((c, c));
            }
            1 => {
                let (a, b) = src.of(&[('a', 'c'), ('a', 'z'), ('0', '9'), ('A', 'Z'), ('b', 'b'), ('à', 'ü'), ('😀', '😎'), (' ', '~')]);
                t.push(a);
                t.push('-');
                t.push(b);
                rs.push((a, b));
            }
            _ => {
                let c = src.of(&ESCAPED);
                t.push('\\');
                t.push(match c {
                    '\n' => 'n',
                    '\r' => 'r',
                    '\t' => 't',
                    c => c,
                });
                rs.push((c, c));
            }
        }
    }
    if src.chance(1, 8) {
        t.push('-');
        rs.push(('-', '-'));
    }
    t.push(']');
    Atom::Class(neg, rs, cats, t)
}

/// A character of the category, or another one with a known category
fn of_category(src: &mut Src, cat: Cat) -> char {
    let from = src.below(128 + 80);
    let known = KNOWN.iter().flat_map(|k| k.1.iter().copied());
    let all: Vec<char> = (0..128u8).map(char::from).chain(known).collect();
    (0..all.len()).map(|i| all[(from + i) % all.len()]).find(|c| is_in(*c, cat) == Some(true)).unwrap_or('\u{e000}')
}

/// A string of the language, usually
pub fn sample(src: &mut Src, re: &Re, out: &mut String) {
    let Re::Alt(bs) = re;
    let b = &bs[src.below(bs.len())];
    for p in b {
        let extra = src.size(0, 2) as u32;
        let n = match p.max {
            Some(m) => (p.min + extra).min(m),
            None => p.min + extra,
        };
        for _ in 0..n {
            if out.len() > 60 {
                return;
            }
            match &p.atom {
                Atom::Char(c, _) => out.push(*c),
                Atom::Dot => out.push(src.of(&['x', 'a', ' ', '😀', '.', '\t', '\u{2028}', '\u{85}', '\u{0b}'])),
                Atom::Cat(cat) => out.push(of_category(src, *cat)),
                Atom::Class(false, rs, cats, _) if rs.is_empty() || !cats.is_empty() && src.coin() => {
                    let cat = src.of(cats);
                    out.push(of_category(src, cat));
                }
                Atom::Class(false, rs, ..) => {
                    let (a, b) = rs[src.below(rs.len())];
                    let off = src.draw(u64::from(b as u32 - a as u32).min(40)) as u32;
                    out.push(char::from_u32(a as u32 + off).unwrap_or(a));
                }
                Atom::Class(true, ..) => out.push(src.of(&['z', 'x', '\n', '\r', 'Z', '9', '😁', 'b'])),
                Atom::Group(re) => sample(src, re, out),
            }
        }
    }
}

/// A subject for the pattern: in its language, around it, or unrelated
pub fn subject(src: &mut Src, re: &Re) -> String {
    let mut s = String::new();
    match src.weighted(&[8, 1]) {
        0 => sample(src, re, &mut s),
        _ => {
            for _ in 0..src.size(0, 6) {
                s.push(src.of(&['a', 'b', 'c', 'A', '0', '-', '\n', '\r', '😀', '.']));
            }
        }
    }
    match src.weighted(&[5, 2, 2, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => s.push(src.of(&['a', 'b', '\n', '\r', '$', 'A', '0', ' '])),
        2 => s.insert(0, src.of(&['a', 'b', '\n', '\r', '^', 'A', '0', ' '])),
        3 => {
            s.pop();
        }
        4 => {
            if !s.is_empty() {
                s.remove(0);
            }
        }
        5 => s.push_str("\r\n"),
        6 => s = s.to_uppercase(),
        _ => {
            let cs: Vec<char> = s.chars().collect();
            if !cs.is_empty() {
                let i = src.below(cs.len());
                let c = src.of(&['a', 'b', '\n', '\r', '.', 'é', 'B']);
                s = cs.iter().enumerate().map(|(k, x)| if k == i { c } else { *x }).collect();
            }
        }
    }
    s
}
