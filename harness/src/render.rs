//! Writes a query down, in one fixed spelling or in any spelling the grammar allows.

use crate::ast::*;
use crate::engine::Src;

pub struct Spell<'s> {
    src: Option<&'s mut Src>,
    out: String,
    /// blank space is written at one allowed place in so many
    blanks: u64,
    parens: bool,
}

pub fn plain(q: &Query) -> String {
    let mut s = Spell { src: None, out: String::new(), blanks: 0, parens: false };
    s.query(q, false);
    s.out
}

/// A random spelling; redundant parentheses only where they do not change which grammar rule applies
pub fn random(src: &mut Src, q: &Query) -> String {
    let blanks = src.of(&[0, 12, 6, 3, 1]);
    let mut s = Spell { src: Some(src), out: String::new(), blanks, parens: true };
    s.query(q, false);
    s.out
}

pub fn is_shorthand(n: &str) -> bool {
    let mut cs = n.chars();
    let first = |c: char| c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}';
    cs.next().is_some_and(first) && cs.all(|c| first(c) || c.is_ascii_digit())
}

pub fn blank_text(src: &mut Src) -> String {
    (0..src.size(1, 4)).map(|_| src.of(&[' ', '\n', '\t', '\r'])).collect()
}

/// A literal for `s` in some spelling
pub fn string_literal(src: &mut Src, s: &str) -> String {
    let quote = src.of(&['\'', '"']);
    let escapes = src.of(&[0, 1, 4]);
    let mut out = String::from(quote);
    for c in s.chars() {
        let must = (c as u32) < 0x20 || c == '\\' || c == quote;
        if !must && !(escapes > 0 && src.chance(escapes, 5)) {
            out.push(c);
            continue;
        }
        let short = match c {
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '/' | '\\' => Some(c),
            c if c == quote => Some(c),
            _ => None,
        };
        match short {
            Some(e) if !src.chance(1, 4) => {
                out.push('\\');
                out.push(e);
            }
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str("\\u");
                    for d in format!("{u:04x}").chars() {
                        out.push(if src.coin() { d.to_ascii_uppercase() } else { d });
                    }
                }
            }
        }
    }
    out.push(quote);
    out
}

pub fn plain_literal(s: &str) -> String {
    let mut out = String::from("'");
    for c in s.chars() {
        match c {
            '\'' => out.push_str("\\'"),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('\'');
    out
}

impl Spell<'_> {
    fn chance(&mut self, n: u64, d: u64) -> bool {
        self.src.as_mut().is_some_and(|s| s.chance(n, d))
    }
    fn s(&mut self) {
        if self.blanks > 0 {
            if let Some(src) = self.src.as_mut() {
                if src.chance(1, self.blanks) {
                    let t = blank_text(src);
                    self.out.push_str(&t);
                }
            }
        }
    }
    fn p(&mut self, t: &str) {
        self.out.push_str(t);
    }
    fn string(&mut self, t: &str) {
        let l = match self.src.as_mut() {
            Some(src) => string_literal(src, t),
            None => plain_literal(t),
        };
        self.p(&l);
    }

    fn query(&mut self, q: &Query, tight: bool) {
        self.p(if q.root { "$" } else { "@" });
        for seg in &q.segs {
            self.s();
            self.segment(seg, tight);
        }
    }

    fn segment(&mut self, seg: &Seg, tight: bool) {
        if seg.desc {
            self.p("..");
        }
        if let [Sel::Name(n)] = &seg.sels[..] {
            if is_shorthand(n) && (self.src.is_none() || self.chance(1, 2)) {
                if !seg.desc {
                    self.p(".");
                }
                return self.p(n);
            }
        }
        if let [Sel::Wild] = &seg.sels[..] {
            if self.src.is_none() || self.chance(1, 2) {
                return self.p(if seg.desc { "*" } else { ".*" });
            }
        }
        self.p("[");
        for (i, sel) in seg.sels.iter().enumerate() {
            if i > 0 {
                self.s();
                self.p(",");
            }
            if !tight || i > 0 {
                self.s();
            }
            self.selector(sel);
        }
        if !tight {
            self.s();
        }
        self.p("]");
    }

    fn selector(&mut self, sel: &Sel) {
        match sel {
            Sel::Name(n) => self.string(n),
            Sel::Wild => self.p("*"),
            Sel::Index(i) => self.p(&i.to_string()),
            Sel::Slice(a, b, c) => {
                // explicit defaults that do not depend on the length of the array
                let a = match (a, c.unwrap_or(1)) {
                    (None, 1..) if self.chance(1, 4) => Some(0),
                    (None, ..=-1) if self.chance(1, 4) => Some(-1),
                    _ => *a,
                };
                let c = if c.is_none() && self.chance(1, 4) { Some(1) } else { *c };
                if let Some(a) = a {
                    self.p(&a.to_string());
                    self.s();
                }
                self.p(":");
                self.s();
                if let Some(b) = b {
                    self.p(&b.to_string());
                    self.s();
                }
                match c {
                    Some(c) => {
                        self.p(":");
                        self.s();
                        self.p(&c.to_string());
                    }
                    None if self.chance(1, 4) => self.p(":"),
                    None => {}
                }
            }
            Sel::Filter(o) => {
                self.p("?");
                self.s();
                self.or_parens(o);
            }
        }
    }

    /// An expression, perhaps within redundant parentheses
    fn or_parens(&mut self, o: &Or) {
        if self.parens && self.chance(1, 10) {
            self.p("(");
            self.s();
            self.or_parens(o);
            self.s();
            self.p(")");
        } else {
            self.or(o);
        }
    }

    fn or(&mut self, o: &Or) {
        for (i, a) in o.0.iter().enumerate() {
            if i > 0 {
                self.s();
                self.p("||");
                self.s();
            }
            if o.0.len() > 1 && self.parens && self.chance(1, 12) {
                self.p("(");
                self.s();
                self.and(a);
                self.s();
                self.p(")");
            } else {
                self.and(a);
            }
        }
    }

    fn and(&mut self, a: &And) {
        for (i, b) in a.0.iter().enumerate() {
            if i > 0 {
                self.s();
                self.p("&&");
                self.s();
            }
            if a.0.len() > 1 && self.parens && self.chance(1, 12) {
                self.p("(");
                self.s();
                self.basic(b);
                self.s();
                self.p(")");
            } else {
                self.basic(b);
            }
        }
    }

    fn basic(&mut self, b: &Basic) {
        match b {
            Basic::Paren(neg, o) => {
                if *neg {
                    self.p("!");
                    self.s();
                }
                self.p("(");
                self.s();
                self.or(o);
                self.s();
                self.p(")");
            }
            Basic::Exist(neg, q) => {
                self.not(*neg);
                self.query(q, false);
            }
            Basic::Test(neg, c) => {
                self.not(*neg);
                self.call(c);
            }
            Basic::Cmp(l, op, r) => {
                self.operand(l);
                self.s();
                self.p(op.text());
                self.s();
                self.operand(r);
            }
        }
    }

    fn not(&mut self, neg: bool) {
        if neg {
            self.p("!");
            self.s();
        }
    }

    fn operand(&mut self, x: &Operand) {
        match x {
            Operand::Lit(l) => self.lit(l),
            Operand::Query(q) => self.query(q, true),
            Operand::Call(c) => self.call(c),
        }
    }

    fn lit(&mut self, l: &Lit) {
        match l {
            Lit::Null => self.p("null"),
            Lit::Bool(b) => self.p(if *b { "true" } else { "false" }),
            Lit::Num(t) => self.p(t),
            Lit::Str(t) => self.string(t),
        }
    }

    fn call(&mut self, c: &Call) {
        self.p(&c.name);
        self.p("(");
        self.s();
        for (i, a) in c.args.iter().enumerate() {
            if i > 0 {
                self.s();
                self.p(",");
                self.s();
            }
            match a {
                Arg::Lit(l) => self.lit(l),
                Arg::Query(q) => {
                    let tight = q.is_singular();
                    self.query(q, tight);
                }
                Arg::Logical(o) => self.or(o),
                Arg::Call(c) => self.call(c),
            }
        }
        self.s();
        self.p(")");
    }
}
