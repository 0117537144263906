//! A recogniser for the RFC 9535 grammar and its typing rules, written from the ABNF.

use crate::ast::*;
use crate::eval::Funcs;

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(Query),
    Reject(String),
    /// outside the domain this model judges
    Unknown(&'static str),
}

enum E {
    Syntax(String),
    Unknown(&'static str),
}

type R<T> = Result<T, E>;

struct P<'a> {
    s: &'a str,
    i: usize,
    depth: u32,
    funcs: Funcs,
    unknown: Option<&'static str>,
}

const MAX_INT: i128 = (1 << 53) - 1;

pub fn parse(s: &str, funcs: Funcs) -> Verdict {
    let mut p = P { s, i: 0, depth: 0, funcs, unknown: None };
    let r = (|| {
        if !p.eat("$") {
            return p.err("expected $");
        }
        let q = p.segments(true)?;
        if p.i != s.len() {
            return p.err("trailing text");
        }
        Ok(q)
    })();
    match (r, p.unknown) {
        (Err(E::Syntax(m)), _) => Verdict::Reject(m),
        (Err(E::Unknown(m)), _) | (Ok(_), Some(m)) => Verdict::Unknown(m),
        (Ok(q), None) => Verdict::Accept(q),
    }
}

impl P<'_> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(E::Syntax(format!("{m} at {}", self.i)))
    }
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, t: &str) -> bool {
        let y = self.rest().starts_with(t);
        if y {
            self.i += t.len();
        }
        y
    }
    fn blank(&mut self) -> bool {
        let start = self.i;
        while let Some(' ' | '\t' | '\n' | '\r') = self.peek() {
            self.i += 1;
        }
        self.i > start
    }
    fn deeper(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > 200 {
            return Err(E::Unknown("nesting"));
        }
        Ok(())
    }

    fn segments(&mut self, root: bool) -> R<Query> {
        let mut q = Query::new(root, vec![]);
        loop {
            let before = self.i;
            self.blank();
            let seg = if self.eat("..") {
                if self.rest().starts_with('[') {
                    let sels = self.bracketed(&mut q.blank_in_brackets)?;
                    Seg { desc: true, sels }
                } else if self.eat("*") {
                    Seg { desc: true, sels: vec![Sel::Wild] }
                } else {
                    Seg { desc: true, sels: vec![Sel::Name(self.shorthand()?)] }
                }
            } else if self.eat(".") {
                if self.eat("*") {
                    Seg::child(Sel::Wild)
                } else {
                    Seg::child(Sel::Name(self.shorthand()?))
                }
            } else if self.rest().starts_with('[') {
                let sels = self.bracketed(&mut q.blank_in_brackets)?;
                Seg { desc: false, sels }
            } else {
                self.i = before;
                return Ok(q);
            };
            q.segs.push(seg);
        }
    }

    fn shorthand(&mut self) -> R<String> {
        let start = self.i;
        while let Some(c) = self.peek() {
            let ok = c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}' || (c.is_ascii_digit() && self.i > start);
            if !ok {
                break;
            }
            self.i += c.len_utf8();
        }
        if self.i == start {
            return self.err("expected a member name");
        }
        Ok(self.s[start..self.i].to_string())
    }

    fn bracketed(&mut self, blank: &mut bool) -> R<Vec<Sel>> {
        self.deeper()?;
        assert!(self.eat("["));
        let mut sels = vec![];
        *blank |= self.blank();
        loop {
            sels.push(self.selector()?);
            *blank |= self.blank();
            if self.eat("]") {
                break;
            }
            if !self.eat(",") {
                return self.err("expected , or ]");
            }
            self.blank();
        }
        self.depth -= 1;
        Ok(sels)
    }

    fn selector(&mut self) -> R<Sel> {
        match self.peek() {
            Some('*') => {
                self.i += 1;
                Ok(Sel::Wild)
            }
            Some('\'' | '"') => Ok(Sel::Name(self.string()?)),
            Some('?') => {
                self.i += 1;
                self.blank();
                Ok(Sel::Filter(self.logical()?))
            }
            Some(':' | '-' | '0'..='9') => {
                let start = self.opt_int()?;
                let after = self.i;
                self.blank();
                if !self.eat(":") {
                    self.i = after;
                    return match start {
                        Some(i) => Ok(Sel::Index(i)),
                        None => self.err("expected a selector"),
                    };
                }
                self.blank();
                let end = self.opt_int()?;
                let after = self.i;
                self.blank();
                let mut step = None;
                if self.eat(":") {
                    let after = self.i;
                    self.blank();
                    step = self.opt_int()?;
                    if step.is_none() {
                        self.i = after;
                    }
                } else {
                    self.i = after;
                }
                Ok(Sel::Slice(start, end, step))
            }
            _ => self.err("expected a selector"),
        }
    }

    fn opt_int(&mut self) -> R<Option<i64>> {
        let start = self.i;
        let neg = self.eat("-");
        let digits = self.digits();
        if digits == 0 {
            if neg {
                return self.err("expected a digit");
            }
            return Ok(None);
        }
        let t = &self.s[start..self.i];
        let d = t.trim_start_matches('-');
        if (d.len() > 1 && d.starts_with('0')) || (neg && d == "0") {
            return self.err("leading zero or negative zero");
        }
        match t.parse::<i128>() {
            Ok(v) if v.abs() <= MAX_INT => Ok(Some(v as i64)),
            _ => self.err("integer out of range"),
        }
    }

    fn digits(&mut self) -> usize {
        let start = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        self.i - start
    }

    fn string(&mut self) -> R<String> {
        let quote = self.peek().unwrap();
        self.i += 1;
        let mut out = String::new();
        loop {
            let Some(c) = self.peek() else { return self.err("unterminated string") };
            self.i += c.len_utf8();
            if c == quote {
                return Ok(out);
            }
            if (c as u32) < 0x20 {
                return self.err("control character in string");
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let Some(e) = self.peek() else { return self.err("unterminated escape") };
            self.i += e.len_utf8();
            match e {
                'b' => out.push('\u{8}'),
                'f' => out.push('\u{c}'),
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '/' | '\\' => out.push(e),
                c if c == quote => out.push(c),
                'u' => {
                    let hi = self.hex4()?;
                    if (0xD800..0xDC00).contains(&hi) {
                        if !self.eat("\\u") {
                            return self.err("lone high surrogate");
                        }
                        let lo = self.hex4()?;
                        if !(0xDC00..0xE000).contains(&lo) {
                            return self.err("expected a low surrogate");
                        }
                        let v = 0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00);
                        out.push(char::from_u32(v).unwrap());
                    } else {
                        match char::from_u32(hi) {
                            Some(c) => out.push(c),
                            None => return self.err("lone low surrogate"),
                        }
                    }
                }
                _ => return self.err("unknown escape"),
            }
        }
    }

    fn hex4(&mut self) -> R<u32> {
        let t: String = self.rest().chars().take(4).collect();
        if t.len() != 4 || !t.bytes().all(|b| b.is_ascii_hexdigit()) {
            return self.err("expected four hexadecimal digits");
        }
        self.i += 4;
        Ok(u32::from_str_radix(&t, 16).unwrap())
    }

    fn logical(&mut self) -> R<Or> {
        self.deeper()?;
        let mut ors = vec![self.and()?];
        loop {
            let before = self.i;
            self.blank();
            if !self.eat("||") {
                self.i = before;
                break;
            }
            self.blank();
            ors.push(self.and()?);
        }
        self.depth -= 1;
        Ok(Or(ors))
    }

    fn and(&mut self) -> R<And> {
        let mut ands = vec![self.basic()?];
        loop {
            let before = self.i;
            self.blank();
            if !self.eat("&&") {
                self.i = before;
                return Ok(And(ands));
            }
            self.blank();
            ands.push(self.basic()?);
        }
    }

    fn basic(&mut self) -> R<Basic> {
        let neg = self.eat("!");
        if neg {
            self.blank();
        }
        if self.eat("(") {
            self.blank();
            let o = self.logical()?;
            self.blank();
            if !self.eat(")") {
                return self.err("expected )");
            }
            return Ok(Basic::Paren(neg, o));
        }
        let left = self.operand()?;
        if neg {
            return self.test(true, left);
        }
        let before = self.i;
        self.blank();
        let Some(op) = self.op() else {
            self.i = before;
            return self.test(false, left);
        };
        self.blank();
        let right = self.operand()?;
        self.comparable(&left)?;
        self.comparable(&right)?;
        Ok(Basic::Cmp(left, op, right))
    }

    fn op(&mut self) -> Option<Op> {
        for op in [Op::Eq, Op::Ne, Op::Le, Op::Ge, Op::Lt, Op::Gt] {
            if self.eat(op.text()) {
                return Some(op);
            }
        }
        None
    }

    fn test(&mut self, neg: bool, x: Operand) -> R<Basic> {
        match x {
            Operand::Lit(_) => self.err("a literal is not a test"),
            Operand::Query(q) => Ok(Basic::Exist(neg, q)),
            Operand::Call(c) => {
                if self.funcs.get(&c.name).is_some_and(|f| f.ret == Ty::Value) {
                    return self.err("a function that yields a value is not a test");
                }
                Ok(Basic::Test(neg, c))
            }
        }
    }

    fn comparable(&mut self, x: &Operand) -> R<()> {
        match x {
            Operand::Lit(_) => Ok(()),
            Operand::Query(q) if !q.is_singular() => self.err("a query that is not singular cannot be compared"),
            Operand::Query(q) => {
                if q.blank_in_brackets {
                    self.unknown = Some("blank space in the brackets of a singular query");
                }
                Ok(())
            }
            Operand::Call(c) => {
                if self.funcs.get(&c.name).is_some_and(|f| f.ret != Ty::Value) {
                    return self.err("a function that yields no value cannot be compared");
                }
                Ok(())
            }
        }
    }

    /// A literal, query or call
    fn operand(&mut self) -> R<Operand> {
        match self.peek() {
            Some('$') => {
                self.i += 1;
                Ok(Operand::Query(self.segments(true)?))
            }
            Some('@') => {
                self.i += 1;
                Ok(Operand::Query(self.segments(false)?))
            }
            Some('\'' | '"') => Ok(Operand::Lit(Lit::Str(self.string()?))),
            Some('-' | '0'..='9') => Ok(Operand::Lit(Lit::Num(self.number()?))),
            Some('a'..='z') => {
                let start = self.i;
                while matches!(self.peek(), Some('a'..='z' | '0'..='9' | '_')) {
                    self.i += 1;
                }
                let word = self.s[start..self.i].to_string();
                if self.rest().starts_with('(') {
                    return Ok(Operand::Call(self.call(word)?));
                }
                match word.as_str() {
                    "true" => Ok(Operand::Lit(Lit::Bool(true))),
                    "false" => Ok(Operand::Lit(Lit::Bool(false))),
                    "null" => Ok(Operand::Lit(Lit::Null)),
                    _ => self.err("unknown word"),
                }
            }
            _ => self.err("expected an operand"),
        }
    }

    fn number(&mut self) -> R<String> {
        let start = self.i;
        self.eat("-");
        let istart = self.i;
        let n = self.digits();
        if n == 0 || (n > 1 && self.s[istart..].starts_with('0')) {
            return self.err("malformed number");
        }
        let mut long = n > 300;
        if self.eat(".") {
            if self.digits() == 0 {
                return self.err("malformed fraction");
            }
        }
        if self.eat("e") || self.eat("E") {
            let below = self.eat("-") || (self.eat("+") && false);
            let estart = self.i;
            if self.digits() == 0 {
                return self.err("malformed exponent");
            }
            // a number may be too large, but none is too small
            let e = self.s[estart..self.i].trim_start_matches('0');
            long |= e.len() > 4 || (!below && e.parse::<usize>().unwrap_or(0) + n > 300);
        }
        if long {
            self.unknown = Some("number of extreme size");
        }
        Ok(self.s[start..self.i].to_string())
    }

    fn call(&mut self, name: String) -> R<Call> {
        self.deeper()?;
        assert!(self.eat("("));
        self.blank();
        let mut args = vec![];
        if !self.eat(")") {
            loop {
                args.push(self.arg()?);
                self.blank();
                if self.eat(")") {
                    break;
                }
                if !self.eat(",") {
                    return self.err("expected , or )");
                }
                self.blank();
            }
        }
        self.depth -= 1;
        let Some(f) = self.funcs.get(&name) else { return self.err("unknown function") };
        if f.params.len() != args.len() {
            return self.err("wrong number of arguments");
        }
        for (a, ty) in args.iter().zip(f.params) {
            let ok = match (a, ty) {
                (Arg::Lit(_), ty) => *ty == Ty::Value,
                (Arg::Query(q), Ty::Value) => {
                    if q.is_singular() && q.blank_in_brackets {
                        self.unknown = Some("blank space in the brackets of a singular query");
                    }
                    q.is_singular()
                }
                (Arg::Query(_), _) => true,
                (Arg::Logical(_), ty) => *ty == Ty::Logical,
                (Arg::Call(c), ty) => {
                    let ret = self.funcs.get(&c.name).expect("checked when it was parsed").ret;
                    ret == *ty || (ret == Ty::Nodes && *ty == Ty::Logical)
                }
            };
            if !ok {
                return self.err("ill-typed argument");
            }
        }
        Ok(Call { name, args })
    }

    fn arg(&mut self) -> R<Arg> {
        // a literal that is not the left side of a comparison
        if matches!(self.peek(), Some('\'' | '"' | '-' | '0'..='9' | 'a'..='z')) {
            let before = self.i;
            let x = self.operand()?;
            let after = self.i;
            self.blank();
            let end = self.rest().starts_with([',', ')']);
            self.i = after;
            match x {
                Operand::Lit(l) if end => return Ok(Arg::Lit(l)),
                Operand::Call(c) if end => return Ok(Arg::Call(c)),
                _ => self.i = before,
            }
        }
        Ok(self.logical()?.into_arg())
    }
}
