//! The semantics of RFC 9535, written from its text: nodes are (location, reference) pairs.

use crate::ast::*;
use crate::iregexp;
use serde_json::Value;
use std::borrow::Cow;
use std::cell::RefCell;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Elem<'v> {
    Key(&'v str),
    Idx(usize),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Node<'v> {
    pub loc: Vec<Elem<'v>>,
    pub val: &'v Value,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stop {
    /// too much work: the case is not used
    Fuel,
    /// the meaning is outside the domain the model judges
    Unknown,
}

pub type Res<T> = Result<T, Stop>;

/// A value of one of the three function types
#[derive(Debug, Clone)]
pub enum FnVal<'v> {
    Nodes(Vec<&'v Value>),
    Value(Option<Cow<'v, Value>>),
    Logical(bool),
}

pub type UserFn = for<'v> fn(&'static FnSig, &[FnVal<'v>]) -> FnVal<'v>;

#[derive(Clone, Copy)]
pub struct FnSig {
    pub name: &'static str,
    pub params: &'static [Ty],
    pub ret: Ty,
    pub user: Option<UserFn>,
}

pub static BUILTINS: [FnSig; 5] = [
    FnSig { name: "length", params: &[Ty::Value], ret: Ty::Value, user: None },
    FnSig { name: "count", params: &[Ty::Nodes], ret: Ty::Value, user: None },
    FnSig { name: "match", params: &[Ty::Value, Ty::Value], ret: Ty::Logical, user: None },
    FnSig { name: "search", params: &[Ty::Value, Ty::Value], ret: Ty::Logical, user: None },
    FnSig { name: "value", params: &[Ty::Nodes], ret: Ty::Value, user: None },
];

/// The functions a query may name. User functions come first: they shadow built-in ones.
#[derive(Clone, Copy)]
pub struct Funcs {
    pub user: &'static [FnSig],
    pub regex: bool,
}

impl Funcs {
    pub fn get(&self, name: &str) -> Option<&'static FnSig> {
        self.user.iter().find(|f| f.name == name).or_else(|| {
            BUILTINS.iter().find(|f| f.name == name && (self.regex || !matches!(name, "match" | "search")))
        })
    }
}

pub const BUILTIN: Funcs = Funcs { user: &[], regex: true };

/// The deviations from RFC 9535 that are listed in known_findings.txt, for telling them from others
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Quirks {
    /// F4: a negative index in a compared query or an argument selects nothing
    pub idx: bool,
    /// F5: numbers within arrays and objects are compared by representation
    pub num: bool,
    /// F6: `>` and `>=` order booleans, arrays and objects; `<=` and `>=` fail on two missing values
    pub ord: bool,
}

pub struct Ev<'v> {
    pub root: &'v Value,
    pub funcs: Funcs,
    pub quirks: Quirks,
    fuel: RefCell<u64>,
    /// whether a comparison costs as much as the values are large
    pub weigh: bool,
    /// every call a user function may get while evaluating, as an encoding of name and arguments
    pub calls: RefCell<Vec<String>>,
    pub log_calls: bool,
    /// what a test has that the model cannot judge, when only the work is of interest
    pub lenient: Option<bool>,
}

const FUEL: u64 = 60_000;

impl<'v> Ev<'v> {
    pub fn new(root: &'v Value, funcs: Funcs) -> Self {
        Self::with_fuel(root, funcs, FUEL)
    }
    pub fn with_fuel(root: &'v Value, funcs: Funcs, fuel: u64) -> Self {
        Ev { root, funcs, quirks: Quirks::default(), fuel: RefCell::new(fuel), weigh: true, calls: RefCell::new(vec![]), log_calls: false, lenient: None }
    }

    /// What is left of the fuel
    pub fn left(&self) -> u64 {
        *self.fuel.borrow()
    }

    fn burn(&self, n: u64) -> Res<()> {
        let mut f = self.fuel.borrow_mut();
        if *f < n {
            return Err(Stop::Fuel);
        }
        *f -= n;
        Ok(())
    }

    /// Whether evaluating `q` is little enough work, as far as this model can tell
    pub fn affordable(root: &'v Value, funcs: Funcs, q: &Query) -> bool {
        match Self::new(root, funcs).run(q) {
            Ok(_) => true,
            Err(Stop::Fuel) => false,
            Err(Stop::Unknown) => [false, true].iter().all(|b| {
                let mut e = Self::new(root, funcs);
                e.lenient = Some(*b);
                e.run(q) != Err(Stop::Fuel)
            }),
        }
    }

    pub fn run(&self, q: &Query) -> Res<Vec<Node<'v>>> {
        self.query(q, &Node { loc: vec![], val: self.root })
    }

    /// Evaluate `q` with `cur` as the current node
    pub fn query(&self, q: &Query, cur: &Node<'v>) -> Res<Vec<Node<'v>>> {
        let start = if q.root { Node { loc: vec![], val: self.root } } else { cur.clone() };
        let mut nodes = vec![start];
        for s in &q.segs {
            let mut next = vec![];
            for n in &nodes {
                self.segment(s, n, &mut next)?;
            }
            nodes = next;
        }
        Ok(nodes)
    }

    pub fn segment(&self, s: &Seg, n: &Node<'v>, out: &mut Vec<Node<'v>>) -> Res<()> {
        for sel in &s.sels {
            self.selector(sel, n, out)?;
        }
        if s.desc {
            for c in children(n) {
                self.segment(s, &c, out)?;
            }
        }
        Ok(())
    }

    pub fn selector(&self, sel: &Sel, n: &Node<'v>, out: &mut Vec<Node<'v>>) -> Res<()> {
        self.burn(1 + n.loc.len() as u64 / 8)?;
        match sel {
            Sel::Name(name) => {
                if let Value::Object(o) = n.val {
                    for (k, v) in o {
                        if k == name {
                            out.push(push(n, Elem::Key(k), v));
                        }
                    }
                }
            }
            Sel::Wild => {
                let cs = children(n);
                self.burn(cs.len() as u64)?;
                out.extend(cs);
            }
            Sel::Index(i) => {
                if let Value::Array(a) = n.val {
                    let i = i128::from(*i);
                    let len = a.len() as i128;
                    let i = if i < 0 { len + i } else { i };
                    if 0 <= i && i < len {
                        out.push(push(n, Elem::Idx(i as usize), &a[i as usize]));
                    }
                }
            }
            Sel::Slice(s, e, st) => {
                if let Value::Array(a) = n.val {
                    let is = slice_indices(*s, *e, *st, a.len());
                    self.burn(is.len() as u64)?;
                    for i in is {
                        out.push(push(n, Elem::Idx(i), &a[i]));
                    }
                }
            }
            Sel::Filter(o) => {
                for c in children(n) {
                    self.burn(1)?;
                    if self.or(o, &c)? {
                        out.push(c);
                    }
                }
            }
        }
        Ok(())
    }

    // Every operand is evaluated, so that all possible calls of user functions are recorded
    pub fn or(&self, o: &Or, cur: &Node<'v>) -> Res<bool> {
        let mut r = false;
        for a in &o.0 {
            let mut x = true;
            for b in &a.0 {
                x &= self.basic(b, cur)?;
            }
            r |= x;
        }
        Ok(r)
    }

    pub fn basic(&self, b: &Basic, cur: &Node<'v>) -> Res<bool> {
        match (self.judged(b, cur), self.lenient) {
            (Err(Stop::Unknown), Some(b)) => Ok(b),
            (r, _) => r,
        }
    }

    fn judged(&self, b: &Basic, cur: &Node<'v>) -> Res<bool> {
        self.burn(1)?;
        Ok(match b {
            Basic::Paren(neg, o) => self.or(o, cur)? != *neg,
            Basic::Exist(neg, q) => self.query(q, cur)?.is_empty() == *neg,
            Basic::Test(neg, c) => {
                (match self.call(c, cur)? {
                    FnVal::Logical(l) => l,
                    FnVal::Nodes(ns) => !ns.is_empty(),
                    FnVal::Value(_) => return Err(Stop::Unknown),
                }) != *neg
            }
            Basic::Cmp(l, op, r) => {
                let l = self.operand(l, cur)?;
                let r = self.operand(r, cur)?;
                for x in [&l, &r].into_iter().filter(|_| self.weigh) {
                    self.burn(x.as_deref().map_or(0, bulk))?;
                }
                compare(self.quirks, l.as_deref(), *op, r.as_deref())
            }
        })
    }

    pub fn operand(&self, x: &Operand, cur: &Node<'v>) -> Res<Option<Cow<'v, Value>>> {
        match x {
            Operand::Lit(l) => Ok(Some(Cow::Owned(literal(l)?))),
            Operand::Query(q) if self.quirks.idx && has_negative_index(q) => Ok(None),
            Operand::Query(q) => Ok(self.query(q, cur)?.first().map(|n| Cow::Borrowed(n.val))),
            Operand::Call(c) => match self.call(c, cur)? {
                FnVal::Value(v) => Ok(v),
                _ => Err(Stop::Unknown),
            },
        }
    }

    fn arg(&self, a: &Arg, ty: Ty, cur: &Node<'v>) -> Res<FnVal<'v>> {
        Ok(match (a, ty) {
            (Arg::Lit(l), Ty::Value) => FnVal::Value(Some(Cow::Owned(literal(l)?))),
            (Arg::Query(q), ty) => {
                let quirk = self.quirks.idx && q.is_singular() && has_negative_index(q);
                let ns = if quirk { vec![] } else { self.query(q, cur)? };
                match ty {
                    Ty::Value => FnVal::Value(ns.first().map(|n| Cow::Borrowed(n.val))),
                    Ty::Nodes => FnVal::Nodes(ns.iter().map(|n| n.val).collect()),
                    Ty::Logical => FnVal::Logical(!ns.is_empty()),
                }
            }
            (Arg::Logical(o), Ty::Logical) => FnVal::Logical(self.or(o, cur)?),
            (Arg::Call(c), ty) => match (self.call(c, cur)?, ty) {
                (FnVal::Nodes(ns), Ty::Logical) => FnVal::Logical(!ns.is_empty()),
                (v @ FnVal::Nodes(_), Ty::Nodes) | (v @ FnVal::Value(_), Ty::Value) | (v @ FnVal::Logical(_), Ty::Logical) => v,
                _ => return Err(Stop::Unknown),
            },
            _ => return Err(Stop::Unknown),
        })
    }

    pub fn call(&self, c: &Call, cur: &Node<'v>) -> Res<FnVal<'v>> {
        self.burn(1)?;
        let f = self.funcs.get(&c.name).ok_or(Stop::Unknown)?;
        if f.params.len() != c.args.len() {
            return Err(Stop::Unknown);
        }
        let mut args = vec![];
        for (a, ty) in c.args.iter().zip(f.params) {
            args.push(self.arg(a, *ty, cur)?);
        }
        if let Some(user) = f.user {
            for a in &args {
                match a {
                    FnVal::Nodes(ns) => ns.iter().try_for_each(|n| self.burn(bulk(n)))?,
                    FnVal::Value(Some(v)) => self.burn(bulk(v))?,
                    _ => {}
                }
            }
            if self.log_calls {
                self.calls.borrow_mut().push(encode_call(f.name, &args));
            }
            return Ok(user(f, &args));
        }
        if matches!(f.name, "match" | "search") {
            // the library compiles the pattern every time
            let re = match args.get(1) {
                Some(FnVal::Value(Some(v))) => v.as_str().unwrap_or(""),
                _ => "",
            };
            let classes = re.matches("\\p{").count() + re.matches("\\P{").count();
            let negated = re.matches("[^").count() + classes;
            let repeated = re.matches('{').count() - classes;
            self.burn(200 + 60 * re.len().saturating_sub(8) as u64 + 1000 * (negated * (1 + 3 * repeated)) as u64)?;
        }
        builtin(f.name, &args)
    }
}

fn builtin<'v>(name: &str, args: &[FnVal<'v>]) -> Res<FnVal<'v>> {
    Ok(match (name, args) {
        ("length", [FnVal::Value(v)]) => FnVal::Value(
            match v.as_deref() {
                Some(Value::String(s)) => Some(s.chars().count()),
                Some(Value::Array(a)) => Some(a.len()),
                Some(Value::Object(o)) => Some(o.len()),
                _ => None,
            }
            .map(|n| Cow::Owned(Value::from(n))),
        ),
        ("count", [FnVal::Nodes(ns)]) => FnVal::Value(Some(Cow::Owned(Value::from(ns.len())))),
        ("value", [FnVal::Nodes(ns)]) => FnVal::Value(if ns.len() == 1 { Some(Cow::Borrowed(ns[0])) } else { None }),
        ("match" | "search", [FnVal::Value(s), FnVal::Value(r)]) => match (s.as_deref(), r.as_deref()) {
            (Some(Value::String(s)), Some(Value::String(r))) => {
                let re = iregexp::parse(r).ok_or(Stop::Unknown)?;
                FnVal::Logical(if name == "match" { iregexp::full_match(&re, s) } else { iregexp::search(&re, s) }.ok_or(Stop::Unknown)?)
            }
            _ => FnVal::Logical(false),
        },
        _ => return Err(Stop::Unknown),
    })
}

/// The work to compare or write a value
fn bulk(v: &Value) -> u64 {
    match v {
        Value::Array(a) => 1 + a.iter().map(bulk).sum::<u64>(),
        Value::Object(o) => 1 + o.iter().map(|(k, v)| k.len() as u64 / 16 + bulk(v)).sum::<u64>(),
        Value::String(s) => 1 + s.len() as u64 / 16,
        _ => 1,
    }
}

pub fn push<'v>(n: &Node<'v>, e: Elem<'v>, val: &'v Value) -> Node<'v> {
    let mut loc = Vec::with_capacity(n.loc.len() + 1);
    loc.extend_from_slice(&n.loc);
    loc.push(e);
    Node { loc, val }
}

pub fn children<'v>(n: &Node<'v>) -> Vec<Node<'v>> {
    match n.val {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| push(n, Elem::Idx(i), v)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| push(n, Elem::Key(k), v)).collect(),
        _ => vec![],
    }
}

/// Section 2.3.4.2.2
pub fn slice_indices(start: Option<i64>, end: Option<i64>, step: Option<i64>, len: usize) -> Vec<usize> {
    let len = len as i128;
    let step = step.map_or(1, i128::from);
    if step == 0 {
        return vec![];
    }
    let (start, end) = if step > 0 {
        (start.map_or(0, i128::from), end.map_or(len, i128::from))
    } else {
        (start.map_or(len - 1, i128::from), end.map_or(-len - 1, i128::from))
    };
    let normalize = |i: i128| if i >= 0 { i } else { len + i };
    let (n_start, n_end) = (normalize(start), normalize(end));
    let mut out = vec![];
    if step > 0 {
        let lower = n_start.max(0).min(len);
        let upper = n_end.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            i += step;
        }
    } else {
        let upper = n_start.max(-1).min(len - 1);
        let lower = n_end.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            i += step;
        }
    }
    out
}

fn has_negative_index(q: &Query) -> bool {
    q.segs.iter().any(|s| matches!(s.sels[..], [Sel::Index(i)] if i < 0))
}

pub fn compare(k: Quirks, l: Option<&Value>, op: Op, r: Option<&Value>) -> bool {
    let eq = equal(k, l, r);
    if k.ord {
        let kind = |v: &Value| match v {
            Value::Null => 0,
            Value::Bool(_) => 1,
            Value::Number(_) => 2,
            Value::String(_) => 3,
            Value::Array(_) => 4,
            Value::Object(_) => 5,
        };
        let alike = matches!((l, r), (Some(l), Some(r)) if kind(l) == kind(r));
        match op {
            Op::Gt => return alike && !less(l, r) && !eq,
            Op::Ge => return alike && !less(l, r),
            Op::Le => return alike && (less(l, r) || eq),
            _ => {}
        }
    }
    match op {
        Op::Eq => eq,
        Op::Ne => !eq,
        Op::Lt => less(l, r),
        Op::Gt => less(r, l),
        Op::Le => less(l, r) || eq,
        Op::Ge => less(r, l) || eq,
    }
}

fn equal(k: Quirks, l: Option<&Value>, r: Option<&Value>) -> bool {
    match (l, r) {
        (None, None) => true,
        (Some(l @ (Value::Array(_) | Value::Object(_))), Some(r)) if k.num => l == r,
        (Some(l), Some(r)) => same(l, r),
        _ => false,
    }
}

pub fn num(n: &serde_json::Number) -> f64 {
    n.as_f64().unwrap_or(f64::NAN)
}

/// Equality of JSON values, numbers by their mathematical value
pub fn same(l: &Value, r: &Value) -> bool {
    match (l, r) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Number(a), Value::Number(b)) => num(a) == num(b),
        (Value::String(a), Value::String(b)) => a.as_bytes() == b.as_bytes(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && (0..a.len()).all(|i| same(&a[i], &b[i])),
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| same(x, y)))
        }
        _ => false,
    }
}

fn less(l: Option<&Value>, r: Option<&Value>) -> bool {
    match (l, r) {
        (Some(Value::Number(a)), Some(Value::Number(b))) => num(a) < num(b),
        (Some(Value::String(a)), Some(Value::String(b))) => {
            let mut x = a.chars();
            let mut y = b.chars();
            loop {
                match (x.next(), y.next()) {
                    (None, None) | (Some(_), None) => return false,
                    (None, Some(_)) => return true,
                    (Some(p), Some(q)) if p != q => return (p as u32) < (q as u32),
                    _ => {}
                }
            }
        }
        _ => false,
    }
}

/// Number texts whose value every correct reader agrees on
pub fn plain_number(t: &str) -> bool {
    let (mant, exp) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, "0"),
    };
    let Ok(exp) = exp.trim_start_matches('+').parse::<i32>() else { return false };
    let frac = mant.find('.').map_or(0, |i| mant.len() - i - 1) as i32;
    let digits: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
    if digits.bytes().all(|b| b == b'0') {
        return exp.abs() <= 22 && digits.len() < 40;
    }
    let sig = digits.trim_start_matches('0');
    sig.len() <= 16
        && sig.parse::<u64>().is_ok_and(|n| n <= (1 << 53))
        && (exp - frac).abs() <= 22
        && t.parse::<f64>().is_ok_and(|x| x.abs() <= 9_007_199_254_740_991.0 || t.contains(['.', 'e', 'E']))
}

pub fn literal(l: &Lit) -> Res<Value> {
    Ok(match l {
        Lit::Null => Value::Null,
        Lit::Bool(b) => Value::Bool(*b),
        Lit::Str(s) => Value::String(s.clone()),
        Lit::Num(t) => {
            if !plain_number(t) {
                return Err(Stop::Unknown);
            }
            if let Ok(i) = t.parse::<i64>() {
                Value::from(i)
            } else {
                Value::from(t.parse::<f64>().map_err(|_| Stop::Unknown)?)
            }
        }
    })
}

// ---------------------------------------------------------------- locations

/// Section 2.7
pub fn normalized(loc: &[Elem]) -> String {
    let mut out = String::from("$");
    for e in loc {
        match e {
            Elem::Idx(i) => out.push_str(&format!("[{i}]")),
            Elem::Key(k) => {
                out.push_str("['");
                for c in k.chars() {
                    match c as u32 {
                        0x08 => out.push_str("\\b"),
                        0x09 => out.push_str("\\t"),
                        0x0a => out.push_str("\\n"),
                        0x0c => out.push_str("\\f"),
                        0x0d => out.push_str("\\r"),
                        0x27 => out.push_str("\\'"),
                        0x5c => out.push_str("\\\\"),
                        n if n < 0x20 => out.push_str(&format!("\\u00{n:02x}")),
                        _ => out.push(c),
                    }
                }
                out.push_str("']");
            }
        }
    }
    out
}

/// RFC 6901
pub fn pointer(loc: &[Elem]) -> String {
    let mut out = String::new();
    for e in loc {
        out.push('/');
        match e {
            Elem::Idx(i) => out.push_str(&i.to_string()),
            Elem::Key(k) => {
                for c in k.chars() {
                    match c {
                        '~' => out.push_str("~0"),
                        '/' => out.push_str("~1"),
                        c => out.push(c),
                    }
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- user functions

pub fn encode_args(args: &[FnVal]) -> String {
    let mut out = String::new();
    for a in args {
        match a {
            FnVal::Nodes(ns) => {
                out.push('N');
                for n in ns {
                    out.push_str(&format!("<{n}>"));
                }
            }
            FnVal::Value(None) => out.push('-'),
            FnVal::Value(Some(v)) => out.push_str(&format!("V<{}>", canon(v))),
            FnVal::Logical(b) => out.push(if *b { 'T' } else { 'F' }),
        }
        out.push(';');
    }
    out
}

/// The text of a value in which numbers of equal value are written alike
pub fn canon(v: &Value) -> String {
    match v {
        Value::Number(n) => format!("{:?}", num(n) + 0.0),
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            format!("{{{}}}", o.iter().map(|(k, v)| format!("{k:?}:{}", canon(v))).collect::<Vec<_>>().join(","))
        }
        v => v.to_string(),
    }
}

/// One call: nodes by their places, values by their content
pub fn encode_call(name: &str, args: &[FnVal]) -> String {
    let mut out = format!("{name}(");
    for a in args {
        match a {
            FnVal::Nodes(ns) => {
                out.push('N');
                for n in ns {
                    out.push_str(&format!("<{:p}>", *n));
                }
                out.push(';');
            }
            a => out.push_str(&encode_args(std::slice::from_ref(a))),
        }
    }
    out.push(')');
    out
}
