//! The abstract syntax of RFC 9535 queries, written from the RFC and sharing nothing with the
//! library under test.

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Query {
    pub root: bool,
    pub segs: Vec<Seg>,
    /// blank space was written inside the brackets of a segment (only the parser sets this)
    pub blank_in_brackets: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Or),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Or(pub Vec<And>);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct And(pub Vec<Basic>);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Basic {
    Paren(bool, Or),
    Exist(bool, Query),
    Test(bool, Call),
    Cmp(Operand, Op, Operand),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Operand {
    Lit(Lit),
    Query(Query),
    Call(Call),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Lit {
    Null,
    Bool(bool),
    /// the text of the number
    Num(String),
    Str(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Call {
    pub name: String,
    pub args: Vec<Arg>,
}

/// `Logical` is never a lone query or a lone call: those are `Query` and `Call`
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Arg {
    Lit(Lit),
    Query(Query),
    Logical(Or),
    Call(Call),
}

impl Query {
    pub fn new(root: bool, segs: Vec<Seg>) -> Self {
        Query { root, segs, blank_in_brackets: false }
    }
    pub fn is_singular(&self) -> bool {
        self.segs.iter().all(|s| !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_)))
    }
}

impl Seg {
    pub fn child(sel: Sel) -> Self {
        Seg { desc: false, sels: vec![sel] }
    }
}

impl Or {
    pub fn one(b: Basic) -> Self {
        Or(vec![And(vec![b])])
    }
    /// The argument that this expression is, by the rule above
    pub fn into_arg(mut self) -> Arg {
        if self.0.len() == 1 && self.0[0].0.len() == 1 {
            match self.0[0].0.pop().unwrap() {
                Basic::Exist(false, q) => return Arg::Query(q),
                Basic::Test(false, c) => return Arg::Call(c),
                b => self.0[0].0.push(b),
            }
        }
        Arg::Logical(self)
    }
}

// ---------------------------------------------------------------- the types of functions

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ty {
    Nodes,
    Value,
    Logical,
}

pub const TYS: [Ty; 3] = [Ty::Nodes, Ty::Value, Ty::Logical];

/// Visit every query of a query, itself first
pub fn each_query(q: &Query, f: &mut dyn FnMut(&Query)) {
    f(q);
    for s in &q.segs {
        for sel in &s.sels {
            if let Sel::Filter(o) = sel {
                each_query_or(o, f);
            }
        }
    }
}

pub fn each_query_or(o: &Or, f: &mut dyn FnMut(&Query)) {
    for b in o.0.iter().flat_map(|a| &a.0) {
        match b {
            Basic::Paren(_, o) => each_query_or(o, f),
            Basic::Exist(_, q) => each_query(q, f),
            Basic::Test(_, c) => each_query_call(c, f),
            Basic::Cmp(l, _, r) => {
                for x in [l, r] {
                    match x {
                        Operand::Query(q) => each_query(q, f),
                        Operand::Call(c) => each_query_call(c, f),
                        Operand::Lit(_) => {}
                    }
                }
            }
        }
    }
}

pub fn each_query_call(c: &Call, f: &mut dyn FnMut(&Query)) {
    for a in &c.args {
        match a {
            Arg::Query(q) => each_query(q, f),
            Arg::Logical(o) => each_query_or(o, f),
            Arg::Call(c) => each_query_call(c, f),
            Arg::Lit(_) => {}
        }
    }
}

/// Visit every call of a query
pub fn each_call(q: &Query, f: &mut dyn FnMut(&Call)) {
    fn or(o: &Or, f: &mut dyn FnMut(&Call)) {
        for b in o.0.iter().flat_map(|a| &a.0) {
            match b {
                Basic::Paren(_, o) => or(o, f),
                Basic::Exist(_, q) => each_call(q, f),
                Basic::Test(_, c) => call(c, f),
                Basic::Cmp(l, _, r) => {
                    for x in [l, r] {
                        match x {
                            Operand::Query(q) => each_call(q, f),
                            Operand::Call(c) => call(c, f),
                            Operand::Lit(_) => {}
                        }
                    }
                }
            }
        }
    }
    fn call(c: &Call, f: &mut dyn FnMut(&Call)) {
        f(c);
        for a in &c.args {
            match a {
                Arg::Query(q) => each_call(q, f),
                Arg::Logical(o) => or(o, f),
                Arg::Call(c) => call(c, f),
                Arg::Lit(_) => {}
            }
        }
    }
    for s in &q.segs {
        for sel in &s.sels {
            if let Sel::Filter(o) = sel {
                or(o, f);
            }
        }
    }
}

// ---------------------------------------------------------------- rewriting

/// Edits every part of a query in place, outer parts first
pub trait Rewrite {
    fn query(&mut self, _: &mut Query) {}
    fn seg(&mut self, _: &mut Seg) {}
    fn sel(&mut self, _: &mut Sel) {}
    fn or(&mut self, _: &mut Or) {}
    fn and(&mut self, _: &mut And) {}
    fn basic(&mut self, _: &mut Basic) {}
    fn operand(&mut self, _: &mut Operand) {}
    fn lit(&mut self, _: &mut Lit) {}
    fn call(&mut self, _: &mut Call) {}
    fn arg(&mut self, _: &mut Arg) {}
}

pub fn rewrite(q: &mut Query, r: &mut dyn Rewrite) {
    r.query(q);
    for s in &mut q.segs {
        r.seg(s);
        for sel in &mut s.sels {
            r.sel(sel);
            if let Sel::Filter(o) = sel {
                rewrite_or(o, r);
            }
        }
    }
}

pub fn rewrite_or(o: &mut Or, r: &mut dyn Rewrite) {
    r.or(o);
    for a in &mut o.0 {
        r.and(a);
        for b in &mut a.0 {
            r.basic(b);
            match b {
                Basic::Paren(_, o) => rewrite_or(o, r),
                Basic::Exist(_, q) => rewrite(q, r),
                Basic::Test(_, c) => rewrite_call(c, r),
                Basic::Cmp(l, _, x) => {
                    for x in [l, x] {
                        r.operand(x);
                        match x {
                            Operand::Lit(l) => r.lit(l),
                            Operand::Query(q) => rewrite(q, r),
                            Operand::Call(c) => rewrite_call(c, r),
                        }
                    }
                }
            }
        }
    }
}

pub fn rewrite_call(c: &mut Call, r: &mut dyn Rewrite) {
    r.call(c);
    for a in &mut c.args {
        r.arg(a);
        match a {
            Arg::Lit(l) => r.lit(l),
            Arg::Query(q) => rewrite(q, r),
            Arg::Logical(o) => rewrite_or(o, r),
            Arg::Call(c) => rewrite_call(c, r),
        }
    }
}
