//! Changes a query at one place.

use crate::abnf::{self, Verdict};
use crate::ast::*;
use crate::engine::Src;
use crate::eval::{FnSig, Funcs, BUILTINS};
use crate::gen;
use crate::render;

struct Vary<'s> {
    src: &'s mut Src,
    funcs: Funcs,
    /// the place to change, and how many were passed
    target: usize,
    passed: usize,
    what: &'static str,
    /// the query itself, which stays a root query
    top: bool,
}

impl Vary<'_> {
    fn here(&mut self) -> bool {
        self.passed += 1;
        self.passed == self.target + 1
    }

    /// Take away, repeat or exchange members of a list, of which at least `least` stay
    fn list<T: Clone>(&mut self, xs: &mut Vec<T>, least: usize) -> &'static str {
        if xs.is_empty() {
            return "";
        }
        let i = self.src.below(xs.len());
        match self.src.below(3) {
            0 if xs.len() > least => {
                xs.remove(i);
                "taken away"
            }
            1 if xs.len() > 1 => {
                let j = self.src.below(xs.len());
                xs.swap(i, j);
                "exchanged"
            }
            _ => {
                let x = xs[i].clone();
                xs.insert(i, x);
                "repeated"
            }
        }
    }

    fn int(&mut self, i: i64) -> i64 {
        match self.src.below(6) {
            0 => i + 1,
            1 => i - 1,
            2 => -i,
            3 => -i - 1,
            4 => self.src.range(-3, 3),
            _ => i * 10,
        }
    }

    fn text(&mut self, s: &mut String) {
        *s = match self.src.below(4) {
            0 => gen::key(self.src),
            1 => {
                let mut t: String = s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                if t == *s {
                    t.push('a');
                }
                t
            }
            _ => gen::near_string(self.src, s),
        };
    }
}

impl Rewrite for Vary<'_> {
    fn query(&mut self, q: &mut Query) {
        let top = std::mem::take(&mut self.top);
        if !self.here() {
            return;
        }
        if !top && self.src.coin() {
            q.root = !q.root;
            self.what = "root or current node";
            return;
        }
        if self.src.chance(1, 4) {
            let k = gen::key(self.src);
            let at = self.src.below(q.segs.len() + 1);
            q.segs.insert(at, Seg::child(if self.src.coin() { Sel::Name(k) } else { Sel::Wild }));
            self.what = "segment added";
            return;
        }
        if !self.list(&mut q.segs, 0).is_empty() {
            self.what = "segments";
        }
    }
    fn seg(&mut self, s: &mut Seg) {
        if !self.here() {
            return;
        }
        if self.src.coin() {
            s.desc = !s.desc;
            self.what = "segment kind";
        } else {
            self.list(&mut s.sels, 1);
            self.what = "selectors";
        }
    }
    fn sel(&mut self, s: &mut Sel) {
        if !self.here() {
            return;
        }
        if self.src.chance(1, 8) {
            self.what = "selector kind";
            *s = match s {
                Sel::Name(n) => match n.parse::<i64>() {
                    Ok(i) if (0..1000).contains(&i) => Sel::Index(i),
                    _ => Sel::Wild,
                },
                Sel::Index(i) if self.src.coin() => Sel::Name(i.to_string()),
                Sel::Index(i) => Sel::Slice(Some(*i), i.checked_add(1).filter(|e| *e != 0), None),
                Sel::Wild => Sel::Slice(None, None, None),
                Sel::Slice(..) | Sel::Filter(_) => Sel::Wild,
            };
            return;
        }
        match s {
            Sel::Name(n) => {
                self.text(n);
                self.what = "name";
            }
            Sel::Index(i) => {
                *i = self.int(*i);
                self.what = "index";
            }
            Sel::Slice(a, b, c) => {
                let part = match self.src.below(3) {
                    0 => a,
                    1 => b,
                    _ => c,
                };
                *part = match *part {
                    None => Some(self.src.range(-3, 3)),
                    Some(_) if self.src.chance(1, 3) => None,
                    Some(i) => Some(self.int(i)),
                };
                self.what = "slice part";
            }
            Sel::Wild | Sel::Filter(_) => {}
        }
    }
    fn or(&mut self, o: &mut Or) {
        if !self.here() {
            return;
        }
        if o.0.len() > 1 && self.src.coin() {
            let b = o.0.remove(1);
            o.0[0].0.extend(b.0);
            self.what = "or to and";
        } else {
            self.list(&mut o.0, 1);
            self.what = "or";
        }
    }
    fn and(&mut self, a: &mut And) {
        if self.here() {
            self.list(&mut a.0, 1);
            self.what = "and";
        }
    }
    fn basic(&mut self, b: &mut Basic) {
        if !self.here() {
            return;
        }
        match b {
            Basic::Paren(n, _) | Basic::Exist(n, _) | Basic::Test(n, _) => {
                *n = !*n;
                self.what = "negation";
            }
            Basic::Cmp(l, op, r) => {
                if self.src.chance(1, 4) {
                    std::mem::swap(l, r);
                    self.what = "operands exchanged";
                } else {
                    *op = self.src.of(&OPS);
                    self.what = "operator";
                }
            }
        }
    }
    fn operand(&mut self, x: &mut Operand) {
        if !self.here() {
            return;
        }
        if let Operand::Query(q) = x {
            if self.src.chance(1, 2) {
                q.root = !q.root;
                self.what = "operand";
                return;
            }
        }
        *x = Operand::Lit(gen::scalar_lit(self.src));
        self.what = "operand";
    }
    fn lit(&mut self, l: &mut Lit) {
        if !self.here() {
            return;
        }
        self.what = "literal";
        match l {
            Lit::Str(s) if !self.src.chance(1, 6) => self.text(s),
            Lit::Num(n) if !self.src.chance(1, 6) => match n.parse::<i64>() {
                Ok(i) if i.abs() < 1 << 50 => *n = self.int(i).to_string(),
                _ => *n = self.src.range(-3, 3).to_string(),
            },
            Lit::Bool(b) if !self.src.chance(1, 6) => *b = !*b,
            l => *l = gen::scalar_lit(self.src),
        }
    }
    fn call(&mut self, c: &mut Call) {
        if !self.here() {
            return;
        }
        if c.args.len() > 1 && self.src.chance(1, 3) {
            let n = c.args.len();
            self.list(&mut c.args, n);
            self.what = "arguments";
            return;
        }
        let Some(sig) = self.funcs.get(&c.name) else { return };
        let like = |f: &&FnSig| f.name != sig.name && f.params == sig.params && f.ret == sig.ret;
        let others: Vec<&FnSig> = self.funcs.user.iter().chain(BUILTINS.iter()).filter(like).collect();
        if !others.is_empty() {
            c.name = others[self.src.below(others.len())].name.to_string();
            self.what = "function";
        }
    }
    fn arg(&mut self, a: &mut Arg) {
        if !self.here() {
            return;
        }
        if matches!(a, Arg::Lit(_)) || self.src.chance(1, 3) {
            *a = Arg::Lit(gen::scalar_lit(self.src));
            self.what = "argument";
        }
    }
}

/// A valid query that differs from `q` in one place, its plain text, and the kind of the difference
pub fn vary(src: &mut Src, q: &Query, funcs: Funcs) -> Option<(Query, String, &'static str)> {
    for _ in 0..6 {
        let mut count = Vary { src: &mut Src::replay(vec![]), funcs, target: usize::MAX - 1, passed: 0, what: "", top: true };
        rewrite(&mut q.clone(), &mut count);
        let places = count.passed;
        let target = src.below(places);
        let mut new = q.clone();
        let mut v = Vary { src, funcs, target, passed: 0, what: "", top: true };
        rewrite(&mut new, &mut v);
        let what = v.what;
        if what.is_empty() {
            continue;
        }
        let text = render::plain(&new);
        if let Verdict::Accept(tree) = abnf::parse(&text, funcs) {
            if render::plain(&tree) != render::plain(q) {
                return Some((tree, text, what));
            }
        }
    }
    None
}
