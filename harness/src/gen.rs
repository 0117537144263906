//! Generators of documents and of queries that reach into them.

use crate::ast::*;
use crate::engine::Src;
use crate::eval::{children, Ev, Funcs, Node};
use crate::iregexp;
use serde_json::{Map, Value};

pub const KEYS: [&str; 64] = [
    "a", "b", "c", "d", "aa", "ab", "", "0", "1", "-1", "é", "😀", "a b", "'", "\"", "\\", "/", "~", "~1", "~0", "m~n", "a/b",
    "\n", "\u{1}", "\u{1f}", "\u{7f}", "$", "@", "*", "length", "\u{e000}", "\u{ffff}", "A", "_x", "x1", "it's", "\\'", "\t\r", "\u{8}\u{c}", "01",
    "e\u{301}", "%25", "a%2Fb", "%", "a.b", "['a']", "$.a", "..", "\\u0061", "\\n", " a", "a ", "&amp;", "ß", "\u{212a}", "１", "\u{feff}a", "a\u{0}",
    "\u{85}", "\u{a0}", "\u{200d}", "+", "#", "~01",
];

/// Another name that something careless could take for this one
pub fn near_key(src: &mut Src, k: &str) -> String {
    let decompose = |s: &str| s.replace('é', "e\u{301}").replace('ß', "ss").replace('\u{212a}', "K");
    let pointer = |s: &str| s.replace('~', "~0").replace('/', "~1");
    let percent = |s: &str| s.bytes().map(|b| if b.is_ascii_alphabetic() { char::from(b).to_string() } else { format!("%{b:02X}") }).collect::<String>();
    match src.below(18) {
        0 => k.to_uppercase(),
        1 => k.to_lowercase(),
        2 => k.trim().to_string(),
        3 => format!("{k} "),
        4 => format!(" {k}"),
        5 => decompose(k),
        6 => k.replace("e\u{301}", "é").replace("ss", "ß"),
        7 => pointer(k),
        8 => k.replace("~1", "/").replace("~0", "~"),
        9 => percent(k),
        10 => k.replace("%25", "%").replace("%2F", "/"),
        11 => k.escape_default().to_string(),
        12 => format!("'{k}'"),
        13 => format!("{k}{k}"),
        14 => k.chars().rev().collect(),
        15 => k.chars().skip(1).collect(),
        16 => format!("{k}\u{0}"),
        _ => k.chars().map(|c| if c.is_ascii_digit() { char::from_u32(c as u32 + 0xff10 - 0x30).unwrap() } else { c }).collect(),
    }
}

pub const STRS: [&str; 34] = [
    "", "a", "b", "ab", "aa", "A", "B", "abc", "1", "0", "true", "null", "é", "e\u{301}", "😀", "😀😀", "\u{ffff}", "\u{e000}", "a.*", "[ab]",
    "a|b", "'", "\"", "\\", "\n", "a\nb", "\u{0}", "\u{1f}", "/", "日本語", "ab ", " ab", "a\r", "ba",
];

/// All characters
pub fn every_char() -> impl Iterator<Item = char> {
    (0..=0x10ffff).filter_map(char::from_u32)
}

/// All characters, in small blocks
pub fn blocks(size: usize) -> impl Iterator<Item = Vec<char>> {
    let mut all = every_char();
    std::iter::from_fn(move || Some(all.by_ref().take(size).collect::<Vec<_>>()).filter(|b| !b.is_empty()))
}

/// All characters, or those of the first scripts, those that are special somewhere, and a part of the others
pub fn many_chars(all: bool) -> impl Iterator<Item = char> {
    let near = |c: u32| [0x2000, 0x2060, 0x3000, 0xd7ff, 0xe000, 0xfe00, 0xfeff, 0xff10, 0xffff, 0x10000, 0x1f600, 0x10ffff].iter().any(|s| c.abs_diff(*s) < 0x30);
    every_char().filter(move |c| {
        let c = *c as u32;
        all || c < 0x500 || near(c) || c % 251 == 0
    })
}

/// Now and then far more than usual, in case something is different beyond some size
pub fn many(src: &mut Src, usual: usize) -> usize {
    if src.chance(1, 500) {
        let most = src.of(&[20, 70, 300]);
        usual + src.below(most)
    } else {
        usual
    }
}

/// A long string, mostly of ordinary letters
fn long(src: &mut Src) -> String {
    let n = many(src, 1) + src.below(300);
    let c = src.of(&['a', 'b', 'x', '7', 'é', '😀', ' ', '\'']);
    let mut s = String::from("a");
    s.extend(std::iter::repeat_n(c, n));
    if src.coin() {
        s.push(any_char(src));
    }
    s
}

pub fn key(src: &mut Src) -> String {
    if src.chance(1, 400) {
        return long(src);
    }
    let common = src.chance(2, 3);
    if common {
        src.of(&["a", "b", "c", "d"]).to_string()
    } else if src.chance(1, 12) {
        text(src, 5)
    } else {
        src.of(&KEYS).to_string()
    }
}

pub fn text(src: &mut Src, max: usize) -> String {
    (0..src.size(0, max)).map(|_| any_char(src)).collect()
}

pub fn any_char(src: &mut Src) -> char {
    match src.weighted(&[6, 2, 2, 2, 2, 1]) {
        0 => char::from(32 + src.below(95) as u8),
        1 => char::from(src.below(32) as u8),
        2 => src.of(&['\'', '"', '\\', '/', '~', '\u{7f}', '\u{80}', '$', '@', '*']),
        3 => char::from_u32(0xa0 + src.draw(0x500) as u32).unwrap(),
        4 => src.of(&['\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{fffd}', '\u{10000}', '\u{10ffff}', '\u{1f600}', '\u{2028}', '\u{feff}']),
        _ => char::from_u32(src.draw(0x10ffff) as u32).unwrap_or('\u{1f4a9}'),
    }
}

pub fn string(src: &mut Src) -> String {
    if src.chance(1, 300) {
        long(src)
    } else if src.chance(1, 10) {
        text(src, 6)
    } else {
        src.of(&STRS).to_string()
    }
}

pub fn number(src: &mut Src) -> Value {
    match src.weighted(&[20, 8, 6, 2, 1]) {
        4 => Value::from(decimal(src)),
        0 => Value::from(src.range(-2, 4)),
        1 => Value::from(src.of(&[0.0, 0.5, 1.0, 1.5, -1.0, 2.0, -0.0, 100.0, 0.1, 1e-3, 3.25])),
        2 => Value::from(src.of(&[10i64, 100, 255, -100, 1 << 31, 1 << 32, (1 << 53) - 1, -(1 << 53) + 1, (1 << 53) - 2])),
        _ => Value::from(src.range(-1000, 1000) as f64 / src.of(&[2.0, 8.0, 10.0])),
    }
}

/// A number of up to sixteen digits, perhaps far from the decimal point, that every correct reader agrees on
pub fn decimal(src: &mut Src) -> f64 {
    let bits = 1 + src.below(53);
    let n = src.draw((1u64 << bits) - 1);
    let e = src.range(-22, 22);
    let e = if src.coin() { e.min(0) } else { e };
    let x: f64 = format!("{n}e{e}").parse().unwrap();
    let agreed = |x: f64| crate::eval::plain_number(&format!("{x:e}")) && crate::eval::plain_number(&Value::from(x).to_string());
    let x = if agreed(x) { x } else { (n % 900_719_925_474_000) as f64 };
    if src.chance(1, 4) { -x } else { x }
}

pub fn scalar(src: &mut Src) -> Value {
    match src.weighted(&[5, 5, 2, 1]) {
        0 => number(src),
        1 => Value::String(string(src)),
        2 => Value::Bool(src.coin()),
        _ => Value::Null,
    }
}

fn build(src: &mut Src, depth: u32, budget: &mut i32) -> Value {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || src.chance(1, 4) {
        return scalar(src);
    }
    container(src, depth, budget)
}

fn container(src: &mut Src, depth: u32, budget: &mut i32) -> Value {
    let least = usize::from(!src.chance(1, 12));
    let n = src.size(least, 7);
    let n = many(src, n);
    let depth = if n > 8 { 1 } else { depth };
    if src.coin() {
        let proto = if src.chance(1, 4) { Some(build(src, depth - 1, budget)) } else { None };
        Value::Array(
            (0..n)
                .map(|_| match &proto {
                    Some(p) if src.chance(2, 3) => p.clone(),
                    _ => build(src, depth - 1, budget),
                })
                .collect(),
        )
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            let near = if src.chance(1, 12) { m.keys().last().cloned() } else { None };
            let k = match near {
                Some(k) => near_key(src, &k),
                None => key(src),
            };
            let v = build(src, depth - 1, budget);
            m.insert(k, v);
        }
        Value::Object(m)
    }
}

/// A document of ordinary shape
pub fn doc(src: &mut Src) -> Value {
    match src.weighted(&[14, 10, 3, 1, 1, 1]) {
        0 => container(src, 3, &mut 30),
        1 => {
            let mut b = 60;
            container(src, 5, &mut b)
        }
        2 => table(src),
        3 => scalar(src),
        4 => deep(src, 40),
        _ => wide(src, 120),
    }
}

/// Rows of objects with common members, as filters like them
pub fn table(src: &mut Src) -> Value {
    let cols: Vec<String> = (0..src.size(1, 4)).map(|_| key(src)).collect();
    let kind: Vec<usize> = cols.iter().map(|_| src.below(4)).collect();
    let rows: Vec<Value> = (0..src.size(1, 7))
        .map(|_| {
            let mut m = Map::new();
            for (c, k) in cols.iter().zip(&kind) {
                if src.chance(1, 6) {
                    continue;
                }
                let v = match k {
                    0 => number(src),
                    1 => Value::String(string(src)),
                    2 => scalar(src),
                    _ => container(src, 2, &mut 6),
                };
                m.insert(c.clone(), v);
            }
            Value::Object(m)
        })
        .collect();
    if src.coin() {
        return Value::Array(rows);
    }
    let mut m = Map::new();
    m.insert(key(src), Value::Array(rows));
    for _ in 0..src.size(0, 3) {
        let k = key(src);
        m.insert(k, scalar(src));
    }
    Value::Object(m)
}

pub fn deep(src: &mut Src, max: usize) -> Value {
    let n = src.below(max) + 3;
    let mut v = scalar(src);
    for _ in 0..n {
        let extra = src.chance(1, 4);
        if src.coin() {
            let mut a = vec![v];
            if extra {
                a.insert(src.below(2), scalar(src));
            }
            v = Value::Array(a);
        } else {
            let mut m = Map::new();
            if extra {
                m.insert(key(src), scalar(src));
            }
            m.insert(key(src), v);
            v = Value::Object(m);
        }
    }
    v
}

/// Documents with indices of five digits, many members, long names, and names down to a great depth
pub fn huge() -> Vec<Value> {
    let wide: Vec<Value> = (0..70_001).map(|i| if i % 1000 == 999 { serde_json::json!([i, {"a": i}]) } else { Value::from(i) }).collect();
    let many: Map<String, Value> = (0..5_000).map(|i| (format!("k{i}"), serde_json::json!([i]))).collect();
    let long: Map<String, Value> = (0..12).map(|i| ("x".repeat(1 << i) + ["", "'", "\\", "/", "~", "é"][i % 6], Value::from(i))).collect();
    let deep = (0..100).fold(Value::from(1), |v, i| if i % 2 == 0 { serde_json::json!([0, v]) } else { serde_json::json!({"a": 0, "b": v}) });
    vec![Value::Array(wide), Value::Object(many), Value::Object(long), deep]
}

pub fn wide(src: &mut Src, max: usize) -> Value {
    let n = src.below(max) + 8;
    if src.coin() {
        Value::Array((0..n).map(|i| if src.chance(1, 8) { scalar(src) } else { Value::from(i) }).collect())
    } else {
        Value::Object((0..n).map(|i| (format!("k{i}"), Value::from(i))).collect())
    }
}

// ---------------------------------------------------------------- queries

#[derive(Clone, Copy)]
pub struct Cfg {
    /// how deep filters may nest
    pub filters: u32,
    /// weight of a filter among the selectors
    pub filter_weight: u32,
    pub funcs: Funcs,
    /// probability in percent that an operand is a call
    pub calls: u64,
    pub max_segs: usize,
}

pub const STRUCTURAL: Cfg = Cfg { filters: 0, filter_weight: 0, funcs: crate::eval::BUILTIN, calls: 0, max_segs: 5 };
pub const FILTERS: Cfg = Cfg { filters: 2, filter_weight: 5, funcs: crate::eval::BUILTIN, calls: 0, max_segs: 3 };
pub const EVERYTHING: Cfg = Cfg { filters: 2, filter_weight: 4, funcs: crate::eval::BUILTIN, calls: 25, max_segs: 4 };

pub struct G<'s, 'v> {
    pub src: &'s mut Src,
    pub ev: Ev<'v>,
    pub cfg: Cfg,
    pub root: Node<'v>,
    /// whether some part of the query is far larger than usual
    grown: bool,
    /// how many more tests and calls the query may have
    left: usize,
}

const TRACK: usize = 6;
/// Nested calls and logical arguments would otherwise grow without bounds
const LEFT: usize = 200;

impl<'s, 'v> G<'s, 'v> {
    pub fn new(src: &'s mut Src, root: &'v Value, cfg: Cfg) -> Self {
        let ev = Ev::with_fuel(root, cfg.funcs, 20_000);
        G { src, ev, cfg, root: Node { loc: vec![], val: root }, grown: false, left: LEFT }
    }

    /// One part of a query may be far larger, and the parts of that one are small
    fn many(&mut self, usual: usize) -> usize {
        if self.grown {
            return usual;
        }
        let n = many(self.src, usual);
        self.grown = n > usual;
        self.left += n - usual.min(n);
        n
    }

    /// Keep the parts small if there are many; gives the depth of filters left, and the configuration to go back to
    fn small(&mut self, depth: u32, many: bool) -> (u32, Cfg) {
        let cfg = self.cfg;
        if many {
            self.cfg.calls /= 4;
            self.cfg.max_segs = 1;
        }
        (if many { 0 } else { depth }, cfg)
    }

    /// A root query
    pub fn query(&mut self) -> Query {
        let max = self.cfg.max_segs;
        let nodes = vec![self.root.clone()];
        let n = self.src.size(1, max);
        let n = self.many(n);
        let segs = self.segs(nodes, n, self.cfg.filters).0;
        Query::new(true, segs)
    }

    /// Up to `n` segments that start from `nodes`; also some of the nodes they lead to
    pub fn segs(&mut self, mut nodes: Vec<Node<'v>>, n: usize, depth: u32) -> (Vec<Seg>, Vec<Node<'v>>) {
        let mut segs: Vec<Seg> = vec![];
        let mut tries = 0;
        while segs.len() < n {
            let seg = self.seg(&nodes, depth);
            let mut next = vec![];
            for x in &nodes {
                if self.ev.segment(&seg, x, &mut next).is_err() {
                    break;
                }
            }
            // mostly keep to segments that select something
            if next.is_empty() && tries < 4 && !self.src.chance(1, 10) {
                tries += 1;
                continue;
            }
            segs.push(seg);
            // keep containers in view, so that later segments have something to select from
            next.sort_by_key(|n| !matches!(n.val, Value::Array(_) | Value::Object(_)));
            next.truncate(TRACK);
            if next.is_empty() {
                if self.src.chance(3, 4) {
                    return (segs, next);
                }
            } else if !next.iter().any(|n| matches!(n.val, Value::Array(_) | Value::Object(_))) && self.src.chance(5, 6) {
                return (segs, next);
            } else {
                nodes = next;
            }
        }
        (segs, nodes)
    }

    pub fn seg(&mut self, nodes: &[Node<'v>], depth: u32) -> Seg {
        let desc = self.src.chance(1, 6);
        let mut below = vec![];
        let view: &[Node<'v>] = if desc && self.src.chance(2, 3) {
            // something further down
            for n in nodes {
                below.extend(children(n));
            }
            if below.is_empty() {
                nodes
            } else {
                below.truncate(30);
                &below
            }
        } else {
            nodes
        };
        let k = 1 + self.src.weighted(&[12, 2, 1, 1]);
        let k = self.many(k);
        let (depth, cfg) = self.small(depth, k > 4);
        let mut sels: Vec<Sel> = (0..k).map(|_| self.sel(view, depth)).collect();
        if self.src.chance(1, 25) {
            let again = sels[self.src.below(sels.len())].clone();
            sels.push(again);
        }
        self.cfg = cfg;
        Seg { desc, sels }
    }

    pub fn sel(&mut self, nodes: &[Node<'v>], depth: u32) -> Sel {
        let node = if nodes.is_empty() { self.root.clone() } else { nodes[self.src.below(nodes.len())].clone() };
        let fw = if depth > 0 { self.cfg.filter_weight } else { 0 };
        let (wn, wi, ws) = match node.val {
            Value::Object(_) => (8, 1, 1),
            Value::Array(_) => (1, 5, 4),
            _ => (2, 2, 2),
        };
        match self.src.weighted(&[wn, wi, 3, ws, fw]) {
            0 => Sel::Name(self.name(&node)),
            1 => Sel::Index(self.index(&node)),
            2 => Sel::Wild,
            3 => self.slice(&node),
            _ => {
                let cs = children(&node);
                let e = self.or(&cs, depth - 1);
                Sel::Filter(e)
            }
        }
    }

    pub fn name(&mut self, n: &Node<'v>) -> String {
        if let Value::Object(o) = n.val {
            if !o.is_empty() && self.src.chance(9, 10) {
                let i = self.src.below(o.len());
                let k = o.keys().nth(i).unwrap().clone();
                return if self.src.chance(1, 20) { near_key(self.src, &k) } else { k };
            }
        }
        key(self.src)
    }

    pub fn index(&mut self, n: &Node<'v>) -> i64 {
        let len = n.val.as_array().map_or(3, |a| a.len()) as i64;
        match self.src.weighted(&[10, 2, 1]) {
            0 if len > 0 => {
                let i = self.src.below(len as usize) as i64;
                if self.src.chance(1, 3) {
                    i - len
                } else {
                    i
                }
            }
            0 | 1 => self.src.of(&[len, -len - 1, len + 1, 0, -1, -len]),
            _ => self.src.of(&[(1 << 53) - 1, -(1 << 53) + 1, 1 << 32, -(1 << 31), 4294967296 + 1]),
        }
    }

    pub fn slice(&mut self, n: &Node<'v>) -> Sel {
        let len = n.val.as_array().map_or(3, |a| a.len()) as i64;
        let part = |src: &mut Src, step: bool| {
            if src.chance(2, 5) {
                return None;
            }
            Some(match src.weighted(&[8, if step { 0 } else { 3 }, 1]) {
                0 if step => src.of(&[1, -1, 2, -2, 3, -3, 0]),
                0 => src.range(-len - 2, len + 2),
                1 => src.of(&[0, 1, -1, len, -len, len - 1]),
                _ => src.of(&[(1 << 53) - 1, -(1 << 53) + 1, 1 << 31, -(1 << 31)]),
            })
        };
        let a = part(self.src, false);
        let b = part(self.src, false);
        let c = part(self.src, true);
        Sel::Slice(a, b, c)
    }

    // ------------------------------------------------------------ filters

    pub fn or(&mut self, cands: &[Node<'v>], depth: u32) -> Or {
        let n = 1 + self.src.weighted(&[8, 2, 1]);
        let n = self.many(n);
        let (depth, cfg) = self.small(depth, n > 3);
        let left = self.left;
        let mut all: Vec<And> = (0..n).map(|_| self.and(cands, depth)).collect();
        if self.repeat(left) {
            // much the same once more
            let And(again) = all[self.src.below(all.len())].clone();
            all.push(And(again.into_iter().map(|b| self.again(b)).collect()));
        }
        self.cfg = cfg;
        Or(all)
    }

    /// Whether some of what was made since `left` was all that was left is repeated
    fn repeat(&mut self, left: usize) -> bool {
        let cost = left.saturating_sub(self.left);
        let repeat = cost <= self.left && self.src.chance(1, 12);
        if repeat {
            self.left -= cost;
        }
        repeat
    }

    /// The same, or the opposite
    fn again(&mut self, b: Basic) -> Basic {
        let flip = self.src.chance(1, 2);
        match b {
            Basic::Exist(neg, q) => Basic::Exist(neg ^ flip, q),
            Basic::Paren(neg, e) => Basic::Paren(neg ^ flip, e),
            Basic::Test(neg, c) => Basic::Test(neg ^ flip, c),
            Basic::Cmp(l, op, r) => match self.src.below(3) {
                0 => Basic::Cmp(l, self.src.of(&OPS), r),
                1 => Basic::Cmp(r, op, l),
                _ => Basic::Cmp(l, op, r),
            },
        }
    }

    fn and(&mut self, cands: &[Node<'v>], depth: u32) -> And {
        let n = 1 + self.src.weighted(&[8, 2, 1]);
        let n = self.many(n);
        let (depth, cfg) = self.small(depth, n > 3);
        let left = self.left;
        let mut all: Vec<Basic> = (0..n).map(|_| self.basic(cands, depth)).collect();
        if self.repeat(left) {
            let again = all[self.src.below(all.len())].clone();
            all.push(self.again(again));
        }
        self.cfg = cfg;
        And(all)
    }

    pub fn basic(&mut self, cands: &[Node<'v>], depth: u32) -> Basic {
        if self.left == 0 {
            let cand = self.cand(cands);
            return Basic::Exist(self.src.coin(), self.singular(&cand).0);
        }
        self.left -= 1;
        let call_weight = if self.cfg.calls > 0 { 3 } else { 0 };
        match self.src.weighted(&[8, 6, if depth > 0 { 2 } else { 1 }, call_weight]) {
            0 => self.cmp(cands, depth),
            1 => {
                let neg = self.src.chance(1, 4);
                Basic::Exist(neg, self.sub_query(cands, depth))
            }
            2 => {
                let neg = self.src.chance(1, 2);
                let d = depth.saturating_sub(1);
                Basic::Paren(neg, self.or(cands, d))
            }
            _ => {
                let neg = self.src.chance(1, 4);
                let ret = if self.src.chance(1, 4) { Ty::Nodes } else { Ty::Logical };
                match self.call(ret, cands, depth, 2).or_else(|| self.call(Ty::Logical, cands, depth, 2)) {
                    Some(c) => Basic::Test(neg, c),
                    None => self.cmp(cands, depth),
                }
            }
        }
    }

    pub fn cmp(&mut self, cands: &[Node<'v>], depth: u32) -> Basic {
        let op = self.src.of(&OPS);
        let (l, v) = self.operand(cands, depth, None);
        let r = self.operand(cands, depth, v.as_ref()).0;
        if self.src.chance(1, 4) {
            Basic::Cmp(r, op, l)
        } else {
            Basic::Cmp(l, op, r)
        }
    }

    fn cand(&mut self, cands: &[Node<'v>]) -> Node<'v> {
        if cands.is_empty() {
            self.root.clone()
        } else {
            cands[self.src.below(cands.len())].clone()
        }
    }

    /// An operand of a comparison, and its value at one of the candidates; near `like` if given
    pub fn operand(&mut self, cands: &[Node<'v>], depth: u32, like: Option<&Value>) -> (Operand, Option<Value>) {
        let cand = self.cand(cands);
        let (wl, wq) = if like.is_some() { (6, 3) } else { (1, 6) };
        if self.src.chance(self.cfg.calls, 100) {
            if let Some(c) = self.call(Ty::Value, cands, depth, 2) {
                let v = match self.ev.call(&c, &cand) {
                    Ok(crate::eval::FnVal::Value(v)) => v.map(|v| v.into_owned()),
                    _ => None,
                };
                return (Operand::Call(c), v);
            }
        }
        match self.src.weighted(&[wl, wq]) {
            0 => {
                let l = self.lit_like(like);
                let v = crate::eval::literal(&l).ok();
                (Operand::Lit(l), v)
            }
            _ => {
                let (q, v) = self.singular(&cand);
                (Operand::Query(q), v.cloned())
            }
        }
    }

    pub fn lit_like(&mut self, like: Option<&Value>) -> Lit {
        let v = match like {
            Some(v) if self.src.chance(4, 5) => v.clone(),
            _ => scalar(self.src),
        };
        match v {
            Value::Null => Lit::Null,
            Value::Bool(b) => Lit::Bool(b),
            Value::String(s) => Lit::Str(if self.src.chance(1, 8) { near_string(self.src, &s) } else { s }),
            Value::Number(n) => {
                let x = crate::eval::num(&n);
                let x = if self.src.chance(1, 5) { x + self.src.of(&[1.0, -1.0, 0.5]) } else { x };
                Lit::Num(number_text(self.src, x))
            }
            _ => {
                let s = scalar(self.src);
                match s {
                    Value::String(s) => Lit::Str(s),
                    Value::Bool(b) => Lit::Bool(b),
                    Value::Number(n) => Lit::Num(number_text(self.src, crate::eval::num(&n))),
                    _ => Lit::Null,
                }
            }
        }
    }

    /// A singular query that usually leads somewhere from `cand`
    pub fn singular(&mut self, cand: &Node<'v>) -> (Query, Option<&'v Value>) {
        let root = self.src.chance(1, 4);
        let mut at = Some(if root { self.root.val } else { cand.val });
        let mut segs = vec![];
        let least = usize::from(!self.src.chance(1, 5));
        let n = match at {
            Some(Value::Array(_) | Value::Object(_)) => self.src.size(least, 3),
            _ => usize::from(self.src.chance(1, 6)),
        };
        for _ in 0..n {
            let node = Node { loc: vec![], val: at.unwrap_or(&Value::Null) };
            match node.val {
                Value::Array(_) => {
                    let i = self.index(&node);
                    let a = node.val.as_array().unwrap();
                    let k = if i < 0 { i + a.len() as i64 } else { i };
                    at = usize::try_from(k).ok().and_then(|k| a.get(k));
                    segs.push(Seg::child(Sel::Index(i)));
                }
                Value::Object(o) => {
                    let k = self.name(&node);
                    at = o.get(&k);
                    segs.push(Seg::child(Sel::Name(k)));
                }
                _ => {
                    at = None;
                    segs.push(Seg::child(if self.src.coin() { Sel::Name(key(self.src)) } else { Sel::Index(self.src.range(-1, 2)) }));
                }
            }
            if at.is_none() {
                break;
            }
        }
        (Query::new(root, segs), at)
    }

    /// Any query within a filter
    pub fn sub_query(&mut self, cands: &[Node<'v>], depth: u32) -> Query {
        let cand = self.cand(cands);
        if self.src.chance(1, 3) {
            return self.singular(&cand).0;
        }
        let root = self.src.chance(1, 5);
        let start = if root { self.root.clone() } else { cand };
        let least = usize::from(!self.src.chance(1, 8));
        let n = self.src.size(least, 2);
        let segs = self.segs(vec![start], n, depth).0;
        Query::new(root, segs)
    }

    /// A well-typed call of some function with the result type, if there is one
    pub fn call(&mut self, ret: Ty, cands: &[Node<'v>], depth: u32, nest: u32) -> Option<Call> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let builtin = crate::eval::BUILTINS.iter().filter(|f| f.ret == ret && self.cfg.funcs.get(f.name).is_some_and(|g| g.user.is_none()));
        let user = self.cfg.funcs.user.iter().filter(|f| f.ret == ret);
        let sig = {
            let b: Vec<_> = builtin.collect();
            let u: Vec<_> = user.collect();
            let from_user = !u.is_empty() && (b.is_empty() || self.src.chance(2, 3));
            let fs = if from_user { u } else { b };
            if fs.is_empty() {
                return None;
            }
            let i = self.src.below(fs.len());
            *fs[i]
        };
        if sig.user.is_none() && matches!(sig.name, "match" | "search") {
            let re = iregexp::gen(self.src, 2);
            let subject = if self.src.chance(1, 3) {
                Arg::Lit(Lit::Str(iregexp::subject(self.src, &re)))
            } else {
                self.arg(Ty::Value, cands, depth, nest)
            };
            let pattern = Arg::Lit(if self.src.chance(1, 12) { scalar_lit(self.src) } else { Lit::Str(self.pattern_near(&re, cands)) });
            return Some(Call { name: sig.name.into(), args: vec![subject, pattern] });
        }
        let (depth, nest) = if sig.params.len() > 3 { (depth.min(1), nest.min(1) / 2) } else { (depth, nest) };
        let args = sig.params.iter().map(|ty| self.arg(*ty, cands, depth, nest)).collect();
        Some(Call { name: sig.name.into(), args })
    }

    /// The pattern, or one made from a string found at a candidate
    fn pattern_near(&mut self, re: &iregexp::Re, cands: &[Node<'v>]) -> String {
        let c = self.cand(cands);
        let s = match c.val {
            Value::String(s) => Some(s.clone()),
            Value::Object(o) => o.values().find_map(|v| v.as_str().map(str::to_string)),
            _ => None,
        };
        match s {
            Some(s) if self.src.chance(2, 3) => {
                let mut out = String::new();
                for ch in s.chars() {
                    if self.src.chance(1, 6) {
                        out.push('.');
                    } else if "()*+.?[\\]{|}^$-".contains(ch) {
                        if ch == '$' {
                            out.push('.');
                        } else {
                            out.push('\\');
                            out.push(ch);
                        }
                    } else {
                        out.push(ch);
                    }
                    if self.src.chance(1, 8) {
                        out.push(self.src.of(&['*', '+', '?']));
                    }
                }
                out
            }
            _ => iregexp::render(re),
        }
    }

    pub fn arg(&mut self, ty: Ty, cands: &[Node<'v>], depth: u32, nest: u32) -> Arg {
        if nest > 0 && self.src.chance(1, 4) {
            let ret = if ty == Ty::Logical && self.src.chance(1, 3) { Ty::Nodes } else { ty };
            if let Some(c) = self.call(ret, cands, depth, nest - 1) {
                return Arg::Call(c);
            }
        }
        match ty {
            Ty::Value => {
                let cand = self.cand(cands);
                if self.src.chance(1, 4) {
                    Arg::Lit(self.lit_like(Some(cand.val)))
                } else {
                    Arg::Query(self.singular(&cand).0)
                }
            }
            Ty::Nodes => Arg::Query(self.sub_query(cands, depth)),
            Ty::Logical => {
                if self.src.chance(1, 3) {
                    Arg::Query(self.sub_query(cands, depth))
                } else {
                    self.or(cands, depth.saturating_sub(1)).into_arg()
                }
            }
        }
    }
}

pub fn scalar_lit(src: &mut Src) -> Lit {
    match scalar(src) {
        Value::Null => Lit::Null,
        Value::Bool(b) => Lit::Bool(b),
        Value::String(s) => Lit::Str(s),
        Value::Number(n) => Lit::Num(number_text(src, crate::eval::num(&n))),
        _ => unreachable!(),
    }
}

pub fn near_string(src: &mut Src, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    match src.below(4) {
        0 => cs.push(src.of(&['a', '\u{0}', ' ', '\u{ffff}'])),
        1 => {
            cs.pop();
        }
        2 => cs.insert(0, src.of(&['a', ' ', '\u{e000}', '😀'])),
        _ => {
            if let Some(c) = cs.first_mut() {
                *c = if c.is_lowercase() { c.to_ascii_uppercase() } else { '\u{ffff}' };
            }
        }
    }
    cs.into_iter().collect()
}

/// An array of rows with strings, and a query that matches them with patterns that consist of a literal and something that
/// invites a shortcut
pub fn pattern_case(src: &mut Src) -> (Query, Value) {
    let lits = ["a", "ab", "abc", "aa", "abcd", "é", "aé", "日本", "", "a b", "0"];
    let lit = |src: &mut Src| src.of(&lits).to_string();
    let mut pattern = src.of(&["", "", "", ".*", "^", ".", "(", "[", "\\", ".+", "a*", "(?i)"]).to_string();
    pattern += &lit(src);
    pattern += src.of(&["", ".*", ".+", "*", "+", "?", "$", ".", ")", "]", "|", "{2}", "\\", ".?", ".{3}", "[^a]", "\\.", "..", ".*.*", "|a"]);
    if src.chance(1, 3) {
        pattern += &lit(src);
    }
    let mut subject = |src: &mut Src| {
        let mut s: Vec<char> = if src.chance(2, 3) { pattern.chars().filter(|c| c.is_alphanumeric() || *c == ' ').collect() } else { lit(src).chars().collect() };
        for _ in 0..src.size(0, 4) {
            let c = src.of(&['a', 'b', 'c', 'é', '日', '😀', '\n', '\r', ' ', '.', 'A', '\u{301}', '\u{2028}']);
            let i = src.below(s.len() + 1);
            match src.below(4) {
                0 | 1 => s.insert(i, c),
                2 if i < s.len() => s[i] = c,
                _ if i < s.len() => drop(s.remove(i)),
                _ => s.push(c),
            }
        }
        s.into_iter().collect::<String>()
    };
    let rows: Vec<Value> = (0..src.size(1, 6))
        .map(|_| {
            let s = subject(src);
            serde_json::json!({"s": s, "r": pattern})
        })
        .collect();
    let at = |k: &str| Arg::Query(Query::new(false, vec![Seg::child(Sel::Name(k.into()))]));
    let re = if src.chance(1, 3) { at("r") } else { Arg::Lit(Lit::Str(pattern.clone())) };
    let call = Call { name: src.of(&["match", "search"]).into(), args: vec![at("s"), re] };
    let q = Query::new(true, vec![Seg::child(Sel::Filter(Or::one(Basic::Test(src.chance(1, 4), call))))]);
    (q, Value::Array(rows))
}

/// Some way to write the number, of those every reader agrees on
pub fn number_text(src: &mut Src, x: f64) -> String {
    let sci = format!("{x:e}");
    let plain = if x == x.trunc() && x.abs() < 9.1e15 { format!("{}", x as i64) } else { format!("{x}") };
    let plain = if crate::eval::plain_number(&plain) { plain } else { sci.clone() };
    let is_int = !plain.contains(['.', 'e']);
    let cand = match src.weighted(&[6, 1, 1, 1, 1, 1, 1, 1]) {
        7 => match src.below(4) {
            0 => sci.to_uppercase(),
            1 => sci.replace("e", "e+").replace("e+-", "e-"),
            2 if plain.contains('.') && !plain.contains('e') => format!("{plain}{}", "0".repeat(1 + src.below(30))),
            2 if is_int => format!("{plain}e{}", "0".repeat(1 + src.below(30))),
            3 if (1.0..10.0).contains(&x) && is_int => {
                let k = src.below(120);
                format!("0.{}{plain}e{:02}", "0".repeat(k), k + 1)
            }
            _ => sci,
        },
        0 => plain.clone(),
        1 if is_int => format!("{plain}.0"),
        2 if is_int => format!("{plain}e0"),
        3 if is_int => format!("{plain}{}00{}", if src.coin() { "." } else { ".0" }, src.of(&["", "E0", "e+0", "E-0"])),
        4 if is_int && plain.len() > 2 && plain.ends_with("00") => {
            format!("{}{}", &plain[..plain.len() - 2], src.of(&["e2", "E2", "e+2", "E+02"]))
        }
        5 if is_int => format!("{plain}0{}", src.of(&["e-1", "E-1", "e-01"])),
        6 if x == 0.0 => src.of(&["-0", "0", "0.0", "-0.0", "0e5", "-0e-1"]).to_string(),
        _ => plain.clone(),
    };
    // "-00.." and "00" are not numbers
    let cand = if cand.trim_start_matches('-').starts_with("00") { plain.clone() } else { cand };
    if crate::eval::plain_number(&cand) && cand.parse::<f64>().ok() == Some(x) {
        cand
    } else {
        plain
    }
}
