//! Calls into the library under test, and comparisons of what it returns with what the model says.

use crate::ast::Query;
use crate::engine::{lib, Cx, Fail};
use crate::eval::{children, normalized, Elem, Ev, Funcs, Node, Quirks, Stop};
use crate::fail;
use crate::known;
use serde_json::Value;
use serde_json_path::{JsonPath, ParseError, PathElement};
use std::collections::HashMap;

pub fn parse(text: &str) -> Result<Result<JsonPath, ParseError>, Fail> {
    lib(&format!("parsing {text:?}"), || JsonPath::parse(text))
}

/// Parse a query that is valid
pub fn accept(text: &str) -> Result<JsonPath, Fail> {
    match parse(text)? {
        Ok(p) => Ok(p),
        Err(e) => fail!("valid query {text:?} is rejected: {e}"),
    }
}

pub fn query<'v>(p: &JsonPath, text: &str, doc: &'v Value) -> Result<Vec<&'v Value>, Fail> {
    lib(&format!("query {text:?} on {doc}"), || p.query(doc).all())
}

pub fn elem<'v>(e: &PathElement<'v>) -> Elem<'v> {
    match e {
        PathElement::Name(n) => Elem::Key(n),
        PathElement::Index(i) => Elem::Idx(*i),
    }
}

pub fn located<'v>(p: &JsonPath, text: &str, doc: &'v Value) -> Result<Vec<Node<'v>>, Fail> {
    lib(&format!("located query {text:?} on {doc}"), || {
        p.query_located(doc)
            .into_iter()
            .map(|n| {
                let val = n.node();
                let loc = n.to_location().into_iter().map(|e| elem(&e)).collect();
                Node { loc, val }
            })
            .collect()
    })
}

/// Where each place of the document is, by its address
pub struct Places(HashMap<usize, String>);

impl Places {
    pub fn of(doc: &Value) -> Self {
        let mut m = HashMap::new();
        let mut todo = vec![Node { loc: vec![], val: doc }];
        while let Some(n) = todo.pop() {
            m.insert(n.val as *const Value as usize, normalized(&n.loc));
            todo.extend(children(&n));
        }
        Places(m)
    }
    pub fn get(&self, v: &Value) -> Option<&str> {
        self.0.get(&(v as *const Value as usize)).map(|s| s.as_str())
    }
    pub fn show(&self, vs: &[&Value]) -> String {
        let mut out: Vec<String> =
            vs.iter().take(40).map(|v| self.get(v).map_or_else(|| format!("(outside the document: {v})"), str::to_string)).collect();
        if vs.len() > 40 {
            out.push(format!("... {} in all", vs.len()));
        }
        format!("[{}]", out.join(", "))
    }
}

pub fn values<'v>(ns: &[Node<'v>]) -> Vec<&'v Value> {
    ns.iter().map(|n| n.val).collect()
}

pub fn same_places(a: &[&Value], b: &[&Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::ptr::eq(*x, *y))
}

pub fn check_places(what: &str, text: &str, doc: &Value, expected: &[&Value], got: &[&Value]) -> Result<(), Fail> {
    if same_places(expected, got) {
        return Ok(());
    }
    if let Ok(file) = std::env::var("VERIF_DUMP") {
        let _ = std::fs::write(file, serde_json::json!({"query": text, "doc": doc}).to_string());
    }
    let p = Places::of(doc);
    fail!("{what}: query {text:?}\n  document {doc}\n  expected {}\n  got      {}", p.show(expected), p.show(got))
}

/// Both evaluators against the model's nodes
pub fn check_query(text: &str, path: &JsonPath, doc: &Value, expected: &[Node]) -> Result<(), Fail> {
    let want = values(expected);
    check_places("plain result differs from RFC 9535", text, doc, &want, &query(path, text, doc)?)?;
    let got = located(path, text, doc)?;
    check_places("located result differs from RFC 9535", text, doc, &want, &values(&got))
}

/// What the library may return for a query: what the RFC says, or else what a known finding gives
pub struct Expected<'v, 'a> {
    pub rfc: Vec<Node<'v>>,
    doc: &'v Value,
    funcs: Funcs,
    again: Option<Box<Eval<'v, 'a>>>,
}

pub type Eval<'v, 'a> = dyn Fn(&Ev<'v>) -> Result<Vec<Node<'v>>, Stop> + 'a;

const COMBINATIONS: [(&str, Quirks); 7] = [
    ("known finding F4", Quirks { idx: true, num: false, ord: false }),
    ("known finding F5", Quirks { idx: false, num: true, ord: false }),
    ("known finding F6", Quirks { idx: false, num: false, ord: true }),
    ("known findings F4 F5", Quirks { idx: true, num: true, ord: false }),
    ("known findings F4 F6", Quirks { idx: true, num: false, ord: true }),
    ("known findings F5 F6", Quirks { idx: false, num: true, ord: true }),
    ("known findings F4 F5 F6", Quirks { idx: true, num: true, ord: true }),
];

impl<'v, 'a> Expected<'v, 'a> {
    pub fn of(doc: &'v Value, funcs: Funcs, q: &'a Query) -> Result<Self, Stop> {
        Self::build(doc, funcs, move |ev| ev.run(q))
    }

    pub fn build(
        doc: &'v Value,
        funcs: Funcs,
        f: impl Fn(&Ev<'v>) -> Result<Vec<Node<'v>>, Stop> + 'a,
    ) -> Result<Self, Stop> {
        let rfc = f(&Ev::new(doc, funcs))?;
        Ok(Expected { rfc, doc, funcs, again: Some(Box::new(f)) })
    }

    /// Without any known finding
    pub fn exactly(doc: &'v Value, rfc: Vec<Node<'v>>) -> Self {
        Expected { rfc, doc, funcs: crate::eval::BUILTIN, again: None }
    }

    /// The known finding under which the model selects what was got
    fn known(&self, got: &[&Value]) -> Option<&'static str> {
        let f = self.again.as_ref()?;
        let mut unjudged = false;
        for (name, quirks) in COMBINATIONS {
            if !name.split(' ').filter(|w| w.starts_with('F')).all(known::tolerated) {
                continue;
            }
            let mut ev = Ev::with_fuel(self.doc, self.funcs, 10_000_000);
            ev.quirks = quirks;
            match f(&ev) {
                Ok(r) if same_places(&values(&r), got) => return Some(name),
                Ok(_) => {}
                // a known finding leads to places the model does not judge (say, an invalid pattern)
                Err(_) => unjudged = true,
            }
        }
        unjudged.then_some("known finding, beyond the model")
    }

    pub fn check(&self, what: &str, text: &str, got: &[&Value], cx: &mut Cx) -> Result<(), Fail> {
        let want = values(&self.rfc);
        if same_places(&want, got) {
            return Ok(());
        }
        if let Some(name) = self.known(got) {
            cx.label(name);
            return Ok(());
        }
        check_places(what, text, self.doc, &want, got)
    }

    /// Both evaluators
    pub fn check_both(&self, text: &str, path: &JsonPath, cx: &mut Cx) -> Result<(), Fail> {
        self.check("plain result differs from RFC 9535", text, &query(path, text, self.doc)?, cx)?;
        let got = located(path, text, self.doc)?;
        self.check("located result differs from RFC 9535", text, &values(&got), cx)
    }
}

/// A listed query that must select the places with these normalized paths, by both evaluators
pub fn selects(text: &str, doc: &Value, want: &[&str]) -> Result<(), Fail> {
    let p = accept(text)?;
    let places = Places::of(doc);
    for got in [query(&p, text, doc)?, values(&located(&p, text, doc)?)] {
        let got: Vec<&str> = got.iter().map(|v| places.get(v).unwrap_or("(outside)")).collect();
        if got != want {
            fail!("query {text:?}\n  document {doc}\n  expected {want:?}\n  got      {got:?}");
        }
    }
    Ok(())
}

/// A listed text that must be rejected
pub fn rejects(text: &str) -> Result<(), Fail> {
    match parse(text)? {
        Ok(p) => fail!("invalid query {text:?} is accepted as {p}"),
        Err(_) => Ok(()),
    }
}

/// Evaluate the model only to see whether the case is small enough to use
pub fn affordable(doc: &Value, funcs: Funcs, q: &Query) -> bool {
    Ev::affordable(doc, funcs, q)
}

/// Number of nodes of a document
pub fn size(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
        Value::Object(o) => 1 + o.values().map(size).sum::<usize>(),
        _ => 1,
    }
}

/// A document, and the text of some query that is affordable on it, and that query if the text is known to be valid
pub fn random_case(src: &mut crate::engine::Src, mutants: bool) -> Option<(Value, String, Query)> {
    use crate::abnf::{self, Verdict};
    use crate::userfn::FUNCS;
    use crate::{gen, mutate, render};
    let doc = gen::doc(src);
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = FUNCS;
    let mut q = gen::G::new(src, &doc, cfg).query();
    let mut text = if src.chance(1, 2) { render::random(src, &q) } else { render::plain(&q) };
    if mutants && src.chance(1, 5) {
        text = mutate::mutate(src, &text);
        if mutate::depth(&text) > 40 {
            return None;
        }
        match abnf::parse(&text, FUNCS) {
            Verdict::Accept(t) => q = t,
            _ => return None,
        }
    }
    affordable(&doc, FUNCS, &q).then_some((doc, text, q))
}

/// Delete parts of a query for as long as the library still disagrees with the model (for people, not for checks)
pub fn reduce(text: &str, doc: &Value) -> (String, Value) {
    use crate::abnf::{self, Verdict};
    use crate::userfn::FUNCS;
    let wrong = |t: &str, d: &Value| {
        let Verdict::Accept(q) = abnf::parse(t, FUNCS) else { return false };
        let Ok(Ok(p)) = parse(t) else { return false };
        let Ok(e) = Expected::of(d, FUNCS, &q) else { return false };
        e.check_both(t, &p, &mut Cx::new(false)).is_err()
    };
    let mut doc = doc.clone();
    let mut cs: Vec<char> = text.chars().collect();
    loop {
        let before = (cs.len(), size(&doc));
        let mut n = cs.len();
        while n > 0 {
            let mut i = 0;
            while i + n <= cs.len() {
                let t: String = cs[..i].iter().chain(&cs[i + n..]).collect();
                if wrong(&t, &doc) {
                    cs.drain(i..i + n);
                } else {
                    i += 1;
                }
            }
            n -= if n > 60 { n / 20 } else { 1 };
        }
        let t: String = cs.iter().collect();
        let mut ptrs = vec![];
        let mut todo = vec![Node { loc: vec![], val: &doc }];
        while let Some(n) = todo.pop() {
            ptrs.push(crate::eval::pointer(&n.loc));
            todo.extend(children(&n));
        }
        for p in ptrs {
            for new in [Value::from(1), Value::Null] {
                let mut d = doc.clone();
                if let Some(x) = d.pointer_mut(&p) {
                    *x = new;
                    if size(&d) < size(&doc) && wrong(&t, &d) {
                        doc = d;
                    }
                }
            }
        }
        if before == (cs.len(), size(&doc)) {
            return (t, doc);
        }
    }
}

/// Few elements, selected from more than a million, with and without locations; each located node goes to `each`
/// with its index
pub fn giant(mut each: impl FnMut(&str, &serde_json_path::LocatedNode, usize) -> Result<(), Fail>) -> Result<u64, Fail> {
    const N: usize = 1_100_001;
    let doc = Value::Array((0..N).map(|i| Value::from(i as u64)).collect());
    let a = doc.as_array().unwrap();
    let mut cases: Vec<(String, Vec<usize>)> = vec![
        ("$[1048570:1048580]".into(), (1_048_570..1_048_580).collect()),
        ("$[999998:1000003]".into(), (999_998..1_000_003).collect()),
        ("$[-3:]".into(), vec![N - 3, N - 2, N - 1]),
        ("$[::500000]".into(), vec![0, 500_000, 1_000_000]),
        ("$[::-500000]".into(), vec![1_100_000, 600_000, 100_000]),
        ("$[1000002:999997:-2]".into(), vec![1_000_002, 1_000_000, 999_998]),
        ("$[1100000,1000000,7,1100001]".into(), vec![1_100_000, 1_000_000, 7]),
        ("$[?@ > 1099998]".into(), vec![1_099_999, 1_100_000]),
        (format!("$[-{N}]"), vec![0]),
        (format!("$[{N}]"), vec![]),
    ];
    for i in [99_999, 100_000, 131_071, 131_072, 262_144, 524_287, 524_288, 999_999, 1_000_000, 1_000_001, 1_048_575, 1_048_576, 1_048_577, 1_099_999, 1_100_000] {
        cases.push((format!("$[{i}]"), vec![i]));
        cases.push((format!("$[{}]", i as i64 - N as i64), vec![i]));
    }
    for (text, want) in &cases {
        let p = accept(text)?;
        let (plain, located) = lib(&format!("{text:?} on the first {N} integers"), || (p.query(&doc).all(), p.query_located(&doc)))?;
        let place = |v: &Value| a.iter().position(|x| std::ptr::eq(x, v));
        let want: Vec<_> = want.iter().map(|i| Some(*i)).collect();
        let got: Vec<_> = plain.into_iter().map(place).collect();
        let with: Vec<_> = located.nodes().map(place).collect();
        if got != want || with != want {
            fail!("query {text:?} on the first {N} integers selects {got:?}, and with locations {with:?}, instead of {want:?}");
        }
        for (n, i) in located.iter().zip(&want) {
            each(text, n, i.unwrap())?;
        }
    }
    Ok(cases.len() as u64)
}
