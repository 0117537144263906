use crate::abnf::{self, Verdict};
use crate::ast::*;
use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{Ev, BUILTIN};
use crate::userfn::FUNCS;
use crate::{cli, fail, gen, mutate, oracle, render, sweep};
use serde_json::{json, Value};
use serde_json_path::PathElement;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub static CHECK: Check = Check {
    id: "C26",
    rule: "A case is a text (a random query over all selectors and built-in functions, or edits of one) and the text of a document. Programs \
           built with other sets of features (tracing with a subscriber, no user functions, no regex, insertion-ordered maps, \
           arbitrary-precision numbers, all of these at once, and an optimised build) answer it, and the answers are compared with \
           that of the default build. With insertion-ordered maps, documents are also written in a random order of their names, and the answer is \
           compared with that of the default build after renaming every name so that its order is that one. Non-trivial: at least \
           one node is selected; distinct by text and document.",
    quick: 110_000,
    thorough: 3_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the programs are built from /repo by variants/build.sh before the check starts",
        "numbers are written in unusual ways only for queries that compare nothing with other nodes: numbers within arrays are compared by representation (known finding F5)",
    ],
};

struct Variant {
    name: &'static str,
    dir: &'static str,
    regex: bool,
    ordered: bool,
    /// tracing takes its time: asked in a quarter of the cases
    slow: bool,
}

const VARIANTS: [Variant; 7] = [
    Variant { name: "trace", dir: "debug", regex: true, ordered: false, slow: true },
    Variant { name: "no_functions", dir: "debug", regex: true, ordered: false, slow: false },
    Variant { name: "no_regex", dir: "debug", regex: false, ordered: false, slow: false },
    Variant { name: "preserve_order", dir: "debug", regex: true, ordered: true, slow: false },
    Variant { name: "arbitrary_precision", dir: "debug", regex: true, ordered: false, slow: false },
    Variant { name: "opposite", dir: "debug", regex: false, ordered: true, slow: true },
    Variant { name: "release", dir: "release", regex: true, ordered: false, slow: false },
];

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Server {
    fn start(v: &Variant) -> Server {
        let exe = cli::root().join("variants/target").join(v.name).join(v.dir).join("variants");
        let mut child = Command::new(&exe)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Server { child, to, from }
    }
    fn ask(&mut self, line: &str) -> Option<()> {
        self.to.write_all(line.as_bytes()).ok()
    }
    fn answer(&mut self) -> Option<Value> {
        let mut s = String::new();
        self.from.read_line(&mut s).ok()?;
        serde_json::from_str(&s).ok()
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVERS: RefCell<Vec<Server>> = const { RefCell::new(vec![]) };
}

/// What every variant answers to its own case
fn ask(cases: &[(&str, &str)], all: bool) -> Vec<Option<Value>> {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            *s = VARIANTS.iter().map(Server::start).collect();
        }
        let who: Vec<bool> = VARIANTS.iter().map(|v| all || !v.slow).collect();
        for ((s, c), _) in s.iter_mut().zip(cases).zip(&who).filter(|x| *x.1) {
            let _ = s.ask(&format!("{}\n", json!([c.0, c.1])));
        }
        let out: Vec<Option<Value>> = s.iter_mut().zip(&who).map(|(s, asked)| if *asked { s.answer() } else { Some(json!("not asked")) }).collect();
        if out.iter().any(Option::is_none) {
            s.clear();
        }
        out
    })
}

fn walk(v: &Value, loc: &mut Vec<Value>, out: &mut HashMap<*const Value, Value>) {
    out.insert(v, Value::Array(loc.clone()));
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                loc.push(i.into());
                walk(x, loc, out);
                loc.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                loc.push(k.as_str().into());
                walk(x, loc, out);
                loc.pop();
            }
        }
        _ => {}
    }
}

/// What the default build answers: see variants/src/main.rs
fn default_answer(text: &str, doc: &Value) -> Result<Value, Fail> {
    let Ok(p) = oracle::parse(text)? else { return Ok(Value::Null) };
    let mut places = HashMap::new();
    walk(doc, &mut vec![], &mut places);
    let place = |v: &Value| places.get(&(v as *const Value)).cloned().unwrap_or(Value::Null);
    lib(&format!("query {text:?} on {doc}"), || {
        let plain: Vec<Value> = p.query(doc).into_iter().map(place).collect();
        let mut located = vec![];
        for n in p.query_located(doc) {
            let at = place(n.node());
            let loc: Vec<Value> = n
                .location()
                .iter()
                .map(|e| match e {
                    PathElement::Name(n) => Value::from(*n),
                    PathElement::Index(i) => Value::from(*i),
                })
                .collect();
            located.push(if at == Value::Array(loc) { at } else { Value::Null });
        }
        let shown = p.to_string();
        let again = serde_json_path::JsonPath::parse(&shown).is_ok_and(|q| q == p && q.to_string() == shown);
        json!([plain, located, again])
    })
}

// ---------------------------------------------------------------- orders of names

struct Names(BTreeSet<String>);

impl Rewrite for Names {
    fn sel(&mut self, s: &mut Sel) {
        if let Sel::Name(n) = s {
            self.0.insert(n.clone());
        }
    }
}

struct Rename<'a>(&'a HashMap<String, String>);

impl Rewrite for Rename<'_> {
    fn sel(&mut self, s: &mut Sel) {
        if let Sel::Name(n) = s {
            *n = self.0[n].clone();
        }
    }
}

fn keys(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| keys(x, out)),
        Value::Object(o) => {
            for (k, x) in o {
                out.insert(k.clone());
                keys(x, out);
            }
        }
        _ => {}
    }
}

fn rename(v: &Value, m: &HashMap<String, String>) -> Value {
    match v {
        Value::Array(a) => a.iter().map(|x| rename(x, m)).collect(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (m[k].clone(), rename(x, m))).collect()),
        v => v.clone(),
    }
}

/// Replace the names in lists of locations
fn rename_locations(v: &mut Value, m: &HashMap<String, String>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| rename_locations(x, m)),
        Value::String(s) => *s = m[s].clone(),
        _ => {}
    }
}

/// The text of a document, members in the order of `rank`
fn write(v: &Value, rank: &HashMap<String, String>, numbers: &mut dyn FnMut(&serde_json::Number) -> String) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(|x| write(x, rank, numbers)).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            let mut ms: Vec<_> = o.iter().collect();
            ms.sort_by_key(|(k, _)| rank.get(*k));
            let ms: Vec<String> = ms.iter().map(|(k, x)| format!("{}:{}", Value::from(k.as_str()), write(x, rank, numbers))).collect();
            format!("{{{}}}", ms.join(","))
        }
        Value::Number(n) => numbers(n),
        v => v.to_string(),
    }
}

/// Another way to write a number
fn spell(src: &mut Src, n: &serde_json::Number) -> String {
    let plain = n.to_string();
    if plain.contains(['e', 'E']) || plain.len() > 12 {
        return plain;
    }
    match src.below(6) {
        1 if plain.contains('.') => plain + "0",
        1 => plain + ".0",
        2 => plain + "e0",
        3 => plain + "E+0",
        4 if !plain.contains('.') && !plain.ends_with('0') => format!("{plain}0e-1"),
        5 => plain + "e-0",
        _ => plain,
    }
}

/// Whether two operands of a comparison may both be arrays or objects
fn compares_nodes(q: &Query) -> bool {
    struct R(bool);
    impl Rewrite for R {
        fn basic(&mut self, b: &mut Basic) {
            if let Basic::Cmp(l, _, r) = b {
                self.0 |= !matches!(l, Operand::Lit(_)) && !matches!(r, Operand::Lit(_));
            }
        }
    }
    let mut r = R(false);
    rewrite(&mut q.clone(), &mut r);
    r.0
}

fn without_negative_zero(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(without_negative_zero),
        Value::Object(o) => o.values_mut().for_each(without_negative_zero),
        Value::Number(n) if n.as_f64() == Some(0.0) && n.is_f64() => *v = json!(0.0),
        _ => {}
    }
}

fn uses_regex(q: &Query) -> bool {
    let mut r = false;
    each_call(q, &mut |c| r |= matches!(c.name.as_str(), "match" | "search"));
    r
}

// ---------------------------------------------------------------- cases

struct Case<'a> {
    text: &'a str,
    tree: Option<&'a Query>,
    doc: &'a Value,
    /// the document as the variants get it
    doc_text: String,
    /// an order of all names of the document and the query, for the variants with ordered maps
    order: Option<Vec<String>>,
    all: bool,
}

fn check(c: &Case, cx: &mut Cx) -> Result<usize, Fail> {
    let mut want = default_answer(c.text, c.doc)?;
    let mut ordered_text = c.doc_text.clone();
    let mut ordered_want = want.clone();
    if let (Some(order), Some(tree)) = (&c.order, c.tree) {
        let to: HashMap<String, String> = order.iter().enumerate().map(|(i, k)| (k.clone(), format!("{i:04}"))).collect();
        let back: HashMap<String, String> = to.iter().map(|(k, v)| (v.clone(), k.clone())).collect();
        ordered_text = write(c.doc, &to, &mut |n| n.to_string());
        let mut q = tree.clone();
        rewrite(&mut q, &mut Rename(&to));
        let q = render::plain(&q);
        ordered_want = default_answer(&q, &rename(c.doc, &to))?;
        if ordered_want.is_null() {
            fail!("{q:?} is rejected, and {:?} differs from it only in names", c.text);
        }
        ordered_want[2] = Value::Null;
        rename_locations(&mut ordered_want, &back);
        cx.label("names in another order");
    }
    let cases: Vec<(&str, &str)> =
        VARIANTS.iter().map(|v| (c.text, if v.ordered { ordered_text.as_str() } else { c.doc_text.as_str() })).collect();
    let regex = match c.tree {
        Some(q) => Some(uses_regex(q)),
        None if c.text.contains("match") || c.text.contains("search") => None,
        None => Some(false),
    };
    cx.label_if(regex == Some(true), "match or search");
    let long = match c.tree {
        Some(q) => super::c14::traits(q).long,
        None => super::c14::long(c.text),
    };
    for ((v, got), (_, doc)) in VARIANTS.iter().zip(ask(&cases, c.all)).zip(&cases) {
        let Some(mut got) = got else {
            fail!("the variant {} ends on {:?} with {doc}", v.name, c.text);
        };
        if v.slow && !c.all {
            continue;
        }
        let expected = if v.ordered { &mut ordered_want } else { &mut want };
        if !v.regex {
            match regex {
                Some(true) => {
                    if !got.is_null() {
                        fail!("the variant {} accepts {:?}, in which match or search is unknown", v.name, c.text);
                    }
                    continue;
                }
                None => continue,
                Some(false) => {}
            }
        }
        // the display is compared where the names are the same and numbers are read exactly
        if got.is_array() && expected.is_array() && (long || v.ordered && c.order.is_some()) {
            got[2] = Value::Null;
            expected[2] = Value::Null;
        }
        if got != *expected {
            fail!("the variant {} answers {:?} on {doc} with\n  {got}\n  and the default build with\n  {expected}", v.name, c.text);
        }
    }
    Ok(want[0].as_array().map_or(0, Vec::len))
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let doc = json!({"b": {"z": 1, "a": [1.5, {"y": null, "x": "ab"}], "": true}, "a": [3, 2, 10], "c": "é\n"});
    let reverse = |c: &mut Cx, t: &str, tree: &Query| -> Result<(), Fail> {
        let mut order: Vec<String> = ["c", "b", "a", "z", "y", "x", "", "d"].map(String::from).to_vec();
        for _ in 0..order.len() {
            order.rotate_left(1);
            check(&Case { text: t, tree: Some(tree), doc: &doc, doc_text: doc.to_string(), order: Some(order.clone()), all: true }, c)?;
        }
        Ok(())
    };
    let mut cx = Cx::new(false);
    let mut n = 0;
    for t in [
        "$", "$.*", "$..*", "$.b.*", "$['b','a']", "$..['a',0]", "$..[?@]", "$[?@.a]", "$[?@.a]..*", "$..[?@ == 1.5]", "$..[?@ > 1]", "$..[?@ == 1.50e0]", "$..[?length(@) == 2]",
        "$..[?count(@.*) > 1]", "$..[?value(@.a) != 1]", "$..[?match(@, 'a.')]", "$..[?search(@, 'b')]", "$..[?!search(@, 'b')]", "$..[::-1]", "$..[-1]", "$.a[1:]", "$..[?@ == $.a[0]]",
        "$..[?@ == null]", "$..[?@ != 'ab']", "$..[?@.x && !@.d || @ == 1]", "$..[?@ == -0]", "$..[?@ >= 1e1]", "$[?(@[0] == 3)]",
    ] {
        let Verdict::Accept(tree) = abnf::parse(t, BUILTIN) else { fail!("the model does not know {t}") };
        reverse(&mut cx, t, &tree)?;
        n += 1;
    }
    for t in ["", "$.", "$[?foo(@)]", "$[?fv_v(@)]", "$[?length(@)]", "$[?match(@,'a')==true]", "$[", "$[01]", "$[9007199254740992]", "$[?matc(@,'a')]", "$[?@==1.]", "$[?@==01]"] {
        check(&Case { text: t, tree: None, doc: &doc, doc_text: doc.to_string(), order: None, all: true }, &mut cx)?;
        n += 1;
    }
    // long ones
    let nested = (0..120).fold(json!(1), |v, _| json!({"a": v, "b": 0}));
    let row = json!([{"a": 1}, [1, 2], {"b": {"a": 1}}, "a", 1]);
    for k in [20, 50, 110, 300] {
        for t in crate::checks::c11::flat(k) {
            let tree = match abnf::parse(&t, BUILTIN) {
                Verdict::Accept(q) => Some(q),
                Verdict::Reject(_) => None,
                _ => continue,
            };
            for d in [&nested, &row] {
                if tree.as_ref().is_none_or(|q| oracle::affordable(d, BUILTIN, q)) {
                    check(&Case { text: &t, tree: tree.as_ref(), doc: d, doc_text: d.to_string(), order: None, all: true }, &mut cx)?;
                    n += 1;
                }
            }
        }
    }
    for k in [0, 1, 2, 3, 5, 9, 17, 33, 65, 100, 129, 257] {
        for c in sweep::of(sweep::ALL, k) {
            // the other programs know the built-in functions only, and serde_json reads no document that is nested deeply
            if !matches!(abnf::parse(&c.text, BUILTIN), Verdict::Accept(_)) || serde_json::from_str::<Value>(&c.doc.to_string()).is_err() {
                continue;
            }
            // a trace shows the query and the node in every span
            let doc_text = c.doc.to_string();
            let all = c.text.len() * doc_text.len() < 40_000;
            check(&Case { text: &c.text, tree: Some(&c.tree), doc: &c.doc, doc_text, order: None, all }, &mut cx)?;
            n += 1;
        }
    }
    for k in [1, 39, 40, 41, 100, 119] {
        let t = format!("${}", ".a".repeat(k));
        let Verdict::Accept(tree) = abnf::parse(&t, BUILTIN) else { fail!("the model does not know {t}") };
        check(&Case { text: &t, tree: Some(&tree), doc: &nested, doc_text: nested.to_string(), order: None, all: true }, &mut cx)?;
        n += 1;
    }
    // near the texts that are accepted
    let d = json!([{"a": 1, "ab": [{"a": "x", "b": null}, 2], "b": "a"}, [0, 1, [1]], "ab", 15, null]);
    for base in mutate::BASES {
        for t in mutate::each_edit(base, " _x1-!(]'.,é") {
            let tree = match (abnf::parse(&t, BUILTIN), abnf::parse(&t, FUNCS)) {
                (Verdict::Accept(q), _) => Some(q),
                (_, Verdict::Reject(_)) => None,
                _ => continue,
            };
            check(&Case { text: &t, tree: tree.as_ref(), doc: &d, doc_text: d.to_string(), order: None, all: n % 4 == 0 }, &mut cx)?;
            n += 1;
        }
    }
    Ok(n)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let all = src.chance(1, 4);
    let mut doc = gen::doc(src);
    let mut q = gen::G::new(src, &doc, gen::EVERYTHING).query();
    let mut text = if src.coin() { render::random(src, &q) } else { render::plain(&q) };
    let mut tree = None;
    if src.chance(1, 4) {
        text = mutate::mutate(src, &text);
        if mutate::depth(&text) > 40 {
            return Ok(());
        }
        if let Verdict::Accept(t) = abnf::parse(&text, BUILTIN) {
            q = t;
            tree = Some(&q);
        } else if !matches!(abnf::parse(&text, FUNCS), Verdict::Reject(_)) {
            // the variants do not have the user functions of this program
            cx.label("discarded");
            return Ok(());
        }
    } else {
        tree = Some(&q);
    }
    match tree {
        Some(q) if Ev::with_fuel(&doc, BUILTIN, 6000).run(q).is_err() => {
            cx.label("discarded");
            return Ok(());
        }
        Some(_) => {}
        None => doc = json!([{"a": 1}, "ab", [2, null]]),
    }
    let mut doc_text = doc.to_string();
    let mut order = None;
    match tree {
        Some(q) if !compares_nodes(q) && src.coin() => {
            doc_text = write(&doc, &HashMap::new(), &mut |n| spell(src, n));
            doc = serde_json::from_str(&doc_text).expect("document");
            cx.label("numbers in other spellings");
        }
        Some(q) => {
            without_negative_zero(&mut doc);
            doc_text = doc.to_string();
            if src.coin() {
                let mut names = Names(BTreeSet::new());
                rewrite(&mut q.clone(), &mut names);
                keys(&doc, &mut names.0);
                let mut left: Vec<String> = names.0.into_iter().collect();
                let mut o = vec![];
                while !left.is_empty() {
                    o.push(left.remove(src.below(left.len())));
                }
                order = Some(o);
            }
        }
        None => {}
    }
    cx.label_if(all, "all variants asked");
    let n = check(&Case { text: &text, tree, doc: &doc, doc_text: doc_text.clone(), order, all }, cx)?;
    cx.label_if(tree.is_none(), "text of unknown meaning");
    if n > 0 {
        cx.nontrivial((&text, &doc_text));
        cx.sample(|| format!("{text} on {doc_text}: {n} nodes"));
    }
    Ok(())
}
