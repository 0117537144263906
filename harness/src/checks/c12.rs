use crate::abnf::{self, Verdict};
use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{Ev, Stop};
use crate::oracle::{self, Places};
use crate::userfn::FUNCS;
use crate::{fail, gen, mutate, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C12",
    rule: "A case is a document and a text that the parser accepts: a random query over all selectors and all user functions, edits of \
           one, patterns that invite shortcuts on strings of several bytes a character, or a query of extreme integers, arbitrary regular expressions and long chains; it is evaluated plainly and with \
           locations on that document and on others. Non-trivial: it selects something, or calls a function; distinct by text and document.",
    quick: 200_000,
    thorough: 12_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["cases are bounded by the work the model needs for them, so that a large true result is not taken for a runaway"],
};

fn evaluate(text: &str, doc: &Value) -> Result<Option<usize>, Fail> {
    let Ok(p) = oracle::parse(text)? else { return Ok(None) };
    let places = Places::of(doc);
    let before = doc.to_string();
    let plain = oracle::query(&p, text, doc)?;
    for v in &plain {
        if places.get(v).is_none() {
            fail!("query {text:?} on {doc} gives {v}, which is no part of the document");
        }
    }
    let located = oracle::located(&p, text, doc)?;
    for n in &located {
        if places.get(n.val).is_none() {
            fail!("located query {text:?} on {doc} gives {}, which is no part of the document", n.val);
        }
    }
    if doc.to_string() != before {
        fail!("query {text:?} changed the document {before} to {doc}");
    }
    Ok(Some(plain.len()))
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let docs = [json!(null), json!([]), json!({}), json!([1, 2, 3]), json!({"a": {"a": {"a": [[[]]]}}}), json!("a"), gen::deep(&mut Src::random(1), 3000)];
    let big = ["9007199254740991", "-9007199254740991", "9007199254740990", "-9007199254740990", "0", "1", "-1", "", "2147483648", "-2147483649"];
    let mut n = 0;
    for a in big {
        for b in big {
            for c in big {
                for d in &docs[..4] {
                    evaluate(&format!("$[{a}:{b}:{c}]"), d)?;
                    n += 1;
                }
            }
        }
        for t in ["$[{}]", "$..[{}]", "$[?@[{}]]", "$[?@[{}] == 1]", "$[?length(@[{}]) == {}]", "$[?@ < {}]"] {
            for d in &docs {
                evaluate(&t.replace("{}", a), d)?;
                n += 1;
            }
        }
    }
    for re in ["(", "a{1000}{1000}", "(?i)a", "\\p{L}", "[[:alpha:]]", "(?P<n>a)", "\\b", "(?:)", "\\x{110000}", "((((((((((a*)*)*)*)*)*)*)*)*)*)*", "(?R)", "(?x) #", "\\", "\u{0}", "(?-u)\\xff", "{", "}", "]", "^*", "$*", "a**"] {
        let lit = render::plain_literal(re);
        for d in [json!(["a", "", re, 1]), json!({"a": re})] {
            for t in ["$[?match(@, {})]", "$[?search(@, {})]", "$[?!match({}, @)]", "$[?search({}, {})]"] {
                evaluate(&t.replace("{}", &lit), &d)?;
                n += 1;
            }
        }
    }
    for d in &docs {
        for t in ["$..*", "$..[*,*]", "$..[?@]", "$..[?@..*]", "$..a", "$..[0]", "$[?count(@..*) > 0]", "$[*][*][*]", "$..[?@..[?@..*]]"] {
            // the deep document is too much for nested descents
            if oracle::size(d) < 1000 || !t.contains("..[?@..") {
                evaluate(t, d)?;
                n += 1;
            }
        }
    }
    // with no more stack than the main thread mostly has
    n += std::thread::Builder::new().stack_size(8 << 20).spawn(large).unwrap().join().unwrap_or_else(|p| std::panic::resume_unwind(p))?;
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| evaluate(&c.text, &c.doc).map(drop))
}

/// Large queries and documents, of little depth
fn large() -> Result<u64, Fail> {
    let sized = |size: usize| {
        [
            json!(vec![1; size]),
            Value::Object((0..size).map(|i| (format!("k{i}"), json!(i % 7))).collect()),
            json!((0..size / 2).map(|i| json!({"a": i % 5, "b": [i]})).collect::<Vec<_>>()),
            json!([["a".repeat(size), "é".repeat(size)], {"a": "a".repeat(size)}]),
        ]
    };
    let mut n = 0;
    for d in &sized(100_000) {
        for t in [
            "$[*]", "$..*", "$[*, *]", "$[::2, ::-1]", "$[-1, 99999, 'k7']", "$[?@ == 1]", "$[?@.a > 2].b[0]", "$[?@.b[?@ > 5]]", "$..[0]", "$..a", "$..[?@ == 1]", "$[?length(@) > 10]",
            "$[?length(@.a) > 10]", "$[?count(@.*) == 2]", "$[*][?match(@, 'a*')]", "$[*][?search(@, 'é$')]", "$[*][?match(@, '(a|é)*')]", "$[?value(@.b[*]) == 4]", "$[?@ == @]", "$[?@.a || !@.b]",
        ] {
            let p = oracle::accept(t)?;
            let (a, b) = crate::engine::lib(&format!("query {t:?} on a document of {} nodes", oracle::size(d)), || (p.query(d).len(), p.query_located(d).len()))?;
            if a != b {
                fail!("query {t:?} on a document of {} nodes gives {a} nodes, and {b} with locations", oracle::size(d));
            }
            n += 1;
        }
    }
    let docs = sized(3);
    for t in crate::checks::c11::flat(20_000) {
        let head: String = t.chars().take(40).collect();
        let Ok(p) = serde_json_path::JsonPath::parse(&t) else { continue };
        for d in &docs {
            crate::engine::lib(&format!("query {head:?}... of {} bytes on {d}", t.len()), || (p.query(d).len(), p.query_located(d).len()))?;
            n += 1;
        }
    }
    Ok(n)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut doc = gen::doc(src);
    let q = if src.chance(1, 5) {
        let (q, d) = gen::pattern_case(src);
        doc = d;
        q
    } else {
        let mut cfg = gen::EVERYTHING;
        cfg.funcs = FUNCS;
        cfg.calls = 35;
        gen::G::new(src, &doc, cfg).query()
    };
    let mut text = if src.chance(1, 3) { render::random(src, &q) } else { render::plain(&q) };
    match src.weighted(&[4, 3, 2]) {
        0 => {}
        1 => text = mutate::mutate(src, &text),
        // a regular expression that repeats something a million times is slow to refuse
        _ if text.contains('{') => {}
        _ => {
            // extreme numbers instead of those that fit
            let mut out = String::new();
            for c in text.chars() {
                if c.is_ascii_digit() && src.chance(1, 3) {
                    out.push_str(src.of(&["9007199254740991", "4294967296", "2147483648", "0", "7", "1000000"]));
                } else {
                    out.push(c);
                }
            }
            text = out;
        }
    }
    if mutate::depth(&text) > 40 {
        return Ok(());
    }
    let tree = match abnf::parse(&text, FUNCS) {
        Verdict::Accept(q) => q,
        _ => {
            // whether it is accepted is judged elsewhere; if it is, a small document will do
            evaluate(&text, &json!({"a": [1, {"b": "x"}], "b": "y"}))?;
            cx.label("not a query");
            return Ok(());
        }
    };
    let mut other = if src.chance(1, 3) { gen::deep(src, 120) } else { gen::doc(src) };
    if src.chance(1, 20) {
        other = gen::wide(src, 2000);
    }
    let mut calls = 0;
    each_call(&tree, &mut |_| calls += 1);
    for d in [&doc, &other] {
        if !Ev::affordable(d, FUNCS, &tree) {
            cx.label("discarded: too large");
            continue;
        }
        match evaluate(&text, d)? {
            Some(n) => {
                cx.label_if(n > 0, "selects something");
                cx.label_if(calls > 0, "calls functions");
                if n > 0 || calls > 0 {
                    cx.nontrivial((&text, d.to_string()));
                    cx.sample(|| format!("{text} on {d}"));
                }
            }
            None => cx.label("rejected"),
        }
    }
    Ok(())
}
