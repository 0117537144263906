use crate::abnf::{self, Verdict};
use crate::engine::{alloc_count, lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{Ev, Quirks};
use crate::userfn::{start_log, take_log, FUNCS};
use crate::{fail, gen, oracle, render, sweep};
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::hint::black_box;
use std::time::Instant;

pub static CHECK: Check = Check {
    id: "C28",
    rule: "A case is a document and a query: one to four ways to nest filters, calls and logical expressions repeated up to 16 levels over a \
           document of that depth, or a random query over all selectors and user functions. The reference evaluator, which evaluates every \
           operand once for each candidate, counts its steps s and its calls c of user functions. The library, plainly and with locations, \
           must make at most 2 c + 2 of these calls, and at most 60 + s (24 + d) allocations of at most 16384 + s (4096 + 256 d) bytes where \
           the document is d levels deep, however large its values are. Non-trivial: s is at least 50; distinct by text and \
           document.",
    quick: 500_000,
    thorough: 30_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "work is measured as calls of user functions and as allocations; work without either is bounded only by a limit of ten seconds",
        "where the known findings F4, F5 or F6 change what is selected, the larger of the model's counts with and without them is the measure",
        "queries with match and search are not generated, as compiling a pattern allocates",
    ],
};

const FUEL: u64 = 60_000;

/// Steps and calls of the model, if it is not too much
fn model(text: &str, doc: &Value, quirks: Quirks) -> Option<(u64, u64)> {
    let q = match abnf::parse(text, FUNCS) {
        Verdict::Accept(q) => q,
        _ => return None,
    };
    let mut ev = Ev::with_fuel(doc, FUNCS, FUEL);
    ev.quirks = quirks;
    ev.log_calls = true;
    ev.weigh = false;
    ev.run(&q).ok()?;
    let calls = ev.calls.borrow().len() as u64;
    Some((FUEL - ev.left(), calls))
}

/// The most steps and calls of the model with any of the deviations of the known findings F4, F5 and F6, which
/// change what is selected, and so what later segments work on
fn most(text: &str, doc: &Value) -> Option<(u64, u64)> {
    let mut most = (0, 0);
    for i in 0..8 {
        let (s, c) = model(text, doc, Quirks { idx: i & 1 != 0, num: i & 2 != 0, ord: i & 4 != 0 })?;
        most = (s.max(most.0), c.max(most.1));
    }
    Some(most)
}

/// Allocations and bytes: a step may make a few small ones and some for each part of a location, but copy no values;
/// about four times what is measured
fn bound(steps: u64, depth: u64) -> (u64, u64) {
    (60 + steps * (24 + depth), 16384 + steps * (4096 + 256 * depth))
}

fn depth(v: &Value) -> u64 {
    1 + match v {
        Value::Array(a) => a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// The document, or the start of a long one
fn brief(doc: &Value) -> String {
    let t = doc.to_string();
    match t.char_indices().nth(3000) {
        Some((i, _)) => format!("{}… ({} bytes)", &t[..i], t.len()),
        None => t,
    }
}

fn check(text: &str, doc: &Value, cx: &mut Cx) -> Result<Option<u64>, Fail> {
    let none = Quirks { idx: false, num: false, ord: false };
    let Some((mut steps, mut calls)) = model(text, doc, none) else {
        cx.label("discarded: too large");
        return Ok(None);
    };
    let p = oracle::accept(text)?;
    let mut limit = bound(steps, depth(doc));
    let what = format!("query {text:?} on {}", brief(doc));
    for located in [false, true] {
        let go = |p: &JsonPath| {
            if located {
                black_box(p.query_located(doc).len())
            } else {
                black_box(p.query(doc).len())
            }
        };
        let how = if located { "with locations" } else { "plainly" };
        start_log();
        let t0 = Instant::now();
        let r = lib(&what, || go(&p));
        let made = take_log().len() as u64;
        r?;
        if t0.elapsed().as_secs() >= 10 {
            fail!("evaluating {text:?} {how} on {} takes {:?}", brief(doc), t0.elapsed());
        }
        if made > 2 * calls + 2 {
            let Some((s, c)) = most(text, doc) else {
                cx.label("discarded: too large");
                return Ok(None);
            };
            (steps, calls) = (s, c);
            limit = bound(steps, depth(doc));
        }
        if made > 2 * calls + 2 {
            fail!("evaluating {text:?} {how} on {} makes {made} calls of user functions where the definition needs {calls}", brief(doc));
        }
        // user functions allocate as they like
        if calls == 0 {
            let ((n, bytes), _) = lib(&what, || {
                let before = alloc_count();
                let r = go(&p);
                let after = alloc_count();
                ((after.0 - before.0, after.1 - before.1), r)
            })?;
            if n > limit.0 || bytes > limit.1 {
                let Some((s, _)) = most(text, doc) else {
                    cx.label("discarded: too large");
                    return Ok(None);
                };
                steps = s;
                limit = bound(steps, depth(doc));
            }
            if n > limit.0 || bytes > limit.1 {
                fail!("evaluating {text:?} {how} on {} makes {n} allocations of {bytes} bytes, more than {limit:?} for {steps} steps of the definition", brief(doc));
            }
            let share = ((n * 10).div_ceil(limit.0)).max((bytes * 10).div_ceil(limit.1)) * 10;
            cx.label(&format!("at most {share} % of the bound"));
        }
    }
    Ok(Some(steps))
}

/// (before, after) of a test of a node that has the rest of the document below it
const LOGICAL: [(&str, &str, bool); 20] = [
    ("@[?", "]", true),
    ("@.*[?", "]", true),
    ("!@[?!", "]", true),
    ("(", ")", false),
    ("!(", ")", false),
    ("(@.* && ", ")", false),
    ("@.none || ", "", false),
    ("@ == 1 || ", "", false),
    ("@.* && ", "", false),
    ("(", " || @.none)", false),
    ("(", " && @.*)", false),
    ("fl_l(", ")", false),
    ("!fl_l(", ")", false),
    ("fl_ll(", ", @.*)", false),
    ("fv_l(", ") != null", false),
    ("count(@[?", "]) > 0", true),
    ("0 < count(@[?", "])", true),
    ("value(@[?", "]) == $.none", true),
    ("value(@[?", "]) != value(@[?@.none])", true),
    ("fl_n(@[?", "])", true),
];

/// A document in which each node on a chain of `levels` has a member or element, and a few more
fn chain(levels: usize, arrays: u64, extra: u64) -> Value {
    let mut v = json!(1);
    for i in 0..levels {
        let bit = |m: u64| m >> (i % 64) & 1 == 1;
        v = match (bit(arrays), bit(extra)) {
            (false, false) => json!({"a": v}),
            (false, true) => json!({"a": v, "b": 0}),
            (true, false) => json!([v]),
            (true, true) => json!([v, null]),
        };
    }
    v
}

fn family(word: &[(&str, &str, bool)], core: &str, levels: usize) -> (String, usize) {
    let (mut open, mut close, mut depth) = (String::new(), String::new(), 2);
    for i in 0..levels {
        let (a, b, down) = word[i % word.len()];
        open.push_str(a);
        close.insert_str(0, b);
        depth += usize::from(down) * if a.contains(".*[") { 2 } else { 1 };
    }
    (format!("$[?{open}{core}{close}]"), depth)
}

const CORES: [&str; 6] = ["@", "@.a", "fl_v(@)", "!fl_n(@.*)", "@ == 1", "fv_v(@) == 1"];

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut cx = Cx::new(false);
    let mut n = 0;
    for w in LOGICAL {
        for core in CORES {
            for levels in [1, 2, 4, 8, 12, 16] {
                let (t, depth) = family(&[w], core, levels);
                for (arrays, extra) in [(0, 0), (u64::MAX, 0), (0x5555_5555, 0)] {
                    check(&t, &chain(depth, arrays, extra), &mut cx)?;
                    n += 1;
                }
            }
        }
    }
    // what selects much, or descends deep
    let wide = Value::Array((0..500).map(|i| json!({"a": i, "b": [i]})).collect());
    let deep = chain(100, 0x00ff_00ff, 0x3333_3333);
    for t in ["$", "$.*", "$[*].a", "$..*", "$..a", "$..[0]", "$[?@.a]", "$[?@.a > 5]", "$[::2]", "$[-1]", "$..[?@ == 1]", "$[*]['a','b']", "$[?@.b[0] == @.a]", "$[?length(@.b) == 1]", "$[?count(@.*) == 2]", "$..[?@.a == 'x']"] {
        for d in [&wide, &deep] {
            check(t, d, &mut cx)?;
            n += 1;
        }
    }
    // few steps over much
    let long = "x".repeat(1_000_000);
    let full = chain(20, 0x3333_3333, u64::MAX);
    let bulky = json!([{"a": long, "b": vec![full.clone(); 500], "c": {"d": vec![&long[..1000]; 1000]}}, [[long], vec![full; 300]], long, vec![1; 30_000], vec!["xyz"; 10_000]]);
    for t in [
        "$", "$[0]", "$.*", "$[1][0][0]", "$[0].b[3]", "$[?@.a]", "$[?@.b]", "$[?!@.c]", "$[?count(@.*) > 1]", "$[?count(@.a) == 1]", "$[?length(@) > 3]", "$[?length(@.b) == 500]",
        "$[?value(@.a) == 'x']", "$[?value(@.b) == 1]", "$[?@.a == @.b]", "$[?@.b == 1]", "$[?@ == $[2]]", "$[?@ == $]", "$[?@.c != $[0].c]", "$[?@ < 'y']", "$[?@[0] == $[1][0]]",
        "$[?length(value(@.b)) == 500]", "$[?count(@['a','b']) == 2 && length(@.a) == 1000000]", "$[0,1,2]", "$[::-1]", "$[?$[0].b]", "$[?$ == @]", "$[?count($.*) == 5]",
    ] {
        if check(t, &bulky, &mut cx)?.is_none() {
            fail!("the query {t} is too large for the model");
        }
        n += 1;
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check(&c.text, &c.doc, &mut Cx::new(false)).map(drop))
}

/// Make a text or the core of a chain long
fn weigh(src: &mut Src, v: &mut Value) {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let i = src.below(a.len());
            weigh(src, &mut a[i]);
        }
        Value::Object(o) if !o.is_empty() => {
            let i = src.below(o.len());
            weigh(src, o.iter_mut().nth(i).unwrap().1);
        }
        _ => *v = if src.coin() { "é".repeat(20_000).into() } else { vec![0; 3_000].into() },
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (text, mut doc) = if src.coin() {
        let word: Vec<_> = (0..src.size(1, 4)).map(|_| src.of(&LOGICAL)).collect();
        let core = src.of(&CORES);
        let levels = src.size(2, 16);
        let (t, depth) = family(&word, core, levels);
        cx.label("nested");
        let extra = if src.chance(1, 4) { src.draw(u64::MAX) } else { 0 };
        (t, chain(depth, src.draw(u64::MAX), extra))
    } else {
        let doc = gen::doc(src);
        let mut cfg = gen::EVERYTHING;
        cfg.filters = 3;
        cfg.calls = if src.coin() { 40 } else { 0 };
        cfg.funcs = FUNCS;
        let q = gen::G::new(src, &doc, cfg).query();
        let t = if src.chance(1, 4) { render::random(src, &q) } else { render::plain(&q) };
        cx.label("random");
        (t, doc)
    };
    if text.contains("match") || text.contains("search") {
        cx.label("discarded: a pattern");
        return Ok(());
    }
    if src.chance(1, 50) {
        weigh(src, &mut doc);
        cx.label("with a large value");
    }
    if let Some(steps) = check(&text, &doc, cx)? {
        if steps >= 50 {
            cx.nontrivial((&text, doc.to_string()));
            cx.sample(|| format!("{text} on {}: {steps} steps", brief(&doc)));
        }
    }
    Ok(())
}
