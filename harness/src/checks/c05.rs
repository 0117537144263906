use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{Funcs, BUILTIN};
use crate::oracle::{self, Expected};
use crate::{gen, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C05",
    rule: "A case is a document and a filter built around calls of length, count and value (nested up to three deep) compared with \
           literals near the true result, other calls or queries. Non-trivial when the filter separates or selects some candidate \
           and a call yields a value there; distinct by text and document.",
    quick: 900_000,
    thorough: 12_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the model in harness/src/eval.rs states RFC 9535 section 2.4 correctly",
        "results that the known findings F4, F5 or F6 explain exactly are not judged",
    ],
};

const FUNCS: Funcs = Funcs { user: &[], regex: false };

fn fixed(_: bool) -> Result<u64, Fail> {
    let d = json!(["", "a", "é", "e\u{301}", "😀", "😀a", [], [1], [1, 2], {}, {"a": 1}, {"a": 1, "b": 2}, null, true, 0, 12]);
    let at = |is: &[usize]| -> Vec<String> { is.iter().map(|i| format!("$[{i}]")).collect() };
    let mut n = 0;
    for (t, is) in [
        ("$[?length(@) == 0]", &[0usize, 6, 9][..]),
        ("$[?length(@) == 1]", &[1, 2, 4, 7, 10]),
        ("$[?length(@) == 2]", &[3, 5, 8, 11]),
        ("$[?length(@) == length($.nothing)]", &[12, 13, 14, 15]),
        ("$[?length(@.a) == $.x]", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        ("$[?count(@.*) == 1]", &[7, 10]),
        ("$[?count(@) == 1]", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        ("$[?count(@['a','a']) == 2]", &[10, 11]),
        ("$[?count(@[0,0,*]) == 3]", &[7]),
        ("$[?count(@..*) == 2]", &[8, 11]),
        ("$[?value(@.*) == 1]", &[7, 10]),
        ("$[?value(@[0,0]) == 1]", &[]),
        ("$[?value(@.*) == $.x]", &[0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14, 15]),
        ("$[?length(value(@)) == 2]", &[3, 5, 8, 11]),
        ("$[?length('😀é') == count(@.*)]", &[8, 11]),
        ("$[?value(@) == null]", &[12]),
    ] {
        let want = at(is);
        oracle::selects(t, &d, &want.iter().map(String::as_str).collect::<Vec<_>>())?;
        n += 1;
    }
    // every character counts one
    for block in gen::blocks(4096) {
        let d = Value::Array(block.iter().map(|c| Value::String(c.to_string())).collect());
        let more = Value::Array(block.iter().map(|c| Value::String(format!("{c}e{c}"))).collect());
        for (d, t) in [(&d, "$[?length(@) != 1]"), (&more, "$[?length(@) != 3]")] {
            let p = oracle::accept(t)?;
            for got in [oracle::query(&p, t, &json!([]))?.first(), crate::engine::lib(t, || p.query(d))?.first().as_ref(), crate::engine::lib(t, || p.query_located(d))?.first().map(|n| n.node()).as_ref()] {
                if let Some(v) = got {
                    crate::fail!("query {t:?} on an array of strings selects {v}");
                }
            }
            n += 1;
        }
    }
    // sizes on both sides of what fits in a byte or in two
    for size in [127usize, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000] {
        let d = json!([
            vec![0; size],
            (0..size).map(|i| (i.to_string(), Value::Null)).collect::<serde_json::Map<_, _>>(),
            "a".repeat(size),
            "😀".repeat(size),
        ]);
        for at in 0..4 {
            let t = format!("$[{at}, {at}][?length($[{at}]) != {size}]");
            oracle::selects(&t, &d, &[])?;
            let t = format!("$[?length(@) == {size}]");
            oracle::selects(&t, &d, &["$[0]", "$[1]", "$[2]", "$[3]"])?;
        }
        oracle::selects(&format!("$[?count(@.*) == {size}]"), &d, &["$[0]", "$[1]"])?;
        oracle::selects(&format!("$[?count(@..*) == {size}]"), &d, &["$[0]", "$[1]"])?;
        oracle::selects("$[?value(@.*) == value($.nothing)]", &d, &["$[0]", "$[1]", "$[2]", "$[3]"])?;
        n += 11;
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Calls, sweep::Of::Depth], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = match src.weighted(&[6, 3, 2]) {
        0 => gen::doc(src),
        1 => gen::table(src),
        _ => {
            // strings and containers of many lengths
            let n = src.size(2, 6);
            Value::Array(
                (0..n)
                    .map(|_| match src.below(4) {
                        0 => Value::String(gen::text(src, 8)),
                        1 => Value::String(gen::string(src)),
                        2 => Value::Array((0..src.below(4)).map(|_| gen::scalar(src)).collect()),
                        _ => json!({"a": gen::string(src), "b": [gen::text(src, 3)]}),
                    })
                    .collect(),
            )
        }
    };
    let mut cfg = gen::FILTERS;
    cfg.funcs = FUNCS;
    cfg.calls = 60;
    cfg.filters = 1;
    let mut g = gen::G::new(src, &doc, cfg);
    let mut segs = vec![];
    let mut at = vec![g.root.clone()];
    if g.src.chance(1, 2) {
        let n = g.src.size(0, 2);
        (segs, at) = g.segs(at, n, 0);
    }
    let cands: Vec<_> = at.iter().flat_map(crate::eval::children).take(40).collect();
    let b = g.cmp(&cands, 1);
    let f = match g.src.weighted(&[6, 1, 1]) {
        0 => Or::one(b),
        1 => Or(vec![And(vec![b, g.basic(&cands, 1)])]),
        _ => Or(vec![And(vec![b]), And(vec![g.basic(&cands, 1)])]),
    };
    segs.push(Seg { desc: g.src.chance(1, 10), sels: vec![Sel::Filter(f)] });
    let q = Query::new(true, segs);
    let Ok(e) = Expected::of(&doc, BUILTIN, &q) else {
        cx.label("discarded: too large");
        return Ok(());
    };
    let mut names = vec![];
    each_call(&q, &mut |c| names.push(c.name.clone()));
    let text = if src.chance(1, 3) { render::random(src, &q) } else { render::plain(&q) };
    let p = oracle::accept(&text)?;
    e.check_both(&text, &p, cx)?;
    for n in &names {
        cx.label(n);
    }
    cx.label_if(names.len() > 1, "several calls");
    if !names.is_empty() && !e.rfc.is_empty() {
        cx.nontrivial((&text, doc.to_string()));
        cx.sample(|| format!("{text} on {doc} selects {} nodes", e.rfc.len()));
    }
    Ok(())
}
