use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::userfn::FUNCS;
use crate::{fail, gen, oracle, sweep};
use serde_json::{json, Value};
use serde_json_path::JsonPathExt;

pub static CHECK: Check = Check {
    id: "C16",
    rule: "A case is an accepted text (a random query over all selectors and user functions, or edits of one) and three documents; plain, \
           located and extension-method results are compared place by place. Non-trivial: at least two nodes on one of them; distinct by \
           text and document.",
    quick: 250_000,
    thorough: 20_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[],
};

fn check(text: &str, doc: &Value) -> Result<usize, Fail> {
    let p = oracle::accept(text)?;
    let plain = oracle::query(&p, text, doc)?;
    let ext = lib(&format!("json_path {text:?} on {doc}"), || doc.json_path(&p).all())?;
    let located = lib(&format!("located query {text:?} on {doc}"), || p.query_located(doc))?;
    let nodes: Vec<&Value> = located.nodes().collect();
    oracle::check_places("with locations differs from without", text, doc, &plain, &nodes)?;
    oracle::check_places("the extension method differs from the query", text, doc, &plain, &ext)?;
    let places = oracle::Places::of(doc);
    for (n, v) in located.iter().zip(&plain) {
        let loc: Vec<_> = n.location().iter().map(oracle::elem).collect();
        let at = crate::eval::normalized(&loc);
        if places.get(v) != Some(at.as_str()) {
            fail!("query {text:?} on {doc}: a node is at {} without locations, and at {at} with them", places.show(&[v]));
        }
    }
    Ok(plain.len())
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let docs = [
        json!({"a": [1, 2, [3, {"b": 4, "a": 5}]], "b": {"a": {"a": [6]}, "c": null}, "c": [[], {}, "", 0]}),
        json!([[0, 1, 2, 3, 4], {"a": 1, "b": 1}, [[1], [1], [1]]]),
        json!(1),
    ];
    let mut n = 0;
    for t in [
        "$", "$.*", "$..*", "$..a", "$..[0]", "$..[-1]", "$[0,0]", "$['a','a',*]", "$[::-1]", "$[-1:0:-1]", "$[1:]", "$[:-1]", "$..[::2]", "$..[::-2]", "$[?@]",
        "$..[?@.a]", "$..[?@ == 1]", "$.*.*", "$..*..*", "$..[?@..a]", "$[?count(@.*) > 1]", "$[*,0,?@]", "$..['a','b']", "$[-1][-1]", "$..[?@ != $.c]", "$..[*,*]",
    ] {
        for d in &docs {
            check(t, d)?;
            n += 1;
        }
    }
    n += oracle::giant(|text, node, i| {
        if !node.location().get(0).is_some_and(|e| *e == i) || node.location().len() != 1 {
            fail!("query {text:?} on more than a million elements gives the location {} for {i}", node.location());
        }
        Ok(())
    })?;
    for d in &gen::huge() {
        for t in ["$.*", "$..*", "$[65535:65538]", "$[::-1]", "$..[-1,-70001]"] {
            check(t, d)?;
            n += 1;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check(&c.text, &c.doc).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let Some((doc, text, q)) = oracle::random_case(src, true) else {
        cx.label("discarded");
        return Ok(());
    };
    let others = [gen::doc(src), if src.coin() { gen::deep(src, 60) } else { gen::table(src) }];
    for d in [&doc, &others[0], &others[1]] {
        if !oracle::affordable(d, FUNCS, &q) {
            continue;
        }
        let k = check(&text, d)?;
        cx.label(match k {
            0 => "no nodes",
            1 => "one node",
            _ => "several nodes",
        });
        if k > 1 {
            cx.nontrivial((&text, d.to_string()));
            cx.sample(|| format!("{text} on {d} gives {k} nodes"));
        }
    }
    Ok(())
}
