use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::BUILTIN;
use crate::oracle::{self, Expected};
use crate::{gen, render, sweep};
use serde_json::{json, Map, Value};

pub static CHECK: Check = Check {
    id: "C04",
    rule: "Three kinds of cases: random expressions over p, q, r, s on the table of all combinations of present and absent members; \
           filters nested in filters that use @ and $ at every level; random queries with filters aimed at random documents. \
           Non-trivial when the query selects some node and a filter rejects some candidate or nests another filter; distinct by text and document.",
    quick: 700_000,
    thorough: 12_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the model in harness/src/eval.rs states RFC 9535 section 2.3.5 correctly",
        "results that the known findings F4, F5 or F6 explain exactly are not judged",
    ],
};

fn fixed(_: bool) -> Result<u64, Fail> {
    // a query as a test asks whether nodes exist, whatever their values
    let d = json!([{"a": null}, {"a": false}, {"a": 0}, {"a": ""}, {"a": []}, {"b": 1}, 1, "a", ["a"], null]);
    let all = ["$[0]", "$[1]", "$[2]", "$[3]", "$[4]"];
    oracle::selects("$[?@.a]", &d, &all)?;
    oracle::selects("$[?!@.a]", &d, &["$[5]", "$[6]", "$[7]", "$[8]", "$[9]"])?;
    oracle::selects("$[?@]", &d, &["$[0]", "$[1]", "$[2]", "$[3]", "$[4]", "$[5]", "$[6]", "$[7]", "$[8]", "$[9]"])?;
    oracle::selects("$[?!@]", &d, &[])?;
    // filters apply to the members of objects as well
    let d = json!({"x": {"k": 1}, "y": {"k": 2}, "z": 3});
    oracle::selects("$[?@.k]", &d, &["$['x']", "$['y']"])?;
    oracle::selects("$[?@.k > 1]", &d, &["$['y']"])?;
    oracle::selects("$[?@ == 3]", &d, &["$['z']"])?;
    // the scope of @ and $
    let d = json!({"t": 2, "rows": [{"v": 1, "in": [{"v": 2}, {"v": 1}]}, {"v": 3, "in": [{"v": 3}]}, {"in": [[1]]}]});
    oracle::selects("$.rows[?@.in[?@.v == $.t]]", &d, &["$['rows'][0]"])?;
    oracle::selects("$.rows[?@.in[?@.v == 3]].v", &d, &["$['rows'][1]['v']"])?;
    oracle::selects("$.rows[?@.in[?@[?@ == 1]]]", &d, &["$['rows'][0]", "$['rows'][2]"])?;
    // precedence
    let d = json!([{"a": 1}, {"b": 1}, {"c": 1}, {"a": 1, "b": 1}, {"b": 1, "c": 1}, {}]);
    oracle::selects("$[?@.a || @.b && @.c]", &d, &["$[0]", "$[3]", "$[4]"])?;
    oracle::selects("$[?(@.a || @.b) && @.c]", &d, &["$[4]"])?;
    oracle::selects("$[?!@.a && @.b]", &d, &["$[1]", "$[4]"])?;
    oracle::selects("$[?!(@.a && @.b)]", &d, &["$[0]", "$[1]", "$[2]", "$[4]", "$[5]"])?;
    // long expressions, decided by each of their operands
    let mut n = 14;
    let d = json!([{"a": 1}, {"b": 1}, {}]);
    for k in [2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300] {
        for i in (0..k).filter(|i| k < 70 || i % 16 < 2 || i + 2 > k) {
            for (all, one) in [("@.c", "@.a"), ("@.a == 2", "@.a == 1"), ("(@.c)", "!@.b && @.a"), ("!@", "@.a && (@.c || @.a)"), ("count(@.*) == 7", "value(@.a) == 1")] {
                let mut parts = vec![all; k];
                parts[i] = one;
                oracle::selects(&format!("$[?{}]", parts.join("||")), &d, &["$[0]"])?;
                n += 1;
            }
            for (all, one) in [("@", "@.a"), ("!@.c", "@.a == 1"), ("(@)", "!(@.b || !@.a)"), ("1 == 1", "count(@.a) == 1")] {
                let mut parts = vec![all; k];
                parts[i] = one;
                oracle::selects(&format!("$[?{}]", parts.join(" && ")), &d, &["$[0]"])?;
                n += 1;
            }
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Operands, sweep::Of::Nests, sweep::Of::Depth], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

fn atom(src: &mut Src, doc: &Value, scoped: bool, k: &str) -> Basic {
    let segs = vec![Seg::child(Sel::Name(k.into()))];
    if scoped && src.chance(1, 6) {
        // a test on the root
        let mut segs = segs;
        let i = src.below(doc.as_array().map_or(1, |a| a.len().max(1)));
        segs.insert(0, Seg::child(Sel::Index(i as i64)));
        return Basic::Exist(src.chance(1, 3), Query::new(true, segs));
    }
    let q = Query::new(false, segs);
    match src.weighted(&[8, 3]) {
        0 => Basic::Exist(src.chance(1, 3), q),
        _ => Basic::Cmp(Operand::Query(q), src.of(&[Op::Eq, Op::Ne]), Operand::Lit(Lit::Num("1".into()))),
    }
}

fn formula(src: &mut Src, doc: &Value, depth: u32) -> Or {
    let n = 1 + src.weighted(&[5, 4, 2]);
    Or((0..n)
        .map(|_| {
            let n = 1 + src.weighted(&[5, 4, 2]);
            And((0..n)
                .map(|_| {
                    if depth > 0 && src.chance(1, 3) {
                        Basic::Paren(src.coin(), formula(src, doc, depth - 1))
                    } else {
                        let k = src.of(&["p", "q", "r", "s"]);
                        atom(src, doc, true, k)
                    }
                })
                .collect())
        })
        .collect())
}

fn truth_table(src: &mut Src) -> (Value, Query) {
    let mut rows: Vec<Value> = (0..16u32)
        .map(|bits| {
            let mut m = Map::new();
            for (i, k) in ["p", "q", "r", "s"].iter().enumerate() {
                if bits & (1 << i) != 0 {
                    m.insert(k.to_string(), src.of(&[0, 0, 0, 1]).eq(&0).then_some(json!(1)).unwrap_or_else(|| src.of(&[Some(false), None]).into()));
                }
            }
            Value::Object(m)
        })
        .collect();
    if src.chance(1, 3) {
        let i = src.below(16);
        rows.swap(0, i);
    }
    let doc = Value::Array(rows);
    let f = formula(src, &doc, 3);
    (doc, Query::new(true, vec![Seg::child(Sel::Filter(f))]))
}

/// Filters within filters within filters, on a document of several such levels
fn nested(src: &mut Src) -> (Value, Query) {
    fn tree(src: &mut Src, depth: u32) -> Value {
        let mut m = Map::new();
        m.insert("v".into(), Value::from(src.below(4)));
        if src.coin() {
            m.insert("w".into(), Value::from(src.below(4)));
        }
        if depth > 0 {
            let cs: Vec<Value> = (0..src.size(1, 4)).map(|_| tree(src, depth - 1)).collect();
            m.insert(
                "c".into(),
                if src.coin() { Value::Array(cs) } else { Value::Object(cs.into_iter().enumerate().map(|(i, c)| (format!("m{i}"), c)).collect()) },
            );
        }
        Value::Object(m)
    }
    fn filter(src: &mut Src, depth: u32) -> Or {
        let name = |k: &str| Seg::child(Sel::Name(k.into()));
        let sub = |src: &mut Src| {
            let inner = filter(src, depth.saturating_sub(1));
            let mut segs = vec![name("c"), Seg { desc: src.chance(1, 8), sels: vec![Sel::Filter(inner)] }];
            if src.chance(1, 4) {
                segs.push(name(["v", "w", "c"][src.below(3)]));
            }
            let root = src.chance(1, 4);
            Query::new(root, segs)
        };
        let basic = |src: &mut Src| {
            if depth > 0 && src.chance(3, 5) {
                let neg = src.chance(1, 4);
                return match src.weighted(&[6, 2, 1]) {
                    0 => Basic::Exist(neg, sub(src)),
                    1 => {
                        let c = Call { name: "count".into(), args: vec![Arg::Query(sub(src))] };
                        Basic::Cmp(Operand::Call(c), src.of(&OPS), Operand::Lit(Lit::Num(src.below(4).to_string())))
                    }
                    _ => Basic::Paren(neg, Or::one(Basic::Exist(src.coin(), sub(src)))),
                };
            }
            let side = |src: &mut Src| match src.weighted(&[4, 2, 2]) {
                0 => Operand::Query(Query::new(false, vec![name(["v", "w"][src.below(2)])])),
                1 => Operand::Query(Query::new(true, vec![name(["v", "w"][src.below(2)])])),
                _ => Operand::Lit(Lit::Num(src.below(4).to_string())),
            };
            Basic::Cmp(side(src), src.of(&OPS), side(src))
        };
        let mut ors = vec![And(vec![basic(src)])];
        if src.chance(1, 4) {
            ors[0].0.push(basic(src));
        }
        if src.chance(1, 4) {
            ors.push(And(vec![basic(src)]));
        }
        Or(ors)
    }
    let doc = tree(src, 3);
    let f = filter(src, 3);
    let mut segs = vec![Seg { desc: src.chance(1, 5), sels: vec![Sel::Name("c".into())] }, Seg::child(Sel::Filter(f))];
    if src.chance(1, 3) {
        segs.push(Seg::child(Sel::Name("v".into())));
    }
    (doc, Query::new(true, segs))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (doc, q) = match src.weighted(&[3, 2, 5]) {
        0 => {
            cx.label("truth table");
            truth_table(src)
        }
        1 => {
            cx.label("nested filters");
            nested(src)
        }
        _ => {
            let doc = gen::doc(src);
            let mut cfg = gen::FILTERS;
            cfg.filters = 1 + src.below(3) as u32;
            cfg.calls = src.of(&[0, 0, 10]);
            let mut q = gen::G::new(src, &doc, cfg).query();
            let mut has = false;
            for s in &q.segs {
                has |= s.sels.iter().any(|s| matches!(s, Sel::Filter(_)));
            }
            if !has {
                // filters are the point
                let mut g = gen::G::new(src, &doc, cfg);
                let root = g.root.clone();
                let cands = crate::eval::children(&root);
                let f = g.or(&cands, 2);
                q.segs = vec![Seg::child(Sel::Filter(f))];
            }
            (doc, q)
        }
    };
    let Ok(e) = Expected::of(&doc, BUILTIN, &q) else {
        cx.label("discarded: too large");
        return Ok(());
    };
    let text = if src.chance(1, 3) { render::random(src, &q) } else { render::plain(&q) };
    let p = oracle::accept(&text)?;
    e.check_both(&text, &p, cx)?;
    let nests = {
        let mut depth = 0;
        each_query(&q, &mut |q| depth += usize::from(q.segs.iter().any(|s| s.sels.iter().any(|s| matches!(s, Sel::Filter(_))))));
        depth > 1
    };
    cx.label_if(nests, "nested");
    cx.label_if(e.rfc.is_empty(), "selects nothing");
    if !e.rfc.is_empty() && (nests || e.rfc.len() < oracle::size(&doc) - 1) {
        cx.nontrivial((&text, doc.to_string()));
        cx.sample(|| format!("{text} on {doc} selects {} nodes", e.rfc.len()));
    }
    Ok(())
}
