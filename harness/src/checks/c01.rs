use crate::ast::*;
use crate::engine::{Check, Cx, Outcome, Src};
use crate::eval::{Ev, BUILTIN};
use crate::{gen, oracle, render, sweep};
use serde_json::Value;

pub static CHECK: Check = Check {
    id: "C01",
    rule: "A case is a document and one or more random queries of name, wildcard, index, slice and descendant segments \
           aimed at it; non-trivial when the model selects at least one node; distinct by query text and document.",
    quick: 1_000_000,
    thorough: 6_000_000,
    run,
    fixed: Some(|_| repeated()),
    assumptions: &["the model in harness/src/eval.rs states RFC 9535 section 2.3 and 2.5 correctly"],
};

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Segments, sweep::Of::Selectors, sweep::Of::Slices, sweep::Of::Names, sweep::Of::Blanks, sweep::Of::Members, sweep::Of::Depth], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = match src.weighted(&[30, 2, 1]) {
        0 => gen::doc(src),
        1 => gen::deep(src, 200),
        _ => gen::wide(src, 1500),
    };
    let n = src.size(1, 3);
    for _ in 0..n {
        let q = gen::G::new(src, &doc, gen::STRUCTURAL).query();
        check(src, cx, &doc, &q)?;
    }
    Ok(())
}

fn check(src: &mut Src, cx: &mut Cx, doc: &Value, q: &Query) -> Outcome {
    let Ok(expected) = Ev::new(doc, BUILTIN).run(q) else {
        cx.label("discarded: too large");
        return Ok(());
    };
    let text = if src.chance(1, 3) { render::random(src, q) } else { render::plain(q) };
    let path = oracle::accept(&text)?;
    oracle::check_query(&text, &path, doc, &expected)?;
    cx.label_if(expected.is_empty(), "selects nothing");
    cx.label_if(expected.len() > 1, "selects several nodes");
    cx.label_if(q.segs.iter().any(|s| s.desc), "descendant segment");
    cx.label_if(q.segs.iter().any(|s| s.sels.len() > 1), "several selectors");
    let sels = || q.segs.iter().flat_map(|s| &s.sels);
    cx.label_if(sels().any(|s| matches!(s, Sel::Index(i) if *i < 0)), "negative index");
    cx.label_if(sels().any(|s| matches!(s, Sel::Slice(..))), "slice");
    cx.label_if(expected.iter().any(|n| n.loc.len() > 20), "deep node");
    if !expected.is_empty() {
        cx.nontrivial((&text, doc.to_string()));
        cx.sample(|| format!("{text} on {doc} selects {} nodes", expected.len()));
    }
    Ok(())
}
