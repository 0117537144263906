use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{slice_indices, Ev, BUILTIN};
use crate::{fail, gen, oracle, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C02",
    rule: "Listed first: every slice with start and end in -8..8 or omitted and step in -4..4 or omitted on arrays of 0 to 6 \
           elements (thorough: -13..13, -7..7, 0 to 11). Generated: arrays of up to 3000 elements and other values, slice parts \
           around 0, the length, 2^31 and 2^53, slices behind other segments and beside other selectors. Non-trivial when some \
           slice selects an element of an array; distinct by query text and lengths.",
    quick: 1_500_000,
    thorough: 40_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["slice_indices in harness/src/eval.rs is the algorithm of RFC 9535 section 2.3.4.2.2"],
};

/// What a slice selects, said without the bounds rules: walk from the first candidate position
fn naive(start: Option<i64>, end: Option<i64>, step: Option<i64>, len: i64) -> Vec<usize> {
    let step = step.unwrap_or(1);
    let norm = |x: i64| if x < 0 { x + len } else { x };
    match step {
        0 => vec![],
        1.. => {
            let lo = norm(start.unwrap_or(0)).max(0);
            let hi = end.map_or(len, norm);
            (0..len).filter(|i| *i >= lo && *i < hi && (*i - lo) % step == 0).map(|i| i as usize).collect()
        }
        _ => {
            let hi = start.map_or(len - 1, norm).min(len - 1);
            let lo = end.map_or(-1, norm).max(-1);
            (0..len).rev().filter(|i| *i <= hi && *i > lo && (hi - *i) % -step == 0).map(|i| i as usize).collect()
        }
    }
}

fn fixed(thorough: bool) -> Result<u64, Fail> {
    let (lens, bound, steps) = if thorough { (0..=11, 13i64, 7i64) } else { (0..=6, 8, 4) };
    let docs: Vec<Value> = lens.map(|n: i64| Value::from((0..n).collect::<Vec<_>>())).collect();
    let part = |b: i64| (-b - 1..=b).map(move |i| if i < -b { None } else { Some(i) });
    let mut n = 0;
    for s in part(bound) {
        for e in part(bound) {
            for st in part(steps) {
                let t = |x: Option<i64>| x.map_or(String::new(), |x| x.to_string());
                let text = match st {
                    None => format!("$[{}:{}]", t(s), t(e)),
                    Some(st) => format!("$[{}:{}:{st}]", t(s), t(e)),
                };
                let p = oracle::accept(&text)?;
                for doc in &docs {
                    let a = doc.as_array().unwrap();
                    let is = slice_indices(s, e, st, a.len());
                    assert_eq!(is, naive(s, e, st, a.len() as i64), "the two models disagree on {text} of {doc}");
                    let want: Vec<&Value> = is.iter().map(|i| &a[*i]).collect();
                    let got = oracle::query(&p, &text, doc)?;
                    oracle::check_places("plain slice", &text, doc, &want, &got)?;
                    let got = oracle::located(&p, &text, doc)?;
                    oracle::check_places("located slice", &text, doc, &want, &oracle::values(&got))?;
                    if got.iter().zip(&is).any(|(g, i)| g.loc != [crate::eval::Elem::Idx(*i)]) {
                        fail!("located slice {text} of {doc}: wrong index in a location: {got:?}");
                    }
                    n += 1;
                }
            }
        }
    }
    for doc in [json!({"0": 1}), json!("abc"), json!(1), json!(true), json!(null)] {
        for t in ["$[:]", "$[::-1]", "$[0:1]", "$[::0]", "$[-1:]"] {
            oracle::selects(t, &doc, &[])?;
            n += 1;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Slices, sweep::Of::Members], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

fn part(src: &mut Src, len: i64, step: bool) -> Option<i64> {
    const M: i64 = (1 << 53) - 1;
    match src.weighted(&[3, 8, 4, 1, 1]) {
        0 => None,
        1 if step => Some(src.of(&[1, -1, 2, -2, 3, -3, 0, 5, -5, 7])),
        1 => Some(src.range(-len - 2, len + 2)),
        2 => Some(src.of(&[0, 1, -1, len, -len, len - 1, 1 - len, len + 1, -len - 1])),
        3 => Some(src.of(&[M, -M, M - 1, 1 - M, M - len, len - M])),
        _ => Some(src.of(&[1i64 << 31, -(1i64 << 31), 1 << 32, (1 << 31) - 1, (1 << 32) + 1, 1 << 40, -(1 << 40)])),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let array = |src: &mut Src| {
        let n = match src.weighted(&[10, 3, 1]) {
            0 => src.below(12),
            1 => src.below(70),
            _ => src.below(700),
        };
        Value::from((0..n as i64).collect::<Vec<_>>())
    };
    // the sliced value is the document, or values within it
    let shape = src.weighted(&[6, 2, 2, 1]);
    let inner = array(src);
    let len = inner.as_array().unwrap().len() as i64;
    let doc = match shape {
        0 => inner,
        1 => json!({"a": inner, "b": gen::scalar(src), "c": {"x": array(src)}}),
        2 => json!([inner, array(src), gen::doc(src)]),
        _ => json!({"a": [gen::scalar(src), inner], "b": gen::doc(src)}),
    };
    let mut segs = match shape {
        0 => vec![],
        1 | 2 => vec![Seg::child(Sel::Wild)],
        _ => vec![Seg::child(Sel::Name("a".into())), Seg::child(Sel::Index(1))],
    };
    if src.chance(1, 6) {
        segs.clear();
    }
    let mut sels = vec![];
    for _ in 0..1 + src.weighted(&[8, 2, 1]) {
        sels.push(Sel::Slice(part(src, len, false), part(src, len, false), part(src, len, true)));
    }
    if src.chance(1, 8) {
        sels.insert(src.below(sels.len() + 1), Sel::Index(src.range(-2, 2)));
    }
    segs.push(Seg { desc: segs.is_empty() && src.chance(1, 3), sels });
    if src.chance(1, 6) {
        segs.push(Seg::child(Sel::Slice(part(src, 3, false), part(src, 3, false), part(src, 3, true))));
    }
    let q = Query::new(true, segs);
    let Ok(expected) = Ev::new(&doc, BUILTIN).run(&q) else {
        cx.label("discarded: too large");
        return Ok(());
    };
    let text = if src.chance(1, 3) { render::random(src, &q) } else { render::plain(&q) };
    let p = oracle::accept(&text)?;
    oracle::check_query(&text, &p, &doc, &expected)?;
    cx.label_if(expected.is_empty(), "selects nothing");
    cx.label_if(q.segs.iter().flat_map(|s| &s.sels).any(|s| matches!(s, Sel::Slice(_, _, Some(..=-1)))), "negative step");
    if !expected.is_empty() {
        cx.nontrivial((&text, doc.to_string()));
        cx.sample(|| format!("{text} on an array of {len} selects {} nodes", expected.len()));
    }
    Ok(())
}
