use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::normalized;
use crate::{fail, gen, oracle, sweep};
use serde_json::{json, Value};
use serde_json_path::{LocatedNode, LocatedNodeList};
use std::collections::{BTreeMap, BTreeSet};

pub static CHECK: Check = Check {
    id: "C19",
    rule: "A case is a document and located results of up to five queries on it, taken whole or in part, repeated, concatenated and put in \
           some order (as selected, reversed, rotated, shuffled, sorted by text); both forms of deduplication, done once and twice, on the \
           list and on clones of it. Non-trivial: at least one place occurs twice; distinct by document and list of locations.",
    quick: 250_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["lists that mix the results of different documents are not judged"],
};

fn text(n: &LocatedNode) -> String {
    let loc: Vec<_> = n.location().iter().map(oracle::elem).collect();
    normalized(&loc)
}

fn addr(v: &Value) -> usize {
    v as *const Value as usize
}

fn show(l: &LocatedNodeList) -> Vec<String> {
    l.iter().map(text).collect()
}

fn same(a: &LocatedNodeList, b: &LocatedNodeList) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| std::ptr::eq(x.node(), y.node()) && x.location() == y.location())
}

fn check(doc: &Value, list: Vec<LocatedNode>) -> Result<(), Fail> {
    let places = oracle::Places::of(doc);
    let before: Vec<String> = list.iter().map(text).collect();
    let want: BTreeSet<usize> = list.iter().map(|n| addr(n.node())).collect();
    let list = LocatedNodeList::from(list);
    let by_value = lib(&format!("dedup of {before:?} on {doc}"), || list.clone().dedup())?;
    let mut in_place = list.clone();
    lib(&format!("dedup_in_place of {before:?} on {doc}"), || in_place.dedup_in_place())?;
    for (form, got) in [("dedup", &by_value), ("dedup_in_place", &in_place)] {
        let mut seen: BTreeMap<usize, String> = BTreeMap::new();
        for n in got.iter() {
            let t = text(n);
            let at = addr(n.node());
            if !want.contains(&at) {
                fail!("{form} of {before:?} on {doc} invents {t}");
            }
            if places.get(n.node()) != Some(t.as_str()) {
                fail!("{form} of {before:?} on {doc} has the location {t} for the node at {}", places.show(&[n.node()]));
            }
            if seen.insert(at, t.clone()).is_some() {
                fail!("{form} of {before:?} on {doc} keeps {t} twice");
            }
        }
        for n in list.iter() {
            if !seen.contains_key(&addr(n.node())) {
                fail!("{form} of {before:?} on {doc} loses {}", text(n));
            }
        }
        if got.len() != want.len() {
            fail!("{form} of {before:?} on {doc} has {} entries for {} places", got.len(), want.len());
        }
    }
    if !same(&by_value, &in_place) || by_value != in_place {
        fail!("dedup and dedup_in_place of {before:?} on {doc} differ: {:?} and {:?}", show(&by_value), show(&in_place));
    }
    let again = lib("dedup", || by_value.clone().dedup())?;
    lib("dedup_in_place", || in_place.dedup_in_place())?;
    if !same(&again, &by_value) || !same(&in_place, &by_value) {
        fail!("deduplicating {before:?} on {doc} a second time changes {:?} to {:?} and {:?}", show(&by_value), show(&again), show(&in_place));
    }
    Ok(())
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let docs = [
        json!({"foo": ["bar", "baz"], "a": {"a": {"a": 1}, "b": [1, 1, [1]]}, "": {"": {"": []}}, "ab": 1, "a/b": 1, "10": 2, "9": 2}),
        json!([[[0, 1], [0, 1]], [[0, 1], [0, 1]], 0, 0, 0, 0, 0, 0, 0, 0, 0, 10]),
        json!(5),
    ];
    let mut n = 0;
    for d in &docs {
        let mut pool: Vec<LocatedNode> = vec![];
        for t in ["$", "$..*", "$..[0,0]", "$.*", "$..[-1]", "$..a", "$[::-1]", "$..*"] {
            let p = oracle::accept(t)?;
            let l = p.query_located(d);
            check(d, l.clone().all())?;
            pool.extend(l);
            check(d, pool.clone())?;
            let mut back = pool.clone();
            back.reverse();
            check(d, back)?;
            n += 3;
        }
    }
    check(&json!(null), vec![])?;
    Ok(n + 1 + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Selectors, sweep::Of::Members, sweep::Of::Depth, sweep::Of::Names, sweep::Of::Segments], |c| {
        let p = oracle::accept(&c.text)?;
        let once = p.query_located(&c.doc).all();
        let back = once.iter().rev().chain(&once).cloned().collect();
        check(&c.doc, once)?;
        check(&c.doc, back)
    })
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = gen::doc(src);
    let mut all: Vec<LocatedNode> = vec![];
    for i in 0..src.size(1, 5) {
        let t = match src.below(4) {
            0 => src.pick(&["$..*", "$", "$.*", "$..[0]", "$..[::-1]", "$[*,*]", "$..[*,*]"]).to_string(),
            _ => {
                let q = gen::G::new(src, &doc, gen::STRUCTURAL).query();
                if !oracle::affordable(&doc, crate::eval::BUILTIN, &q) {
                    continue;
                }
                crate::render::plain(&q)
            }
        };
        let p = oracle::accept(&t)?;
        let mut part = lib("located query", || p.query_located(&doc))?.all();
        if src.chance(1, 3) && !part.is_empty() {
            // a part of them
            let a = src.below(part.len());
            part.drain(..a);
        }
        if i > 0 && src.chance(1, 4) {
            let at = src.below(all.len() + 1);
            all.splice(at..at, part);
        } else {
            all.extend(part);
        }
        if all.len() > 600 {
            break;
        }
    }
    all.truncate(600);
    match src.below(6) {
        0 => {}
        1 => all.reverse(),
        2 => {
            let k = src.below(all.len() + 1);
            all.rotate_left(k);
        }
        3 => all.sort_by_key(text),
        4 => all.sort_by_key(|n| addr(n.node())),
        _ => {
            for i in (1..all.len()).rev() {
                let j = src.below(i + 1);
                all.swap(i, j);
            }
        }
    }
    let places: BTreeSet<usize> = all.iter().map(|n| addr(n.node())).collect();
    let (n, k) = (all.len(), places.len());
    let texts: Vec<String> = all.iter().map(text).collect();
    check(&doc, all)?;
    cx.label(if k < n { "repetitions" } else { "no repetitions" });
    cx.label_if(n > 20, "more than 20 entries");
    if k < n {
        cx.nontrivial((&texts, doc.to_string()));
        cx.sample(|| format!("{n} entries at {k} places of {doc}"));
    }
    Ok(())
}
