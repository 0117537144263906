use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{normalized, Elem};
use crate::{fail, oracle, sweep};
use serde_json::{json, Value};
use std::collections::HashMap;
use serde_json_path::{ExactlyOneError, JsonPath, LocatedNode, LocatedNodeList, NodeList, NormalizedPath, PathElement};

pub static CHECK: Check = Check {
    id: "C20",
    rule: "A case is a query result; the sequence is its `all()`, and every other accessor is compared with it: first, last, indexed \
           access, iterators walked from both ends in a random interleaving with exact sizes at each step, every method that uses up an iterator after some nodes were taken from its ends, extractors and \
           their errors, conversions; and the same for the elements of each location. Non-trivial: two or more nodes; distinct by text \
           and document.",
    quick: 250_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[],
};

/// Walk a double-ended iterator over the places `want`
fn walk<T>(what: &str, moves: &[u8], want: &[usize], mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, key: impl Fn(T) -> usize) -> Result<(), Fail> {
    let (mut a, mut b) = (0, want.len());
    let mut i = 0;
    loop {
        let left = b - a;
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            fail!("{what}: {} and {:?} left instead of {left} after {i} steps", it.len(), it.size_hint());
        }
        let m = if moves.is_empty() { 0 } else { moves[i % moves.len()] };
        i += 1;
        let (got, expected) = match m {
            0 => (it.next(), (a < b).then(|| want[a])),
            1 => (it.next_back(), (a < b).then(|| want[b - 1])),
            2 => (it.nth(1), (a + 1 < b).then(|| want[a + 1])),
            _ => (it.nth_back(1), (a + 1 < b).then(|| want[b - 2])),
        };
        let got = got.map(&key);
        if got != expected {
            fail!("{what}: step {i} (kind {m}) gives another node than the list has there ({a}..{b} of {} left)", want.len());
        }
        match m {
            0 => a = (a + 1).min(b),
            1 => b = b.saturating_sub(1).max(a),
            2 => a = (a + 2).min(b),
            _ => b = b.saturating_sub(2).max(a),
        }
        if got.is_none() {
            // fused, and at its end from either side
            if a == b && (it.next().is_some() || it.next_back().is_some() || it.len() != 0 || it.next().is_some()) {
                fail!("{what}: more nodes after the end");
            }
            if a == b {
                return Ok(());
            }
        }
    }
}

/// Every method that uses up an iterator, after some were taken from its ends
fn drain<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(what: &str, want: &[usize], make: impl Fn() -> I, key: impl Fn(T) -> usize) -> Result<(), Fail> {
    let n = want.len();
    let ends = |k: usize| [0, 1, 2, k / 2, k].into_iter().filter(move |i| *i <= k);
    let mut seen = vec![];
    for a in ends(n) {
        for b in ends(n - a) {
            if seen.contains(&(a, b)) || (n > 300 && a + b > 3) {
                continue;
            }
            seen.push((a, b));
            let part = || {
                let mut it = make();
                for _ in 0..a {
                    it.next();
                }
                for _ in 0..b {
                    it.next_back();
                }
                it
            };
            let want = &want[a..n - b];
            let k = want.len();
            let back: Vec<usize> = want.iter().rev().copied().collect();
            let what = format!("{what} without {a} in front and {b} at the back");
            macro_rules! is {
                ($name:expr, $got:expr, $want:expr) => {
                    if $got != $want {
                        fail!("{what}: {} gives something else than the {k} nodes that are left", $name);
                    }
                };
            }
            is!("last", part().last().map(&key), want.last().copied());
            is!("count", part().count(), k);
            is!("collect", part().map(&key).collect::<Vec<_>>(), want);
            is!("rev().collect", part().rev().map(&key).collect::<Vec<_>>(), back);
            is!("fold", part().fold(vec![], |mut v, x| { v.push(key(x)); v }), want);
            is!("rfold", part().rfold(vec![], |mut v, x| { v.push(key(x)); v }), back);
            let mut each = vec![];
            part().for_each(|x| each.push(key(x)));
            is!("for_each", each, want);
            is!("try_fold", part().try_fold(vec![], |mut v, x| { v.push(key(x)); Some(v) }).unwrap(), want);
            is!("try_rfold", part().try_rfold(vec![], |mut v, x| { v.push(key(x)); Some(v) }).unwrap(), back);
            let mut seen = 0;
            is!("any", part().any(|_| { seen += 1; false }), false);
            is!("all", part().all(|_| { seen += 1; true }), true);
            is!("find", part().find(|_| { seen += 1; false }).is_none(), true);
            is!("rfind", part().rfind(|_| { seen += 1; false }).is_none(), true);
            is!("position", part().position(|_| { seen += 1; false }).is_none(), true);
            is!("rposition", part().rposition(|_| { seen += 1; false }).is_none(), true);
            is!("find_map", part().find_map(|_| { seen += 1; None::<()> }).is_none(), true);
            is!("the methods that search", seen, 7 * k);
            is!("reduce", part().map(&key).reduce(|a, b| a.wrapping_mul(31) ^ b), want.iter().copied().reduce(|a, b| a.wrapping_mul(31) ^ b));
            is!("partition", part().map(&key).enumerate().partition::<Vec<_>, _>(|(i, _)| i % 2 == 0), want.iter().copied().enumerate().partition::<Vec<_>, _>(|(i, _)| i % 2 == 0));
            is!("min", part().map(&key).min(), want.iter().copied().min());
            is!("max", part().map(&key).max(), want.iter().copied().max());
            for s in 1..4 {
                is!("step_by", part().step_by(s).map(&key).collect::<Vec<_>>(), want.iter().step_by(s).copied().collect::<Vec<_>>());
                is!("skip", part().skip(s).map(&key).collect::<Vec<_>>(), want.iter().skip(s).copied().collect::<Vec<_>>());
                is!("skip().rev", part().skip(s).rev().map(&key).collect::<Vec<_>>(), want.iter().skip(s).rev().copied().collect::<Vec<_>>());
                is!("take", part().take(s).map(&key).collect::<Vec<_>>(), want.iter().take(s).copied().collect::<Vec<_>>());
                is!("take().rev", part().take(s).rev().map(&key).collect::<Vec<_>>(), want.iter().take(s).rev().copied().collect::<Vec<_>>());
            }
            for i in [0, 1, 2, k / 2, k.saturating_sub(1), k, k + 1, usize::MAX] {
                let mut it = part();
                is!(format!("nth({i})"), it.nth(i).map(&key), want.get(i).copied());
                is!(format!("what follows nth({i})"), it.map(&key).collect::<Vec<_>>(), want[i.saturating_add(1).min(k)..]);
                let mut it = part();
                is!(format!("nth_back({i})"), it.nth_back(i).map(&key), back.get(i).copied());
                is!(format!("what follows nth_back({i})"), it.rev().map(&key).collect::<Vec<_>>(), back[i.saturating_add(1).min(k)..]);
            }
        }
    }
    Ok(())
}

fn addr(v: &Value) -> usize {
    v as *const Value as usize
}

fn keys(vs: &[&Value]) -> Vec<usize> {
    vs.iter().map(|v| addr(v)).collect()
}

/// Indices beyond most lists, which are small numbers if cut short
fn far() -> impl Iterator<Item = usize> {
    [8, 15, 16, 24, 31, 32, 33, 48, 53, 62, 63].into_iter().flat_map(|b| (0..3).flat_map(move |k| [(1usize << b) + k, (1usize << b) - 1 - k, (1usize << b).wrapping_neg() + k])).chain((0..4).map(|k| usize::MAX - k))
}

macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {
        let (got, want) = ($got, $want);
        if got != want {
            fail!("{}: {got:?} instead of {want:?}", $what);
        }
    };
}

fn check_plain(p: &JsonPath, doc: &Value, moves: &[u8], much: bool) -> Result<usize, Fail> {
    let list = p.query(doc);
    let all = list.clone().all();
    let want = keys(&all);
    let n = want.len();
    same!("len", list.len(), n);
    same!("is_empty", list.is_empty(), n == 0);
    same!("first", list.first().map(addr), want.first().copied());
    same!("last", list.last().map(addr), want.last().copied());
    for i in 0..n + 3 {
        same!(format!("get({i})"), list.get(i).map(addr), want.get(i).copied());
    }
    for i in far() {
        same!(format!("get({i})"), list.get(i).map(addr), want.get(i).copied());
    }
    walk("iter", moves, &want, list.iter(), |v| addr(v))?;
    walk("into_iter", moves, &want, list.clone().into_iter(), addr)?;
    if much {
        drain("iter", &want, || list.iter(), |v| addr(v))?;
        drain("into_iter", &want, || list.clone().into_iter(), addr)?;
    }
    same!("iter().rev()", list.iter().rev().map(|v| addr(v)).collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>());
    same!("iter().count()", list.iter().count(), n);
    same!("iter().last()", list.iter().last().map(|v| addr(v)), want.last().copied());
    match (list.at_most_one(), n) {
        (Ok(None), 0) => {}
        (Ok(Some(v)), 1) if addr(v) == want[0] => {}
        (Err(e), 2..) if e.0 == n => {
            if !e.to_string().contains(&n.to_string()) {
                fail!("at_most_one of {n} nodes says {e}");
            }
        }
        (r, _) => fail!("at_most_one of {n} nodes gives {r:?}"),
    }
    match (list.exactly_one(), n) {
        (Ok(v), 1) if addr(v) == want[0] => {}
        (Err(e), _) if n != 1 => check_error("exactly_one", e, n)?,
        (r, _) => fail!("exactly_one of {n} nodes gives {r:?}"),
    }
    #[allow(deprecated)]
    let one = list.clone().one();
    same!("one", one.map(addr), if n == 1 { Some(want[0]) } else { None });
    same!("the same query again", list == p.query(doc), true);
    let copy: NodeList = all.clone().into();
    same!("a list made of the nodes", copy == list && same_nodes(&copy, &want), true);
    same!("into_iter", keys(&list.into_iter().collect::<Vec<_>>()), want);
    Ok(n)
}

fn same_nodes(l: &NodeList, want: &[usize]) -> bool {
    l.iter().map(|v| addr(v)).eq(want.iter().copied())
}

fn check_error(what: &str, e: ExactlyOneError, n: usize) -> Result<(), Fail> {
    same!(format!("is_empty of the error of {what}"), e.is_empty(), n == 0);
    same!(format!("is_more_than_one of the error of {what}"), e.is_more_than_one(), n > 1);
    same!(format!("as_more_than_one of the error of {what}"), e.as_more_than_one(), (n > 1).then_some(n));
    match e {
        ExactlyOneError::Empty if n == 0 => Ok(()),
        ExactlyOneError::MoreThanOne(k) if n > 1 && k == n && e.to_string().contains(&n.to_string()) => Ok(()),
        e => fail!("{what} of {n} nodes gives {e:?}, {e}"),
    }
}

fn check_located(p: &JsonPath, doc: &Value, moves: &[u8], much: bool) -> Result<(), Fail> {
    let list = p.query_located(doc);
    let all: Vec<LocatedNode> = list.clone().all();
    let want: Vec<usize> = all.iter().map(|n| addr(n.node())).collect();
    let locs: Vec<String> = all.iter().map(loc_text).collect();
    let n = want.len();
    let key = |n: &LocatedNode| addr(n.node());
    let is = |got: Option<&LocatedNode>, i: usize| match (got, all.get(i)) {
        (Some(a), Some(b)) => a == b && std::ptr::eq(a.node(), b.node()) && loc_text(a) == locs[i],
        (None, None) => true,
        _ => false,
    };
    same!("located len", list.len(), n);
    same!("located is_empty", list.is_empty(), n == 0);
    same!("located first", is(list.first(), 0), true);
    same!("located last", is(list.last(), n.wrapping_sub(1)), true);
    for i in 0..n + 3 {
        same!(format!("located get({i})"), is(list.get(i), i), true);
    }
    for i in far() {
        same!(format!("located get({i})"), is(list.get(i), i), true);
    }
    walk("located iter", moves, &want, list.iter(), key)?;
    walk("located into_iter", moves, &want, list.clone().into_iter(), |n| addr(n.node()))?;
    walk("nodes", moves, &want, list.nodes(), addr)?;
    if much {
        drain("located iter", &want, || list.iter(), key)?;
        drain("located into_iter", &want, || list.clone().into_iter(), |n| addr(n.node()))?;
        drain("nodes", &want, || list.nodes(), addr)?;
    }
    // locations by their position among equal texts
    let mut first: HashMap<&str, usize> = HashMap::new();
    let ids: Vec<usize> = locs.iter().enumerate().map(|(i, l)| *first.entry(l).or_insert(i)).collect();
    let id = |l: &NormalizedPath| {
        let t: Vec<_> = l.iter().map(oracle::elem).collect();
        let t = normalized(&t);
        first.get(t.as_str()).copied().unwrap_or(usize::MAX)
    };
    walk("locations", moves, &ids, list.locations(), id)?;
    if much {
        drain("locations", &ids, || list.locations(), id)?;
    }
    same!("nodes().rev()", list.nodes().rev().map(addr).collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>());
    same!("locations().count()", list.locations().count(), n);
    same!("locations().last()", list.locations().last().map(|l| l.to_string()), all.last().map(|n| n.location().to_string()));
    match (list.clone().at_most_one(), n) {
        (Ok(None), 0) => {}
        (Ok(Some(v)), 1) if is(Some(&v), 0) => {}
        (Err(e), 2..) if e.0 == n && e.to_string().contains(&n.to_string()) => {}
        (r, _) => fail!("at_most_one of {n} located nodes gives {r:?}"),
    }
    match (list.clone().exactly_one(), n) {
        (Ok(v), 1) if is(Some(&v), 0) => {}
        (Err(e), _) if n != 1 => check_error("located exactly_one", e, n)?,
        (r, _) => fail!("exactly_one of {n} located nodes gives {r:?}"),
    }
    let copy: LocatedNodeList = all.clone().into();
    same!("a list made of the located nodes", copy == list && copy.iter().map(key).eq(want.iter().copied()), true);
    same!("located into_iter", list.into_iter().map(|n| (addr(n.node()), loc_text(&n))).collect::<Vec<_>>(), want.into_iter().zip(locs).collect::<Vec<_>>());
    for (i, n) in all.iter().enumerate().take(30) {
        check_location(n, moves, much && i < 3)?;
    }
    Ok(())
}

fn loc_text(n: &LocatedNode) -> String {
    let loc: Vec<_> = n.location().iter().map(oracle::elem).collect();
    normalized(&loc)
}

fn check_location(n: &LocatedNode, moves: &[u8], much: bool) -> Result<(), Fail> {
    let l = n.location();
    let want: Vec<Elem> = l.clone().into_iter().map(|e| oracle::elem(&e)).collect();
    let is = |got: Option<&PathElement>, i: usize| match (got, want.get(i)) {
        (None, None) => true,
        (Some(e), Some(Elem::Key(k))) => {
            let longer = format!("{k}x");
            e.as_name() == Some(k) && e.as_index().is_none() && e.is_name() && !e.is_index() && *e == *k && *e == **k && *e != *longer.as_str() && *e != i && *e != 0
        }
        (Some(e), Some(Elem::Idx(k))) => {
            let name = k.to_string();
            e.as_index() == Some(*k) && e.as_name().is_none() && e.is_index() && !e.is_name() && *e == *k && *e != *k + 1 && *e != *name.as_str()
        }
        _ => false,
    };
    let at = |what: &str, got: Option<&PathElement>, i: usize| -> Result<(), Fail> {
        if !is(got, i) {
            fail!("{what} of the location {l} is {got:?}");
        }
        Ok(())
    };
    same!(format!("len of the location {l}"), l.len(), want.len());
    same!(format!("is_empty of the location {l}"), l.is_empty(), want.is_empty());
    at("first", l.first(), 0)?;
    at("last", l.last(), want.len().wrapping_sub(1))?;
    for i in 0..want.len() + 2 {
        at(&format!("get({i})"), l.get(i), i)?;
    }
    for i in far() {
        if !is(l.get(i), i) {
            fail!("get({i}) of the location {l} is {:?}", l.get(i));
        }
    }
    let base: Vec<&PathElement> = l.iter().collect();
    for i in 0..=want.len() {
        for j in i..=want.len().min(i + 4) {
            let got = l.get(i..j);
            if !got.is_some_and(|s| s.iter().eq(base[i..j].iter().copied())) {
                fail!("get({i}..{j}) of the location {l} is {got:?}");
            }
        }
        same!(format!("get({i}..) of the location {l}"), l.get(i..).map(<[PathElement]>::len), Some(want.len() - i));
        same!(format!("get(..{i}) of the location {l}"), l.get(..i).map(<[PathElement]>::len), Some(i));
    }
    same!(format!("get(..len+1) of the location {l}"), l.get(..want.len() + 1).is_none(), true);
    // distinct elements by the position of the first equal one
    let ids: Vec<usize> = want.iter().map(|e| want.iter().position(|x| x == e).unwrap()).collect();
    let id = |e: &PathElement| want.iter().position(|x| *x == oracle::elem(e)).unwrap_or(usize::MAX);
    walk("iter of a location", moves, &ids, l.iter(), id)?;
    walk("into_iter of a location", moves, &ids, l.clone().into_iter(), |e| id(&e))?;
    if much {
        drain("iter of a location", &ids, || l.iter(), id)?;
        drain("into_iter of a location", &ids, || l.clone().into_iter(), |e| id(&e))?;
    }
    same!(format!("the location {l} compared with its clone"), *l == l.clone(), true);
    Ok(())
}

fn check(text: &str, doc: &Value, moves: &[u8], much: bool) -> Result<usize, Fail> {
    let p = oracle::accept(text)?;
    lib(&format!("the accessors of {text:?} on {doc}"), || {
        let n = check_plain(&p, doc, moves, much).map_err(|f| Fail::new(format!("query {text:?} on {doc}: {}", f.msg)))?;
        check_located(&p, doc, moves, much).map_err(|f| Fail::new(format!("query {text:?} on {doc}: {}", f.msg)))?;
        Ok(n)
    })?
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let docs = [json!({"a": [1, 2, [3, {"0": 4, "a": 5}]], "0": {"a": {"a": [6]}, "c": null}, "": [[], {}, "", 0]}), json!([[0, 1, 2], [[1], [1], [1]]]), json!(1)];
    let moves: [&[u8]; 7] = [&[0], &[1], &[0, 1], &[1, 0, 0], &[2], &[3], &[2, 3, 0, 1]];
    let mut n = 0;
    for t in ["$", "$.*", "$..*", "$.a", "$.nothing", "$[0,0]", "$..a", "$..[0]", "$[1][*]", "$..[?@ == 1]"] {
        for d in &docs {
            for m in moves {
                check(t, d, m, true)?;
                n += 1;
            }
        }
    }
    for d in &crate::gen::huge() {
        for t in ["$.*", "$..*"] {
            check(t, d, &[0, 1, 2, 3], true)?;
            n += 1;
        }
    }
    if !NodeList::default().is_empty() || !LocatedNodeList::default().is_empty() {
        fail!("default lists are not empty");
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Members, sweep::Of::Selectors, sweep::Of::Depth], |c| check(&c.text, &c.doc, &[0, 1, 2, 3, 0, 0], c.size % 4 == 0 || c.size > 36).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let Some((doc, text, _)) = oracle::random_case(src, false) else { return Ok(()) };
    let moves: Vec<u8> = (0..src.size(1, 6)).map(|_| src.below(4) as u8).collect();
    let much = src.chance(1, 20);
    let n = check(&text, &doc, &moves, much)?;
    cx.label(match n {
        0 => "no nodes",
        1 => "one node",
        _ => "several nodes",
    });
    if n > 1 {
        cx.nontrivial((&text, doc.to_string(), &moves));
        cx.sample(|| format!("{text} on {doc} gives {n} nodes, walked by {moves:?}"));
    }
    Ok(())
}
