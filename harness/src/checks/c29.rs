use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{normalized, Elem};
use crate::{fail, gen, oracle, sweep};
use serde_json::{json, Value};
use serde_json_path::{LocatedNode, LocatedNodeList, NodeList, NormalizedPath, PathElement};
use std::cmp::Ordering;

pub static CHECK: Check = Check {
    id: "C29",
    rule: "A case is two documents (the same one, a copy, an edited copy, or another) and up to 24 located nodes of both. Every pair of \
           locations, of their elements, of the nodes and of lists of nodes must compare (==, !=, <, <=, >, >=, partial_cmp, and elements \
           with strings and numbers) as the sequences of names and indices do, and every element must be displayed as it is within the \
           normalized path, but for backslashes. Non-trivial: two locations that are not equal; distinct by the locations.",
    quick: 500_000,
    thorough: 30_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["whether two values are equal is taken from serde_json"],
};

type Loc<'v> = Vec<Elem<'v>>;

fn elem_order(a: &Elem, b: &Elem) -> Option<Ordering> {
    match (a, b) {
        // by scalar values, which is also the order of the bytes
        (Elem::Key(a), Elem::Key(b)) => Some(a.chars().map(u32::from).cmp(b.chars().map(u32::from))),
        (Elem::Idx(a), Elem::Idx(b)) => Some(a.cmp(b)),
        _ => None,
    }
}

fn order(a: &Loc, b: &Loc) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        match elem_order(x, y) {
            Some(Ordering::Equal) => {}
            o => return o,
        }
    }
    Some(a.len().cmp(&b.len()))
}

fn pair<T: PartialOrd + std::fmt::Debug>(what: &str, a: &T, b: &T, want: Option<Ordering>, equal: bool) -> Result<(), Fail> {
    let got = (a.partial_cmp(b), a == b, a != b, a < b, a <= b, a > b, a >= b);
    let is = |o: &[Ordering]| want.is_some_and(|w| o.contains(&w));
    use Ordering::*;
    let exp = (want, equal, !equal, is(&[Less]), is(&[Less, Equal]), is(&[Greater]), is(&[Greater, Equal]));
    if got != exp {
        fail!("{what} {a:?} and {b:?} compare as {got:?}, expected {exp:?} (partial_cmp, ==, !=, <, <=, >, >=)");
    }
    Ok(())
}

fn show(e: &Elem) -> String {
    let s = normalized(&[*e]);
    let s = s.strip_prefix("$[").and_then(|s| s.strip_suffix(']')).unwrap();
    match e {
        Elem::Idx(_) => s.to_string(),
        // a backslash is left as it is
        Elem::Key(_) => s.strip_prefix('\'').and_then(|s| s.strip_suffix('\'')).unwrap().replace("\\\\", "\\"),
    }
}

fn element(e: &PathElement, m: &Elem) -> Result<(), Fail> {
    let got = e.to_string();
    if got != show(m) {
        fail!("the element {m:?} is displayed as {got:?}, expected {:?}", show(m));
    }
    match m {
        Elem::Key(k) => {
            let (longer, other) = (format!("{k} "), k.chars().skip(1).collect::<String>());
            let ok = *e == **k && *e == *k && *e != *longer.as_str() && *e != longer.as_str() && (k.is_empty() || *e != *other.as_str());
            let number = k.parse::<usize>().unwrap_or(0);
            let near: Vec<String> = (0..k.len()).rev().filter(|i| k.is_char_boundary(*i)).take(3).map(|i| k[..i].to_string()).chain([format!("{k}{k}x"), format!("{k}\0"), format!("\0{k}")]).collect();
            if let Some(n) = near.iter().find(|n| *e == *n.as_str() || *e == n.as_str()) {
                fail!("the element {m:?} is equal to {n:?}");
            }
            if !ok || *e == number || PathElement::from(&k.to_string()) != *e {
                fail!("the element {m:?} does not compare as a name");
            }
        }
        Elem::Idx(i) => {
            let name = i.to_string();
            for b in 0..usize::BITS {
                let (x, y) = (i ^ (1 << b), i.wrapping_add(1 << b));
                if *e == x || *e == y || *e == PathElement::Index(x) || PathElement::Index(y) == *e {
                    fail!("the element {m:?} is equal to {x} or {y}");
                }
            }
            if *e != *i || *e == i + 1 || *e == i.wrapping_sub(1) || *e == *name.as_str() || *e == name.as_str() || PathElement::from(*i) != *e {
                fail!("the element {m:?} does not compare as an index");
            }
        }
    }
    Ok(())
}

fn check(nodes: &[LocatedNode], rng: &mut Src) -> Result<bool, Fail> {
    let locs: Vec<Loc> = nodes.iter().map(|n| n.location().iter().map(oracle::elem).collect()).collect();
    let mut differ = false;
    lib("comparing locations", || -> Result<(), Fail> {
        for (a, x) in nodes.iter().zip(&locs) {
            for (e, m) in a.location().iter().zip(x) {
                element(e, m)?;
            }
            let owned: Vec<PathElement> = a.location().clone().into_iter().collect();
            if !owned.iter().eq(a.location().iter()) || owned.iter().map(oracle::elem).collect::<Vec<_>>() != *x {
                fail!("the location {} yields the elements {owned:?}", a.location());
            }
            let l = a.location();
            if (l.len(), l.is_empty()) != (x.len(), x.is_empty()) || (0..=x.len()).any(|i| l.get(i).map(oracle::elem) != x.get(i).copied()) {
                fail!("the location {l} of {} elements has the length {}", x.len(), l.len());
            }
            for (b, y) in nodes.iter().zip(&locs) {
                let equal = x == y;
                differ |= !equal;
                pair("the locations", a.location(), b.location(), order(x, y), equal)?;
                if (a == b) != (equal && a.node() == b.node()) || (a == b) == (a != b) {
                    fail!("the nodes {a:?} and {b:?} compare as {}", a == b);
                }
                for (e, m) in a.location().iter().zip(x) {
                    for (f, n) in b.location().iter().zip(y) {
                        pair("the elements", e, f, elem_order(m, n), m == n)?;
                    }
                }
            }
        }
        // sorted, they are in the order of the document, if they are of one
        let mut sorted: Vec<&NormalizedPath> = nodes.iter().map(|n| n.location()).collect();
        let root = NormalizedPath::default();
        if sorted.iter().any(|l| !(root <= **l)) || root.to_string() != "$" {
            fail!("the location of the root is not before every other");
        }
        if locs.iter().all(|x| locs.iter().all(|y| order(x, y).is_some())) {
            sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut want = locs.clone();
            want.sort_by(|a, b| order(a, b).unwrap());
            let got: Vec<Loc> = sorted.iter().map(|l| l.iter().map(oracle::elem).collect()).collect();
            if got != want {
                fail!("the locations {want:?} are sorted as {got:?}");
            }
        }
        Ok(())
    })??;
    // lists of them
    let mut some = || -> Vec<usize> {
        if nodes.is_empty() {
            return vec![];
        }
        (0..rng.size(0, 4)).map(|_| rng.below(nodes.len())).collect()
    };
    let (a, mut b) = (some(), some());
    if a.len() != b.len() {
        b.truncate(a.len());
    } else if some().len() > 2 {
        b = a.clone();
    }
    let list = |ix: &[usize]| -> LocatedNodeList { ix.iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>().into() };
    let plain = |ix: &[usize]| -> NodeList { ix.iter().map(|i| nodes[*i].node()).collect::<Vec<_>>().into() };
    let same = a.len() == b.len() && a.iter().zip(&b).all(|(i, j)| nodes[*i].node() == nodes[*j].node());
    let places = same && a.iter().zip(&b).all(|(i, j)| locs[*i] == locs[*j]);
    let (x, y, p, q) = (list(&a), list(&b), plain(&a), plain(&b));
    if (x == y) != places || (x != y) == places || (y == x) != places {
        fail!("the lists {x:?} and {y:?} compare as {}", x == y);
    }
    if (p == q) != same || (p != q) == same || (q == p) != same {
        fail!("the lists {p:?} and {q:?} compare as {}", p == q);
    }
    Ok(differ)
}

fn pool<'v>(docs: [&'v Value; 2], text: &str, each: usize, src: &mut Src) -> Result<Vec<LocatedNode<'v>>, Fail> {
    let p = oracle::accept(text)?;
    let mut out = vec![];
    for d in docs {
        let mut all = lib("located query", || p.query_located(d))?.all();
        while all.len() > each {
            all.remove(src.below(all.len()));
        }
        out.extend(all);
    }
    Ok(out)
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let odd = json!({"": 0, "0": [1], "00": 1, "1": {"0": [0, [0]]}, "10": 2, "2": 2, "a": {"a": 1, "b": [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]}, "a\u{0}": 1, "aa": {"": {"": null}}, "b": 1.0, "'": 1,
        "\\": 1, "\\u0007": 1, "\u{7}": 1, "\u{8}": 1, "\u{1f}": 1, "\u{7f}": 1, "\"": 1, "é": 1, "\u{ffff}": 1, "😀": 1, "\n": [[[]]], "B": 1});
    let arr = json!([[0, 1], {"0": 1, "a": 1}, [[], [1]], 3, 4, 5, 6, 7, 8, 9, 10, [11]]);
    let mut n = 0;
    let mut src = Src::random(29);
    for (a, b) in [(&odd, &odd), (&odd, &arr), (&arr, &arr)] {
        for t in ["$..*", "$", "$.*", "$..[0]", "$..a"] {
            check(&pool([a, b], t, 60, &mut src)?, &mut src)?;
            n += 1;
        }
    }
    let huge = gen::huge();
    for (t, d) in [("$[0,1,255,256,257,9999,10000,65534,65535,65536,65537,69999,70000]", &huge[0]), ("$['k1','k10','k2','k4999','k999']", &huge[1]), ("$.*", &huge[2]), ("$..b", &huge[3]), ("$..*", &huge[3])] {
        check(&pool([d, d], t, 40, &mut src)?, &mut src)?;
        n += 1;
    }
    for i in (0..20).flat_map(|k| [1usize << k, (1 << k) - 1]).chain([1 << 32, 1 << 53, usize::MAX - 1]) {
        element(&PathElement::Index(i), &Elem::Idx(i))?;
        n += 1;
    }
    let far: Vec<usize> = (0..64).flat_map(|k| [1usize << k, (1 << k) - 1, (1 << k) + 1]).collect();
    for &i in &far {
        for &j in &far {
            pair("the elements", &PathElement::Index(i), &PathElement::Index(j), Some(i.cmp(&j)), i == j)?;
        }
        n += 1;
    }
    let mut last = None;
    for c in gen::every_char() {
        let (a, b) = (c.to_string(), format!("0{c}{c}"));
        for k in [&a, &b] {
            element(&PathElement::Name(k), &Elem::Key(k))?;
        }
        for (x, y) in [(&a, &b), (&b, &a)] {
            pair("the elements", &PathElement::Name(x), &PathElement::Name(y), elem_order(&Elem::Key(x), &Elem::Key(y)), x == y)?;
        }
        if let Some(l) = last {
            let l: String = l;
            pair("the elements", &PathElement::Name(&a), &PathElement::Name(&l), elem_order(&Elem::Key(&a), &Elem::Key(&l)), a == l)?;
        }
        last = Some(a.clone());
        n += 2;
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Names, sweep::Of::Members, sweep::Of::Segments, sweep::Of::Depth, sweep::Of::Selectors], |c| {
        let p = oracle::accept(&c.text)?;
        let all = p.query_located(&c.doc).all();
        let most = if all.iter().any(|n| n.location().len() > 80) { 2 } else { 8 };
        let few: Vec<LocatedNode> = all.iter().take(most).chain(all.iter().rev().take(most)).cloned().collect();
        check(&few, &mut Src::random(c.size as u64)).map(drop)
    })
}

/// Another value at some places, and sometimes an array for an object
fn edit(src: &mut Src, v: &Value) -> Value {
    match v {
        _ if src.chance(1, 8) => gen::scalar(src),
        Value::Array(a) if src.chance(1, 8) => Value::Object(a.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect()),
        Value::Object(o) if src.chance(1, 8) => Value::Array(o.values().cloned().collect()),
        Value::Array(a) => Value::Array(a.iter().map(|v| edit(src, v)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), edit(src, v))).collect()),
        v => v.clone(),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let a = gen::doc(src);
    let (label, b) = match src.below(4) {
        0 => ("a copy", a.clone()),
        1 | 2 => ("an edited copy", edit(src, &a)),
        _ => ("another document", gen::doc(src)),
    };
    let t = src.pick(&["$..*", "$..*", "$", "$.*", "$..[0,-1]", "$..[?@]", "$..*['a','b',0,1]"]);
    let nodes = pool([&a, if src.chance(1, 5) { &a } else { &b }], t, 12, src)?;
    let differ = check(&nodes, src)?;
    cx.label(label);
    if differ {
        cx.nontrivial(nodes.iter().map(|n| n.location().to_string()).collect::<Vec<_>>());
        cx.sample(|| nodes.iter().map(|n| n.location().to_string()).collect::<Vec<_>>().join(" "));
    }
    Ok(())
}
