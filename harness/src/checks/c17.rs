use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{self, Elem};
use crate::{fail, gen, oracle, render, sweep};
use serde_json::{json, Map, Value};
use serde_json_path::JsonPath;

pub static CHECK: Check = Check {
    id: "C17",
    rule: "A case is a document, often with member names that need care in JSON Pointers (slashes, tildes, digits, empty, control and \
           non-ASCII characters), and a query on it; for each result the elements of the location, its JSON Pointer (resolved by \
           serde_json and by a resolver of RFC 6901 of our own) and the node must be one place, and replacing the node through the \
           pointer must change that place only. Non-trivial: a result below the root; distinct by text and document.",
    quick: 250_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["at most twelve results of a case are edited"],
};

const ODD: [&str; 24] = [
    "/", "~", "~0", "~1", "~01", "~10", "a/b", "a~b", "//", "~~", "", "0", "00", "-", "1", "-1", "a b", "'", "\"", "\\", "\u{0}", "\n", "é", "😀",
];

fn odd_doc(src: &mut Src, depth: usize) -> Value {
    let key = |src: &mut Src| -> String {
        let mut k = src.pick(&ODD).to_string();
        while src.chance(1, 4) {
            k.push_str(src.pick(&ODD));
        }
        k
    };
    match if depth == 0 { src.below(2) } else { src.below(6) } {
        0 => json!(1),
        1 => gen::scalar(src),
        2 => Value::Array((0..src.size(1, 12)).map(|_| odd_doc(src, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..src.size(1, 4) {
                let k = key(src);
                let v = odd_doc(src, depth - 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}

/// RFC 6901, section 4
fn resolve<'v>(doc: &'v Value, pointer: &str) -> Option<&'v Value> {
    let mut at = doc;
    if pointer.is_empty() {
        return Some(at);
    }
    for token in pointer.strip_prefix('/')?.split('/') {
        let mut name = String::new();
        let mut cs = token.chars();
        while let Some(c) = cs.next() {
            match c {
                '~' => match cs.next()? {
                    '0' => name.push('~'),
                    '1' => name.push('/'),
                    _ => return None,
                },
                c => name.push(c),
            }
        }
        at = match at {
            Value::Object(m) => m.get(&name)?,
            Value::Array(a) => {
                let digits = name == "0" || (!name.starts_with('0') && !name.is_empty() && name.bytes().all(|b| b.is_ascii_digit()));
                if !digits {
                    return None;
                }
                a.get(name.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(at)
}

/// A copy of the document with another value at one place
fn edited(at: &Value, loc: &[Elem], new: &Value) -> Value {
    match loc {
        [] => new.clone(),
        [Elem::Key(k), rest @ ..] => {
            Value::Object(at.as_object().unwrap().iter().map(|(n, v)| (n.clone(), if n == k { edited(v, rest, new) } else { v.clone() })).collect())
        }
        [Elem::Idx(k), rest @ ..] => {
            Value::Array(at.as_array().unwrap().iter().enumerate().map(|(n, v)| if n == *k { edited(v, rest, new) } else { v.clone() }).collect())
        }
    }
}

fn check(text: &str, p: &JsonPath, doc: &Value, edits: usize) -> Result<usize, Fail> {
    let list = lib(&format!("located query {text:?} on {doc}"), || p.query_located(doc))?;
    for (i, n) in list.iter().enumerate() {
        let node = n.node();
        let loc: Vec<Elem> = n.location().iter().map(oracle::elem).collect();
        let name = eval::normalized(&loc);
        let mut at = Some(doc);
        for e in &loc {
            at = at.and_then(|v| match e {
                Elem::Key(k) => v.as_object()?.get(*k),
                Elem::Idx(i) => v.as_array()?.get(*i),
            });
        }
        if !at.is_some_and(|v| std::ptr::eq(v, node)) {
            fail!("query {text:?} on {doc}: the location {name} does not lead to the node {node}");
        }
        let pointer = lib("to_json_pointer", || n.location().to_json_pointer())?;
        let got = doc.pointer(&pointer);
        if !got.is_some_and(|v| std::ptr::eq(v, node)) || !resolve(doc, &pointer).is_some_and(|v| std::ptr::eq(v, node)) {
            fail!("query {text:?} on {doc}: the pointer {pointer:?} of {name} leads to {got:?}, not to the node {node}");
        }
        if i < edits {
            let new = json!({"edited": [pointer.clone()]});
            let mut copy = doc.clone();
            match copy.pointer_mut(&pointer) {
                Some(v) => *v = new.clone(),
                None => fail!("query {text:?} on {doc}: the pointer {pointer:?} of {name} leads nowhere in a copy"),
            }
            let want = edited(doc, &loc, &new);
            if copy != want {
                fail!("query {text:?} on {doc}: an edit through {pointer:?} gives {copy}");
            }
            // the location as a value of its own
            let own = n.clone().to_location();
            if own.to_json_pointer() != pointer || serde_json_path::NormalizedPath::from(n.clone()) != own {
                fail!("query {text:?} on {doc}: the location taken out of its node differs at {name}");
            }
        }
    }
    Ok(list.len())
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut m = Map::new();
    for a in ODD {
        m.insert(a.to_string(), json!({ "x": [a], a: [[], {a: a}] }));
        for b in ODD {
            m.insert(format!("{a}{b}"), json!(b));
        }
    }
    let mut n = 0;
    for block in gen::blocks(256) {
        let d = Value::Object(block.iter().flat_map(|c| [(c.to_string(), json!(1)), (format!("{c}0{c}"), json!(2))]).collect());
        check("$.*", &oracle::accept("$.*")?, &d, 0)?;
        n += 1;
    }
    let docs = [Value::Object(m), json!([[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, [12]], {"0": 1, "00": 2}]), json!(null)];
    n += oracle::giant(|text, node, i| {
        let (got, want) = (lib("to_json_pointer", || node.location().to_json_pointer())?, format!("/{i}"));
        if got != want {
            fail!("query {text:?} on more than a million elements gives the pointer {got:?} for {i}");
        }
        Ok(())
    })?;
    for d in &gen::huge() {
        for t in ["$.*", "$..*", "$[65535,65536,69999,70000]"] {
            check(t, &oracle::accept(t)?, d, 2)?;
            n += 1;
        }
    }
    for d in &docs {
        for t in ["$", "$.*", "$..*", "$[*][*]", "$..[0]", "$..[-1]", "$..[::-1]", "$..[?@]", "$..['~1','/','']", "$..[?@ == '/']"] {
            check(t, &oracle::accept(t)?, d, 30)?;
            n += 1;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check(&c.text, &oracle::accept(&c.text)?, &c.doc, 3).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (doc, text) = if src.chance(1, 3) {
        let doc = odd_doc(src, 4);
        let q = gen::G::new(src, &doc, gen::EVERYTHING).query();
        if !oracle::affordable(&doc, crate::eval::BUILTIN, &q) {
            return Ok(());
        }
        let t = render::random(src, &q);
        (doc, t)
    } else {
        let Some((doc, text, _)) = oracle::random_case(src, false) else {
            return Ok(());
        };
        (doc, text)
    };
    let p = oracle::accept(&text)?;
    let n = check(&text, &p, &doc, 12)?;
    cx.label_if(n > 0, "selects something");
    if n > 0 && text != "$" {
        cx.nontrivial((&text, doc.to_string()));
        cx.sample(|| format!("{text} on {doc}"));
    }
    Ok(())
}
