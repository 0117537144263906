use crate::abnf;
use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{normalized, Elem, BUILTIN};
use crate::{fail, gen, oracle, sweep};
use serde_json::{json, Map, Value};
use serde_json_path::JsonPath;
use std::collections::HashMap;

pub static CHECK: Check = Check {
    id: "C18",
    rule: "A case is a document whose member names hold quotes, backslashes, control characters, other characters and random text; \
           every place of it is located by `$..*` and by a random query, and the text of each location must be the normalized path \
           written by the model, match the grammar of section 2.7, select exactly that node as a query, and differ from all others. \
           Non-trivial: a name with a character that needs an escape, or non-ASCII; distinct by document.",
    quick: 250_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["at most 40 locations of a case are evaluated as queries"],
};

/// Section 2.7, the grammar of normalized paths, read off directly
fn is_normalized(s: &str) -> bool {
    let mut cs = s.strip_prefix('$').map(|r| r.chars().peekable());
    let Some(cs) = cs.as_mut() else { return false };
    loop {
        match cs.next() {
            None => return true,
            Some('[') => {}
            _ => return false,
        }
        if cs.peek() == Some(&'\'') {
            cs.next();
            loop {
                match cs.next() {
                    Some('\'') => break,
                    Some('\\') => match cs.next() {
                        Some('b' | 'f' | 'n' | 'r' | 't' | '\'' | '\\') => {}
                        Some('u') => {
                            let h: String = cs.by_ref().take(4).collect();
                            let ok = h.len() == 4 && h.starts_with("00") && {
                                let b = h.as_bytes();
                                match b[2] {
                                    b'0' => matches!(b[3], b'0'..=b'7' | b'b' | b'e' | b'f'),
                                    b'1' => matches!(b[3], b'0'..=b'9' | b'a'..=b'f'),
                                    _ => false,
                                }
                            };
                            if !ok {
                                return false;
                            }
                        }
                        _ => return false,
                    },
                    Some(c) if (c as u32) >= 0x20 => {}
                    _ => return false,
                }
            }
            if cs.next() != Some(']') {
                return false;
            }
        } else {
            let mut digits = String::new();
            loop {
                match cs.next() {
                    Some(']') => break,
                    Some(c) if c.is_ascii_digit() => digits.push(c),
                    _ => return false,
                }
            }
            if digits.is_empty() || (digits.len() > 1 && digits.starts_with('0')) {
                return false;
            }
        }
    }
}

fn check(text: &str, p: &JsonPath, doc: &Value, queries: usize) -> Result<usize, Fail> {
    let list = lib(&format!("located query {text:?} on {doc}"), || p.query_located(doc))?;
    let mut seen: HashMap<String, usize> = HashMap::new();
    let what = format!("displaying a location of {text:?} on {doc}");
    for (i, n) in list.iter().enumerate() {
        let got = lib(&what, || n.location().to_string())?;
        let loc: Vec<Elem> = n.location().iter().map(oracle::elem).collect();
        let want = normalized(&loc);
        if got != want {
            fail!("query {text:?} on {doc}: the location {want:?} is displayed as {got:?}");
        }
        if !is_normalized(&got) {
            fail!("query {text:?} on {doc}: the location {got:?} is no normalized path");
        }
        let addr = n.node() as *const Value as usize;
        if *seen.entry(got.clone()).or_insert(addr) != addr {
            fail!("query {text:?} on {doc}: two places have the location {got:?}");
        }
        let padded = format!("{:>3}{}", "", n.location());
        if padded.trim_start() != got {
            fail!("the location {got:?} is formatted as {padded:?}");
        }
        if i < queries {
            if !matches!(abnf::parse(&got, BUILTIN), abnf::Verdict::Accept(_)) {
                fail!("query {text:?} on {doc}: the location {got:?} is no valid query");
            }
            let again = oracle::accept(&got)?;
            oracle::check_places("a normalized path selects something else than its node", &got, doc, &[n.node()], &oracle::query(&again, &got, doc)?)?;
            let back = lib("located query", || again.query_located(doc).exactly_one().map(|n| n.to_location().to_string()))?;
            if back.as_ref().ok() != Some(&got) {
                fail!("query {got:?} on {doc} gives the location {back:?}");
            }
        }
    }
    Ok(list.len())
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut m = Map::new();
    for c in (0u32..0x180).chain([0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd7ff, 0xe000]) {
        let c = char::from_u32(c).unwrap();
        m.insert(c.to_string(), json!({format!("a{c}{c}b"): [c.to_string()], format!("\\{c}'"): 1}));
        m.insert(format!("\\u{:04x}", c as u32), json!(2));
    }
    let all = Value::Object(m);
    let docs = [all, json!([[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, [11]]]), json!("x"), gen::wide(&mut Src::random(5), 3000)];
    let mut n = 0;
    for block in gen::blocks(24) {
        let d = Value::Object(block.iter().map(|c| (format!("{c}"), json!(1))).collect());
        n += check("$.*", &oracle::accept("$.*")?, &d, 0)? as u64;
    }
    n += oracle::giant(|text, node, i| {
        let (got, want) = (lib("displaying a location", || node.location().to_string())?, format!("$[{i}]"));
        if got != want {
            fail!("query {text:?} on more than a million elements displays the location of {i} as {got:?}");
        }
        Ok(())
    })?;
    for d in &gen::huge() {
        for (t, queries) in [("$..*", 0), ("$[255,256,65535,65536,69999,70000]", 9), ("$[69999][1].a", 9)] {
            n += check(t, &oracle::accept(t)?, d, queries)? as u64;
        }
    }
    for d in &docs {
        for t in ["$", "$..*", "$.*", "$..[0]"] {
            n += check(t, &oracle::accept(t)?, d, 5000)? as u64;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check(&c.text, &oracle::accept(&c.text)?, &c.doc, 3).map(drop))
}

fn name(src: &mut Src) -> String {
    (0..src.size(0, 5))
        .map(|_| match src.weighted(&[3, 3, 2, 2, 1, 1]) {
            0 => src.of(&['a', 'b', '0', 'u', 'n']),
            1 => src.of(&['\'', '\\', '"', '/', '[', ']', '$', '.']),
            2 => char::from_u32(src.below(0x20) as u32).unwrap(),
            3 => src.of(&['\u{7f}', '\u{80}', 'é', '\u{2028}', '\u{fffe}', '😀', '\u{10ffff}']),
            _ => gen::any_char(src),
        })
        .collect()
}

fn odd_doc(src: &mut Src, depth: usize, odd: &mut bool) -> Value {
    if depth == 0 || src.chance(1, 4) {
        return json!(src.below(3));
    }
    if src.chance(1, 3) {
        let n = src.size(0, 12);
        return Value::Array((0..n).map(|_| odd_doc(src, depth - 1, odd)).collect());
    }
    let mut m = Map::new();
    for _ in 0..src.size(1, 5) {
        let k = name(src);
        *odd |= k.chars().any(|c| !(' '..='~').contains(&c) || c == '\'' || c == '\\');
        let v = odd_doc(src, depth - 1, odd);
        m.insert(k, v);
    }
    Value::Object(m)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut odd = false;
    let doc = odd_doc(src, 4, &mut odd);
    let n = check("$..*", &oracle::accept("$..*")?, &doc, 40)?;
    if let Some((other, text, _)) = src.coin().then(|| oracle::random_case(src, false)).flatten() {
        check(&text, &oracle::accept(&text)?, &other, 10)?;
    }
    cx.label(if odd { "odd names" } else { "plain names" });
    if odd && n > 0 {
        cx.nontrivial(doc.to_string());
        cx.sample(|| doc.to_string());
    }
    Ok(())
}
