use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{Ev, BUILTIN};
use crate::oracle;
use crate::{gen, iregexp, render, sweep};
use serde_json::{json, Map, Value};

pub static CHECK: Check = Check {
    id: "C06",
    rule: "A case is a pattern (drawn from the I-Regexp grammar, or one that is no regular expression, or no string) and up to six \
           subjects: strings of its language, neighbours of those, and other values; match and search are called on each, plainly \
           and negated, with the pattern as a literal or taken from the document. Non-trivial when the pattern matches one subject \
           and not another string; distinct by pattern and document.",
    quick: 100_000,
    thorough: 3_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the matcher in harness/src/iregexp.rs states RFC 9485 correctly",
        "the categories of a table of 200 characters, and of the private use area; what depends on others is not judged",
        "patterns with unescaped ^ and $, and class contents such as && on which dialects differ are not generated",
    ],
};

/// No regular expressions, in I-Regexp or any dialect near it
const INVALID: [&str; 26] = [
    "a)|(b", "a)(b", ")(", "(", ")", "(a", "a)", "((a)", "(a))", "[", "[a", "*a", "+a", "?", "a|*b", "a{2,1}", "[z-a]", "\\", "a\\", "(*)", "[]", "[^]",
    "a{1,2", "(|", "b)|(", "())(",
];

fn fixed(every: bool) -> Result<u64, Fail> {
    let d = json!(["a", "b", "ab", "ba", "c", "a\n", "\na", "a\r", "\n", "\r", "", "aab", "xay", "A", 1, null, ["a"], "😀", ")", "("]);
    let mut n = 0;
    let at = |is: &[usize]| -> Vec<String> { is.iter().map(|i| format!("$[{i}]")).collect() };
    let mut t = |t: &str, is: &[usize]| -> Result<(), Fail> {
        n += 1;
        let w = at(is);
        oracle::selects(t, &d, &w.iter().map(String::as_str).collect::<Vec<_>>())
    };
    t("$[?match(@, 'a|b')]", &[0, 1])?;
    t("$[?match(@, 'ab?')]", &[0, 2])?;
    t("$[?match(@, '.')]", &[0, 1, 4, 13, 17, 18, 19])?;
    t("$[?match(@, '')]", &[10])?;
    t("$[?match(@, 'a.*')]", &[0, 2, 11])?;
    t("$[?match(@, '[^a]')]", &[1, 4, 8, 9, 13, 17, 18, 19])?;
    t("$[?search(@, 'a')]", &[0, 2, 3, 5, 6, 7, 11, 12])?;
    t("$[?search(@, 'a|c')]", &[0, 2, 3, 4, 5, 6, 7, 11, 12])?;
    t("$[?search(@, '')]", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 18, 19])?;
    t("$[?match(@, 1)]", &[])?;
    t("$[?match(1, 'a')]", &[])?;
    t("$[?search(@.x, 'a')]", &[])?;
    t("$[?search(@, @.x)]", &[])?;
    t("$[?match(@, 'a|b)|(c')]", &[])?;
    let mut n2 = categories()?;
    // every character
    let some: Vec<char> = gen::many_chars(every).collect();
    for block in some.chunks(4096) {
        let d = Value::Array(block.iter().map(|c| Value::String(c.to_string())).collect());
        let all = |cs: &[char]| -> Vec<char> { block.iter().copied().filter(|c| cs.contains(c)).collect() };
        for (t, want) in [
            ("$[?!match(@, '.')]", all(&['\n', '\r'])),
            ("$[?!search(@, '[^xé]')]", all(&['x', 'é'])),
            ("$[?match(@, '[x😀日]')]", all(&['x', '😀', '日'])),
            ("$[?search(@, 'k')]", all(&['k'])),
            ("$[?match(@, '..|.{2}|')]", vec![]),
            ("$[?match(@, '[+,-.]|é|K')]", all(&['+', ',', '-', '.', 'é', 'K'])),
        ] {
            let p = oracle::accept(t)?;
            let got: String = crate::engine::lib(t, || p.query(&d))?.iter().filter_map(|v| v.as_str()).collect();
            let want: String = want.into_iter().collect();
            if got != want {
                crate::fail!("query {t:?} on the strings of one character from {:?} selects {got:?} instead of {want:?}", block[0]);
            }
            n2 += 1;
        }
    }
    for p in INVALID {
        let lit = render::plain_literal(p);
        t(&format!("$[?match(@, {lit})]"), &[])?;
        t(&format!("$[?search(@, {lit})]"), &[])?;
    }
    Ok(n + n2 + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Patterns], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

/// Each category, and those of one letter, in each form, on characters of known categories
fn categories() -> Result<u64, Fail> {
    let mut n = 0;
    let chars: Vec<char> = "\t\n\r\u{7f} 09AZaz$+^_-([)]!,.\\".chars().chain(iregexp::KNOWN.iter().flat_map(|k| k.1.iter().copied().take(2))).chain(['\u{e000}', '\u{fdd0}']).collect();
    let d = Value::Array(chars.iter().map(|c| Value::String(c.to_string())).collect());
    for cat in iregexp::CATEGORIES {
        for re in [format!("\\p{{{cat}}}"), format!("\\P{{{cat}}}"), format!("[\\p{{{cat}}}x€]"), format!("[^a\\p{{{cat}}}]"), format!("[\\P{{{cat}}}]"), format!("x?\\p{{{cat}}}+|x"), format!("(\\P{{{cat}}}|b)")] {
            let parsed = iregexp::parse(&re).unwrap();
            let lit = render::plain_literal(&re);
            for (f, full) in [("match", true), ("search", false)] {
                let t = format!("$[?{f}(@, {lit})]");
                let judge = |c: &char| if full { iregexp::full_match(&parsed, &c.to_string()) } else { iregexp::search(&parsed, &c.to_string()) };
                let want: String = chars.iter().filter(|c| judge(c).unwrap()).collect();
                let p = oracle::accept(&t)?;
                let got: String = crate::engine::lib(&t, || p.query(&d))?.iter().filter_map(|v| v.as_str()).collect();
                if got != want {
                    crate::fail!("query {t:?} on strings of one character selects {got:?} instead of {want:?}");
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let re = iregexp::gen(src, 3);
    let text = iregexp::render(&re);
    let pattern = match src.weighted(&[16, 3, 1]) {
        0 => Value::String(text),
        1 => {
            let bad = src.of(&INVALID);
            Value::String(match src.below(4) {
                0 => format!("{text}|{bad}"),
                1 => format!("{bad}{text}"),
                _ => bad.to_string(),
            })
        }
        _ => gen::scalar(src),
    };
    let valid = pattern.as_str().and_then(iregexp::parse);
    let known_invalid = pattern.as_str().is_some_and(|p| valid.is_none() && definitely_invalid(p));
    if pattern.is_string() && valid.is_none() && !known_invalid {
        cx.label("discarded: the dialects may differ on the pattern");
        return Ok(());
    }
    let mut subjects: Vec<Value> = (0..src.size(2, 6))
        .map(|_| match src.weighted(&[8, 1, 1]) {
            0 => Value::String(iregexp::subject(src, &re)),
            1 => Value::String(gen::string(src)),
            _ => gen::scalar(src),
        })
        .collect();
    if let Some(re) = &valid {
        // what is known
        subjects.retain(|s| s.as_str().is_none_or(|s| iregexp::full_match(re, s).is_some() && iregexp::search(re, s).is_some()));
    }
    // what the two functions give for a subject, by the property's own words
    let truth = |full: bool, s: &Value| match (&valid, s) {
        (Some(re), Value::String(s)) => {
            if full {
                iregexp::full_match(re, s).unwrap()
            } else {
                iregexp::search(re, s).unwrap()
            }
        }
        _ => false,
    };
    let form = src.weighted(&[5, 2, 2, 1]);
    let pat_lit = || match &pattern {
        Value::String(s) => Lit::Str(s.clone()),
        Value::Null => Lit::Null,
        Value::Bool(b) => Lit::Bool(*b),
        v => Lit::Num(v.to_string()),
    };
    let name = |k: &str| Seg::child(Sel::Name(k.into()));
    // the candidates, and the two arguments
    let (doc, segs, args): (Value, Vec<Seg>, Vec<Arg>) = match form {
        0 => (Value::Array(subjects.clone()), vec![], vec![Arg::Query(Query::new(false, vec![])), Arg::Lit(pat_lit())]),
        1 => (
            json!({"p": pattern, "s": subjects}),
            vec![name("s")],
            vec![Arg::Query(Query::new(false, vec![])), Arg::Query(Query::new(true, vec![name("p")]))],
        ),
        2 => {
            let rows: Vec<Value> = subjects
                .iter()
                .map(|s| {
                    let mut m = Map::new();
                    m.insert("s".into(), s.clone());
                    m.insert("p".into(), pattern.clone());
                    Value::Object(m)
                })
                .collect();
            (Value::Array(rows), vec![], vec![Arg::Query(Query::new(false, vec![name("s")])), Arg::Query(Query::new(false, vec![name("p")]))])
        }
        _ => {
            let rows: Vec<Value> = subjects.iter().map(|s| json!([s, [pattern]])).collect();
            let call = Call { name: "value".into(), args: vec![Arg::Query(Query::new(false, vec![Seg::child(Sel::Index(1)), Seg::child(Sel::Wild)]))] };
            (Value::Array(rows), vec![], vec![Arg::Query(Query::new(false, vec![Seg::child(Sel::Index(0))])), Arg::Call(call)])
        }
    };
    let cands = match form {
        1 => doc["s"].as_array().unwrap(),
        _ => doc.as_array().unwrap(),
    };
    let mut some = false;
    let mut none = false;
    for (fname, full) in [("match", true), ("search", false)] {
        {
            let neg = src.chance(1, 3);
            let f = Or::one(Basic::Test(neg, Call { name: fname.into(), args: args.clone() }));
            let mut segs = segs.clone();
            segs.push(Seg::child(Sel::Filter(f)));
            let q = Query::new(true, segs);
            let want: Vec<&Value> = cands.iter().zip(&subjects).filter(|(_, s)| truth(full, s) != neg).map(|(c, _)| c).collect();
            some |= subjects.iter().any(|s| truth(full, s));
            none |= subjects.iter().any(|s| s.is_string() && !truth(full, s));
            let text = if src.chance(1, 3) { render::random(src, &q) } else { render::plain(&q) };
            // the evaluator of the other checks must say the same
            if valid.is_some() {
                let m = Ev::new(&doc, BUILTIN).run(&q);
                if let Ok(m) = m {
                    assert!(oracle::same_places(&oracle::values(&m), &want), "the models disagree on {text}");
                }
            }
            let p = oracle::accept(&text)?;
            if src.coin() {
                oracle::check_places("plain", &text, &doc, &want, &oracle::query(&p, &text, &doc)?)?;
                continue;
            }
            oracle::check_places("located", &text, &doc, &want, &oracle::values(&oracle::located(&p, &text, &doc)?))?;
        }
    }
    cx.label_if(known_invalid, "no regular expression");
    cx.label_if(!pattern.is_string(), "pattern is no string");
    cx.label_if(some, "matches");
    if some && none {
        cx.nontrivial((pattern.to_string(), doc.to_string()));
        cx.sample(|| format!("pattern {pattern} on subjects {}", Value::Array(subjects.clone())));
    }
    Ok(())
}

/// Unbalanced brackets and the like, by a scan that knows escapes and classes
fn definitely_invalid(p: &str) -> bool {
    let mut open = 0i32;
    let mut cs = p.chars().peekable();
    let mut start = true;
    while let Some(c) = cs.next() {
        let at_start = start;
        start = false;
        match c {
            '\\' => {
                if cs.next().is_none() {
                    return true;
                }
            }
            '[' => {
                if cs.peek() == Some(&'^') {
                    cs.next();
                }
                // a first ] may be literal in some dialects
                if cs.peek() == Some(&']') {
                    return !p[..].contains("]]") && p.matches(']').count() == 1;
                }
                loop {
                    match cs.next() {
                        None => return true,
                        Some('\\') => {
                            cs.next();
                        }
                        Some(']') => break,
                        Some('[') => return false,
                        _ => {}
                    }
                }
            }
            '(' => {
                open += 1;
                start = true;
            }
            ')' => {
                open -= 1;
                if open < 0 {
                    return true;
                }
            }
            '|' => start = true,
            '*' | '+' | '?' if at_start => return true,
            _ => {}
        }
    }
    open != 0
}
