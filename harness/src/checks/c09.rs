use crate::abnf::{self, Verdict};
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::userfn::FUNCS;
use crate::{fail, gen, oracle, render, sweep};
use serde_json::{json, Map, Value};

pub static CHECK: Check = Check {
    id: "C09",
    rule: "Listed first: every ASCII character and the edges of the Unicode ranges in every single-character spelling. Generated: a \
           string, a spelling of it as a literal, and strings near it; the literal must select exactly that member by name and exactly \
           that string by comparison, through an index in a longer query or alone. One case in three is a literal broken in one place, \
           which must be rejected. Non-trivial: the literal has an escape or a non-ASCII or quoting character; distinct by text.",
    quick: 900_000,
    thorough: 40_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["the spellings in harness/src/render.rs and the recogniser in harness/src/abnf.rs follow the ABNF of RFC 9535 section 2.3.1.1"],
};

fn fixed(thorough: bool) -> Result<u64, Fail> {
    let mut n = 0;
    let step = if thorough { 1 } else { 97 };
    let singles = (0..0x250).chain((0x250..0x11_0000).step_by(step)).chain([0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1f600]).filter_map(char::from_u32);
    for c in singles {
        let mut spellings = vec![];
        for quote in ['\'', '"'] {
            let mut inner = vec![];
            if (c as u32) >= 0x20 && c != '\\' && c != quote {
                inner.push(c.to_string());
            }
            let short = match c {
                '\u{8}' => 'b',
                '\u{c}' => 'f',
                '\n' => 'n',
                '\r' => 'r',
                '\t' => 't',
                '/' | '\\' => c,
                c if c == quote => c,
                _ => '\0',
            };
            if short != '\0' {
                inner.push(format!("\\{short}"));
            }
            let mut b = [0u16; 2];
            let units = c.encode_utf16(&mut b);
            inner.push(units.iter().map(|u| format!("\\u{u:04x}")).collect());
            inner.push(units.iter().map(|u| format!("\\u{u:04X}")).collect());
            spellings.extend(inner.into_iter().map(|t| format!("{quote}{t}{quote}")));
        }
        for lit in spellings {
            means(&lit, &c.to_string(), &["".to_string(), format!("{c}{c}"), format!("u{c}"), "a".into()])?;
            n += 1;
        }
    }
    for bad in [
        "'\\uD800'", "'\\uDC00'", "'\\uDC00\\uD800'", "'\\uD800\\uD800'", "'\\uD800\\u0041'", "'\\uD800x'", "'\\uD83D\\n'", "'\\ud83dDE00'", "'\\u'", "'\\u00'", "'\\u004'", "'\\u004g'", "'\\U0041'", "'\\u{41}'",
        "'\\x41'", "'\\0'", "'\\a'", "'\\v'", "'\\''x'", "'\\\"'", "\"\\'\"", "'\n'", "'\t'", "'\u{0}'", "'\u{1f}'", "'", "\"", "'\\", "'\\'", "\"\\\"", "'a\"", "\"a'", "'''", "\"\"\"", "'\\ '", "'\\\n'", "\\'a'",
        "'\\u 041'", "'\\u+041'", "'\\u-041'", "'\\uD83D\\uDE0'", "'\\uD83D\\u'", "'\\uD83D\\'", "'\\uD83D\\", "'\\uD83", "'\\uDFFF'", "'\\uDBFF\\uE000'", "'\\uDBFF\\uDBFF'", "'\\u00410'x", "`a`", "'\\/' '", "'\\`'",
    ] {
        rejected(bad)?;
        n += 1;
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Names, sweep::Of::Literals], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

/// The literal denotes `s`, and none of `others`, in both of its roles
fn means(lit: &str, s: &str, others: &[String]) -> Outcome {
    let mut m = Map::new();
    for o in others.iter().filter(|o| *o != s) {
        m.insert(o.clone(), json!(0));
    }
    m.insert(s.to_string(), json!(1));
    let doc = Value::Object(m);
    let text = format!("$[{lit}]");
    let p = oracle::accept(&text)?;
    let want = &doc[s];
    oracle::check_places("literal as a name", &text, &doc, &[want], &oracle::query(&p, &text, &doc)?)?;
    let got = oracle::located(&p, &text, &doc)?;
    if got.len() != 1 || got[0].loc != [crate::eval::Elem::Key(s)] {
        fail!("{text:?} is located at {got:?}, not at the member {s:?}");
    }
    let mut a: Vec<Value> = others.iter().map(|o| Value::String(o.clone())).collect();
    a.push(Value::String(s.to_string()));
    a.push(json!({"x": s}));
    let doc = Value::Array(a);
    let want: Vec<&Value> = doc.as_array().unwrap().iter().filter(|v| v.as_str() == Some(s)).collect();
    for text in [format!("$[?@=={lit}]"), format!("$[?{lit}==@]")] {
        let p = oracle::accept(&text)?;
        oracle::check_places("literal as a value", &text, &doc, &want, &oracle::query(&p, &text, &doc)?)?;
    }
    Ok(())
}

fn rejected(lit: &str) -> Outcome {
    for t in [format!("$[{lit}]"), format!("$[?@=={lit}]"), format!("$[?{lit}==@]"), format!("$[0,{lit}]"), format!("$..[{lit}]"), format!("$[?length({lit})==1]")] {
        // with the end of the query inside it the text may still be a query
        match abnf::parse(&t, FUNCS) {
            Verdict::Reject(_) => oracle::rejects(&t)?,
            v => panic!("{t:?} is not malformed: {v:?}"),
        }
    }
    Ok(())
}

/// Break a literal in one place
fn spoil(src: &mut Src, s: &str) -> String {
    let good = render::string_literal(src, s);
    let quote = &good[..1];
    let inner = &good[1..good.len() - 1];
    let other = if quote == "'" { "\"" } else { "'" };
    // insert between two items of the literal, not within an escape
    let mut cuts = vec![0];
    let mut it = inner.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        let mut end = i + c.len_utf8();
        if c == '\\' {
            let (j, e) = it.next().unwrap();
            end = j + e.len_utf8();
            if e == 'u' {
                for _ in 0..4 {
                    it.next();
                }
                end += 4;
                let hi = u32::from_str_radix(&inner[end - 4..end], 16).unwrap();
                if (0xd800..0xdc00).contains(&hi) {
                    for _ in 0..6 {
                        it.next();
                    }
                    end += 6;
                }
            }
        }
        cuts.push(end);
    }
    let at = cuts[src.below(cuts.len())];
    let unit = |src: &mut Src, lo: u32, hi: u32| {
        let v = lo + src.draw(u64::from(hi - lo)) as u32;
        if src.coin() {
            format!("\\u{v:04x}")
        } else {
            format!("\\u{v:04X}")
        }
    };
    let bad = match src.weighted(&[3, 3, 3, 2, 2, 2, 2, 2]) {
        0 => unit(src, 0xd800, 0xdbff),
        1 => unit(src, 0xdc00, 0xdfff),
        2 => {
            let hi = unit(src, 0xd800, 0xdbff);
            let lo = match src.below(3) {
                0 => unit(src, 0xd800, 0xdbff),
                1 => unit(src, 0, 0xd7ff),
                _ => unit(src, 0xe000, 0xffff),
            };
            format!("{hi}{lo}")
        }
        3 => char::from(src.below(32) as u8).to_string(),
        4 => {
            let e = loop_char(src, &['b', 'f', 'n', 'r', 't', '/', '\\', 'u', '\'', '"']);
            format!("\\{e}")
        }
        5 => format!("\\{other}"),
        6 => {
            // too few digits
            let n = src.below(4);
            let t: String = (0..n).map(|_| src.of(&['0', 'a', 'F', '9'])).collect();
            format!("\\u{t}{}", src.of(&['g', ' ', '-', 'x', '\\', '.']))
        }
        _ => {
            let hi = unit(src, 0xd800, 0xdbff);
            format!("{hi}{}", src.of(&["\\n", "\\u", "u0041", "\\", "\\U0041", "\\udc0", " "]))
        }
    };
    // a surrogate before or behind may make the inserted one whole
    format!("{quote}{}{bad}{}{quote}", &inner[..at], &inner[at..])
}

fn loop_char(src: &mut Src, not: &[char]) -> char {
    let c = gen::any_char(src);
    if not.contains(&c) {
        'x'
    } else {
        c
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let s: String = match src.weighted(&[4, 2, 2]) {
        0 => gen::text(src, 8),
        1 => gen::key(src),
        _ => (0..src.size(1, 5)).map(|_| src.of(&['\'', '"', '\\', '/', '\n', '\t', '\u{8}', '\u{c}', '\r', '😀', '\u{10ffff}', 'u', 'é', '\u{d7ff}', '\u{e000}', '\u{7f}', '0', 'n'])).collect(),
    };
    if src.chance(1, 3) {
        let bad = spoil(src, &s);
        let t = format!("$[{bad}]");
        // the edit may have made another well-formed literal of it
        if let Verdict::Reject(_) = abnf::parse(&t, FUNCS) {
            oracle::rejects(&t)?;
            let t = format!("$[?@=={bad}]");
            oracle::rejects(&t)?;
            cx.nontrivial(&t);
            cx.label("malformed");
            cx.sample(|| format!("malformed: {t}"));
        }
        return Ok(());
    }
    let lit = render::string_literal(src, &s);
    let mut others = vec![];
    for _ in 0..src.size(1, 3) {
        others.push(gen::near_string(src, &s));
    }
    others.push(lit[1..lit.len() - 1].to_string());
    means(&lit, &s, &others)?;
    cx.label("well-formed");
    if lit.contains('\\') || !s.is_ascii() || s.contains(['\'', '"']) {
        cx.nontrivial(&lit);
        cx.sample(|| format!("{lit} denotes {s:?}"));
    }
    Ok(())
}
