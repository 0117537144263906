use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::{normalized, Elem, Node};
use crate::userfn::FUNCS;
use crate::{abnf, fail, gen, mutate, oracle, render, sweep};
use serde::de::value::{BorrowedStrDeserializer, CowStrDeserializer, Error as ValueError, StrDeserializer, StringDeserializer};
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::collections::BTreeMap;
use std::io::Read;
use std::str::FromStr;

pub static CHECK: Check = Check {
    id: "C15",
    rule: "A case is a text (a query in a random spelling, edits of one, or random tokens), read through parse, FromStr, and serde from \
           borrowed, owned, escaped and streamed JSON and from serde's own value deserializers, directly and inside other types; and the \
           results of a query on a document, serialised. Non-trivial: the text is accepted and more than `$`, or has four or more bytes \
           after `$` and is rejected; distinct by text.",
    quick: 250_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["the member names of a serialised located node are `loc` and `node`, as they are now"],
};

/// Hands out one byte at a time
struct Slow<'a>(&'a [u8]);

impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() || buf.is_empty() {
            return Ok(0);
        }
        buf[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}

#[derive(Deserialize, Serialize, Debug, PartialEq)]
struct Holder {
    path: JsonPath,
    maybe: Option<JsonPath>,
}

#[derive(Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum Either {
    Path(JsonPath),
    Number(u8),
}

#[derive(Deserialize, Debug)]
struct Flat {
    #[serde(flatten)]
    rest: BTreeMap<String, JsonPath>,
}

/// Every character as an escape
fn escaped(s: &str) -> String {
    let mut out = String::from("\"");
    for u in s.encode_utf16() {
        out.push_str(&format!("\\u{u:04x}"));
    }
    out.push('"');
    out
}

fn readings(text: &str) -> Vec<(&'static str, Option<JsonPath>)> {
    let lit = serde_json::to_string(text).unwrap();
    let esc = escaped(text);
    let one = json!(text);
    let mut out = vec![
        ("FromStr::from_str", JsonPath::from_str(text).ok()),
        ("str::parse", text.parse::<JsonPath>().ok()),
        ("from_value", serde_json::from_value(one.clone()).ok()),
        ("deserialize from &Value", JsonPath::deserialize(&one).ok()),
        ("from_str", serde_json::from_str(&lit).ok()),
        ("from_str of an escaped text", serde_json::from_str(&esc).ok()),
        ("from_str with blanks around", serde_json::from_str(&format!(" \n{lit}\t ")).ok()),
        ("from_slice", serde_json::from_slice(lit.as_bytes()).ok()),
        ("from_slice of an escaped text", serde_json::from_slice(esc.as_bytes()).ok()),
        ("from_reader", serde_json::from_reader(lit.as_bytes()).ok()),
        ("from_reader, byte by byte", serde_json::from_reader(Slow(lit.as_bytes())).ok()),
        ("from_reader of an escaped text", serde_json::from_reader(Slow(esc.as_bytes())).ok()),
        ("a borrowed str deserializer", JsonPath::deserialize(BorrowedStrDeserializer::<ValueError>::new(text)).ok()),
        ("a str deserializer", JsonPath::deserialize::<StrDeserializer<ValueError>>(text.into_deserializer()).ok()),
        ("a String deserializer", JsonPath::deserialize::<StringDeserializer<ValueError>>(text.to_string().into_deserializer()).ok()),
        ("a Cow deserializer", JsonPath::deserialize::<CowStrDeserializer<ValueError>>(std::borrow::Cow::Borrowed(text).into_deserializer()).ok()),
        ("a list", serde_json::from_str::<Vec<JsonPath>>(&format!("[{lit}]")).ok().and_then(|mut v| v.pop())),
        ("an option", serde_json::from_value::<Option<JsonPath>>(one.clone()).ok().flatten()),
        ("a member", serde_json::from_str::<Holder>(&format!("{{\"path\":{esc}}}")).ok().map(|h| h.path)),
        ("a member of a value", serde_json::from_value::<Holder>(json!({"path": "$", "maybe": text})).ok().and_then(|h| h.maybe)),
        (
            "an untagged variant",
            serde_json::from_str::<Either>(&lit).ok().and_then(|e| match e {
                Either::Path(p) => Some(p),
                Either::Number(_) => None,
            }),
        ),
        ("a flattened member", serde_json::from_str::<Flat>(&format!("{{\"a\":{lit}}}")).ok().and_then(|f| f.rest.into_values().next())),
        ("a tuple", serde_json::from_value::<(u8, JsonPath)>(json!([1, text])).ok().map(|t| t.1)),
    ];
    if text.chars().count() == 1 {
        let c: serde::de::value::CharDeserializer<ValueError> = text.chars().next().unwrap().into_deserializer();
        out.push(("a char deserializer", JsonPath::deserialize(c).ok()));
    }
    out
}

fn check_text(text: &str) -> Result<bool, Fail> {
    let parsed = oracle::parse(text)?.ok();
    for (what, got) in lib(&format!("deserialising {text:?}"), || readings(text))? {
        match (&parsed, &got) {
            (Some(a), Some(b)) if a == b && b == a => {}
            (None, None) => {}
            (Some(_), Some(_)) => fail!("{text:?} read by {what} is another path than parsed"),
            (Some(_), None) => fail!("{text:?} is accepted by parse and rejected by {what}"),
            (None, Some(_)) => fail!("{text:?} is rejected by parse and accepted by {what}"),
        }
    }
    let Some(p) = parsed else { return Ok(false) };
    lib(&format!("serialising {text:?}"), || -> Result<(), Fail> {
        let shown = p.to_string();
        let v = serde_json::to_value(&p).map_err(|e| Fail::new(format!("{text:?} does not serialise: {e}")))?;
        if v != json!(shown) {
            fail!("{text:?} is displayed as {shown:?} and serialises to {v}");
        }
        let want = serde_json::to_string(&shown).unwrap();
        let s = serde_json::to_string(&p).map_err(|e| Fail::new(format!("{text:?} does not serialise: {e}")))?;
        let b = serde_json::to_vec(&vec![&p]).map_err(|e| Fail::new(format!("{text:?} does not serialise: {e}")))?;
        if s != want || b != format!("[{want}]").into_bytes() {
            fail!("{text:?} is displayed as {shown:?} and serialises to {s} and {}", String::from_utf8_lossy(&b));
        }
        let h = serde_json::to_value(Holder { path: p.clone(), maybe: None }).map_err(|e| Fail::new(e.to_string()))?;
        if h != json!({"path": shown, "maybe": null}) {
            fail!("{text:?} in a member serialises to {h}");
        }
        Ok(())
    })??;
    Ok(true)
}

fn check_lists(text: &str, doc: &Value) -> Result<usize, Fail> {
    let p = oracle::accept(text)?;
    let nodes = oracle::query(&p, text, doc)?;
    let located = oracle::located(&p, text, doc)?;
    lib("serialising results", || -> Result<(), Fail> {
        let want = Value::Array(nodes.iter().map(|v| (*v).clone()).collect());
        let list = p.query(doc);
        let got = serde_json::to_value(&list).map_err(|e| Fail::new(e.to_string()))?;
        if got != want {
            fail!("the nodes of {text:?} on {doc} serialise to {got}");
        }
        let s = serde_json::to_string(&list).map_err(|e| Fail::new(e.to_string()))?;
        if s != serde_json::to_string(&nodes).unwrap() {
            fail!("the nodes of {text:?} on {doc} serialise to {s}");
        }
        let text_of = |n: &Node| normalized(&n.loc);
        let want = Value::Array(located.iter().map(|n| json!({"loc": text_of(n), "node": n.val})).collect());
        let list = p.query_located(doc);
        let got = serde_json::to_value(&list).map_err(|e| Fail::new(e.to_string()))?;
        if got != want {
            fail!("the located nodes of {text:?} on {doc} serialise to {got}, expected {want}");
        }
        let s = serde_json::to_string(&list).map_err(|e| Fail::new(e.to_string()))?;
        // serde_json refuses to read what is nested too deeply
        let readable = serde_json::from_str::<Value>(&want.to_string()).is_ok();
        if readable && serde_json::from_str::<Value>(&s).ok() != Some(want) {
            fail!("the located nodes of {text:?} on {doc} serialise to {s}");
        }
        for (n, m) in list.iter().zip(&located) {
            let got = serde_json::to_value(n.location()).map_err(|e| Fail::new(e.to_string()))?;
            if got != json!(text_of(m)) {
                fail!("the location {} serialises to {got}", text_of(m));
            }
            let got = serde_json::to_value(n.location().iter().collect::<Vec<_>>()).map_err(|e| Fail::new(e.to_string()))?;
            let want: Vec<Value> = m
                .loc
                .iter()
                .map(|e| match e {
                    Elem::Key(k) => json!(k),
                    Elem::Idx(i) => json!(i),
                })
                .collect();
            if got != json!(want) {
                fail!("the elements of {} serialise to {got}", text_of(m));
            }
        }
        Ok(())
    })??;
    Ok(nodes.len())
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut n = 0;
    for t in ["$", "", "a", "@", " $", "$ ", "$.a", "$['a\\'b']", "$[\"\\u0041\"]", "$['\\\\']", "$.\u{e9}", "$[?@ == 'x\\ny']", "$['\u{1f600}']", "null", "\"$\"", "$.", "$[", "\u{0}"] {
        check_text(t)?;
        n += 1;
    }
    for v in [json!(null), json!(true), json!(1), json!(1.5), json!([]), json!(["$"]), json!({}), json!({"$": "$"})] {
        let text = v.to_string();
        let got = lib("deserialising", || (serde_json::from_value::<JsonPath>(v), serde_json::from_str::<JsonPath>(&text)))?;
        if got.0.is_ok() || got.1.is_ok() {
            fail!("{text}, which is no string, deserialises to a path");
        }
        n += 1;
    }
    let d = json!({"a": [1, {"b'\\\n": null}], "~/": {"": "x"}, "": 1.5});
    for t in ["$", "$..*", "$..[?@]", "$.nothing", "$[*,*]"] {
        check_lists(t, &d)?;
        n += 1;
    }
    let huge = gen::huge();
    for (t, d) in [("$[0,1,255,256,257,9999,10000,65534,65535,65536,65537,69999,70000]", &huge[0]), ("$[65530:65540]", &huge[0]), ("$['k1','k4999']", &huge[1]), ("$.*", &huge[2]), ("$..b", &huge[3])] {
        check_lists(t, d)?;
        n += 1;
    }
    for i in (0..64).flat_map(|k| [1u64 << k, (1 << k) - 1, (1 << k) + 1]) {
        let got = serde_json::to_value(serde_json_path::PathElement::Index(i as usize)).map_err(|e| Fail::new(e.to_string()))?;
        if got != json!(i) {
            fail!("the element {i} serialises to {got}");
        }
        n += 1;
    }
    for c in gen::every_char() {
        let name = format!("{c}{c}x");
        let got = serde_json::to_value(serde_json_path::PathElement::Name(&name)).map_err(|e| Fail::new(e.to_string()))?;
        if got != json!(name) {
            fail!("the element {name:?} serialises to {got}");
        }
        n += 1;
    }
    let all: Value = gen::every_char().map(|c| (c.to_string(), json!(0))).collect::<serde_json::Map<_, _>>().into();
    check_lists("$.*", &all)?;
    Ok(n + 1 + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check_text(&c.text).and_then(|_| check_lists(&c.text, &c.doc)).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    if src.chance(1, 4) {
        let Some((doc, text, _)) = oracle::random_case(src, false) else { return Ok(()) };
        let k = check_lists(&text, &doc)?;
        cx.label("results");
        if k > 0 {
            cx.nontrivial((&text, doc.to_string()));
            cx.sample(|| format!("{text} on {doc}"));
        }
        return Ok(());
    }
    let text = if src.chance(1, 8) {
        mutate::soup(src, 8)
    } else {
        let doc = gen::doc(src);
        let mut cfg = gen::EVERYTHING;
        cfg.funcs = FUNCS;
        let q = gen::G::new(src, &doc, cfg).query();
        let t = render::random(src, &q);
        if src.chance(1, 3) {
            mutate::mutate(src, &t)
        } else {
            t
        }
    };
    if mutate::depth(&text) > 40 {
        return Ok(());
    }
    let ok = check_text(&text)?;
    cx.label(if ok { "accepted" } else { "rejected" });
    cx.label_if(!ok && matches!(abnf::parse(&text, FUNCS), abnf::Verdict::Accept(_)), "valid, rejected");
    if text.len() > if ok { 1 } else { 4 } {
        cx.nontrivial(&text);
        cx.sample(|| text.clone());
    }
    Ok(())
}
