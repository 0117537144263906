use crate::ast::Query;
use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::eval::Ev;
use crate::oracle;
use crate::userfn::FUNCS;
use crate::vary::vary;
use crate::{abnf, fail, gen, render, sweep};
use serde_json::{json, Value};
use serde_json_path::JsonPath;

pub static CHECK: Check = Check {
    id: "C25",
    rule: "A case is a query and one that differs from it in one place (a name, index, slice part, operator, literal, function, argument, \
           negation, segment or selector kind, order, or number of parts), or two spellings of one query, and three documents. If the \
           model's results differ on any of them the paths must be unequal; if the paths are equal, their results must agree. \
           Non-trivial: the results differ; distinct by the two texts.",
    quick: 300_000,
    thorough: 15_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["printing and reparsing is asserted only where C14's known findings do not change the text"],
};

fn equal(a: &JsonPath, b: &JsonPath, ta: &str, tb: &str) -> Result<bool, Fail> {
    lib("comparing paths", || {
        let r = a == b;
        if r != (b == a) {
            fail!("{ta:?} == {tb:?} is {r}, and the other way round {}", !r);
        }
        #[allow(clippy::nonminimal_bool)]
        if (a != b) == r {
            fail!("{ta:?} and {tb:?} are both equal and unequal");
        }
        Ok(r)
    })?
}

/// What must hold of one text
fn check_self(text: &str, p: &JsonPath, tree: &Query) -> Result<(), Fail> {
    let again = oracle::accept(text)?;
    let clone = p.clone();
    let mut onto = oracle::accept("$.x[?@ == 1]")?;
    onto.clone_from(p);
    for (how, q) in [("itself", p), ("parsed again", &again), ("a clone", &clone), ("cloned onto another", &onto)] {
        if !equal(p, q, text, how)? {
            fail!("{text:?} is unequal to {how}");
        }
    }
    let k = super::c14::traits(tree);
    if !k.f7 && !k.f8 && !k.long {
        let mut shown = p.to_string();
        if k.f18 {
            shown = super::c14::undot(&shown);
        }
        let r = oracle::accept(&shown)?;
        if !equal(p, &r, text, &shown)? {
            fail!("{text:?} is unequal to its display {shown:?}");
        }
    }
    Ok(())
}

/// Whether the model's results differ, and on which document
fn differ<'v>(a: &Query, b: &Query, docs: &[&'v Value]) -> Option<&'v Value> {
    docs.iter().copied().find(|d| {
        let (Ok(x), Ok(y)) = (Ev::new(d, FUNCS).run(a), Ev::new(d, FUNCS).run(b)) else { return false };
        !oracle::same_places(&oracle::values(&x), &oracle::values(&y))
    })
}

fn check_pair(a: (&str, &Query), b: (&str, &Query), docs: &[&Value]) -> Result<(bool, bool), Fail> {
    let (p, q) = (oracle::accept(a.0)?, oracle::accept(b.0)?);
    check_self(a.0, &p, a.1)?;
    let same = equal(&p, &q, a.0, b.0)?;
    let differs = differ(a.1, b.1, docs);
    if let (true, Some(d)) = (same, differs) {
        fail!("{:?} and {:?} are equal, but select different nodes from {d}", a.0, b.0);
    }
    if same {
        for d in docs {
            if oracle::affordable(d, FUNCS, a.1) && oracle::affordable(d, FUNCS, b.1) {
                let want = oracle::query(&p, a.0, d)?;
                oracle::check_places(&format!("the path is equal to {:?} and selects something else", a.0), b.0, d, &want, &oracle::query(&q, b.0, d)?)?;
            }
        }
    }
    Ok((same, differs.is_some()))
}

fn tree(t: &str) -> Result<Query, Fail> {
    match abnf::parse(t, FUNCS) {
        abnf::Verdict::Accept(q) => Ok(q),
        _ => fail!("the model does not know {t}"),
    }
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let doc = json!({"a": [1, 2, [3, {"b": 4, "a": "x"}]], "b": {"a": {"a": [6], "b": 1}, "c": null}, "c": [[], {}, "", 0, "a"], "0": 1, "A": 2});
    let docs = [&doc, &doc["a"], &doc["b"]];
    let all = [
        "$", "$.a", "$.b", "$.A", "$..a", "$.*", "$..*", "$[0]", "$['0']", "$[-1]", "$[1]", "$[0:]", "$[:1]", "$[1:]", "$[::2]", "$[::-1]", "$[1:2]", "$[1:2:2]", "$[::0]",
        "$['a','b']", "$['b','a']", "$['a','a']", "$[?@]", "$[?@.a]", "$[?!@.a]", "$[?$.a]", "$[?@..a]", "$[?@.a && @.b]", "$[?@.a || @.b]", "$[?@.a == 1]", "$[?@.a != 1]",
        "$[?@ < 1]", "$[?@ <= 1]", "$[?@ > 1]", "$[?@ >= 1]", "$[?@ == 1]", "$[?@ == '1']", "$[?@ == 'a']", "$[?@ == true]", "$[?@ == false]", "$[?@ == null]", "$[?@ == 2]",
        "$.*[?@ == 2]", "$.*[?length(@) == 1]", "$.*[?count(@.*) == 1]", "$.*[?match(@, 'a')]", "$.*[?search(@, 'a')]", "$.*[?!match(@, 'a')]", "$.*[?!search(@, 'a')]",
        "$.*[?match(@, 'x')]", "$.*[?match('a', @)]", "$.*[?fl_v(@)]", "$.*[?!fl_v(@)]", "$.*[?fl_n(@)]", "$.*[?fl_l(@)]", "$.*[?(@.a)]", "$.*[?!(@.a)]", "$.*[?@ == -1]",
    ];
    let mut n = 0;
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            let (same, _) = check_pair((a, &tree(a)?), (b, &tree(b)?), &docs)?;
            if i == j && !same {
                fail!("{a:?} is unequal to itself");
            }
            n += 1;
        }
    }
    Ok(n + long()? + repeated()?)
}

/// One thing repeated, so many times and once more
fn repeated() -> Result<u64, Fail> {
    sweep::each(sweep::ALL, |c| check_self(&c.text, &oracle::accept(&c.text)?, &c.tree))
}

/// Long queries, and others of the same length that differ in one place; each pair with a document that tells them apart
pub fn long_pairs() -> Vec<(String, String, Value)> {
    const N: usize = 24;
    let huge = Value::Array((0..70_000).map(Value::from).collect());
    let nest = |f: &dyn Fn(Value) -> Value| (0..N).fold(json!(1), |v, _| f(v));
    let parts = |f: &dyn Fn(usize) -> String, sep: &str| (0..N).map(f).collect::<Vec<_>>().join(sep);
    let mut out = vec![];
    let mut pair = |a: &str, b: &str, d: &Value| out.push((a.to_string(), b.to_string(), d.clone()));
    let names = nest(&|v| json!({ "a": v }));
    let items = nest(&|v| json!([v]));
    let rows: Vec<Value> = (0..N).map(|i| json!({format!("k{i:02}"): 1})).collect();
    let row: Value = (0..N).map(|i| (format!("k{i:02}"), json!(1))).collect::<serde_json::Map<_, _>>().into();
    for i in 0..N {
        let at = |k: usize, x: &'static str, y: &'static str| if k == i { y } else { x };
        pair(&format!("${}", ".a".repeat(N)), &format!("${}", parts(&|k| at(k, ".a", ".b").into(), "")), &names);
        pair(&format!("${}", parts(&|k| at(k, ".a", "..a").into(), "")), &format!("${}", parts(&|k| at(k, ".a", "..b").into(), "")), &names);
        pair(&format!("${}", "[0]".repeat(N)), &format!("${}", parts(&|k| at(k, "[0]", "[1]").into(), "")), &items);
        pair(&format!("${}", "[*]".repeat(N)), &format!("${}", parts(&|k| at(k, "[*]", "[1]").into(), "")), &items);
        pair(&format!("$[{}]", parts(&|_| "0".into(), ",")), &format!("$[{}]", parts(&|k| at(k, "0", "1").into(), ",")), &json!([1, 2]));
        pair(&format!("$[{}]", parts(&|_| "'a'".into(), ",")), &format!("$[{}]", parts(&|k| at(k, "'a'", "'b'").into(), ",")), &json!({"a": 1, "b": 2}));
        pair(&format!("$[{}]", parts(&|_| "0:1".into(), ",")), &format!("$[{}]", parts(&|k| at(k, "0:1", "1:2").into(), ",")), &json!([1, 2]));
        pair(&format!("$[?@{}]", ".a".repeat(N)), &format!("$[?@{}]", parts(&|k| at(k, ".a", ".b").into(), "")), &json!([names]));
        pair(&format!("$[?@{} == 1]", ".a".repeat(N)), &format!("$[?@{} == 1]", parts(&|k| at(k, ".a", ".b").into(), "")), &json!([names]));
        pair(&format!("$[?count(@{}) == 1]", ".a".repeat(N)), &format!("$[?count(@{}) == 1]", parts(&|k| at(k, ".a", ".b").into(), "")), &json!([names]));
        pair(&format!("$[?{}]", parts(&|k| format!("@.k{k:02}"), " && ")), &format!("$[?{}]", parts(&|k| format!("@.{}{k:02}", at(k, "k", "x")), " && ")), &json!([row]));
        pair(&format!("$[?{}]", parts(&|k| format!("@.k{k:02}"), " || ")), &format!("$[?{}]", parts(&|k| format!("@.{}{k:02}", at(k, "k", "x")), " || ")), &json!(rows));
        pair(&format!("$[?{}]", parts(&|k| format!("@.k{k:02} == 1"), " && ")), &format!("$[?{}]", parts(&|k| format!("@.k{k:02} == {}", at(k, "1", "2")), " && ")), &json!([row]));
        pair(&format!("$[{}]", parts(&|k| format!("?@.k{k:02}"), ",")), &format!("$[{}]", parts(&|k| format!("?@.{}{k:02}", at(k, "k", "x")), ",")), &json!(rows));
    }
    for i in [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 998, 999] {
        let (a, mut b) = ("x".repeat(1000), "x".repeat(1000));
        b.replace_range(i..=i, "y");
        pair(&format!("$.{a}"), &format!("$.{b}"), &json!({a.as_str(): 1}));
        pair(&format!("$['{a}']"), &format!("$['{b}']"), &json!({b.as_str(): 1}));
        pair(&format!("$[?@ == '{a}']"), &format!("$[?@ == '{b}']"), &json!([a]));
        pair(&format!("$[?@.{a}]"), &format!("$[?@.{b}]"), &json!([{a.as_str(): 1}]));
        pair(&format!("$[?search(@, '{a}')]"), &format!("$[?search(@, '{b}')]"), &json!([a]));
    }
    for (a, b) in [(0, 256), (1, 257), (2, 65538), (4463, 69999), (127, 128), (32767, 32768), (65535, 65536)] {
        pair(&format!("$[{a}]"), &format!("$[{b}]"), &huge);
        pair(&format!("$[{}]", -a - 1), &format!("$[{}]", -b - 1), &huge);
        pair(&format!("$[{a}:{}]", a + 1), &format!("$[{b}:{}]", b + 1), &huge);
        pair(&format!("$[{a}::70000]"), &format!("$[{b}::70000]"), &huge);
        if a > 100 {
            pair(&format!("$[::{a}]"), &format!("$[::{b}]"), &huge);
            pair(&format!("$[::-{a}]"), &format!("$[::-{b}]"), &huge);
        }
        pair(&format!("$[?@ == {a}]"), &format!("$[?@ == {b}]"), &json!([a, b]));
        pair(&format!("$[?@ == {a}.5]"), &format!("$[?@ == {b}.5]"), &json!([a as f64 + 0.5]));
    }
    for k in [1, 2, 5, 12] {
        let (open, close) = ("$[?@".to_string() + &"[?@".repeat(k - 1), "]".repeat(k));
        let d = (0..k).fold(json!({"a": 1}), |v, _| json!([v]));
        pair(&format!("{open}.a{close}"), &format!("{open}.b{close}"), &d);
        pair(&format!("$[?{}@.a{}]", "(".repeat(k), ")".repeat(k)), &format!("$[?{}@.b{}]", "(".repeat(k), ")".repeat(k)), &json!([{"a": 1}]));
        pair(&format!("$[?{}@.a{}]", "!(".repeat(k), ")".repeat(k)), &format!("$[?{}@.b{}]", "!(".repeat(k), ")".repeat(k)), &json!([{"a": 1}]));
    }
    // one is the beginning, or the end, of the other
    for i in (0..40).chain([64, 100, 128, 256]) {
        for more in [1, 2, 8, 16] {
            let j = i + more;
            let all = (0..j).fold(json!(1), |v, k| if k % 2 == 0 { json!({"a": v}) } else { json!({"a": v, "b": 0}) });
            pair(&format!("${}", ".a".repeat(i)), &format!("${}", ".a".repeat(j)), &all);
            pair(&format!("$[?@{}]", ".a".repeat(j - 1)), &format!("$[?@{}]", ".a".repeat(j)), &json!([(0..j - 1).fold(json!(1), |v, _| json!({ "a": v }))]));
            pair(&format!("$[?@{} == 1]", ".a".repeat(i)), &format!("$[?@{} == 1]", ".a".repeat(j)), &json!([all]));
            pair(&format!("$[?@ == '{}']", "a".repeat(i)), &format!("$[?@ == '{}']", "a".repeat(j)), &json!(["a".repeat(j)]));
            pair(&format!("$['{}']", "a".repeat(i)), &format!("$['{}']", "a".repeat(j)), &json!({"a".repeat(j): 1}));
            if i > 0 {
                pair(&format!("$[{}]", vec!["0"; i].join(",")), &format!("$[{}]", vec!["0"; j].join(",")), &json!([0]));
                pair(&format!("$[?{}]", vec!["@.a"; i].join("&&")), &format!("$[?{}{}]", vec!["@.a"; i].join("&&"), "&&@.b".repeat(more)), &json!([{"a": 1}]));
                pair(&format!("$[?{}]", vec!["@.a"; i].join("||")), &format!("$[?{}{}]", vec!["@.a"; i].join("||"), "||@.b".repeat(more)), &json!([{"b": 1}]));
            }
        }
    }
    out
}

fn long() -> Result<u64, Fail> {
    let all = long_pairs();
    for (a, b, d) in &all {
        let (_, differs) = check_pair((a, &tree(a)?), (b, &tree(b)?), &[d])?;
        assert!(differs, "{a} and {b} are the same");
    }
    Ok(all.len() as u64)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = gen::doc(src);
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = FUNCS;
    let q = gen::G::new(src, &doc, cfg).query();
    let text = render::plain(&q);
    let q = tree(&text)?;
    let (other, to, what) = if src.chance(1, 8) {
        let t = render::random(src, &q);
        (tree(&t)?, t, "spelling")
    } else {
        match vary(src, &q, FUNCS) {
            Some(v) => v,
            None => return Ok(()),
        }
    };
    let more = [gen::doc(src), gen::table(src)];
    let (same, differs) = check_pair((&text, &q), (&to, &other), &[&doc, &more[0], &more[1]])?;
    cx.label(&format!("{what}{}", if differs { ", results differ" } else { "" }));
    cx.label_if(same, "equal");
    if differs {
        cx.nontrivial((&text, &to));
        cx.sample(|| format!("{text}   and   {to}"));
    }
    Ok(())
}
