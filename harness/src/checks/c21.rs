use crate::abnf;
use crate::ast::Query;
use crate::engine::{install_panic_hook, lib, splitmix, Check, Cx, Fail, Outcome, Src};
use crate::oracle::{self, Expected, Places};
use crate::userfn::FUNCS;
use crate::vary::vary;
use crate::{fail, gen, render, sweep};
use serde_json::{json, Value};
use serde_json_path::{JsonPath, JsonPathExt};
use std::collections::HashMap;
use std::process::Command;
use std::sync::Barrier;

pub static CHECK: Check = Check {
    id: "C21",
    rule: "A case is a history of 10 to 60 operations on a pool of up to six paths (texts that often differ in one place) and three \
           documents: parse, clone, drop, failed parse, print, compare, query in three forms, partial iteration, deduplication, edits of a document \
           in place, exchanging documents, and evaluation of shared paths on shared documents by four threads at once. Every result is \
           compared with the first one for that text and content, with the model's, and after each evaluation the document must be as \
           it was. Before that, pairs of long texts and families of patterns that differ in one place, in turns; and fresh processes whose first use of the library is by eight threads at once. Non-trivial: some text is \
           evaluated again with other operations in between; distinct by the history.",
    quick: 26_000,
    thorough: 1_500_000,
    run,
    fixed: Some(fixed),
    assumptions: &["interleavings of threads are those that the scheduler makes; there is no control over them"],
};

struct Known {
    /// normalized paths by text and document
    first: HashMap<(String, String), Vec<String>>,
    again: usize,
}

struct Item {
    text: String,
    tree: Query,
    path: JsonPath,
}

fn names(doc: &Value, vs: &[&Value]) -> Result<Vec<String>, Fail> {
    let p = Places::of(doc);
    vs.iter()
        .map(|v| p.get(v).map(str::to_string).ok_or_else(|| Fail::new(format!("a result {v} is no part of {doc}"))))
        .collect()
}

impl Known {
    fn evaluate(&mut self, it: &Item, doc: &Value, form: usize, cx: &mut Cx, history: &[String]) -> Result<(), Fail> {
        let before = doc.to_string();
        let Ok(e) = Expected::of(doc, FUNCS, &it.tree) else { return Ok(()) };
        let got = match form {
            0 => oracle::query(&it.path, &it.text, doc)?,
            1 => oracle::values(&oracle::located(&it.path, &it.text, doc)?),
            _ => lib("json_path", || doc.json_path(&it.path).all())?,
        };
        e.check("after some history the result differs", &it.text, &got, cx).map_err(|f| Fail::new(format!("{}\n  history {history:?}", f.msg)))?;
        if doc.to_string() != before {
            fail!("query {:?} changes {before} to {doc}", it.text);
        }
        let got = names(doc, &got)?;
        match self.first.get(&(it.text.clone(), before.clone())) {
            Some(old) => {
                self.again += 1;
                if *old != got {
                    fail!("query {:?} on {before} gave {old:?}, and later gives {got:?}\n  history {history:?}", it.text);
                }
            }
            None => {
                self.first.insert((it.text.clone(), before), got);
            }
        }
        Ok(())
    }
}

fn parse(text: String) -> Result<Option<Item>, Fail> {
    let abnf::Verdict::Accept(tree) = abnf::parse(&text, FUNCS) else { return Ok(None) };
    let path = oracle::accept(&text)?;
    Ok(Some(Item { text, tree, path }))
}

/// Change a document somewhere
fn edit(src: &mut Src, doc: &mut Value) {
    let mut at = doc;
    loop {
        let down = src.chance(2, 3);
        let n = match at {
            Value::Array(a) => a.len(),
            Value::Object(o) => o.len(),
            _ => 0,
        };
        if n == 0 || !down {
            break;
        }
        let i = src.below(n);
        at = match at {
            Value::Array(a) => &mut a[i],
            Value::Object(o) => o.iter_mut().nth(i).unwrap().1,
            _ => unreachable!(),
        };
    }
    match at {
        Value::Array(a) if src.chance(3, 4) => match src.below(4) {
            0 => a.push(gen::scalar(src)),
            1 => {
                a.pop();
            }
            2 => a.reverse(),
            _ => a.insert(0, gen::scalar(src)),
        },
        Value::Object(o) if src.chance(3, 4) => {
            let k = if src.coin() { o.keys().next().cloned() } else { None };
            match k {
                Some(k) if src.coin() => {
                    o.remove(&k);
                }
                Some(k) => {
                    o.insert(k, gen::scalar(src));
                }
                None => {
                    let k = gen::key(src);
                    let v = gen::scalar(src);
                    o.insert(k, v);
                }
            }
        }
        v => *v = gen::scalar(src),
    }
}

fn new_text(src: &mut Src, doc: &Value, pool: &[Item]) -> String {
    if !pool.is_empty() && src.chance(1, 2) {
        // one that is like another
        let i = src.below(pool.len());
        let tree = pool[i].tree.clone();
        if let Some((_, t, _)) = vary(src, &tree, FUNCS) {
            return t;
        }
    }
    if src.chance(1, 5) {
        let i = src.below(4);
        let re = src.pick(&["a", "b", "a.*", "[ab]", "a|b", "(a)", "b.", ".b", "", ".", "..", "a?", "b?", "(", "a(", "aaaaaaaab", "aaaaaaaa(", "aaaaaaaa?", "(a|b){2}", "(a|b){3}"]);
        let f = src.pick(&["match", "search"]);
        return [format!("$..[?{f}(@, '{re}')]"), format!("$[?{f}(@, '{re}')]"), format!("$[?!{f}('{re}', @)]"), format!("$.*[?{f}(@, $.re) || {f}(@, '{re}')]")][i].clone();
    }
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = FUNCS;
    let q = gen::G::new(src, doc, cfg).query();
    if src.coin() {
        render::plain(&q)
    } else {
        render::random(src, &q)
    }
}

/// Four threads, each with all paths on all documents in its own order
fn threads(src: &mut Src, items: &[Item], docs: &[Value]) -> Result<(), Fail> {
    let mut want = vec![];
    for it in items {
        for d in docs {
            if oracle::affordable(d, FUNCS, &it.tree) {
                want.push((it, d, names(d, &oracle::query(&it.path, &it.text, d)?)?));
            }
        }
    }
    if want.is_empty() {
        return Ok(());
    }
    let seeds: Vec<u64> = (0..4).map(|_| src.draw(u64::MAX)).collect();
    let barrier = Barrier::new(seeds.len());
    let (want, barrier) = (&want, &barrier);
    let results: Vec<Result<(), Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .into_iter()
            .map(|seed| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        let mut x = seed;
                        for _ in 0..2 * want.len() {
                            x = splitmix(x);
                            let (it, d, want) = &want[x as usize % want.len()];
                            let (text, doc) = (&it.text, *d);
                            let got = match x >> 60 {
                                0..=3 => oracle::query(&it.path, text, doc)?,
                                4..=7 => oracle::values(&oracle::located(&it.path, text, doc)?),
                                8..=11 => lib("json_path", || doc.json_path(&it.path).all())?,
                                12 => {
                                    let p = it.path.clone();
                                    oracle::query(&p, text, doc)?
                                }
                                _ => {
                                    let p = oracle::accept(text)?;
                                    oracle::query(&p, text, doc)?
                                }
                            };
                            let got = names(doc, &got)?;
                            if got != *want {
                                fail!("query {text:?} on {doc} gives {want:?}, and while other threads evaluate {got:?}");
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("a thread panicked")))).collect()
    });
    results.into_iter().collect()
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut docs: Vec<Value> = vec![gen::doc(src), gen::table(src), json!(["a", "b", "ab", "", {"re": "a"}, ["ba", "a\n"]])];
    let mut items: Vec<Item> = vec![];
    let mut known = Known { first: HashMap::new(), again: 0 };
    let mut history: Vec<String> = vec![];
    let n = 10 + src.below(51);
    let mut busy = 0;
    for _ in 0..n {
        let op = if items.is_empty() { 0 } else { src.weighted(&[5, 14, 2, 2, 2, 2, 1, 4, 2, 2, 1]) };
        let d = src.below(docs.len());
        let i = if items.is_empty() { 0 } else { src.below(items.len()) };
        match op {
            0 => {
                let t = new_text(src, &docs[d], &items);
                if let Some(it) = parse(t)? {
                    history.push(format!("parse {:?}", it.text));
                    if items.len() < 6 {
                        items.push(it);
                    } else {
                        items[i] = it;
                    }
                }
            }
            1 => {
                let form = src.below(3);
                history.push(format!("evaluate {:?} ({form}) on document {d}: {}", items[i].text, docs[d]));
                known.evaluate(&items[i], &docs[d], form, cx, &history)?;
            }
            2 => {
                // parsed again, in place of the old one
                let it = parse(items[i].text.clone())?.unwrap();
                if it.path != items[i].path {
                    fail!("{:?} parsed again is unequal\n  history {history:?}", it.text);
                }
                history.push(format!("parse again {:?}", it.text));
                items[i] = it;
            }
            3 => {
                let p = items[i].path.clone();
                history.push(format!("clone {:?}", items[i].text));
                if src.coin() {
                    items[i].path = p;
                }
            }
            4 => {
                history.push(format!("drop {:?}", items[i].text));
                items.remove(i);
            }
            5 => {
                let t = crate::mutate::mutate(src, &items[i].text);
                if crate::mutate::depth(&t) < 40 {
                    history.push(format!("parse and drop {t:?}"));
                    let _ = oracle::parse(&t)?;
                }
            }
            6 => {
                history.push(format!("print and compare {:?}", items[i].text));
                lib("printing", || format!("{} {:?} {}", items[i].path, items[i].path, items[0].path == items[i].path))?;
            }
            7 => {
                edit(src, &mut docs[d]);
                history.push(format!("edit document {d} to {}", docs[d]));
            }
            8 => {
                if oracle::affordable(&docs[d], FUNCS, &items[i].tree) {
                    history.push(format!("deduplicate {:?} on document {d}", items[i].text));
                    let path = &items[i].path;
                    let doc = &docs[d];
                    lib("dedup", || {
                        let mut l = path.query_located(doc);
                        l.dedup_in_place();
                        let _ = path.query(doc).iter().take(2).count();
                        drop(l.dedup());
                    })?;
                }
            }
            9 => match src.below(3) {
                0 => {
                    let e = src.below(docs.len());
                    docs.swap(d, e);
                    history.push(format!("exchange documents {d} and {e}"));
                }
                1 => {
                    docs[d] = docs[d].clone();
                    history.push(format!("document {d} is a copy of itself"));
                }
                _ => {
                    docs[d] = gen::doc(src);
                    history.push(format!("document {d} is {}", docs[d]));
                }
            },
            _ => {
                if busy < 2 {
                    busy += 1;
                    history.push("evaluate by threads".into());
                    threads(src, &items, &docs)?;
                    cx.label("histories with threads");
                }
            }
        }
    }
    for it in &items {
        known.evaluate(it, &docs[0], 0, cx, &history)?;
    }
    cx.label(if known.again > 0 { "evaluated again" } else { "evaluated once" });
    if known.again > 0 {
        cx.nontrivial(&history);
        cx.sample(|| history.iter().take(12).cloned().collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

/// The texts and results of `first_use`, with the nodes' locations
fn first_cases() -> (Value, Vec<(&'static str, Vec<&'static str>)>) {
    (
        json!({"a": ["x", "ab", 1, [1, 2]], "b": {"x": null}}),
        vec![
            ("$.a[?length(@) == 2]", vec!["$['a'][1]", "$['a'][3]"]),
            ("$.a[?count(@.*) == 2]", vec!["$['a'][3]"]),
            ("$.a[?match(@, 'a.')]", vec!["$['a'][1]"]),
            ("$.a[?search(@, 'x|a')]", vec!["$['a'][0]", "$['a'][1]"]),
            ("$.a[?value(@[0]) == 1]", vec!["$['a'][3]"]),
            ("$..[?@ == 1]", vec!["$['a'][2]", "$['a'][3][0]"]),
            ("$..x", vec!["$['b']['x']"]),
            ("$.a[1:3]", vec!["$['a'][1]", "$['a'][2]"]),
        ],
    )
}

/// In a fresh process: eight threads use the library at once, before anything else did
pub fn first_use(seed: u64) -> i32 {
    install_panic_hook();
    let barrier = Barrier::new(8);
    let ok = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    let (doc, cases) = first_cases();
                    barrier.wait();
                    let mut x = splitmix(seed ^ (t << 32));
                    for _ in 0..20 {
                        x = splitmix(x);
                        let (text, want) = &cases[x as usize % cases.len()];
                        if let Err(f) = oracle::selects(text, &doc, want) {
                            println!("{}", f.msg);
                            return false;
                        }
                    }
                    true
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(false)).fold(true, |a, b| a && b)
    });
    i32::from(!ok)
}

fn fixed(thorough: bool) -> Result<u64, Fail> {
    let exe = std::env::current_exe().unwrap();
    let runs = if thorough { 2000 } else { 120 };
    for seed in 0..runs {
        let out = Command::new(&exe).args(["first", &seed.to_string()]).output().map_err(|e| Fail::new(format!("cannot run {}: {e}", exe.display())))?;
        if !out.status.success() {
            fail!("as the first use of the library, by eight threads at once (run {seed}): {}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
        }
    }
    Ok(runs + one_after_the_other()? + repeated()?)
}

/// One thing repeated, ever more often: each text begins as the one before it does
fn repeated() -> Result<u64, Fail> {
    sweep::each(sweep::ALL, |c| super::c07::judge(&c.text, &c.doc, &mut Cx::new(false)).map(drop))
}

/// Texts and patterns that are nearly the same, one after the other and in turns
fn one_after_the_other() -> Result<u64, Fail> {
    let mut n = 0;
    let mut cx = Cx::new(false);
    let mut turns = |texts: &[&str], doc: &Value| -> Result<(), Fail> {
        let mut known = Known { first: HashMap::new(), again: 0 };
        let history = [format!("in turns {texts:?}")];
        let mut kept: Vec<Option<Item>> = texts.iter().map(|_| None).collect();
        for round in 0..2 {
            for (i, t) in texts.iter().enumerate() {
                let Some(it) = parse(t.to_string())? else { continue };
                known.evaluate(&it, doc, round, &mut cx, &history)?;
                if let Some(old) = &kept[i] {
                    if old.path != it.path {
                        fail!("{t:?} parsed again is unequal\n  history {history:?}");
                    }
                    known.evaluate(old, doc, 0, &mut cx, &history)?;
                }
                kept[i] = Some(it);
                n += 1;
            }
        }
        Ok(())
    };
    for (a, b, d) in crate::checks::c25::long_pairs() {
        turns(&[&a, &b], &d)?;
    }
    for base in ["abcdefghij", "aaaaaaaaaaaaaaaaaaaaaaaa", "(ab|cd){2}[e-g]+h?", "[abc]*[^d]\\\\.x{1,3}(y|z)"] {
        let chars: Vec<char> = base.chars().collect();
        let mut res: Vec<String> = vec![base.into()];
        for i in 0..chars.len() {
            for c in ['.', 'x', '(', ')', '[', '*', 'b', '\u{e9}'] {
                let mut v = chars.clone();
                v[i] = c;
                res.push(v.iter().collect());
            }
            res.push(chars[..i].iter().chain(&chars[i + 1..]).collect());
        }
        let doc = json!(["abcdefghij", "abcdefghi", "aaaaaaaaaaaaaaaaaaaaaaaa", "ababeh", "cdabf", "a.xy", "ax.xxz", "", "a", "abxdefghij"]);
        for f in ["match", "search"] {
            let texts: Vec<String> = res.iter().map(|r| format!("$[?{f}(@, '{r}')]")).collect();
            turns(&texts.iter().map(String::as_str).collect::<Vec<_>>(), &doc)?;
        }
        let both: Vec<String> = res.iter().flat_map(|r| ["match", "search"].map(|f| format!("$[?{f}(@, '{r}')]"))).collect();
        turns(&both.iter().map(String::as_str).collect::<Vec<_>>(), &doc)?;
    }
    Ok(n)
}
