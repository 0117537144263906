use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{children, Ev, Funcs, Quirks};
use crate::oracle::{self, Expected};
use crate::userfn::{start_log, take_log, FUNCS, ODD};
use crate::{fail, gen, render, sweep};
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::collections::BTreeSet;
use std::process::Command;

pub static CHECK: Check = Check {
    id: "C24",
    rule: "A case is a document and a query full of calls of 157 user functions (every signature up to three parameters over the three \
           types, some of up to twelve, and names that resemble keywords, literals and built-in functions), nested in arguments, tests, comparisons and \
           sub-filters. Each function records its arguments and returns a hash of them, or parts of them; the results must be the model's \
           and every recorded call one that the model makes. The same in another program whose functions shadow all five built-in ones. \
           Non-trivial: the library made a call; distinct by text and document.",
    quick: 100_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the library may leave out calls whose result cannot matter, so recorded calls are a part of the model's",
        "deviations that the known findings F4, F5 or F6 explain exactly are not judged",
    ],
};

const QUIRKS: [Quirks; 8] = {
    let mut out = [Quirks { idx: false, num: false, ord: false }; 8];
    let mut i = 0;
    while i < 8 {
        out[i] = Quirks { idx: i & 1 != 0, num: i & 2 != 0, ord: i & 4 != 0 };
        i += 1;
    }
    out
};

/// The calls the model makes; none if that is too much work
fn model_calls(doc: &Value, funcs: Funcs, q: &Query, quirks: Quirks) -> Option<BTreeSet<String>> {
    let mut ev = Ev::with_fuel(doc, funcs, 2_000_000);
    ev.quirks = quirks;
    ev.log_calls = true;
    ev.run(q).ok()?;
    let calls = ev.calls.borrow().iter().cloned().collect();
    Some(calls)
}

pub fn check(text: &str, p: &JsonPath, q: &Query, doc: &Value, funcs: Funcs, cx: &mut Cx) -> Result<usize, Fail> {
    let Ok(e) = Expected::of(doc, funcs, q) else {
        cx.label("discarded: too large");
        return Ok(0);
    };
    start_log();
    let r = e.check_both(text, p, cx);
    let log: BTreeSet<String> = take_log().into_iter().collect();
    r?;
    let mut allowed = BTreeSet::new();
    for k in QUIRKS {
        match model_calls(doc, funcs, q, k) {
            Some(c) => allowed.extend(c),
            None => return Ok(log.len()),
        }
        if log.is_subset(&allowed) {
            return Ok(log.len());
        }
    }
    let stray: Vec<&String> = log.difference(&allowed).take(5).collect();
    let sample: Vec<&String> = allowed.iter().take(10).collect();
    fail!("query {text:?} on {doc} makes the call {stray:?}, which none of its expressions denotes; they denote {sample:?} ...")
}

/// A query with calls in its last segment
pub fn query(src: &mut Src, doc: &Value, funcs: Funcs) -> Query {
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = funcs;
    cfg.calls = 75;
    let mut g = gen::G::new(src, doc, cfg);
    let mut segs = vec![];
    let mut at = vec![g.root.clone()];
    if g.src.coin() {
        let n = g.src.size(0, 2);
        (segs, at) = g.segs(at, n, 0);
    }
    let cands: Vec<_> = at.iter().flat_map(children).take(40).collect();
    let f = if g.src.chance(2, 3) {
        let ty = g.src.of(&[Ty::Logical, Ty::Nodes]);
        match g.call(ty, &cands, 1, 2) {
            Some(c) if g.src.chance(2, 3) => Or::one(Basic::Test(g.src.chance(1, 4), c)),
            Some(c) => Or(vec![And(vec![Basic::Test(false, c), g.cmp(&cands, 1)])]),
            None => g.or(&cands, 1),
        }
    } else {
        g.or(&cands, 2)
    };
    segs.push(Seg { desc: g.src.chance(1, 8), sels: vec![Sel::Filter(f)] });
    Query::new(true, segs)
}

pub fn case(src: &mut Src, cx: &mut Cx, funcs: Funcs) -> Outcome {
    let doc = if src.chance(1, 3) { gen::table(src) } else { gen::doc(src) };
    let q = query(src, &doc, funcs);
    let text = if src.chance(1, 3) { render::random(src, &q) } else { render::plain(&q) };
    let p = oracle::accept(&text)?;
    let mut n = check(&text, &p, &q, &doc, funcs, cx)?;
    if src.chance(1, 3) {
        // evaluated again, and a clone, on another document
        let other = gen::doc(src);
        n += check(&text, &p.clone(), &q, &other, funcs, cx)?;
    }
    cx.label(match n {
        0 => "no calls",
        1..=3 => "up to 3 different calls",
        4..=20 => "up to 20 different calls",
        _ => "more calls",
    });
    if n > 0 {
        cx.nontrivial((&text, doc.to_string()));
        cx.sample(|| format!("{text} on {doc} makes {n} different calls"));
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    case(src, cx, FUNCS)
}

/// One thing repeated
fn repeated() -> Result<u64, Fail> {
    sweep::each(&[sweep::Of::Calls, sweep::Of::Operands], |c| check(&c.text, &oracle::accept(&c.text)?, &c.tree, &c.doc, FUNCS, &mut Cx::new(false)).map(drop))
}

fn fixed(thorough: bool) -> Result<u64, Fail> {
    if cfg!(not(feature = "userfn")) {
        // only built like this by check.sh, if that makes the difference between building and not
        fail!("the functions of harness/src/userfn.rs and harness/src/bin/shadow.rs do not compile with the attribute");
    }
    let mut n = 0;
    // functions are found by their own names only
    for t in crate::checks::c08::near_names() {
        match crate::abnf::parse(&t, FUNCS) {
            crate::abnf::Verdict::Accept(_) => drop(oracle::accept(&t)?),
            crate::abnf::Verdict::Reject(_) => oracle::rejects(&t)?,
            _ => {}
        }
        n += 1;
    }
    // every function, with arguments that have to be converted, as a test, an operand and an argument
    let doc = json!([{"a": 1, "b": [1, 2]}, {"a": [], "c": "x"}, [0, [1]], 3]);
    let mut cx = Cx::new(false);
    for f in FUNCS.user {
        for k in 0..4 {
            let args: Vec<&str> = f
                .params
                .iter()
                .enumerate()
                .map(|(i, ty)| match (ty, (k + i) % 4) {
                    (Ty::Nodes, 0) => "@.*",
                    (Ty::Nodes, 1) => "@.a",
                    (Ty::Nodes, 2) => "$..a",
                    (Ty::Nodes, _) => "fn_n(@.*)",
                    (Ty::Value, 0) => "@.a",
                    (Ty::Value, 1) => "'x'",
                    (Ty::Value, 2) => "fv_n(@.*)",
                    (Ty::Value, _) => "$[0].b[1]",
                    (Ty::Logical, 0) => "@.a",
                    (Ty::Logical, 1) => "@.a == 1 || @.c",
                    (Ty::Logical, 2) => "fn_n(@.*)",
                    (Ty::Logical, _) => "!fl_n(@..a)",
                })
                .collect();
            let call = format!("{}({})", f.name, args.join(", "));
            for t in match f.ret {
                Ty::Logical => vec![format!("$[?{call}]"), format!("$[?!{call}]"), format!("$[?fn_l({call})]"), format!("$[?fv_l({call}) != 1]")],
                Ty::Nodes => vec![format!("$[?{call}]"), format!("$[?count({call}) == 2]"), format!("$[?fl_l({call})]"), format!("$[?value({call}) == 1]")],
                Ty::Value => vec![format!("$[?{call} == 1]"), format!("$[?length({call}) > 0]"), format!("$[?{call} != @.a]"), format!("$[?fl_v({call})]")],
            } {
                let crate::abnf::Verdict::Accept(q) = crate::abnf::parse(&t, FUNCS) else { fail!("the model does not know {t}") };
                check(&t, &oracle::accept(&t)?, &q, &doc, FUNCS, &mut cx)?;
                n += 1;
            }
        }
    }
    // names near those of functions are unknown
    for name in ["fn", "fn_", "fn_nnnn", "length_", "lengths", "leng", "coun", "valu", "matc", "searc", "original", "kw_true", "fl_V"] {
        if FUNCS.get(name).is_none() {
            oracle::rejects(&format!("$[?{name}(@) == 1]"))?;
            oracle::rejects(&format!("$[?{name}(@)]"))?;
            n += 2;
        }
    }
    // names that are registered and can't be written, and names near them
    for odd in ODD {
        for name in [odd.to_string(), odd.to_lowercase(), odd.to_uppercase(), odd.trim().to_string(), odd.replace('-', "_"), odd.to_ascii_lowercase(), odd.chars().filter(char::is_ascii_lowercase).collect()] {
            if FUNCS.get(&name).is_none() && name != "length(@)" {
                oracle::rejects(&format!("$[?{name}(@) == 1]"))?;
                oracle::rejects(&format!("$[?length({name}(@)) == 1]"))?;
                n += 2;
            }
        }
    }
    // functions that shadow built-in ones, in a program of their own
    let exe = std::env::current_exe().unwrap().with_file_name("shadow");
    let cases = if thorough { "2000000" } else { "60000" };
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let out = Command::new(&exe).args([&seed, cases]).output().map_err(|e| Fail::new(format!("cannot run {}: {e}", exe.display())))?;
    if !out.status.success() {
        fail!("with functions that shadow the built-in ones: {}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    }
    Ok(n + cases.parse::<u64>().unwrap() + repeated()?)
}
