use crate::engine::{alloc_count, lib, Check, Cx, Fail, Outcome, Src};
use crate::{fail, gen, mutate, oracle, render, sweep};
use std::time::Instant;

pub static CHECK: Check = Check {
    id: "C13",
    rule: "A case is a sequence of one to four ways to nest (filter in a query, group, negation, function argument of each type, either \
           side of a logical operator, either side of a comparison), repeated 1, 2, 3 ... times up to 40 levels around a core, whole or \
           cut short or with a wrong character at the innermost place; or a random query or edits of one. The allocations of each parse \
           must not exceed 30 + 16 n + n^2 / 8 for a text of n bytes, and doubling the repetitions must not multiply them by more than 6. \
           Non-trivial: at least eight levels; distinct by text.",
    quick: 30_000,
    thorough: 3_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["work without allocation is bounded only by a limit of ten seconds per parse"],
};

/// (before, after) of a test in a filter
const LOGICAL: [(&str, &str); 38] = [
    ("@[?", "]"),
    ("$.a[?", "].b"),
    ("@..[?", "]"),
    ("(", ")"),
    ("!(", ")"),
    ("! ( ", " )"),
    ("((", "))"),
    ("(@.a && ", ")"),
    ("@.a || ", ""),
    ("@.a && ", ""),
    ("(", " || @.b)"),
    ("(@.a == 1 || ", ") && @.c"),
    ("fl_l(", ")"),
    ("!fl_l(", ")"),
    ("fl_ll(", ", @.a)"),
    ("fl_ll(@.a, ", ")"),
    ("fv_l(", ") == 1"),
    ("1 == fv_l(", ")"),
    ("@.a == fv_l(", ")"),
    ("count(@[?", "]) > 1"),
    ("fl_n(@[?", "])"),
    ("@[0, ?", ", 'a']"),
    ("!@[?", "]"),
    ("! $..[?", "].a"),
    ("!@.a[0, ?", "]"),
    ("@[?", "][?@.a]"),
    ("@[?@.a][?", "]"),
    ("@[?", ", ?@.a]"),
    ("fl_l(!", ")"),
    ("!fl_n(@[?", "])"),
    ("@.a == fv_l(1 == 1 && ", ")"),
    // what is invalid must be found to be so in time, too
    ("@[?", "] == 1"),
    ("1 == @[?", "]"),
    ("fl_l(", ") == 1"),
    ("!fv_l(", ")"),
    ("length(", ") > 1"),
    ("nothing(", ")"),
    ("fl_ll(", ")"),
];

/// The same, of a value
const VALUE: [(&str, &str); 7] =
    [("fv_v(", ")"), ("length(", ")"), ("fv_vv(@.a, ", ")"), ("fv_vv(", ", 1)"), ("length( ", " )"), ("value(@[?1 == ", "])"), ("value(@[?", " < @.a])")];

const CORES: [&str; 6] = ["@.a", "@.a == 1", "!@.a", "fl_v(@.a)", "length(@.a) == 1", "1 == 1"];
const VALUES: [&str; 4] = ["@.a", "1", "'a'", "$['b'][0]"];

/// Allocations of a parse
fn cost(text: &str) -> Result<u64, Fail> {
    let t0 = Instant::now();
    let before = alloc_count().0;
    let r = lib("parsing", || serde_json_path::JsonPath::parse(text));
    let n = alloc_count().0 - before;
    if t0.elapsed().as_secs() >= 10 {
        fail!("parsing {text:?} of {} bytes takes {:?}", text.len(), t0.elapsed());
    }
    drop(r?);
    Ok(n)
}

pub fn bound(len: usize) -> u64 {
    let n = len as u64;
    30 + 16 * n + n * n / 8
}

fn check_one(text: &str) -> Result<u64, Fail> {
    let n = cost(text)?;
    if n > bound(text.len()) {
        fail!("parsing {text:?} of {} bytes makes {n} allocations, more than {}", text.len(), bound(text.len()));
    }
    Ok(n)
}

#[derive(Clone, Copy)]
struct Form<'a> {
    word: &'a [(&'a str, &'a str)],
    core: &'a str,
    /// the outermost is a value, to be compared
    value: bool,
    spoil: u8,
}

fn text(f: Form, k: usize) -> String {
    let mut open = String::new();
    let mut close = String::new();
    for _ in 0..k {
        for (a, b) in f.word {
            open.push_str(a);
            close.insert_str(0, b);
        }
    }
    let tail = if f.value { " == 1]" } else { "]" };
    match f.spoil {
        0 => format!("$[?{open}{}{close}{tail}", f.core),
        // cut short in the middle
        1 => format!("$[?{open}{}", f.core),
        2 => format!("$[?{open}"),
        3 => format!("$[?{open}{}#{close}{tail}", f.core),
        4 => format!("$[?{open}{}{close}", f.core),
        _ => format!("$[?{open}{}{close}{tail}#", f.core),
    }
}

/// Around a test or a comparison, any of these before and after, also where they do not fit
const OPEN: [(&str, &str); 12] = [
    ("@[?", "]"),
    ("$..[?", "]"),
    ("@.a[0,?", ",1].b"),
    ("(", ")"),
    ("( ", " )"),
    ("fl_l(", ")"),
    ("fl_ll(@,", ")"),
    ("fl_n(@[?", "])"),
    ("fv_l(", ")"),
    ("fv_v(", ")"),
    ("length(", ")"),
    ("nothing(", ")"),
];
const BEFORE: [&str; 8] = ["", "!", "! ", "@.a && ", "@.a || !", "1 == ", "fl_v(1) && ", "@.a == "];
const AFTER: [&str; 7] = ["", " && @.b", " || @.b", " == 1", " < @.a", " != fv_v(1)", " && 1 == 1"];

fn check_family(f: Form) -> Result<(u64, f64), Fail> {
    let most = 40 / f.word.len();
    let mut costs = vec![0u64];
    let mut worst: f64 = 0.0;
    for k in 1..=most {
        let t = text(f, k);
        let n = check_one(&t)?;
        worst = worst.max(n as f64 / bound(t.len()) as f64);
        costs.push(n);
        // not from the shortest ones, where constants weigh
        if k % 2 == 0 && k >= 8 {
            let half = costs[k / 2];
            if n > 6 * half + 40 {
                fail!("parsing {t:?} makes {n} allocations, and the same with half as many levels {half}");
            }
        }
    }
    Ok((most as u64, worst))
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut n = 0;
    for w in &LOGICAL {
        for core in CORES {
            for spoil in 0..6 {
                n += check_family(Form { word: &[*w], core, value: false, spoil })?.0;
            }
        }
    }
    for w in &VALUE {
        for core in VALUES {
            for spoil in 0..6 {
                n += check_family(Form { word: &[*w], core, value: true, spoil })?.0;
            }
        }
    }
    // long rather than deep
    for unit in [".a", "['a']", "[0]", "..*", "[1:2:3]", " .a", "['\\u0061']", "[?@.a]", "[*, 0]"] {
        for k in [10, 100, 1000] {
            let t = format!("${}", unit.repeat(k));
            let c = cost(&t)?;
            if c > 100 + 20 * t.len() as u64 {
                fail!("parsing {k} times {unit:?} makes {c} allocations");
            }
            n += 1;
        }
    }
    for unit in [" && @.a", " || @.a == 1", " || 'a' != $['b']", " && length(@.a) > 1", " && (@.a)", " || !@.a"] {
        for k in [10, 100, 600] {
            let t = format!("$[?@{}]", unit.repeat(k));
            let c = cost(&t)?;
            if c > 100 + 20 * t.len() as u64 {
                fail!("parsing {k} times {unit:?} makes {c} allocations");
            }
            n += 1;
        }
    }
    for t in crate::checks::c11::flat(3000) {
        for t in [&t[..], t.strip_suffix(|_| true).unwrap(), &format!("{t}#")] {
            let c = cost(t)?;
            if c > 100 + 20 * t.len() as u64 {
                let head: String = t.chars().take(40).collect();
                fail!("parsing {head:?}... of {} bytes makes {c} allocations", t.len());
            }
            n += 1;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check_one(&c.text).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    if src.chance(1, 4) {
        let doc = gen::doc(src);
        let mut cfg = gen::EVERYTHING;
        cfg.filters = 3;
        cfg.calls = 40;
        cfg.funcs = crate::userfn::FUNCS;
        let q = gen::G::new(src, &doc, cfg).query();
        let t = render::random(src, &q);
        oracle::accept(&t)?;
        check_one(&t)?;
        for _ in 0..3 {
            let t = mutate::mutate(src, &t);
            check_one(&t)?;
        }
        cx.label("random query");
        if mutate::depth(&t) >= 8 {
            cx.nontrivial(&t);
        }
        return Ok(());
    }
    let n = src.size(1, 4);
    let value = src.chance(1, 3);
    let odd = src.chance(1, 3);
    let pieces: Vec<(String, String)> = (0..n)
        .map(|_| {
            let (a, b) = match (odd, value) {
                (true, _) => src.of(&OPEN),
                (_, true) => src.of(&VALUE),
                _ => src.of(&LOGICAL),
            };
            if odd {
                (format!("{}{a}", src.of(&BEFORE)), format!("{b}{}", src.of(&AFTER)))
            } else {
                (a.to_string(), b.to_string())
            }
        })
        .collect();
    let word: Vec<(&str, &str)> = pieces.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let core = if value { src.of(&VALUES) } else { src.of(&CORES) };
    let spoil = src.weighted(&[4, 1, 1, 1, 1, 1]) as u8;
    let f = Form { word: &word, core, value, spoil };
    let (_, worst) = check_family(f)?;
    let t = text(f, 40 / word.len());
    if odd {
        cx.label("composed");
    }
    cx.label(if spoil == 0 { "whole" } else { "broken" });
    cx.label(&format!("at most {} % of the bound", ((worst * 10.0).ceil() * 10.0) as u64));
    cx.nontrivial(&t);
    cx.sample(|| text(f, 8 / word.len()));
    Ok(())
}
