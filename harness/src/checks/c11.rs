use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::{fail, gen, mutate, oracle, render, sweep};

pub static CHECK: Check = Check {
    id: "C11",
    rule: "A case is a string: arbitrary Unicode, a sequence of grammar tokens, or every prefix of a random query, or edits of one; \
           queries are spelled randomly, so that prefixes end in escapes, surrogates, numbers and calls. Non-trivial: a string that \
           starts with $ and is rejected, or accepted; distinct by text. Segments put after the $ of a rejected text must move the error by their length.",
    quick: 400_000,
    thorough: 20_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["brackets nest at most 40 levels; deeper ones overflow the stack, which is the known finding F16"],
};

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut n = 0;
    let whole = [
        "$..['\\ud83d\\ude00', \"\\u00e9\", 'a\\'b'] [1:-2:3] .b[?(@.a == -1.5e+10 || !match(@['x'], \"a\\\\.b\")) && count($..*) >= value(@.c)]",
        "$[?length('\\uD83D\\uDE00') < 9007199254740991, ::-1, -9007199254740991][?!(@ != null && $[0] == false)]..*",
    ];
    for w in whole {
        for i in 0..=w.len() {
            judge(&w[..i], &mut Cx::new(false))?;
            judge(&w[i..], &mut Cx::new(false))?;
            for c in ["", "\u{0}", "é", "😀", "\\", "'", "\"", "\u{d7ff}"] {
                judge(&format!("{}{c}", &w[..i]), &mut Cx::new(false))?;
                judge(&format!("{}{c}{}", &w[..i], &w[i..]), &mut Cx::new(false))?;
            }
            n += 18;
        }
    }
    for t in ["'", "$['\\u", "$['\\ud83d", "$['\\ud83d\\", "$['\\ud83d\\u", "$[?@=='\\u", "$[?@=='\\ud83d", "\u{feff}", "$\u{301}", "$.\u{10ffff}", "$[?@.a == 1e400]", "$[?@.a == 1e99999999999999999999]", "$[?@ == -1e-400]"] {
        judge(t, &mut Cx::new(false))?;
        n += 1;
    }
    // errors far from the start
    for front in [".a".to_string(), "['\u{e9}']".into(), "[0]..*".repeat(40), ".a".repeat(32_760), ".a".repeat(40_000), "[0]".repeat(90_000), "[1,'\u{1f600}']".repeat(20_000)] {
        for t in ["$.", "$[", "$['\\u12", "$[?@.a == ", "$[?foo(@)]", "$.a$", "$[01]", "$[9007199254740992]", "$[?@.* == 1]", "$['\u{e9}'].-", "$[?length(@)]", "$..", "$ ", "$.a[?(@.a]", "$[1:2:3:4]"] {
            shifted(t, &front)?;
            n += 1;
        }
    }
    for w in whole {
        for i in (1..=w.len()).filter(|i| w.is_char_boundary(*i)) {
            for c in ["", "é", "(", "]", "\\"] {
                shifted(&format!("{}{c}", &w[..i]), ".a[?@.b || 1 == 1, 'c']")?;
                shifted(&format!("{}{c}{}", &w[..i], &w[i..]), "..*[0,1]")?;
                n += 2;
            }
        }
    }
    // with no more stack than the main thread mostly has
    n += std::thread::Builder::new().stack_size(8 << 20).spawn(long).unwrap().join().unwrap_or_else(|p| std::panic::resume_unwind(p))?;
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| {
        let mut cx = Cx::new(false);
        judge(&c.text, &mut cx)?;
        sweep::faults(&c.text).iter().try_for_each(|t| judge(t, &mut cx))
    })
}

/// Long texts that do not nest
pub fn flat(size: usize) -> Vec<String> {
    let r = |s: &str| s.repeat(size);
    vec![
        format!("${}", r(".a")),
        format!("${}", r("[0]")),
        format!("${}", r("..*")),
        format!("${}", r("[?@.a]")),
        format!("${}", r("['a']")),
        format!("${}", r(" .a")),
        format!("$[0{}]", r(",0")),
        format!("$['a'{}]", r(" , \"a\"")),
        format!("$[*{}]", r(",::1")),
        format!("$[?@.a{}]", r("||@.a")),
        format!("$[?@.a{}]", r(" && !@.a")),
        format!("$[?@.a == 1{}]", r("||1 != @.a&&match(@, 'a')")),
        format!("$[?(@.a){}]", r("&&(@.b)")),
        format!("$[?match(@.a{})]", r(", 'a'")),
        format!("$[?length(@{}) == 1]", r(".a")),
        format!("$[?@{} == 1]", r("[0]")),
        format!("$.{}", r("a")),
        format!("$['{}']", r("a")),
        format!("$['{}']", r("\\u00e9")),
        format!("$['{}']", r("\\ud83d\\ude00")),
        format!("$[?@ == '{}']", r("\\'")),
        format!("$[{}0{}]", r(" "), r("\n")),
        format!("$[{}]", r("1")),
        format!("$[?@ == {}]", r("1")),
        format!("$[?@ == 0.{}]", r("0")),
        format!("$[?@ == 1e{}]", r("1")),
        format!("$[?{}(@)]", r("f")),
        format!("{}$", r(" ")),
        format!("${}", r(" ")),
        format!("${}", r("$")),
        format!("$[?{}", r("!")),
        format!("$[?@{}]", r("==1")),
        r("é"),
    ]
}

fn long() -> Result<u64, Fail> {
    let mut n = 0;
    for size in [1000, 100_000] {
        for t in flat(size) {
            judge_long(&t)?;
            // cut off at its end, and not
            judge_long(t.strip_suffix(|_| true).unwrap())?;
            judge_long(&format!("{t}\u{0}"))?;
            n += 3;
        }
    }
    Ok(n)
}

/// As `judge`, with short messages
fn judge_long(t: &str) -> Outcome {
    judge(t, &mut Cx::new(false)).map_err(|e| {
        let head: String = t.chars().take(60).collect();
        crate::engine::Fail::new(format!("a text of {} bytes that begins with {head:?}: {}", t.len(), e.msg.chars().take(200).collect::<String>()))
    })
}

/// Segments put in front of what is wrong move the error by their length
fn shifted(t: &str, front: &str) -> Outcome {
    let Some(rest) = t.strip_prefix('$') else { return Ok(()) };
    let long = format!("${front}{rest}");
    let (Err(a), Err(b)) = (oracle::parse(t)?, oracle::parse(&long)?) else { return Ok(()) };
    if a.position() > 0 && b.position() != a.position() + front.len() {
        fail!("the error of {t:?} is at {}, and with {} bytes of segments after the $ at {}", a.position(), front.len(), b.position());
    }
    Ok(())
}

pub fn judge(t: &str, cx: &mut Cx) -> Outcome {
    match oracle::parse(t)? {
        Ok(_) => {
            cx.label("accepted");
            cx.nontrivial(t);
        }
        Err(e) => {
            let pos = e.position();
            if pos > t.len() {
                fail!("{t:?} of {} bytes: the error position is {pos}", t.len());
            }
            if !t.is_char_boundary(pos) {
                fail!("{t:?}: the error position {pos} is within a character");
            }
            let m = e.message();
            if m.trim().is_empty() {
                fail!("{t:?}: the error message is empty");
            }
            let shown = e.to_string();
            let numbers = shown.split(|c: char| !c.is_ascii_digit()).any(|w| w == pos.to_string());
            if !numbers || !shown.contains(m) {
                fail!("{t:?}: the error text {shown:?} does not contain the position {pos} and the message {m:?}");
            }
            // it can be used as an error value
            let e: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
            let _ = format!("{e:?}");
            if e.to_string() != shown {
                fail!("{t:?}: the error text changes");
            }
            cx.label("rejected");
            if t.starts_with('$') {
                cx.label_if(pos == t.len(), "error at the end");
                cx.nontrivial(t);
            }
        }
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let judge = |t: &str, cx: &mut Cx| if mutate::depth(t) <= 40 { judge(t, cx) } else { Ok(()) };
    match src.weighted(&[2, 3, 2, 5]) {
        0 => {
            let mut t = gen::text(src, 30);
            if src.coin() {
                t.insert(0, '$');
            }
            judge(&t, cx)?;
            cx.sample(|| t.clone());
        }
        1 => {
            let t = mutate::soup(src, 25);
            judge(&t, cx)?;
            cx.sample(|| t.clone());
        }
        k => {
            let doc = gen::doc(src);
            let mut cfg = gen::EVERYTHING;
            cfg.max_segs = 3;
            let q = gen::G::new(src, &doc, cfg).query();
            let text = render::random(src, &q);
            cx.sample(|| format!("{} {text}", if k == 2 { "prefixes of" } else { "edits of" }));
            if k == 2 {
                let cuts: Vec<usize> = text.char_indices().map(|c| c.0).collect();
                let from = cuts.len().saturating_sub(60);
                for i in &cuts[from..] {
                    judge(&text[..*i], cx)?;
                }
            } else {
                for _ in 0..src.size(2, 8) {
                    let mut t = mutate::mutate(src, &text);
                    if src.chance(1, 4) {
                        t = mutate::mutate(src, &t);
                    }
                    judge(&t, cx)?;
                    let front = src.pick(&["['a']", "[0]", "..*", "[?@.a == 'é']", " [1, 'x']", "['\u{1f600}']", ".é..*"]);
                    if mutate::depth(&t) <= 40 {
                        shifted(&t, front)?;
                    }
                }
            }
        }
    }
    Ok(())
}
