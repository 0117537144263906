use crate::abnf::{self, Verdict};
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::userfn::FUNCS;
use crate::oracle::{self, Expected};
use crate::{fail, gen, mutate, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C07",
    rule: "A case is a document, a random spelling of a random query for it, and up to six texts derived from that by edits with \
           grammar tokens and arbitrary characters, or a sequence of tokens. A recogniser written from the ABNF judges each text; the \
           library must agree, and where both accept, its results must be those of the recogniser's syntax tree. Non-trivial: a text \
           that the recogniser accepts, or rejects though it differs from an accepted one by one edit; distinct by text.",
    quick: 500_000,
    thorough: 25_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the recogniser in harness/src/abnf.rs is the ABNF and the typing rules of RFC 9535",
        "texts with blank space inside the brackets of a compared singular query, number literals with more than 100 digits or three exponent digits are not judged",
        "results that the known findings F4, F5 or F6 explain exactly are not judged",
    ],
};

fn fixed(all: bool) -> Result<u64, Fail> {
    let mut n = 0;
    let d = json!({"a": {"b": 1}, "x": [1, 2, 3]});
    for (t, w) in [
        ("$", &["$"][..]),
        ("$ .a", &["$['a']"]),
        ("$ ..b", &["$['a']['b']"]),
        ("$\t\n\r[ 'x' ] [ 0 , 2 ]", &["$['x'][0]", "$['x'][2]"]),
        ("$.x[?@>1]", &["$['x'][1]", "$['x'][2]"]),
        ("$.x[? @ > 1 && ! ( @ == 3 ) ]", &["$['x'][1]"]),
        ("$.x[ 0 : 2 : 1 ]", &["$['x'][0]", "$['x'][1]"]),
        ("$.x[::]", &["$['x'][0]", "$['x'][1]", "$['x'][2]"]),
        ("$.a[?@==1.0e0]", &["$['a']['b']"]),
        ("$.a[?@==10e-1]", &["$['a']['b']"]),
        ("$.x[?length(@)==$.nothing]", &["$['x'][0]", "$['x'][1]", "$['x'][2]"]),
        ("$[?count(@.*)==1]", &["$['a']"]),
    ] {
        oracle::selects(t, &d, w)?;
        n += 1;
    }
    for t in [
        "", " ", " $", "$ ", "a", "@", "$.", "$..", "$ .. a", "$.. a", "$. a", "$.a ", "$a", "$$", "$.1", "$.-a", "$[]", "$[,]", "$[0,]", "$[,0]", "$[00]", "$[01]", "$[-0]", "$[+1]",
        "$[1.0]", "$[1e1]", "$[- 1]", "$[a]", "$['a'", "$'a'", "$[0:1:1:1]", "$[:::]", "$[1:-0]", "$[:01]", "$['a'b]", "$[?]", "$[?@.a", "$[?1]", "$[?true]", "$[?'a']",
        "$[?@.a=1]", "$[?@.a===1]", "$[?@.a==]", "$[?==1]", "$[?@.*==1]", "$[?@..a==1]", "$[?1==@[0,1]]", "$[?@[0:1]==1]", "$[?!1==1]", "$[?!@.a==1]", "$[?@.a==1==1]",
        "$[?(@.a]", "$[?@.a)]", "$[?()]", "$[?!]", "$[?@.a&&]", "$[?&&@.a]", "$[?@.a&@.b]", "$[?@.a|@.b]", "$[?@.a and @.b]", "$[?@.a==TRUE]", "$[?@.a==Null]", "$[?@.a==.5]",
        "$[?@.a==1.]", "$[?@.a==01]", "$[?@.a==+1]", "$[?@.a==1e]", "$[?@.a==0x1]", "$[?@.a==-]", "$[?@.a==[1]]", "$[?@.a=={}]", "$[?length (@.a)==1]", "$[?length(@.a]", "$[?length(@.a,)==1]",
        "$[?length(,@.a)==1]", "$[?Length(@.a)==1]", "$[?nofunc(@.a)]", "$[?count(@.a)]", "$[?match(@.a,'a')==true]", "$[?a]", "$[?@.a == b]", "$\u{a0}.a", "$\u{c}.a", "$.a\u{b}.b", "\u{feff}$",
        "$[?$.a < > 1]", "$[?@.a =< 1]", "$[?@.a <> 1]", "$[?@.a ! = 1]", "$[?@.a = = 1]", "$[? @ . a]x", "$[*]*", "$.**", "$...a", "$..[", "$..]", "$.['a']", "$..['a'", "$[**]", "$['a'.b]", "$.a.",
        "$[?(@.a)==1]", "$[?1==(@.a)]", "$[?(1)==@.a]", "$[? (true) ]", "$[?!!@.a]", "$[?! !@.a]", "$[?-@.a]", "$[9007199254740992]", "$[-9007199254740992]", "$[:9007199254740992]",
    ] {
        oracle::rejects(t)?;
        n += 1;
    }
    // every edit
    let with: String = if all { (0..128u8).map(char::from).chain("é\u{85}\u{a0}\u{2028}\u{feff}😀".chars()).collect() } else { " \t\n\r\u{c}\0!\"$&'()*+,-./0123456789:<=>?@AEFTab_[\\]efnrtul{|}~é\u{a0}".into() };
    let d = json!([{"a": 1, "ab": [{"a": "x", "b": null}, 2], "b": "a"}, [0, 1, [1]], "ab", {"é_1": {"😀": true}, "1": [1, 2, 3]}, 15, null]);
    let mut cx = Cx::new(false);
    for base in mutate::BASES {
        for t in mutate::each_edit(base, &with) {
            judge(&t, &d, &mut cx)?;
            n += 1;
        }
    }
    // every character in every kind of place
    for c in gen::many_chars(all) {
        for (a, b) in [
            ("", "$"), ("$", ""), ("$", ".a"), ("$.", ""), ("$.a", ""), ("$.a", ".b"), ("$.a", "b"), ("$..", ""), ("$..", "a"), ("$[", "0]"), ("$[0", "]"), ("$[", "]"), ("$['", "']"), ("$[\"a", "\"]"),
            ("$['\\", "']"), ("$['a'", "]"), ("$[0", ",1]"), ("$[0,", "1]"), ("$[0", "1]"), ("$[1:", "2]"), ("$[1", ":2]"), ("$[-", "]"), ("$[*", "]"), ("$[?", "@.a]"), ("$[", "?@.a]"), ("$[?@", ".a]"),
            ("$[?@.a", "]"), ("$[?@.a ", "= 1]"), ("$[?@.a =", " 1]"), ("$[?@.a", "1]"), ("$[?@.a ", " 1]"), ("$[?@.a == ", "]"), ("$[?@.a == 1", "]"), ("$[?@.a == 1", "1]"), ("$[?@.a == 1.", "]"), ("$[?@.a == 1e", "1]"),
            ("$[?@.a == -", "1]"), ("$[?@.a == tru", "]"), ("$[?@.a == null", "]"), ("$[?", "(@.a)]"), ("$[?(", "@.a)]"), ("$[?(@.a", ")]"), ("$[?@.a &", " @.b]"), ("$[?@.a |", " @.b]"), ("$[?@.a ", " @.b]"), ("$[?@.a &&", "@.b]"),
            ("$[?count", "(@.*) == 1]"), ("$[?", "count(@.*) == 1]"), ("$[?coun", "t(@.*) == 1]"), ("$[?count(", "@.*) == 1]"), ("$[?count(@.*", ") == 1]"), ("$[?match(@.a", "'a')]"), ("$[?match(@.a, 'a'", ")]"), ("$[?!", "@.a]"),
            ("$['\\u00", "1']"), ("$['\\ud83d", "\\ude00']"), ("$[?", ".a]"), ("$[?@", "]"),
        ] {
            let t = format!("{a}{c}{b}");
            let accepted = oracle::parse(&t)?.is_ok();
            match abnf::parse(&t, FUNCS) {
                Verdict::Accept(_) if !accepted => fail!("{t:?} is valid, and rejected"),
                Verdict::Reject(_) if accepted => fail!("{t:?} is not valid, and accepted"),
                _ => n += 1,
            }
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| {
        let mut cx = Cx::new(false);
        judge(&c.text, &c.doc, &mut cx)?;
        sweep::faults(&c.text).iter().filter(|t| mutate::depth(t) <= 40).try_for_each(|t| judge(t, &json!([1]), &mut cx).map(drop))
    })
}

pub fn judge(text: &str, doc: &Value, cx: &mut Cx) -> Result<bool, Fail> {
    match abnf::parse(text, FUNCS) {
        Verdict::Unknown(why) => {
            cx.label(&format!("not judged: {why}"));
            Ok(false)
        }
        Verdict::Reject(why) => match oracle::parse(text)? {
            Ok(p) => fail!("invalid query {text:?} ({why}) is accepted, as {p}"),
            Err(_) => {
                cx.label("invalid");
                Ok(false)
            }
        },
        Verdict::Accept(q) => {
            let p = oracle::accept(text)?;
            cx.label("valid");
            match Expected::of(doc, FUNCS, &q) {
                Ok(e) => {
                    e.check_both(text, &p, cx)?;
                    cx.label_if(!e.rfc.is_empty(), "valid and selects something");
                }
                Err(_) => cx.label("result not judged"),
            }
            Ok(true)
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = gen::doc(src);
    if src.chance(1, 6) {
        let t = mutate::soup(src, 10);
        if mutate::depth(&t) <= 40 && judge(&t, &doc, cx)? {
            cx.nontrivial(&t);
            cx.label("valid token sequence");
        }
        return Ok(());
    }
    let mut cfg = gen::EVERYTHING;
    if src.coin() {
        // short queries, so that edits hit every part
        cfg.max_segs = 2;
        cfg.filters = 1;
        cfg.filter_weight = 8;
    }
    let q = gen::G::new(src, &doc, cfg).query();
    if !oracle::affordable(&doc, FUNCS, &q) {
        cx.label("discarded: too large");
        return Ok(());
    }
    let text = if src.coin() { render::random(src, &q) } else { render::plain(&q) };
    // what was generated is what the recogniser reads
    match abnf::parse(&text, FUNCS) {
        Verdict::Unknown(_) => {}
        Verdict::Reject(why) => panic!("the models disagree: {text:?} {why}"),
        Verdict::Accept(_) => {
            judge(&text, &doc, cx)?;
            cx.nontrivial(&text);
        }
    }
    cx.sample(|| text.clone());
    for _ in 0..src.size(1, 6) {
        let t = if src.chance(2, 3) { mutate::once(src, &text) } else { mutate::mutate(src, &text) };
        if t != text && mutate::depth(&t) <= 40 {
            judge(&t, &doc, cx)?;
            cx.nontrivial(&t);
        }
    }
    Ok(())
}
