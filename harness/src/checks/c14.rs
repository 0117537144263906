use crate::abnf::{self, Verdict};
use crate::eval::plain_number;
use crate::ast::*;
use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::oracle::{self, Expected};
use crate::userfn::FUNCS;
use crate::{fail, gen, known, mutate, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C14",
    rule: "A case is an accepted text (a random query over all selectors, operators, literals and user functions in a random spelling, or \
           edits of one) and two documents. Its display must be accepted, parse to an equal path, print identically and select the same \
           places. Non-trivial: at least two segments or a filter; distinct by text.",
    quick: 500_000,
    thorough: 20_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "where names or string literals hold a quote, a backslash or a control character (known finding F8) the display must either be right or be that of a like query with those characters written as they are",
        "for negated function tests (known finding F7) the display must parse, print identically and select what the query does without those negations",
        "for shorthand descendant segments (known finding F18) the text is judged with `..` in place of its `...`",
        "numbers with a fraction or an exponent and more than 14 digits are not judged: serde_json does not promise to read them exactly",
    ],
};

pub fn needs_escape(s: &str) -> bool {
    s.chars().any(|c| (c as u32) < 0x20 || c == '\'' || c == '\\')
}

/// Which known findings a query would run into
#[derive(Default, Clone, Copy)]
pub struct Known {
    /// negated function tests
    pub f7: bool,
    /// strings that need escapes
    pub f8: bool,
    /// shorthand descendant segments, in some spellings
    pub f18: bool,
    /// fractions or exponents with so many digits that serde_json may read them inexactly
    pub long: bool,
}

/// Whether readers, serde_json's among them, may disagree on a number, or on how it is written out again
pub fn long(n: &str) -> bool {
    if n.parse::<i64>().is_ok() || n.parse::<u64>().is_ok() {
        return false;
    }
    match n.parse::<f64>() {
        Ok(x) => !(plain_number(n) && plain_number(&Value::from(x).to_string())),
        // in some other text
        Err(_) => {
            let exponent = n.as_bytes().windows(2).any(|w| w[0].is_ascii_digit() && matches!(w[1], b'e' | b'E'));
            exponent || n.bytes().filter(u8::is_ascii_digit).count() > 14
        }
    }
}

pub fn traits(q: &Query) -> Known {
    struct R(Known);
    impl Rewrite for R {
        fn seg(&mut self, s: &mut Seg) {
            self.0.f18 |= s.desc && matches!(s.sels[..], [Sel::Name(_) | Sel::Wild]);
        }
        fn sel(&mut self, s: &mut Sel) {
            self.0.f8 |= matches!(s, Sel::Name(n) if needs_escape(n));
        }
        fn basic(&mut self, b: &mut Basic) {
            self.0.f7 |= matches!(b, Basic::Test(true, _));
        }
        fn lit(&mut self, l: &mut Lit) {
            self.0.f8 |= matches!(l, Lit::Str(n) if needs_escape(n));
            self.0.long |= matches!(l, Lit::Num(n) if long(n));
        }
    }
    let mut r = R(Known::default());
    rewrite(&mut q.clone(), &mut r);
    let mut k = r.0;
    k.f7 &= known::tolerated("F7");
    k.f18 &= known::tolerated("F18");
    k
}

/// Change a query so that it runs into none of F7 and F8
struct Avoid;

fn clean(s: &mut String) {
    if needs_escape(s) || s.contains("..") {
        *s = s.chars().map(|c| if (c as u32) < 0x20 || c == '\'' || c == '\\' || c == '.' { '"' } else { c }).collect();
    }
}

impl Rewrite for Avoid {
    fn sel(&mut self, s: &mut Sel) {
        if let Sel::Name(n) = s {
            clean(n);
        }
    }
    fn lit(&mut self, l: &mut Lit) {
        if let Lit::Str(n) = l {
            clean(n);
        }
    }
    fn basic(&mut self, b: &mut Basic) {
        if let Basic::Test(neg @ true, c) = b {
            *neg = false;
            *b = Basic::Paren(true, Or::one(Basic::Test(false, c.clone())));
        }
    }
}

struct NoNegation;

impl Rewrite for NoNegation {
    fn basic(&mut self, b: &mut Basic) {
        if let Basic::Test(neg, _) = b {
            *neg = false;
        }
    }
}

/// Writes what needs an escape as DEL and a character not used otherwise, or reads it back
struct Mask;

fn mask(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if (c as u32) < 0x20 || c == '\'' || c == '\\' {
            out.push('\u{7f}');
            out.push(char::from_u32(0x10AB00 + c as u32).unwrap());
        } else {
            out.push(c);
        }
    }
    out
}

fn unmask(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        match cs.peek() {
            Some(&m) if c == '\u{7f}' && (0x10AB00..0x10AB80).contains(&(m as u32)) => {
                out.push(char::from_u32(m as u32 - 0x10AB00).unwrap());
                cs.next();
            }
            _ => out.push(c),
        }
    }
    out
}

impl Rewrite for Mask {
    fn sel(&mut self, s: &mut Sel) {
        if let Sel::Name(n) = s {
            *n = mask(n);
        }
    }
    fn lit(&mut self, l: &mut Lit) {
        if let Lit::Str(n) = l {
            *n = mask(n);
        }
    }
}

/// The known finding F8 is that characters are displayed as they are. A query that runs into it is
/// compared with one that holds other characters in their places.
fn check_f8(q: &Query, cx: &mut Cx) -> Outcome {
    let text = render::plain(q);
    let p = oracle::accept(&text)?;
    let shown = lib(&format!("displaying {text:?}"), || p.to_string())?;
    let k = traits(q);
    let round = match oracle::parse(&shown)? {
        Ok(again) => !k.f7 && again == p && again.to_string() == shown,
        Err(_) => false,
    };
    if round {
        cx.label("strings with escapes");
        return Ok(());
    }
    if !known::tolerated("F8") {
        fail!("{text:?} is displayed as {shown:?}, which does not parse to the same path");
    }
    cx.label("known finding F8");
    let mut other = q.clone();
    rewrite(&mut other, &mut Mask);
    let other = render::plain(&other);
    let want = unmask(&oracle::accept(&other)?.to_string());
    if shown != want {
        fail!("{text:?} is displayed as {shown:?}, and its like {other:?} as {want:?}");
    }
    Ok(())
}

/// Two dots for each three that are not within quotes; strings that have escapes are not judged so
pub fn undot(shown: &str) -> String {
    let parts = shown.split('\'').enumerate();
    parts.map(|(i, s)| if i % 2 == 0 { s.replace("...", "..") } else { s.to_string() }).collect::<Vec<_>>().join("'")
}

/// One text against the property; None if it is not accepted
fn check(text: &str, docs: &[&Value], strict: bool, cx: &mut Cx) -> Result<bool, Fail> {
    let Ok(p) = oracle::parse(text)? else { return Ok(false) };
    let shown = lib(&format!("displaying {text:?}"), || p.to_string())?;
    // judged also when a text is given that the model does not know
    let (k, tree) = match abnf::parse(text, FUNCS) {
        Verdict::Accept(q) => (traits(&q), Some(q)),
        _ => (Known { f7: !strict, f8: !strict, f18: true, long: long(text) }, None),
    };
    if k.long {
        cx.label("discarded: long fraction");
        return Ok(true);
    }
    if k.f8 {
        if let Some(tree) = &tree {
            check_f8(tree, cx)?;
        }
        return Ok(true);
    }
    let mut judged = shown.clone();
    if k.f18 && shown.contains("...") {
        cx.label("known finding F18");
        judged = undot(&shown);
    }
    let again = match oracle::parse(&judged)? {
        Ok(p) => p,
        Err(e) => fail!("{text:?} is displayed as {shown:?}, which is rejected: {e}"),
    };
    let twice = lib("displaying", || again.to_string())?;
    if twice != shown {
        fail!("{text:?} is displayed as {shown:?}, and that as {twice:?}");
    }
    if again == p && p == again {
        for d in docs {
            let want = oracle::query(&p, text, d)?;
            oracle::check_places("displayed and parsed back, the path selects something else", &judged, d, &want, &oracle::query(&again, &judged, d)?)?;
        }
        return Ok(true);
    }
    if !k.f7 {
        fail!("{text:?} is displayed as {shown:?}, which parses to a different path:\n  {p:?}\n  {again:?}");
    }
    cx.label("known finding F7");
    if let Some(mut q) = tree {
        rewrite(&mut q, &mut NoNegation);
        for d in docs {
            let Ok(e) = Expected::of(d, FUNCS, &q) else { continue };
            e.check("a display without negations of functions selects something else", &judged, &oracle::query(&again, &judged, d)?, cx)?;
        }
    }
    Ok(true)
}

fn fixed(all: bool) -> Result<u64, Fail> {
    let docs = [json!({"a": [1, 2.5, "x", {"b": null, "a b": true}], "b": -3, "é": [[]]}), json!([[1, 2], {"a": 1000, "x": 0.01}, "1000"])];
    let docs: Vec<&Value> = docs.iter().collect();
    let mut cx = Cx::new(false);
    let mut n = 0;
    for t in [
        "$", "$.a", "$['a']", "$[\"a b\"]", "$.*", "$[*]", "$..['a']", "$..[*]", "$..[0]", "$[0]", "$[-1]", "$[::]", "$[:]", "$[1:]", "$[:1]", "$[::1]",
        "$[::-1]", "$[1:2:3]", "$[0::0]", "$['a','b',0,*,1:]", "$[?@]", "$[?!@.a]", "$[?(@.a)]", "$[?!(@.a)]", "$[?@.a&&@.b||@.c]", "$[?@==1]",
        "$[?@==-0]", "$[?@==1.50]", "$[?@==1e3]", "$[?@==1E-2]", "$[?@==1e20]", "$[?@==0.1e-9]", "$[?@!='a']", "$[?@<\"b\"]", "$[?@<=true]", "$[?@>false]",
        "$[?@>=null]", "$[?@['a'][0]==$.b[1]]", "$[?length(@)==1]", "$[?count(@.*)>1]", "$[?match(@,'a.*')]", "$[?search(@.x,$.y)]", "$[?value(@.*)==1]",
        "$[?!(match(@,'a'))]", "$[?fl_l(@.a==1||@.b)]", "$[?fl_n(@..['a'])]", "$[?fv_v(length(@))==fv_v(1)]", "$.é", "$['☺']", "$[?@.a[?@.b==1]]",
        "$[?(@.a||@.b)&&!(@.c&&(@.d))]", "$['']", "$['\"']", "$['/']", "$['\u{7f}\u{2028}']", "$.a .b", "$[ 1 , 2 ]", "$..a", "$..*", "$.a..b..*", "$[?@..a]",
    ] {
        let p = oracle::accept(t)?;
        drop(p);
        check(t, &docs, true, &mut cx)?;
        n += 1;
    }
    for c in gen::many_chars(all) {
        if needs_escape(&c.to_string()) {
            continue;
        }
        let d = json!({c.to_string(): [1], format!("a{c}"): c.to_string()});
        let mut texts = vec![format!("$['{c}']"), format!("$[?@ == '{c}' || @['a{c}b']]")];
        if crate::render::is_shorthand(&c.to_string()) {
            texts.push(format!("$.{c}"));
            texts.push(format!("$.a{c}[?@.{c}{c}]"));
        }
        for t in texts {
            check(&t, &[&d], true, &mut cx)?;
            n += 1;
        }
    }
    let d = serde_json_path::JsonPath::default();
    if d.to_string() != "$" || d != oracle::accept("$")? {
        fail!("the default path is {d}");
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| check(&c.text, &[&c.doc], true, &mut Cx::new(false)).map(drop))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = gen::doc(src);
    let other = gen::doc(src);
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = FUNCS;
    let mut q = gen::G::new(src, &doc, cfg).query();
    if !src.chance(1, 6) {
        rewrite(&mut q, &mut Avoid);
    }
    let k = traits(&q);
    let mut text = if src.chance(1, 3) { render::plain(&q) } else { render::random(src, &q) };
    let mut strict = !k.f7 && !k.f8;
    if src.chance(1, 4) {
        text = mutate::mutate(src, &text);
        strict = false;
        if mutate::depth(&text) > 40 {
            return Ok(());
        }
    } else {
        oracle::accept(&text)?;
    }
    // what is evaluated stays small
    let mut docs: Vec<&Value> = vec![];
    let tree = match abnf::parse(&text, FUNCS) {
        Verdict::Accept(q) => q,
        _ => q.clone(),
    };
    for d in [&doc, &other] {
        if oracle::affordable(d, FUNCS, &tree) {
            docs.push(d);
        }
    }
    if !check(&text, &docs, strict, cx)? {
        cx.label("rejected");
        return Ok(());
    }
    cx.label_if(k.f7, "negated functions");
    let filter = tree.segs.iter().any(|s| s.sels.iter().any(|s| matches!(s, Sel::Filter(_))));
    if !traits(&tree).f8 && (tree.segs.len() > 1 || filter) {
        cx.nontrivial(&text);
        cx.sample(|| text.clone());
    }
    Ok(())
}
