use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::oracle;
use crate::userfn::FUNCS;
use crate::{gen, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C22",
    rule: "A case is a query over all selectors and user functions in its plain spelling and in three random ones (notation, quotes, escapes, \
           slice defaults, redundant parentheses, negations of parentheses, blank space), on two documents; all must be accepted and \
           select the same places. Non-trivial: the plain spelling selects something, or contains a filter; distinct by texts.",
    quick: 200_000,
    thorough: 10_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["blank space inside the brackets of a singular query that is compared or passed to a function is not varied, as RFC 9535 does not allow it there"],
};

fn same(texts: &[String], doc: &Value, cx: Option<&mut Cx>) -> Result<usize, Fail> {
    let first = oracle::accept(&texts[0])?;
    let want = oracle::query(&first, &texts[0], doc)?;
    for t in &texts[1..] {
        let p = oracle::accept(t)?;
        let what = format!("a spelling of {:?} selects something else", texts[0]);
        oracle::check_places(&what, t, doc, &want, &oracle::query(&p, t, doc)?)?;
        let located = oracle::located(&p, t, doc)?;
        oracle::check_places(&what, t, doc, &want, &oracle::values(&located))?;
    }
    if let Some(cx) = cx {
        cx.label_if(!want.is_empty(), "selects something");
    }
    Ok(want.len())
}

fn fixed(all: bool) -> Result<u64, Fail> {
    let doc = json!({
        "a": [0, 1, 2, 3, 4, {"b": 1, "a": {"b": 2}}], "b": "x", "c d": "x'y\"z", "☺": [[1]], "😀": 1, "'": 2, "\"": 3, "\\": 4, "/": 5, "\n": 6, "": 7, "a\u{0}": 8,
        "_": 9, "é": 10
    });
    let groups: &[&[&str]] = &[
        &["$.a", "$['a']", "$[\"a\"]", "$['\\u0061']", "$[\"\\u0061\"]", "$ .a", "$\n.a", "$[ 'a' ]", "$\t[\r'a'\n]"],
        &["$..b", "$..['b']", "$..[\"b\"]", "$..[ 'b' ]", "$ ..b", "$\r..['b']", "$\n..b"],
        &["$.*", "$[*]", "$[ * ]", "$ [*]", "$ .*"],
        &["$..*", "$..[*]", "$ ..*", "$ ..[ * ]"],
        &["$.a.*", "$['a'][*]", "$ .a .*", "$['a'] .*", "$ .a\t[*]"],
        &["$['\\'']", "$[\"'\"]", "$[\"\\u0027\"]", "$['\\u0027']"],
        &["$['\"']", "$[\"\\\"\"]", "$['\\u0022']"],
        &["$['\\\\']", "$[\"\\\\\"]", "$['\\u005c']", "$['\\u005C']"],
        &["$['/']", "$['\\/']", "$[\"\\/\"]", "$['\\u002f']", "$['\\u002F']"],
        &["$['\\n']", "$['\\u000a']", "$['\\u000A']", "$[\"\\n\"]"],
        &["$['a\\u0000']", "$[\"a\\u0000\"]"],
        &["$['😀']", "$[\"😀\"]", "$['\\ud83d\\ude00']", "$['\\uD83D\\uDE00']", "$['\\ud83D\\uDe00']", "$.😀"],
        &["$['☺']", "$.☺", "$['\\u263a']", "$[\"\\u263A\"]"],
        &["$.é", "$['é']", "$['\\u00e9']", "$['\\u00E9']"],
        &["$['']", "$[\"\"]"],
        &["$._", "$['_']"],
        &["$.a[:]", "$.a[::]", "$.a[0:]", "$.a[0::]", "$.a[::1]", "$.a[0::1]", "$.a[ 0 : : 1 ]", "$.a[:6]", "$.a[0:6:1]", "$.a[:6:]", "$.a[\t:\n:\r]"],
        &["$.a[::-1]", "$.a[-1::-1]", "$.a[ : : -1 ]", "$.a[5::-1]", "$.a[:-7:-1]"],
        &["$.a[1:3]", "$.a[1:3:]", "$.a[1:3:1]", "$.a[ 1 : 3 ]", "$.a[1 :3 :1]", "$.a[1: 3: 1]"],
        &["$.a[0,1]", "$.a[0 , 1]", "$.a[ 0,1 ]", "$.a[\n0\t,\r1\n]"],
        &["$[?@.b]", "$[?(@.b)]", "$[?((@.b))]", "$[? @.b ]", "$[ ?@.b]", "$[?@['b']]", "$[?!(!@.b)]", "$[?( @.b )]", "$[?@ .b]", "$[?!!@.b]"],
        &["$.a[?@>1]", "$.a[?@ > 1]", "$.a[?(@ > 1)]", "$.a[?1<@]", "$.a[?!(@<=1)&&@>1]", "$.a[?@\n>\t1]", "$.a[?( ( @>1 ) )]"],
        &["$.a[?@==1||@==2&&@>1]", "$.a[?@==1||(@==2&&@>1)]", "$.a[?(@==1)||((@==2)&&(@>1))]", "$.a[?@ == 1 || @ == 2 && @ > 1]"],
        &["$.a[?!@.b]", "$.a[?!(@.b)]", "$.a[? ! @.b]", "$.a[?!((@.b))]", "$.a[?! (@.b)]"],
        &["$[?match(@,'x')]", "$[?match( @ , 'x' )]", "$[?match(@,\"x\")]", "$[?(match(@,'\\u0078'))]", "$[?match(\n@\t,\r'x')]"],
        &["$[?@=='x']", "$[?@==\"x\"]", "$[?@=='\\u0078']", "$[?'x'==@]", "$[?@ == 'x']"],
        &["$[?@=='x\\'y\"z']", "$[?@==\"x'y\\\"z\"]", "$[?@=='x\\u0027y\\u0022z']"],
        &["$[?count(@.*)>2]", "$[?count(@[*])>2]", "$[?count( @ .* )>2]", "$[?count(@ [ * ]) > 2]", "$[?(count(@.*))>2]"],
        &["$[?fl_l(@.b)]", "$[?fl_l( @.b )]", "$[?fl_l((@.b))]", "$[?fl_l(@['b'])]"],
        &["$[?$.b]", "$[?$['b']]", "$[?$ .b]", "$[?($.b)]"],
    ];
    let mut n = 0;
    for g in groups {
        // not every text above is valid: a group is judged by those the grammar knows
        let texts: Vec<String> =
            g.iter().filter(|t| matches!(crate::abnf::parse(t, FUNCS), crate::abnf::Verdict::Accept(_))).map(|t| t.to_string()).collect();
        same(&texts, &doc, None)?;
        n += texts.len() as u64;
    }
    for c in gen::many_chars(all) {
        let s = c.to_string();
        let mut units = [0u16; 2];
        let escape: String = c.encode_utf16(&mut units).iter().map(|u| format!("\\u{u:04X}")).collect();
        let mut texts = vec![format!("$['{escape}']"), format!("$[\"{}\"]", escape.to_lowercase())];
        let mut values = vec![format!("$[?@ == '{escape}']"), format!("$[?'{}' == @]", escape.to_lowercase())];
        if !matches!(c, '\0'..='\u{1f}' | '\'' | '"' | '\\') {
            texts.extend([format!("$['{c}']"), format!("$[ \"{c}\" ]")]);
            values.extend([format!("$[?@ == '{c}']"), format!("$[?(@ == \"{c}\")]")]);
        }
        if render::is_shorthand(&s) {
            texts.extend([format!("$.{c}"), format!("$ .{c}")]);
        }
        let doc = json!({s.clone(): [{s.clone(): 1}], "x": s, "y": format!("{s}{s}"), "z": 0});
        for (texts, want) in [(texts, 1), (values, 1)] {
            if same(&texts, &doc, None)? != want {
                crate::fail!("{:?} does not select one node of {doc}", texts[0]);
            }
            n += texts.len() as u64;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(sweep::ALL, |c| {
        let mut src = Src::random(c.size as u64);
        let texts = [c.text.clone(), render::plain(&c.tree), render::random(&mut src, &c.tree), render::random(&mut src, &c.tree)];
        same(&texts, &c.doc, None).map(drop)
    })
}

/// Redundant parentheses and negations that the spelling alone does not write
struct Wrap<'s>(&'s mut Src);

impl Rewrite for Wrap<'_> {
    fn basic(&mut self, b: &mut Basic) {
        if !self.0.chance(1, 10) {
            return;
        }
        let old = b.clone();
        *b = match old {
            Basic::Exist(true, q) => Basic::Paren(true, Or::one(Basic::Exist(false, q))),
            Basic::Test(true, c) => Basic::Paren(true, Or::one(Basic::Test(false, c))),
            Basic::Paren(n, o) if self.0.coin() => Basic::Paren(n, Or::one(Basic::Paren(false, o))),
            Basic::Paren(n, o) => Basic::Paren(!n, Or::one(Basic::Paren(true, o))),
            b => Basic::Paren(false, Or::one(b)),
        };
    }
    fn and(&mut self, a: &mut And) {
        if a.0.len() > 1 && self.0.chance(1, 10) {
            // a && (b && c), or (a && b) && c
            let k = self.0.below(a.0.len() - 1) + 1;
            if self.0.coin() {
                let tail = a.0.split_off(k);
                a.0.push(Basic::Paren(false, Or(vec![And(tail)])));
            } else {
                let tail = a.0.split_off(k);
                let head = std::mem::take(&mut a.0);
                a.0.push(Basic::Paren(false, Or(vec![And(head)])));
                a.0.extend(tail);
            }
        }
    }
    fn or(&mut self, o: &mut Or) {
        if o.0.len() > 1 && self.0.chance(1, 10) {
            let k = self.0.below(o.0.len() - 1) + 1;
            let tail = o.0.split_off(k);
            o.0.push(And(vec![Basic::Paren(false, Or(tail))]));
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = gen::doc(src);
    let other = gen::doc(src);
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = FUNCS;
    let q = gen::G::new(src, &doc, cfg).query();
    let mut texts = vec![render::plain(&q), render::random(src, &q), render::random(src, &q)];
    let mut w = q.clone();
    rewrite(&mut w, &mut Wrap(src));
    texts.push(render::random(src, &w));
    let filter = q.segs.iter().any(|s| s.sels.iter().any(|s| matches!(s, Sel::Filter(_))));
    let mut n = 0;
    for d in [&doc, &other] {
        if oracle::affordable(d, FUNCS, &q) {
            n += same(&texts, d, Some(cx))?;
        }
    }
    cx.label_if(w != q, "grouped differently");
    if n > 0 || filter {
        cx.nontrivial(&texts);
        cx.sample(|| texts.join("   =   "));
    }
    Ok(())
}
