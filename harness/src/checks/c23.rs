use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{children, normalized, Node};
use crate::oracle;
use crate::userfn::FUNCS;
use crate::{fail, gen, render, sweep};
use serde_json::{json, Value};

pub static CHECK: Check = Check {
    id: "C23",
    rule: "A case is a document and a query that is taken apart: behind some segment, the rest applied to each node of the front (on the \
           whole document, and on the node alone where the rest does not mention the root); one segment's selectors one by one; one \
           descendant segment as its child form at the node and each of its descendants. Each part is parsed and evaluated by the \
           library. Non-trivial: two or more parts contribute nodes; distinct by text and document.",
    quick: 200_000,
    thorough: 8_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["fronts that select more than 60 nodes, or descendants of more than 150, are not taken apart"],
};

fn text(segs: &[Seg], random: Option<&mut Src>) -> String {
    let q = Query::new(true, segs.to_vec());
    match random {
        Some(s) => render::random(s, &q),
        None => render::plain(&q),
    }
}

/// Evaluate a text, without and with locations
fn eval<'v>(text: &str, doc: &'v Value) -> Result<Vec<Node<'v>>, Fail> {
    let p = oracle::accept(text)?;
    let plain = oracle::query(&p, text, doc)?;
    let located = oracle::located(&p, text, doc)?;
    oracle::check_places("with locations differs from without", text, doc, &plain, &oracle::values(&located))?;
    Ok(located)
}

fn mentions_root(segs: &[Seg]) -> bool {
    let mut found = false;
    let mut outer = true;
    each_query(&Query::new(false, segs.to_vec()), &mut |q| {
        found |= !outer && q.root;
        outer = false;
    });
    found
}

fn descendants<'v>(n: &Node<'v>, out: &mut Vec<Node<'v>>) {
    out.push(n.clone());
    for c in children(n) {
        descendants(&c, out);
    }
}

struct Case<'v> {
    doc: &'v Value,
    whole: String,
    want: Vec<Node<'v>>,
}

impl<'v> Case<'v> {
    fn compare(&self, how: &str, parts: &[Vec<&'v Value>]) -> Result<usize, Fail> {
        let got: Vec<&Value> = parts.iter().flatten().copied().collect();
        oracle::check_places(&format!("the query differs from its parts, taken apart {how}"), &self.whole, self.doc, &got, &oracle::values(&self.want))?;
        Ok(parts.iter().filter(|p| !p.is_empty()).count())
    }

    /// the front's nodes, each followed by the rest
    fn at(&self, n: &Node<'v>, rest: &[Seg]) -> Result<Vec<&'v Value>, Fail> {
        let r = render::plain(&Query::new(true, rest.to_vec()));
        let t = format!("{}{}", normalized(&n.loc), &r[1..]);
        let here = oracle::values(&eval(&t, self.doc)?);
        if !mentions_root(rest) {
            let alone = eval(&r, n.val)?;
            let alone = oracle::values(&alone);
            if !oracle::same_places(&here, &alone) {
                let p = oracle::Places::of(self.doc);
                fail!("query {t:?} on {} selects {}, and {r:?} on the node alone {}", self.doc, p.show(&here), p.show(&alone));
            }
        }
        Ok(here)
    }
}

fn check(doc: &Value, segs: &[Seg], k: usize, mut spelling: Option<&mut Src>) -> Result<usize, Fail> {
    let whole = text(segs, spelling.as_deref_mut());
    let want = eval(&whole, doc)?;
    let c = Case { doc, whole, want };
    let (front, rest) = segs.split_at(k);
    let nodes = eval(&text(front, spelling), doc)?;
    if nodes.len() > 60 {
        return Ok(0);
    }
    let mut parts = vec![];
    for n in &nodes {
        parts.push(c.at(n, rest)?);
    }
    let mut best = c.compare(&format!("after {k} segments"), &parts)?;
    let Some((s, tail)) = rest.split_first() else { return Ok(best) };
    if s.sels.len() > 1 {
        // the segment alone, selector by selector
        let c = Case { doc, whole: text(&segs[..=k], None), want: eval(&text(&segs[..=k], None), doc)? };
        let mut parts = vec![];
        for n in &nodes {
            if s.desc {
                let mut ds = vec![];
                descendants(n, &mut ds);
                if ds.len() > 150 {
                    return Ok(best);
                }
                for d in &ds {
                    for sel in &s.sels {
                        parts.push(c.at(d, &[Seg::child(sel.clone())])?);
                    }
                }
            } else {
                for sel in &s.sels {
                    parts.push(c.at(n, &[Seg::child(sel.clone())])?);
                }
            }
        }
        best = best.max(c.compare(&format!("into the selectors of segment {}", k + 1), &parts)?);
    }
    if s.desc {
        let child = Seg { desc: false, sels: s.sels.clone() };
        let all: Vec<Seg> = std::iter::once(child).chain(tail.iter().cloned()).collect();
        let mut parts = vec![];
        for n in &nodes {
            let mut ds = vec![];
            descendants(n, &mut ds);
            if ds.len() > 150 {
                return Ok(best);
            }
            for d in &ds {
                parts.push(c.at(d, &all)?);
            }
        }
        best = best.max(c.compare(&format!("into the descendants of segment {}", k + 1), &parts)?);
    }
    Ok(best)
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let docs = [
        json!({"a": [1, 2, [3, {"b": 4, "a": 5}]], "b": {"a": {"a": [6], "b": 1}, "c": null}, "c": [[], {}, "", 0]}),
        json!([[0, 1, 2, 3, 4], {"a": 1, "b": [1, 2]}, [[1], [1], {"a": [1]}]]),
    ];
    let mut n = 0;
    for t in [
        "$..*.*", "$.*..a", "$..a..b", "$..[0,-1]", "$..['a','b'][*]", "$[*][::-1]", "$..[?@.a]", "$..[?@ == $.b.a.b]", "$.*[?@ != $[0][1]]", "$..[?@.a, 0, ?@ > 1]",
        "$..[?count($..*) > 3].*", "$[0,0][*,1]", "$.*[4,1,3,0,2,1,0]", "$.*[-1,2,-3,0,-2,1]", "$['c','a','b','x','a','c','b']", "$..[2:,0,::-1,1,-1,0:1,*,0]", "$..[*]..*", "$..[1:]..[?@]",
    ] {
        let crate::abnf::Verdict::Accept(q) = crate::abnf::parse(t, FUNCS) else { fail!("the model does not know {t}") };
        for d in &docs {
            for k in 0..=q.segs.len() {
                check(d, &q.segs, k, None)?;
                n += 1;
            }
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Segments, sweep::Of::Selectors, sweep::Of::Slices, sweep::Of::Depth, sweep::Of::Members], |c| {
        for k in [0, 1, c.tree.segs.len() / 2, c.tree.segs.len().max(1) - 1] {
            if k <= c.tree.segs.len() && c.tree.segs.len() < 300 {
                check(&c.doc, &c.tree.segs, k, None)?;
            }
        }
        Ok(())
    })
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = gen::doc(src);
    let mut cfg = gen::EVERYTHING;
    cfg.funcs = FUNCS;
    cfg.filter_weight = 3;
    let q = gen::G::new(src, &doc, cfg).query();
    if !oracle::affordable(&doc, FUNCS, &q) {
        cx.label("discarded: too large");
        return Ok(());
    }
    let mut q = q;
    if !q.segs.is_empty() && src.chance(1, 8) {
        // a long list of one kind, or of several
        let i = src.below(q.segs.len());
        let kind = src.below(4);
        q.segs[i].sels = (0..src.size(5, 16))
            .map(|_| match if kind == 3 { src.below(3) } else { kind } {
                0 => Sel::Index(src.range(-3, 8)),
                1 => Sel::Name(gen::key(src)),
                _ => Sel::Slice(Some(src.range(0, 4)), None, Some(src.of(&[1, 2, -1]))),
            })
            .collect();
        if !oracle::affordable(&doc, FUNCS, &q) {
            return Ok(());
        }
    }
    let n = q.segs.len();
    // mostly behind the first segment
    let k = if n > 1 && src.chance(3, 4) { 1 + src.below(n - 1) } else { src.below(n.max(1)) };
    let n = check(&doc, &q.segs, k, if src.chance(1, 3) { Some(src) } else { None })?;
    cx.label(match n {
        0 | 1 => "one part",
        _ => "several parts",
    });
    cx.label_if(q.segs[k..].first().is_some_and(|s| s.desc), "descendants");
    cx.label_if(q.segs[k..].first().is_some_and(|s| s.sels.len() > 1), "selectors");
    cx.label_if(mentions_root(&q.segs[k..]), "mentions the root");
    if n > 1 {
        cx.nontrivial((render::plain(&q), k, doc.to_string()));
        cx.sample(|| format!("{} on {doc}, apart at segment {}", render::plain(&q), k + 1));
    }
    Ok(())
}
