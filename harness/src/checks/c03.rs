use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::BUILTIN;
use crate::oracle::{self, Expected};
use crate::{gen, render, sweep};
use serde_json::{json, Map, Value};

pub static CHECK: Check = Check {
    id: "C03",
    rule: "A case is an array of rows, each holding a left and a right value of any kind or lacking one, and operands that reach \
           them (member, index, negative index, root query, value() call, literal); all six operators are tried. Half of the right \
           values are derived from the left one (equal in another representation, or changed in one place). Non-trivial when some \
           row has both values and they are of the same kind; distinct by operands and document.",
    quick: 500_000,
    thorough: 12_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &[
        "the model in harness/src/eval.rs states RFC 9535 section 2.3.5.2.2 correctly",
        "results that the known findings F4, F5 or F6 explain exactly are not judged",
    ],
};

fn fixed(_: bool) -> Result<u64, Fail> {
    let kinds = [
        json!(null), json!(false), json!(true), json!(0), json!(-0.0), json!(1), json!(1.0), json!(1.5), json!(-1), json!(100), json!(""), json!("a"),
        json!("b"), json!("ab"), json!("\u{ffff}"), json!("\u{10000}"), json!("1"), json!([]), json!([1]), json!([1, 2]), json!([[]]), json!({}),
        json!({"a": 1}), json!({"a": 2}), json!({"b": 1}), json!({"a": 1, "b": 2}), json!([null]), json!({"a": null}),
    ];
    let mut n = 0;
    let mut cx = Cx::new(false);
    for l in kinds.iter().map(Some).chain([None]) {
        for r in kinds.iter().map(Some).chain([None]) {
            let mut m = Map::new();
            if let Some(l) = l {
                m.insert("l".into(), l.clone());
            }
            if let Some(r) = r {
                m.insert("r".into(), r.clone());
            }
            let doc = json!([Value::Object(m)]);
            for op in OPS {
                let operand = |k: &str| Operand::Query(Query::new(false, vec![Seg::child(Sel::Name(k.into()))]));
                check(&doc, operand("l"), op, operand("r"), None, &mut cx)?;
                n += 1;
                if let (Some(lit), Some(_)) = (r.and_then(lit_of), l) {
                    check(&doc, operand("l"), op, Operand::Lit(lit.clone()), None, &mut cx)?;
                    check(&doc, Operand::Lit(lit), op, operand("l"), None, &mut cx)?;
                    n += 2;
                }
            }
        }
    }
    // every exponent, written in several ways; compared with what is far from it
    for e in -300i32..=300 {
        for t in [format!("1e{e}"), format!("1E{e:+}"), format!("7.5e{e:+05}"), format!("2e{}{:0>40}", if e < 0 { "-" } else { "" }, e.abs())] {
            let p = oracle::accept(&format!("$[?@ < {t}]"))?;
            let doc = json!([-1, 0, 0.25, 1, 1.5, 9.5, 1e16, 9e-17, 1e299]);
            let x: f64 = t.parse().unwrap();
            let want: Vec<&Value> = doc.as_array().unwrap().iter().filter(|v| v.as_f64().unwrap() < x).collect();
            oracle::check_places("comparing with a large exponent", &t, &doc, &want, &oracle::query(&p, &t, &doc)?)?;
            n += 1;
        }
    }
    // the digits moved about, and many of them
    for k in 0..120usize {
        for t in [format!("0.{}5e{}", "0".repeat(k), k + 1), format!("5{}e-{k}", "0".repeat(k.min(15))), format!("5.{}e0", "0".repeat(k + 1)), format!("5.0e{}", "0".repeat(k + 1))] {
            let x: f64 = if t.contains("e-") { 5.0 * 10f64.powi(k.min(15) as i32 - k as i32) } else { 5.0 };
            let doc = json!([x / 2.0, 5, x * 2.0, 5.0]);
            let p = oracle::accept(&format!("$[?@ == {t}]"))?;
            let want: Vec<&Value> = if x == 5.0 { vec![&doc[1], &doc[3]] } else { vec![] };
            oracle::check_places("comparing with a number of many digits", &t, &doc, &want, &oracle::query(&p, &t, &doc)?)?;
            n += 1;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Literals, sweep::Of::Segments, sweep::Of::Members], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

fn lit_of(v: &Value) -> Option<Lit> {
    Some(match v {
        Value::Null => Lit::Null,
        Value::Bool(b) => Lit::Bool(*b),
        Value::Number(n) => Lit::Num(n.to_string()),
        Value::String(s) => Lit::Str(s.clone()),
        _ => return None,
    })
}

/// The same value written otherwise, or a slightly different one
pub fn vary(src: &mut Src, v: &Value) -> Value {
    match v {
        Value::Number(n) => {
            let x = crate::eval::num(n);
            match src.weighted(&[5, 2, 2, 1]) {
                0 if x == x.trunc() && x.abs() < 9e15 => {
                    if n.is_f64() {
                        Value::from(x as i64)
                    } else {
                        Value::from(x)
                    }
                }
                1 => Value::from(x + 1.0),
                2 => Value::from(-x),
                _ => Value::from(x + 0.5),
            }
        }
        Value::String(s) => match src.below(3) {
            0 => v.clone(),
            _ => Value::String(gen::near_string(src, s)),
        },
        Value::Bool(b) => Value::Bool(*b != src.chance(1, 2)),
        Value::Null => src.of(&[0, 1, 2]).eq(&0).then_some(Value::Null).unwrap_or(Value::Bool(false)),
        Value::Array(a) => {
            let mut a = a.clone();
            match src.below(4) {
                0 => {}
                1 if !a.is_empty() => {
                    let i = src.below(a.len());
                    a[i] = vary(src, &a[i]);
                }
                2 => a.push(gen::scalar(src)),
                _ => {
                    if a.len() > 1 {
                        let i = src.below(a.len());
                        a.swap(0, i);
                    } else {
                        a.pop();
                    }
                }
            }
            Value::Array(a)
        }
        Value::Object(o) => {
            let mut o = o.clone();
            match src.below(4) {
                0 => {}
                1 if !o.is_empty() => {
                    let k = o.keys().nth(src.below(o.len())).unwrap().clone();
                    let v = vary(src, &o[&k]);
                    o.insert(k, v);
                }
                2 => {
                    o.insert(gen::key(src), gen::scalar(src));
                }
                _ => {
                    if let Some(k) = o.keys().next().cloned() {
                        o.remove(&k);
                    }
                }
            }
            Value::Object(o)
        }
    }
}

fn value(src: &mut Src) -> Value {
    match src.weighted(&[3, 3, 2, 2]) {
        0 => gen::number(src),
        1 => Value::String(gen::string(src)),
        2 => gen::scalar(src),
        _ => {
            let mut v = gen::doc(src);
            if oracle::size(&v) > 12 {
                v = json!([gen::number(src), {"a": gen::scalar(src)}]);
            }
            v
        }
    }
}

/// The wildcard makes the filter apply to the rows, wherever they are
fn check(doc: &Value, l: Operand, op: Op, r: Operand, spell: Option<&mut Src>, cx: &mut Cx) -> Outcome {
    let q = Query::new(true, vec![Seg::child(Sel::Filter(Or::one(Basic::Cmp(l, op, r))))]);
    let Ok(e) = Expected::of(doc, BUILTIN, &q) else {
        cx.label("discarded: too large");
        return Ok(());
    };
    let text = match spell {
        Some(src) => render::random(src, &q),
        None => render::plain(&q),
    };
    let p = oracle::accept(&text)?;
    e.check_both(&text, &p, cx)?;
    cx.label_if(!e.rfc.is_empty(), "holds on some row");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    // how rows hold the two values
    let arrays = src.chance(1, 3);
    let mut rows = vec![];
    let mut interesting = false;
    let mut sample = (None, None);
    for _ in 0..src.size(1, 4) {
        let l = (!src.chance(1, 7)).then(|| value(src));
        let r = match &l {
            Some(l) if src.chance(3, 5) => Some(vary(src, l)),
            _ if src.chance(1, 7) => None,
            Some(l) if src.chance(1, 3) => Some(l.clone()),
            _ => Some(value(src)),
        };
        if let (Some(l), Some(r)) = (&l, &r) {
            interesting |= std::mem::discriminant(l) == std::mem::discriminant(r);
            sample = (Some(l.clone()), Some(r.clone()));
        }
        rows.push(if arrays {
            Value::Array(match (l, r) {
                (Some(l), Some(r)) => vec![l, r],
                (Some(l), None) => vec![l],
                (None, r) => r.filter(|_| false).into_iter().collect(),
            })
        } else {
            let mut m = Map::new();
            if let Some(l) = l {
                m.insert("l".into(), l);
            }
            if let Some(r) = r {
                m.insert("r".into(), r);
            }
            Value::Object(m)
        });
    }
    let doc = if src.chance(1, 4) {
        Value::Object(rows.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect())
    } else {
        Value::Array(rows)
    };
    let l = operand(src, &doc, arrays, true, sample.0.as_ref());
    let r = operand(src, &doc, arrays, false, sample.1.as_ref());
    for op in OPS {
        let spell = if src.chance(1, 4) { Some(&mut *src) } else { None };
        check(&doc, l.clone(), op, r.clone(), spell, cx)?;
    }
    if interesting {
        cx.nontrivial((&l, &r, doc.to_string()));
        cx.sample(|| {
            let q = Query::new(true, vec![Seg::child(Sel::Filter(Or::one(Basic::Cmp(l.clone(), Op::Eq, r.clone()))))]);
            format!("{} and the other operators on {doc}", render::plain(&q))
        });
    }
    Ok(())
}

fn operand(src: &mut Src, doc: &Value, arrays: bool, left: bool, like: Option<&Value>) -> Operand {
    let kind = src.weighted(&[10, 3, 2, 2, 2]);
    if kind == 1 {
        let l = match like {
            Some(v) if src.chance(2, 3) => lit_like(src, v),
            _ => None,
        };
        return Operand::Lit(l.unwrap_or_else(|| gen::scalar_lit(src)));
    }
    let sel = match (arrays, left) {
        (false, true) => Sel::Name("l".into()),
        (false, false) => Sel::Name("r".into()),
        (true, true) => Sel::Index(if src.chance(1, 8) { -2 } else { 0 }),
        (true, false) => Sel::Index(if src.chance(1, 8) { -1 } else { 1 }),
    };
    let mut segs = vec![Seg::child(sel)];
    // further into the value, perhaps to nothing
    if src.chance(1, 8) {
        segs.push(Seg::child(if src.coin() { Sel::Name(gen::key(src)) } else { Sel::Index(src.range(-1, 2)) }));
    }
    match kind {
        2 => {
            // the same place in one fixed row
            let first = match doc {
                Value::Array(a) => Sel::Index(src.below(a.len()) as i64),
                Value::Object(o) => Sel::Name(o.keys().next().unwrap().clone()),
                _ => Sel::Index(0),
            };
            segs.insert(0, Seg::child(first));
            Operand::Query(Query::new(true, segs))
        }
        3 => Operand::Call(Call { name: "value".into(), args: vec![Arg::Query(Query::new(false, segs))] }),
        4 if src.chance(1, 3) => Operand::Query(Query::new(false, vec![])),
        _ => Operand::Query(Query::new(false, segs)),
    }
}

fn lit_like(src: &mut Src, v: &Value) -> Option<Lit> {
    match v {
        Value::Number(n) => Some(Lit::Num(gen::number_text(src, crate::eval::num(n)))),
        v => lit_of(v),
    }
}
