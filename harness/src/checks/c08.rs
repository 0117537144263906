use crate::abnf::{self, Verdict};
use crate::ast::*;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::eval::{FnSig, BUILTINS};
use crate::userfn::FUNCS;
use crate::{fail, oracle, render, sweep};

pub static CHECK: Check = Check {
    id: "C08",
    rule: "Listed first: every signature up to three parameters times every combination of seven kinds of arguments times four \
           positions; and calls by names one edit away from a function's. Generated: calls of built-in, user and unknown functions with arguments of random kinds (nested calls and \
           logical expressions among them), right or wrong in number, in test, negated, grouped, comparison and argument position. \
           The typing rules of RFC 9535 decide. Non-trivial: every case; distinct by text.",
    quick: 2_000_000,
    thorough: 60_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["the typing rules in harness/src/abnf.rs are those of RFC 9535 sections 2.4.1 to 2.4.3"],
};

const KINDS: usize = 7;

fn q(root: bool, segs: Vec<Seg>) -> Query {
    Query::new(root, segs)
}
fn name(n: &str) -> Seg {
    Seg::child(Sel::Name(n.into()))
}

fn kind(k: usize) -> Arg {
    let call = |n: &str, a: Arg| Arg::Call(Call { name: n.into(), args: vec![a] });
    let s = Arg::Query(q(false, vec![name("a")]));
    match k {
        0 => Arg::Lit(Lit::Num("1".into())),
        1 => s,
        2 => Arg::Query(q(false, vec![Seg::child(Sel::Wild)])),
        3 => Arg::Logical(Or::one(Basic::Exist(true, q(false, vec![name("a")])))),
        4 => call("fv_v", s),
        5 => call("fl_v", s),
        _ => call("fn_v", s),
    }
}

fn in_position(c: Call, position: usize) -> Query {
    let other = Operand::Lit(Lit::Num("1".into()));
    let b = match position {
        0 => Basic::Test(false, c),
        1 => Basic::Test(true, c),
        2 => Basic::Cmp(Operand::Call(c), Op::Eq, other),
        _ => Basic::Cmp(other, Op::Lt, Operand::Call(c)),
    };
    q(true, vec![Seg::child(Sel::Filter(Or::one(b)))])
}

fn fixed(_: bool) -> Result<u64, Fail> {
    let mut n = 0;
    let mut cx = Cx::new(false);
    for sig in FUNCS.user.iter().chain(&BUILTINS) {
        let long = sig.params.len() > 3;
        for code in 0..KINDS.pow(sig.params.len() as u32) {
            if long {
                break;
            }
            let mut c = code;
            let args: Vec<Arg> = sig
                .params
                .iter()
                .map(|_| {
                    let a = kind(c % KINDS);
                    c /= KINDS;
                    a
                })
                .collect();
            for position in 0..4 {
                judge(&render::plain(&in_position(Call { name: sig.name.into(), args: args.clone() }, position)), &mut cx)?;
                n += 1;
            }
        }
        // one argument too few or too many
        let fit: Vec<Arg> = sig.params.iter().map(|t| fitting(*t)).collect();
        // of longer lists, one argument at a time
        for i in 0..if long { fit.len() } else { 0 } {
            for k in 0..KINDS {
                let mut args = fit.clone();
                args[i] = kind(k);
                for position in 0..4 {
                    judge(&render::plain(&in_position(Call { name: sig.name.into(), args: args.clone() }, position)), &mut cx)?;
                    n += 1;
                }
            }
        }
        for k in 0..=fit.len().max(2) + 2 {
            if k == fit.len() {
                continue;
            }
            let mut args = fit.clone();
            args.resize(k, kind(1));
            for position in 0..4 {
                let t = render::plain(&in_position(Call { name: sig.name.into(), args: args.clone() }, position));
                judge(&t, &mut cx)?;
                if position < 2 {
                    count_message(&t, sig, k)?;
                }
                n += 1;
            }
        }
    }
    for t in near_names() {
        judge(&t, &mut cx)?;
        n += 1;
    }
    for t in [
        "$[?length(@.a) || length(@.b)]",
        "$[?match(@.a, 'a') == match(@.b, 'b')]",
        "$[?count(1) == 1]",
        "$[?count(length(@.a)) == 1]",
        "$[?value(@.a)]",
        "$[?length(@.*) == 1]",
        "$[?length(match(@.a, 'a')) == 1]",
        "$[?match(@.a, 'a', 'b')]",
        "$[?match(@.*, 'a')]",
        "$[?length(@.a == 1) == 1]",
        "$[?length(!@.a) == 1]",
    ] {
        oracle::rejects(t)?;
        n += 1;
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Calls, sweep::Of::Operands, sweep::Of::Nests, sweep::Of::Blanks], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

/// Calls of functions whose names are one edit away from, or a part of, a function's, with arguments that fit that one:
/// these are valid only if there is such a function, too
pub fn near_names() -> Vec<String> {
    let mut out = vec![];
    for sig in FUNCS.user.iter().chain(&BUILTINS) {
        let s = sig.name;
        let mut names: Vec<String> = vec![s.repeat(2), format!("{s}_{s}"), format!("not_{s}"), format!("{s}_"), format!("{s}__"), format!("{s}10"), s.to_uppercase(), s.replace('_', ""), s.replace('_', "__")];
        for (i, c) in s.char_indices() {
            names.push(s[..i].into());
            names.push(s[i..].into());
            let rest = &s[i + c.len_utf8()..];
            names.push(format!("{}{rest}", &s[..i]));
            for r in ["_", "0", "1", "a", "z"] {
                names.push(format!("{}{r}{rest}", &s[..i]));
                names.push(format!("{}{r}{}", &s[..i], &s[i..]));
            }
            names.push(format!("{}{}{rest}", &s[..i], c.to_ascii_uppercase()));
            if let Some(d) = rest.chars().next() {
                names.push(format!("{}{d}{c}{}", &s[..i], &rest[d.len_utf8()..]));
            }
        }
        names.extend(('a'..='z').chain('0'..='9').map(|c| format!("{s}{c}")));
        names.sort();
        names.dedup();
        let args: Vec<Arg> = sig.params.iter().map(|t| fitting(*t)).collect();
        for n in names {
            for position in [1, 2] {
                out.push(render::plain(&in_position(Call { name: n.clone(), args: args.clone() }, position)));
            }
        }
    }
    out
}

fn fitting(t: Ty) -> Arg {
    match t {
        Ty::Value => kind(0),
        Ty::Nodes => kind(2),
        Ty::Logical => kind(3),
    }
}

fn judge(text: &str, cx: &mut Cx) -> Outcome {
    match abnf::parse(text, FUNCS) {
        Verdict::Accept(_) => {
            oracle::accept(text)?;
            cx.label("well-typed");
        }
        Verdict::Reject(why) => {
            if let Ok(p) = oracle::parse(text)? {
                fail!("ill-typed query {text:?} ({why}) is accepted, as {p}");
            }
            cx.label("ill-typed");
        }
        Verdict::Unknown(w) => cx.label(w),
    }
    Ok(())
}

/// The message for a test with a wrong number of arguments names the two numbers in order
fn count_message(text: &str, sig: &FnSig, received: usize) -> Outcome {
    let Err(e) = oracle::parse(text)? else {
        fail!("{text:?} has the wrong number of arguments and is accepted");
    };
    let mut numbers = vec![];
    for w in e.message().split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
        if let Ok(n) = w.parse::<usize>() {
            numbers.push(n);
        }
    }
    let want = [sig.params.len(), received];
    if numbers != want {
        fail!("{text:?}: {} takes {} arguments and got {received}, but the message is {:?}", sig.name, want[0], e.message());
    }
    Ok(())
}

// ---------------------------------------------------------------- generated calls

fn query(src: &mut Src, depth: u32) -> Query {
    let root = src.chance(1, 4);
    let segs = match src.weighted(&[5, 3, 2, 2, 2, 2, 2, 1, 1]) {
        0 => vec![name("a")],
        1 => vec![],
        2 => vec![Seg::child(Sel::Index(0)), name("b")],
        3 => vec![Seg::child(Sel::Wild)],
        4 => vec![Seg { desc: true, sels: vec![Sel::Name("a".into())] }],
        5 => vec![name("a"), Seg::child(Sel::Slice(Some(0), None, None))],
        6 => vec![Seg { desc: false, sels: vec![Sel::Name("a".into()), Sel::Index(-1)] }],
        7 if depth > 0 => vec![Seg::child(Sel::Filter(or(src, depth - 1)))],
        _ => vec![Seg::child(Sel::Index(-1))],
    };
    q(root, segs)
}

fn lit(src: &mut Src) -> Lit {
    match src.below(6) {
        0 => Lit::Num("1".into()),
        1 => Lit::Str("a".into()),
        2 => Lit::Null,
        3 => Lit::Bool(true),
        4 => Lit::Bool(false),
        _ => Lit::Num("-1.5e1".into()),
    }
}

fn operand(src: &mut Src, depth: u32) -> Operand {
    match src.weighted(&[3, 3, 2]) {
        0 => Operand::Lit(lit(src)),
        1 => {
            let segs = match src.below(3) {
                0 => vec![name("a")],
                1 => vec![],
                _ => vec![name("a"), Seg::child(Sel::Index(0))],
            };
            Operand::Query(q(src.coin(), segs))
        }
        _ => {
            // mostly of a type that can be compared
            let ty = if src.chance(4, 5) { Ty::Value } else { src.of(&TYS) };
            Operand::Call(call(src, Some(ty), depth))
        }
    }
}

fn basic(src: &mut Src, depth: u32) -> Basic {
    let d = depth.saturating_sub(1);
    match src.weighted(&[3, 3, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => Basic::Exist(src.coin(), query(src, d)),
        1 => Basic::Cmp(operand(src, d), src.of(&OPS), operand(src, d)),
        2 => {
            let ty = if src.chance(4, 5) { src.of(&[Ty::Logical, Ty::Nodes]) } else { Ty::Value };
            Basic::Test(src.coin(), call(src, Some(ty), d))
        }
        _ => Basic::Paren(src.coin(), or(src, d)),
    }
}

fn or(src: &mut Src, depth: u32) -> Or {
    let n = 1 + src.weighted(&[6, 1]);
    Or((0..n).map(|_| And((0..1 + src.weighted(&[6, 1])).map(|_| basic(src, depth)).collect())).collect())
}

fn arg(src: &mut Src, ty: Ty, depth: u32) -> Arg {
    // of the kind that fits, or of any kind
    let ty = if src.chance(3, 4) { Some(ty) } else { None };
    if depth > 0 && src.chance(1, 4) {
        let want = match ty {
            Some(Ty::Logical) if src.chance(1, 3) => Some(Ty::Nodes),
            t => t,
        };
        return Arg::Call(call(src, want, depth - 1));
    }
    match ty {
        Some(Ty::Value) if src.coin() => Arg::Lit(lit(src)),
        Some(Ty::Logical) if src.chance(2, 3) => or(src, depth).into_arg(),
        Some(_) => Arg::Query(query(src, depth)),
        None => match src.below(3) {
            0 => Arg::Lit(lit(src)),
            1 => Arg::Query(query(src, depth)),
            _ => or(src, depth).into_arg(),
        },
    }
}

fn call(src: &mut Src, ret: Option<Ty>, depth: u32) -> Call {
    let fits: Vec<&FnSig> = FUNCS.user.iter().chain(&BUILTINS).filter(|s| ret.is_none_or(|r| s.ret == r)).collect();
    let sig = fits[src.below(fits.len())];
    let mut args: Vec<Arg> = sig.params.iter().map(|t| arg(src, *t, depth)).collect();
    if src.chance(1, 20) {
        if src.coin() {
            args.pop();
        } else {
            let t = src.of(&TYS);
            args.push(arg(src, t, depth));
        }
    }
    let name = if src.chance(1, 40) { src.of(&["nofunc", "f", "fn_", "lengthx", "coun", "fv_vvvv", "truex", "nul", "e"]).to_string() } else { sig.name.to_string() };
    Call { name, args }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let b = match src.weighted(&[4, 3]) {
        0 => Basic::Test(src.chance(1, 3), {
            let ty = if src.chance(5, 6) { src.of(&[Ty::Logical, Ty::Nodes]) } else { Ty::Value };
            call(src, Some(ty), 2)
        }),
        _ => {
            let ty = if src.chance(5, 6) { Ty::Value } else { src.of(&[Ty::Logical, Ty::Nodes]) };
            let c = Operand::Call(call(src, Some(ty), 2));
            let other = operand(src, 1);
            let op = src.of(&OPS);
            if src.coin() {
                Basic::Cmp(c, op, other)
            } else {
                Basic::Cmp(other, op, c)
            }
        }
    };
    let f = match src.weighted(&[6, 1, 1, 1]) {
        0 => Or::one(b),
        1 => Or::one(Basic::Paren(src.coin(), Or::one(b))),
        2 => Or(vec![And(vec![b, basic(src, 1)])]),
        _ => Or(vec![And(vec![basic(src, 1)]), And(vec![b])]),
    };
    let q = q(true, vec![Seg::child(Sel::Filter(f))]);
    let text = if src.chance(1, 4) { render::random(src, &q) } else { render::plain(&q) };
    judge(&text, cx)?;
    cx.nontrivial(&text);
    cx.sample(|| text.clone());
    Ok(())
}
