//! User functions with the names of built-in ones and other signatures; the campaign of C24 with them.

use harness::ast::Ty;
use harness::checks::c24;
use harness::engine::{campaign, install_panic_hook, shrink, Check, Cx, Outcome, Src};
use harness::eval::{FnSig, Funcs};
use harness::userfn::{called, logical, nodes, ret_l, ret_n, ret_v, run as run_fn, value, USER};
#[cfg(feature = "userfn")]
use serde_json_path::function;
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use std::sync::OnceLock;

#[cfg_attr(feature = "userfn", function)]
fn length<'a>(a: NodesType<'a>) -> LogicalType {
    ret_l(called("length", Ty::Logical, &[nodes(a)]))
}

#[cfg_attr(feature = "userfn", function(name = "count"))]
fn counting<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("count", Ty::Value, &[value(a), value(b)]))
}

#[cfg_attr(feature = "userfn", function(name = "match"))]
fn matching<'a>(a: LogicalType, b: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("match", Ty::Nodes, &[logical(a), nodes(b)]))
}

// the same signature as the one it shadows
#[cfg_attr(feature = "userfn", function)]
fn search<'a>(a: ValueType<'a>, b: ValueType<'a>) -> LogicalType {
    ret_l(called("search", Ty::Logical, &[value(a), value(b)]))
}

#[cfg_attr(feature = "userfn", function(name = "value"))]
fn no_value() -> ValueType<'static> {
    ret_v(called("value", Ty::Value, &[]))
}

fn funcs() -> Funcs {
    static ALL: OnceLock<Vec<FnSig>> = OnceLock::new();
    let user = ALL.get_or_init(|| {
        let sig = |name, params, ret| FnSig { name, params, ret, user: Some(run_fn) };
        let mut all = vec![];
        // often chosen
        for _ in 0..20 {
            all.extend([
                sig("length", &[Ty::Nodes], Ty::Logical),
                sig("count", &[Ty::Value, Ty::Value], Ty::Value),
                sig("match", &[Ty::Logical, Ty::Nodes], Ty::Nodes),
                sig("search", &[Ty::Value, Ty::Value], Ty::Logical),
                sig("value", &[], Ty::Value),
            ]);
        }
        all.extend(USER);
        all
    });
    Funcs { user, regex: true }
}

fn case(src: &mut Src, cx: &mut Cx) -> Outcome {
    c24::case(src, cx, funcs())
}

static CHECK: Check = Check { id: "C24s", rule: "", quick: 0, thorough: 0, run: case, fixed: None, assumptions: &[] };

fn main() {
    install_panic_hook();
    let mut args = std::env::args().skip(1).map(|a| a.parse::<u64>().unwrap());
    let (seed, n) = (args.next().unwrap(), args.next().unwrap());
    let s = campaign(&CHECK, seed, n, None);
    if let Some((_, m)) = s.harness_error {
        println!("the check itself failed: {m}");
        std::process::exit(2);
    }
    if let Some((_, choices, f)) = s.failure {
        let (_, f, _) = std::thread::Builder::new().stack_size(harness::engine::STACK).spawn(move || shrink(&CHECK, choices, f)).unwrap().join().unwrap();
        println!("{}", f.msg);
        std::process::exit(1);
    }
}
