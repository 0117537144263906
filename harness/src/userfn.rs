//! Generated by tools/gen_userfn.py: user functions of every signature up to three parameters, some longer ones,
//! and functions with unusual names. Each result encodes the arguments.

use crate::ast::Ty;
use crate::eval::{encode_args, encode_call, FnSig, FnVal};
use serde_json::Value;
#[cfg(feature = "userfn")]
use serde_json_path::function;
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use std::borrow::Cow;
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

/// Record the calls the library makes on this thread
pub fn start_log() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}

pub fn take_log() -> Vec<String> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

fn hash(name: &str, args: &[FnVal]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in name.bytes().chain(encode_args(args).bytes()) {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    crate::engine::splitmix(h)
}

/// What every user function returns, by its name and declared result
pub fn body<'v>(name: &str, ret: Ty, args: &[FnVal<'v>]) -> FnVal<'v> {
    let h = hash(name, args);
    match ret {
        Ty::Logical => FnVal::Logical(h % 2 == 0),
        Ty::Nodes => {
            let mut out: Vec<&'v Value> = vec![];
            if h % 4 != 0 {
                for a in args {
                    if let FnVal::Nodes(ns) = a {
                        out.extend(ns.iter().rev());
                    }
                }
            }
            FnVal::Nodes(out)
        }
        Ty::Value => FnVal::Value(match h % 8 {
            0 => None,
            1 => Some(Cow::Owned(Value::Null)),
            2 => Some(Cow::Owned(Value::Bool(h % 16 < 8))),
            3 => Some(Cow::Owned(Value::from(h % 3))),
            4 | 5 => args
                .iter()
                .find_map(|a| match a {
                    FnVal::Nodes(ns) => ns.first().map(|n| Cow::Borrowed(*n)),
                    FnVal::Value(v) => v.clone(),
                    FnVal::Logical(_) => None,
                }),
            _ => {
                // quoting what is quoted already makes it longer and longer
                let args = encode_args(args);
                Some(Cow::Owned(Value::String(if args.len() > 200 { format!("{name}:{h}") } else { format!("{name}:{args}") })))
            }
        }),
    }
}

pub fn run<'v>(sig: &'static FnSig, args: &[FnVal<'v>]) -> FnVal<'v> {
    body(sig.name, sig.ret, args)
}

pub fn called<'v>(name: &str, ret: Ty, args: &[FnVal<'v>]) -> FnVal<'v> {
    LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.push(encode_call(name, args));
        }
    });
    body(name, ret, args)
}

/// The list, which every way to read it must present alike
pub fn nodes(n: NodesType<'_>) -> FnVal<'_> {
    let all = n.clone().all();
    let alike = |vs: &mut dyn Iterator<Item = &Value>| vs.map(|v| v as *const Value).eq(all.iter().map(|v| *v as *const Value));
    assert!(alike(&mut n.iter().copied()), "iter of a NodesType");
    assert!(alike(&mut n.clone().into_iter()), "into_iter of a NodesType");
    assert!(alike(&mut NodesType::from(all.clone()).all().into_iter()), "a NodesType made of a vector");
    assert!(alike(&mut NodesType::from((*n).clone()).all().into_iter()), "a NodesType made of a NodeList");
    assert_eq!((n.len(), n.is_empty()), (all.len(), all.is_empty()), "len and is_empty of a NodesType");
    assert_eq!((n.first(), n.last(), n.get(1)), (all.first().copied(), all.last().copied(), all.get(1).copied()), "first, last and get of a NodesType");
    assert_eq!(n.exactly_one().ok(), (all.len() == 1).then(|| all[0]), "exactly_one of a NodesType");
    assert!(NodesType::default().is_empty(), "the default NodesType");
    let mut other = n.clone();
    *other = all.iter().rev().copied().collect::<Vec<_>>().into();
    assert!(n == n.clone() && other.iter().eq(all.iter().rev()), "a NodesType changed through DerefMut");
    FnVal::Nodes(all)
}

pub fn value(v: ValueType<'_>) -> FnVal<'_> {
    let inner = match &v {
        ValueType::Value(v) => Some(v),
        ValueType::Node(v) => Some(*v),
        ValueType::Nothing => None,
    };
    assert!(v.as_value().map(|v| v as *const Value) == inner.map(|v| v as *const Value), "as_value of a ValueType");
    assert_eq!(v.is_nothing(), inner.is_none(), "is_nothing of a ValueType");
    assert!(v == v.clone() && ValueType::default().is_nothing(), "a ValueType cloned, and the default one");
    if let Some(i) = inner {
        assert!(ValueType::from(i.clone()).as_value() == Some(i), "a ValueType made of a value");
    }
    FnVal::Value(match v {
        ValueType::Value(v) => Some(Cow::Owned(v)),
        ValueType::Node(v) => Some(Cow::Borrowed(v)),
        ValueType::Nothing => None,
    })
}

pub fn logical<'v>(l: LogicalType) -> FnVal<'v> {
    let b: bool = l.clone().into();
    assert!(b == (l == LogicalType::True) && LogicalType::from(b) == l && LogicalType::default() == LogicalType::False, "the truth of a LogicalType");
    FnVal::Logical(b)
}

pub fn ret_n(v: FnVal<'_>) -> NodesType<'_> {
    match v {
        FnVal::Nodes(ns) => ns.into(),
        _ => unreachable!(),
    }
}

pub fn ret_v(v: FnVal<'_>) -> ValueType<'_> {
    match v {
        FnVal::Value(Some(Cow::Owned(v))) => ValueType::Value(v),
        FnVal::Value(Some(Cow::Borrowed(v))) => ValueType::Node(v),
        FnVal::Value(None) => ValueType::Nothing,
        _ => unreachable!(),
    }
}

pub fn ret_l(v: FnVal<'_>) -> LogicalType {
    match v {
        FnVal::Logical(b) => b.into(),
        _ => unreachable!(),
    }
}

#[cfg_attr(feature = "userfn", function)]
fn fn0() -> serde_json_path::functions::NodesType<'static> {
    ret_n(called("fn0", Ty::Nodes, &[]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_n<'a>(a0: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_n", Ty::Nodes, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_v<'a>(a0: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_v", Ty::Nodes, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_l(a0: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'static> {
    ret_n(called("fn_l", Ty::Nodes, &[logical(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nn<'a>(a0: NodesType<'a>, a1: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nn", Ty::Nodes, &[nodes(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nv<'a>(a0: NodesType<'a>, a1: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nv", Ty::Nodes, &[nodes(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nl<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_nl", Ty::Nodes, &[nodes(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vn<'a>(a0: ValueType<'a>, a1: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vn", Ty::Nodes, &[value(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vv<'a>(a0: ValueType<'a>, a1: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vv", Ty::Nodes, &[value(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vl<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_vl", Ty::Nodes, &[value(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_ln<'a>(a0: LogicalType, a1: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_ln", Ty::Nodes, &[logical(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lv<'a>(a0: LogicalType, a1: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_lv", Ty::Nodes, &[logical(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_ll(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'static> {
    ret_n(called("fn_ll", Ty::Nodes, &[logical(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nnn<'a>(a0: NodesType<'a>, a1: NodesType<'a>, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nnn", Ty::Nodes, &[nodes(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nnv<'a>(a0: NodesType<'a>, a1: NodesType<'a>, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nnv", Ty::Nodes, &[nodes(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nnl<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_nnl", Ty::Nodes, &[nodes(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nvn<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nvn", Ty::Nodes, &[nodes(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nvv<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nvv", Ty::Nodes, &[nodes(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nvl<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_nvl", Ty::Nodes, &[nodes(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nln<'a>(a0: NodesType<'a>, a1: LogicalType, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nln", Ty::Nodes, &[nodes(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nlv<'a>(a0: NodesType<'a>, a1: LogicalType, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_nlv", Ty::Nodes, &[nodes(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_nll<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_nll", Ty::Nodes, &[nodes(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vnn<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vnn", Ty::Nodes, &[value(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vnv<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vnv", Ty::Nodes, &[value(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vnl<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_vnl", Ty::Nodes, &[value(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vvn<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vvn", Ty::Nodes, &[value(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vvv<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vvv", Ty::Nodes, &[value(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vvl<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_vvl", Ty::Nodes, &[value(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vln<'a>(a0: ValueType<'a>, a1: LogicalType, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vln", Ty::Nodes, &[value(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vlv<'a>(a0: ValueType<'a>, a1: LogicalType, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_vlv", Ty::Nodes, &[value(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_vll<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_vll", Ty::Nodes, &[value(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lnn<'a>(a0: LogicalType, a1: NodesType<'a>, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_lnn", Ty::Nodes, &[logical(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lnv<'a>(a0: LogicalType, a1: NodesType<'a>, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_lnv", Ty::Nodes, &[logical(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lnl<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_lnl", Ty::Nodes, &[logical(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lvn<'a>(a0: LogicalType, a1: ValueType<'a>, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_lvn", Ty::Nodes, &[logical(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lvv<'a>(a0: LogicalType, a1: ValueType<'a>, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_lvv", Ty::Nodes, &[logical(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lvl<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'a> {
    ret_n(called("fn_lvl", Ty::Nodes, &[logical(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lln<'a>(a0: LogicalType, a1: LogicalType, a2: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("fn_lln", Ty::Nodes, &[logical(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_llv<'a>(a0: LogicalType, a1: LogicalType, a2: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("fn_llv", Ty::Nodes, &[logical(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fn_lll(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::LogicalType) -> serde_json_path::functions::NodesType<'static> {
    ret_n(called("fn_lll", Ty::Nodes, &[logical(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv0() -> ValueType<'static> {
    ret_v(called("fv0", Ty::Value, &[]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_n<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_n", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_v<'a>(a0: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_v", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_l(a0: LogicalType) -> ValueType<'static> {
    ret_v(called("fv_l", Ty::Value, &[logical(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nn<'a>(a0: NodesType<'a>, a1: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_nn", Ty::Value, &[nodes(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nv<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_nv", Ty::Value, &[nodes(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nl<'a>(a0: NodesType<'a>, a1: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_nl", Ty::Value, &[nodes(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vn<'a>(a0: ValueType<'a>, a1: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_vn", Ty::Value, &[value(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vv<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_vv", Ty::Value, &[value(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vl<'a>(a0: ValueType<'a>, a1: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_vl", Ty::Value, &[value(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_ln<'a>(a0: LogicalType, a1: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_ln", Ty::Value, &[logical(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lv<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_lv", Ty::Value, &[logical(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_ll(a0: LogicalType, a1: LogicalType) -> ValueType<'static> {
    ret_v(called("fv_ll", Ty::Value, &[logical(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nnn<'a>(a0: NodesType<'a>, a1: NodesType<'a>, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_nnn", Ty::Value, &[nodes(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nnv<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_nnv", Ty::Value, &[nodes(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nnl<'a>(a0: NodesType<'a>, a1: NodesType<'a>, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_nnl", Ty::Value, &[nodes(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nvn<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_nvn", Ty::Value, &[nodes(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nvv<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_nvv", Ty::Value, &[nodes(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nvl<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_nvl", Ty::Value, &[nodes(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nln<'a>(a0: NodesType<'a>, a1: LogicalType, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_nln", Ty::Value, &[nodes(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nlv<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_nlv", Ty::Value, &[nodes(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_nll<'a>(a0: NodesType<'a>, a1: LogicalType, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_nll", Ty::Value, &[nodes(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vnn<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_vnn", Ty::Value, &[value(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vnv<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_vnv", Ty::Value, &[value(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vnl<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_vnl", Ty::Value, &[value(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vvn<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_vvn", Ty::Value, &[value(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vvv<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_vvv", Ty::Value, &[value(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vvl<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_vvl", Ty::Value, &[value(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vln<'a>(a0: ValueType<'a>, a1: LogicalType, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_vln", Ty::Value, &[value(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vlv<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_vlv", Ty::Value, &[value(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_vll<'a>(a0: ValueType<'a>, a1: LogicalType, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_vll", Ty::Value, &[value(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lnn<'a>(a0: LogicalType, a1: NodesType<'a>, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_lnn", Ty::Value, &[logical(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lnv<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_lnv", Ty::Value, &[logical(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lnl<'a>(a0: LogicalType, a1: NodesType<'a>, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_lnl", Ty::Value, &[logical(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lvn<'a>(a0: LogicalType, a1: ValueType<'a>, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_lvn", Ty::Value, &[logical(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lvv<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_lvv", Ty::Value, &[logical(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lvl<'a>(a0: LogicalType, a1: ValueType<'a>, a2: LogicalType) -> ValueType<'a> {
    ret_v(called("fv_lvl", Ty::Value, &[logical(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lln<'a>(a0: LogicalType, a1: LogicalType, a2: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("fv_lln", Ty::Value, &[logical(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_llv<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
    ret_v(called("fv_llv", Ty::Value, &[logical(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fv_lll(a0: LogicalType, a1: LogicalType, a2: LogicalType) -> ValueType<'static> {
    ret_v(called("fv_lll", Ty::Value, &[logical(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl0() -> LogicalType {
    ret_l(called("fl0", Ty::Logical, &[]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_n<'a>(a0: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_n", Ty::Logical, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_v<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_v", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_l(a0: LogicalType) -> LogicalType {
    ret_l(called("fl_l", Ty::Logical, &[logical(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nn<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_nn", Ty::Logical, &[nodes(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nv<'a>(a0: NodesType<'a>, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_nv", Ty::Logical, &[nodes(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nl<'a>(a0: NodesType<'a>, a1: LogicalType) -> LogicalType {
    ret_l(called("fl_nl", Ty::Logical, &[nodes(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vn<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_vn", Ty::Logical, &[value(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vv<'a>(a0: ValueType<'a>, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_vv", Ty::Logical, &[value(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vl<'a>(a0: ValueType<'a>, a1: LogicalType) -> LogicalType {
    ret_l(called("fl_vl", Ty::Logical, &[value(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_ln<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_ln", Ty::Logical, &[logical(a0), nodes(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lv<'a>(a0: LogicalType, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_lv", Ty::Logical, &[logical(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_ll(a0: LogicalType, a1: LogicalType) -> LogicalType {
    ret_l(called("fl_ll", Ty::Logical, &[logical(a0), logical(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nnn<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_nnn", Ty::Logical, &[nodes(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nnv<'a>(a0: NodesType<'a>, a1: NodesType<'a>, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_nnv", Ty::Logical, &[nodes(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nnl<'a>(a0: NodesType<'a>, a1: NodesType<'a>, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_nnl", Ty::Logical, &[nodes(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nvn<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_nvn", Ty::Logical, &[nodes(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nvv<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_nvv", Ty::Logical, &[nodes(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nvl<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_nvl", Ty::Logical, &[nodes(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nln<'a>(a0: serde_json_path::functions::NodesType<'a>, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_nln", Ty::Logical, &[nodes(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nlv<'a>(a0: NodesType<'a>, a1: LogicalType, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_nlv", Ty::Logical, &[nodes(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_nll<'a>(a0: NodesType<'a>, a1: LogicalType, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_nll", Ty::Logical, &[nodes(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vnn<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_vnn", Ty::Logical, &[value(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vnv<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_vnv", Ty::Logical, &[value(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vnl<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_vnl", Ty::Logical, &[value(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vvn<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_vvn", Ty::Logical, &[value(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vvv<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_vvv", Ty::Logical, &[value(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vvl<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_vvl", Ty::Logical, &[value(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vln<'a>(a0: serde_json_path::functions::ValueType<'a>, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_vln", Ty::Logical, &[value(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vlv<'a>(a0: ValueType<'a>, a1: LogicalType, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_vlv", Ty::Logical, &[value(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_vll<'a>(a0: ValueType<'a>, a1: LogicalType, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_vll", Ty::Logical, &[value(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lnn<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::NodesType<'a>, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_lnn", Ty::Logical, &[logical(a0), nodes(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lnv<'a>(a0: LogicalType, a1: NodesType<'a>, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_lnv", Ty::Logical, &[logical(a0), nodes(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lnl<'a>(a0: LogicalType, a1: NodesType<'a>, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_lnl", Ty::Logical, &[logical(a0), nodes(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lvn<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::ValueType<'a>, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_lvn", Ty::Logical, &[logical(a0), value(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lvv<'a>(a0: LogicalType, a1: ValueType<'a>, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_lvv", Ty::Logical, &[logical(a0), value(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lvl<'a>(a0: LogicalType, a1: ValueType<'a>, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_lvl", Ty::Logical, &[logical(a0), value(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lln<'a>(a0: serde_json_path::functions::LogicalType, a1: serde_json_path::functions::LogicalType, a2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::LogicalType {
    ret_l(called("fl_lln", Ty::Logical, &[logical(a0), logical(a1), nodes(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_llv<'a>(a0: LogicalType, a1: LogicalType, a2: ValueType<'a>) -> LogicalType {
    ret_l(called("fl_llv", Ty::Logical, &[logical(a0), logical(a1), value(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn fl_lll(a0: LogicalType, a1: LogicalType, a2: LogicalType) -> LogicalType {
    ret_l(called("fl_lll", Ty::Logical, &[logical(a0), logical(a1), logical(a2)]))
}

#[cfg_attr(feature = "userfn", function)]
fn x<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("x", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn z<'a>(a0: NodesType<'a>) -> LogicalType {
    ret_l(called("z", Ty::Logical, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn q() -> ValueType<'static> {
    ret_v(called("q", Ty::Value, &[]))
}

#[cfg_attr(feature = "userfn", function)]
fn nullable<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("nullable", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn nulls<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("nulls", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn trueish<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("trueish", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn true_(a0: LogicalType) -> ValueType<'static> {
    ret_v(called("true_", Ty::Value, &[logical(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn true1<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("true1", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn falsey<'a>(a0: NodesType<'a>) -> LogicalType {
    ret_l(called("falsey", Ty::Logical, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn false0<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("false0", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn lengthy<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("lengthy", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn length2<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("length2", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn count_all<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("count_all", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn matches<'a>(a0: ValueType<'a>, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("matches", Ty::Logical, &[value(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn search1<'a>(a0: ValueType<'a>, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("search1", Ty::Logical, &[value(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn values<'a>(a0: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("values", Ty::Nodes, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn value_<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("value_", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn lengt<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("lengt", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn a1_b2__3<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("a1_b2__3", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn e1<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("e1", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function(name = "true"))]
fn kw_true<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("true", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function(name = "null"))]
fn kw_null<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("null", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function(name = "false"))]
fn kw_false() -> LogicalType {
    ret_l(called("false", Ty::Logical, &[]))
}

#[cfg_attr(feature = "userfn", function(name = "renamed"))]
fn original<'a>(a0: NodesType<'a>, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("renamed", Ty::Logical, &[nodes(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function(name = "fn"))]
fn kw_fn<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("fn", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function(name = "y9"))]
fn other_name(a0: LogicalType) -> NodesType<'static> {
    ret_n(called("y9", Ty::Nodes, &[logical(a0)]))
}

#[cfg_attr(feature = "userfn", function(name = "r"))]
fn x9<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("r", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g4_vv<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: LogicalType, a3: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("g4_vv", Ty::Value, &[value(a0), nodes(a1), logical(a2), value(a3)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g4_ll<'a>(a0: LogicalType, a1: ValueType<'a>, a2: NodesType<'a>, a3: NodesType<'a>) -> LogicalType {
    ret_l(called("g4_ll", Ty::Logical, &[logical(a0), value(a1), nodes(a2), nodes(a3)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g4_nn<'a>(a0: NodesType<'a>, a1: LogicalType, a2: LogicalType, a3: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("g4_nn", Ty::Nodes, &[nodes(a0), logical(a1), logical(a2), value(a3)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g5_ln<'a>(a0: NodesType<'a>, a1: LogicalType, a2: ValueType<'a>, a3: NodesType<'a>, a4: LogicalType) -> LogicalType {
    ret_l(called("g5_ln", Ty::Logical, &[nodes(a0), logical(a1), value(a2), nodes(a3), logical(a4)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g5_nv<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: NodesType<'a>, a3: LogicalType, a4: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("g5_nv", Ty::Nodes, &[value(a0), value(a1), nodes(a2), logical(a3), value(a4)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g6_vl<'a>(a0: LogicalType, a1: NodesType<'a>, a2: ValueType<'a>, a3: LogicalType, a4: NodesType<'a>, a5: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("g6_vl", Ty::Value, &[logical(a0), nodes(a1), value(a2), logical(a3), nodes(a4), value(a5)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g6_lv<'a>(a0: ValueType<'a>, a1: ValueType<'a>, a2: ValueType<'a>, a3: ValueType<'a>, a4: ValueType<'a>, a5: ValueType<'a>) -> LogicalType {
    ret_l(called("g6_lv", Ty::Logical, &[value(a0), value(a1), value(a2), value(a3), value(a4), value(a5)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g7_ln<'a>(a0: NodesType<'a>, a1: ValueType<'a>, a2: LogicalType, a3: NodesType<'a>, a4: ValueType<'a>, a5: LogicalType, a6: NodesType<'a>) -> LogicalType {
    ret_l(called("g7_ln", Ty::Logical, &[nodes(a0), value(a1), logical(a2), nodes(a3), value(a4), logical(a5), nodes(a6)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g9_vl<'a>(a0: LogicalType, a1: LogicalType, a2: LogicalType, a3: LogicalType, a4: ValueType<'a>, a5: ValueType<'a>, a6: ValueType<'a>, a7: NodesType<'a>, a8: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("g9_vl", Ty::Value, &[logical(a0), logical(a1), logical(a2), logical(a3), value(a4), value(a5), value(a6), nodes(a7), nodes(a8)]))
}

#[cfg_attr(feature = "userfn", function)]
fn g12_nv<'a>(a0: ValueType<'a>, a1: NodesType<'a>, a2: LogicalType, a3: ValueType<'a>, a4: NodesType<'a>, a5: LogicalType, a6: ValueType<'a>, a7: NodesType<'a>, a8: LogicalType, a9: ValueType<'a>, a10: NodesType<'a>, a11: LogicalType) -> NodesType<'a> {
    ret_n(called("g12_nv", Ty::Nodes, &[value(a0), nodes(a1), logical(a2), value(a3), nodes(a4), logical(a5), value(a6), nodes(a7), logical(a8), value(a9), nodes(a10), logical(a11)]))
}

#[cfg_attr(feature = "userfn", function)]
fn ends_with_one<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("ends_with_one", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn ends_with_one_of<'a>(a0: ValueType<'a>, a1: ValueType<'a>) -> LogicalType {
    ret_l(called("ends_with_one_of", Ty::Logical, &[value(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn ends_with_one_of_the_values<'a>(a0: NodesType<'a>, a1: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("ends_with_one_of_the_values", Ty::Value, &[nodes(a0), value(a1)]))
}

#[cfg_attr(feature = "userfn", function)]
fn any_of_the_nodes_is_a_string_1<'a>(a0: NodesType<'a>) -> LogicalType {
    ret_l(called("any_of_the_nodes_is_a_string_1", Ty::Logical, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn any_of_the_nodes_is_a_string_22<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("any_of_the_nodes_is_a_string_22", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn any_of_the_nodes_is_a_string__33<'a>(a0: NodesType<'a>) -> LogicalType {
    ret_l(called("any_of_the_nodes_is_a_string__33", Ty::Logical, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn aaaaaaaaaaaaaaa<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("aaaaaaaaaaaaaaa", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn aaaaaaaaaaaaaaaa<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("aaaaaaaaaaaaaaaa", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn aaaaaaaaaaaaaaaaa<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("aaaaaaaaaaaaaaaaa", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn abcdefgh01234567() -> ValueType<'static> {
    ret_v(called("abcdefgh01234567", Ty::Value, &[]))
}

#[cfg_attr(feature = "userfn", function)]
fn abcdefgh012345678(a0: LogicalType) -> ValueType<'static> {
    ret_v(called("abcdefgh012345678", Ty::Value, &[logical(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn a_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9z<'a>(a0: ValueType<'a>) -> ValueType<'a> {
    ret_v(called("a_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9z", Ty::Value, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn a_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9y<'a>(a0: NodesType<'a>) -> ValueType<'a> {
    ret_v(called("a_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9y", Ty::Value, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn x_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long<'a>(a0: ValueType<'a>) -> LogicalType {
    ret_l(called("x_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long", Ty::Logical, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn l00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000<'a>(a0: NodesType<'a>) -> NodesType<'a> {
    ret_n(called("l00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Ty::Nodes, &[nodes(a0)]))
}

#[cfg_attr(feature = "userfn", function)]
fn l000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000<'a>(a0: ValueType<'a>) -> NodesType<'a> {
    ret_n(called("l000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Ty::Nodes, &[value(a0)]))
}

#[cfg_attr(feature = "userfn", function(name = "Lower"))]
fn odd0(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "lOwer"))]
fn odd1(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "camelCase"))]
fn odd2(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "with-dash"))]
fn odd3(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "with space"))]
fn odd4(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "é"))]
fn odd5(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "xé"))]
fn odd6(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "1st"))]
fn odd7(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "_first"))]
fn odd8(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "a.b"))]
fn odd9(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "a(b"))]
fn odd10(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = ""))]
fn odd11(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "@"))]
fn odd12(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "UPPER"))]
fn odd13(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "ıd"))]
fn odd14(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "ｘ"))]
fn odd15(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "x1 "))]
fn odd16(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = " x1"))]
fn odd17(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "$"))]
fn odd18(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "*"))]
fn odd19(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "length(@)"))]
fn odd20(v: ValueType<'_>) -> ValueType<'_> {
    v
}

#[cfg_attr(feature = "userfn", function(name = "nonl\n"))]
fn odd21(v: ValueType<'_>) -> ValueType<'_> {
    v
}

pub const ODD: [&str; 22] = ["Lower", "lOwer", "camelCase", "with-dash", "with space", "é", "xé", "1st", "_first", "a.b", "a(b", "", "@", "UPPER", "ıd", "ｘ", "x1 ", " x1", "$", "*", "length(@)", "nonl\n"];

macro_rules! sig {
    ($name:expr, $ret:expr, $($p:expr),*) => {
        FnSig { name: $name, params: &[$($p),*], ret: $ret, user: Some(run) }
    };
}

pub static USER: [FnSig; 173] = [
    sig!("fn0", Ty::Nodes, ),
    sig!("fn_n", Ty::Nodes, Ty::Nodes),
    sig!("fn_v", Ty::Nodes, Ty::Value),
    sig!("fn_l", Ty::Nodes, Ty::Logical),
    sig!("fn_nn", Ty::Nodes, Ty::Nodes, Ty::Nodes),
    sig!("fn_nv", Ty::Nodes, Ty::Nodes, Ty::Value),
    sig!("fn_nl", Ty::Nodes, Ty::Nodes, Ty::Logical),
    sig!("fn_vn", Ty::Nodes, Ty::Value, Ty::Nodes),
    sig!("fn_vv", Ty::Nodes, Ty::Value, Ty::Value),
    sig!("fn_vl", Ty::Nodes, Ty::Value, Ty::Logical),
    sig!("fn_ln", Ty::Nodes, Ty::Logical, Ty::Nodes),
    sig!("fn_lv", Ty::Nodes, Ty::Logical, Ty::Value),
    sig!("fn_ll", Ty::Nodes, Ty::Logical, Ty::Logical),
    sig!("fn_nnn", Ty::Nodes, Ty::Nodes, Ty::Nodes, Ty::Nodes),
    sig!("fn_nnv", Ty::Nodes, Ty::Nodes, Ty::Nodes, Ty::Value),
    sig!("fn_nnl", Ty::Nodes, Ty::Nodes, Ty::Nodes, Ty::Logical),
    sig!("fn_nvn", Ty::Nodes, Ty::Nodes, Ty::Value, Ty::Nodes),
    sig!("fn_nvv", Ty::Nodes, Ty::Nodes, Ty::Value, Ty::Value),
    sig!("fn_nvl", Ty::Nodes, Ty::Nodes, Ty::Value, Ty::Logical),
    sig!("fn_nln", Ty::Nodes, Ty::Nodes, Ty::Logical, Ty::Nodes),
    sig!("fn_nlv", Ty::Nodes, Ty::Nodes, Ty::Logical, Ty::Value),
    sig!("fn_nll", Ty::Nodes, Ty::Nodes, Ty::Logical, Ty::Logical),
    sig!("fn_vnn", Ty::Nodes, Ty::Value, Ty::Nodes, Ty::Nodes),
    sig!("fn_vnv", Ty::Nodes, Ty::Value, Ty::Nodes, Ty::Value),
    sig!("fn_vnl", Ty::Nodes, Ty::Value, Ty::Nodes, Ty::Logical),
    sig!("fn_vvn", Ty::Nodes, Ty::Value, Ty::Value, Ty::Nodes),
    sig!("fn_vvv", Ty::Nodes, Ty::Value, Ty::Value, Ty::Value),
    sig!("fn_vvl", Ty::Nodes, Ty::Value, Ty::Value, Ty::Logical),
    sig!("fn_vln", Ty::Nodes, Ty::Value, Ty::Logical, Ty::Nodes),
    sig!("fn_vlv", Ty::Nodes, Ty::Value, Ty::Logical, Ty::Value),
    sig!("fn_vll", Ty::Nodes, Ty::Value, Ty::Logical, Ty::Logical),
    sig!("fn_lnn", Ty::Nodes, Ty::Logical, Ty::Nodes, Ty::Nodes),
    sig!("fn_lnv", Ty::Nodes, Ty::Logical, Ty::Nodes, Ty::Value),
    sig!("fn_lnl", Ty::Nodes, Ty::Logical, Ty::Nodes, Ty::Logical),
    sig!("fn_lvn", Ty::Nodes, Ty::Logical, Ty::Value, Ty::Nodes),
    sig!("fn_lvv", Ty::Nodes, Ty::Logical, Ty::Value, Ty::Value),
    sig!("fn_lvl", Ty::Nodes, Ty::Logical, Ty::Value, Ty::Logical),
    sig!("fn_lln", Ty::Nodes, Ty::Logical, Ty::Logical, Ty::Nodes),
    sig!("fn_llv", Ty::Nodes, Ty::Logical, Ty::Logical, Ty::Value),
    sig!("fn_lll", Ty::Nodes, Ty::Logical, Ty::Logical, Ty::Logical),
    sig!("fv0", Ty::Value, ),
    sig!("fv_n", Ty::Value, Ty::Nodes),
    sig!("fv_v", Ty::Value, Ty::Value),
    sig!("fv_l", Ty::Value, Ty::Logical),
    sig!("fv_nn", Ty::Value, Ty::Nodes, Ty::Nodes),
    sig!("fv_nv", Ty::Value, Ty::Nodes, Ty::Value),
    sig!("fv_nl", Ty::Value, Ty::Nodes, Ty::Logical),
    sig!("fv_vn", Ty::Value, Ty::Value, Ty::Nodes),
    sig!("fv_vv", Ty::Value, Ty::Value, Ty::Value),
    sig!("fv_vl", Ty::Value, Ty::Value, Ty::Logical),
    sig!("fv_ln", Ty::Value, Ty::Logical, Ty::Nodes),
    sig!("fv_lv", Ty::Value, Ty::Logical, Ty::Value),
    sig!("fv_ll", Ty::Value, Ty::Logical, Ty::Logical),
    sig!("fv_nnn", Ty::Value, Ty::Nodes, Ty::Nodes, Ty::Nodes),
    sig!("fv_nnv", Ty::Value, Ty::Nodes, Ty::Nodes, Ty::Value),
    sig!("fv_nnl", Ty::Value, Ty::Nodes, Ty::Nodes, Ty::Logical),
    sig!("fv_nvn", Ty::Value, Ty::Nodes, Ty::Value, Ty::Nodes),
    sig!("fv_nvv", Ty::Value, Ty::Nodes, Ty::Value, Ty::Value),
    sig!("fv_nvl", Ty::Value, Ty::Nodes, Ty::Value, Ty::Logical),
    sig!("fv_nln", Ty::Value, Ty::Nodes, Ty::Logical, Ty::Nodes),
    sig!("fv_nlv", Ty::Value, Ty::Nodes, Ty::Logical, Ty::Value),
    sig!("fv_nll", Ty::Value, Ty::Nodes, Ty::Logical, Ty::Logical),
    sig!("fv_vnn", Ty::Value, Ty::Value, Ty::Nodes, Ty::Nodes),
    sig!("fv_vnv", Ty::Value, Ty::Value, Ty::Nodes, Ty::Value),
    sig!("fv_vnl", Ty::Value, Ty::Value, Ty::Nodes, Ty::Logical),
    sig!("fv_vvn", Ty::Value, Ty::Value, Ty::Value, Ty::Nodes),
    sig!("fv_vvv", Ty::Value, Ty::Value, Ty::Value, Ty::Value),
    sig!("fv_vvl", Ty::Value, Ty::Value, Ty::Value, Ty::Logical),
    sig!("fv_vln", Ty::Value, Ty::Value, Ty::Logical, Ty::Nodes),
    sig!("fv_vlv", Ty::Value, Ty::Value, Ty::Logical, Ty::Value),
    sig!("fv_vll", Ty::Value, Ty::Value, Ty::Logical, Ty::Logical),
    sig!("fv_lnn", Ty::Value, Ty::Logical, Ty::Nodes, Ty::Nodes),
    sig!("fv_lnv", Ty::Value, Ty::Logical, Ty::Nodes, Ty::Value),
    sig!("fv_lnl", Ty::Value, Ty::Logical, Ty::Nodes, Ty::Logical),
    sig!("fv_lvn", Ty::Value, Ty::Logical, Ty::Value, Ty::Nodes),
    sig!("fv_lvv", Ty::Value, Ty::Logical, Ty::Value, Ty::Value),
    sig!("fv_lvl", Ty::Value, Ty::Logical, Ty::Value, Ty::Logical),
    sig!("fv_lln", Ty::Value, Ty::Logical, Ty::Logical, Ty::Nodes),
    sig!("fv_llv", Ty::Value, Ty::Logical, Ty::Logical, Ty::Value),
    sig!("fv_lll", Ty::Value, Ty::Logical, Ty::Logical, Ty::Logical),
    sig!("fl0", Ty::Logical, ),
    sig!("fl_n", Ty::Logical, Ty::Nodes),
    sig!("fl_v", Ty::Logical, Ty::Value),
    sig!("fl_l", Ty::Logical, Ty::Logical),
    sig!("fl_nn", Ty::Logical, Ty::Nodes, Ty::Nodes),
    sig!("fl_nv", Ty::Logical, Ty::Nodes, Ty::Value),
    sig!("fl_nl", Ty::Logical, Ty::Nodes, Ty::Logical),
    sig!("fl_vn", Ty::Logical, Ty::Value, Ty::Nodes),
    sig!("fl_vv", Ty::Logical, Ty::Value, Ty::Value),
    sig!("fl_vl", Ty::Logical, Ty::Value, Ty::Logical),
    sig!("fl_ln", Ty::Logical, Ty::Logical, Ty::Nodes),
    sig!("fl_lv", Ty::Logical, Ty::Logical, Ty::Value),
    sig!("fl_ll", Ty::Logical, Ty::Logical, Ty::Logical),
    sig!("fl_nnn", Ty::Logical, Ty::Nodes, Ty::Nodes, Ty::Nodes),
    sig!("fl_nnv", Ty::Logical, Ty::Nodes, Ty::Nodes, Ty::Value),
    sig!("fl_nnl", Ty::Logical, Ty::Nodes, Ty::Nodes, Ty::Logical),
    sig!("fl_nvn", Ty::Logical, Ty::Nodes, Ty::Value, Ty::Nodes),
    sig!("fl_nvv", Ty::Logical, Ty::Nodes, Ty::Value, Ty::Value),
    sig!("fl_nvl", Ty::Logical, Ty::Nodes, Ty::Value, Ty::Logical),
    sig!("fl_nln", Ty::Logical, Ty::Nodes, Ty::Logical, Ty::Nodes),
    sig!("fl_nlv", Ty::Logical, Ty::Nodes, Ty::Logical, Ty::Value),
    sig!("fl_nll", Ty::Logical, Ty::Nodes, Ty::Logical, Ty::Logical),
    sig!("fl_vnn", Ty::Logical, Ty::Value, Ty::Nodes, Ty::Nodes),
    sig!("fl_vnv", Ty::Logical, Ty::Value, Ty::Nodes, Ty::Value),
    sig!("fl_vnl", Ty::Logical, Ty::Value, Ty::Nodes, Ty::Logical),
    sig!("fl_vvn", Ty::Logical, Ty::Value, Ty::Value, Ty::Nodes),
    sig!("fl_vvv", Ty::Logical, Ty::Value, Ty::Value, Ty::Value),
    sig!("fl_vvl", Ty::Logical, Ty::Value, Ty::Value, Ty::Logical),
    sig!("fl_vln", Ty::Logical, Ty::Value, Ty::Logical, Ty::Nodes),
    sig!("fl_vlv", Ty::Logical, Ty::Value, Ty::Logical, Ty::Value),
    sig!("fl_vll", Ty::Logical, Ty::Value, Ty::Logical, Ty::Logical),
    sig!("fl_lnn", Ty::Logical, Ty::Logical, Ty::Nodes, Ty::Nodes),
    sig!("fl_lnv", Ty::Logical, Ty::Logical, Ty::Nodes, Ty::Value),
    sig!("fl_lnl", Ty::Logical, Ty::Logical, Ty::Nodes, Ty::Logical),
    sig!("fl_lvn", Ty::Logical, Ty::Logical, Ty::Value, Ty::Nodes),
    sig!("fl_lvv", Ty::Logical, Ty::Logical, Ty::Value, Ty::Value),
    sig!("fl_lvl", Ty::Logical, Ty::Logical, Ty::Value, Ty::Logical),
    sig!("fl_lln", Ty::Logical, Ty::Logical, Ty::Logical, Ty::Nodes),
    sig!("fl_llv", Ty::Logical, Ty::Logical, Ty::Logical, Ty::Value),
    sig!("fl_lll", Ty::Logical, Ty::Logical, Ty::Logical, Ty::Logical),
    sig!("x", Ty::Value, Ty::Value),
    sig!("z", Ty::Logical, Ty::Nodes),
    sig!("q", Ty::Value, ),
    sig!("nullable", Ty::Logical, Ty::Value),
    sig!("nulls", Ty::Value, Ty::Nodes),
    sig!("trueish", Ty::Logical, Ty::Value),
    sig!("true_", Ty::Value, Ty::Logical),
    sig!("true1", Ty::Value, Ty::Value),
    sig!("falsey", Ty::Logical, Ty::Nodes),
    sig!("false0", Ty::Logical, Ty::Value),
    sig!("lengthy", Ty::Value, Ty::Value),
    sig!("length2", Ty::Logical, Ty::Value),
    sig!("count_all", Ty::Value, Ty::Nodes),
    sig!("matches", Ty::Logical, Ty::Value, Ty::Value),
    sig!("search1", Ty::Logical, Ty::Value, Ty::Value),
    sig!("values", Ty::Nodes, Ty::Nodes),
    sig!("value_", Ty::Value, Ty::Value),
    sig!("lengt", Ty::Value, Ty::Value),
    sig!("a1_b2__3", Ty::Value, Ty::Value),
    sig!("e1", Ty::Value, Ty::Value),
    sig!("true", Ty::Logical, Ty::Value),
    sig!("null", Ty::Value, Ty::Nodes),
    sig!("false", Ty::Logical, ),
    sig!("renamed", Ty::Logical, Ty::Nodes, Ty::Value),
    sig!("fn", Ty::Value, Ty::Value),
    sig!("y9", Ty::Nodes, Ty::Logical),
    sig!("r", Ty::Logical, Ty::Value),
    sig!("g4_vv", Ty::Value, Ty::Value, Ty::Nodes, Ty::Logical, Ty::Value),
    sig!("g4_ll", Ty::Logical, Ty::Logical, Ty::Value, Ty::Nodes, Ty::Nodes),
    sig!("g4_nn", Ty::Nodes, Ty::Nodes, Ty::Logical, Ty::Logical, Ty::Value),
    sig!("g5_ln", Ty::Logical, Ty::Nodes, Ty::Logical, Ty::Value, Ty::Nodes, Ty::Logical),
    sig!("g5_nv", Ty::Nodes, Ty::Value, Ty::Value, Ty::Nodes, Ty::Logical, Ty::Value),
    sig!("g6_vl", Ty::Value, Ty::Logical, Ty::Nodes, Ty::Value, Ty::Logical, Ty::Nodes, Ty::Value),
    sig!("g6_lv", Ty::Logical, Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Value),
    sig!("g7_ln", Ty::Logical, Ty::Nodes, Ty::Value, Ty::Logical, Ty::Nodes, Ty::Value, Ty::Logical, Ty::Nodes),
    sig!("g9_vl", Ty::Value, Ty::Logical, Ty::Logical, Ty::Logical, Ty::Logical, Ty::Value, Ty::Value, Ty::Value, Ty::Nodes, Ty::Nodes),
    sig!("g12_nv", Ty::Nodes, Ty::Value, Ty::Nodes, Ty::Logical, Ty::Value, Ty::Nodes, Ty::Logical, Ty::Value, Ty::Nodes, Ty::Logical, Ty::Value, Ty::Nodes, Ty::Logical),
    sig!("ends_with_one", Ty::Logical, Ty::Value),
    sig!("ends_with_one_of", Ty::Logical, Ty::Value, Ty::Value),
    sig!("ends_with_one_of_the_values", Ty::Value, Ty::Nodes, Ty::Value),
    sig!("any_of_the_nodes_is_a_string_1", Ty::Logical, Ty::Nodes),
    sig!("any_of_the_nodes_is_a_string_22", Ty::Value, Ty::Nodes),
    sig!("any_of_the_nodes_is_a_string__33", Ty::Logical, Ty::Nodes),
    sig!("aaaaaaaaaaaaaaa", Ty::Value, Ty::Value),
    sig!("aaaaaaaaaaaaaaaa", Ty::Logical, Ty::Value),
    sig!("aaaaaaaaaaaaaaaaa", Ty::Value, Ty::Nodes),
    sig!("abcdefgh01234567", Ty::Value, ),
    sig!("abcdefgh012345678", Ty::Value, Ty::Logical),
    sig!("a_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9z", Ty::Value, Ty::Value),
    sig!("a_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9_9y", Ty::Value, Ty::Nodes),
    sig!("x_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long", Ty::Logical, Ty::Value),
    sig!("l00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Ty::Nodes, Ty::Nodes),
    sig!("l000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", Ty::Nodes, Ty::Value),
];

pub const FUNCS: crate::eval::Funcs = crate::eval::Funcs { user: &USER, regex: true };
