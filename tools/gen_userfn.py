#!/usr/bin/env python3
"""Writes harness/src/userfn.rs: user functions of every signature up to three parameters."""
import itertools, os
T={"n":"NodesType","v":"ValueType","l":"LogicalType"}
M={"n":"Ty::Nodes","v":"Ty::Value","l":"Ty::Logical"}
C={"n":"nodes","v":"value","l":"logical"}
out=['''//! Generated by tools/gen_userfn.py: user functions of every signature up to three parameters, some longer ones,
//! and functions with unusual names. Each result encodes the arguments.

use crate::ast::Ty;
use crate::eval::{encode_args, encode_call, FnSig, FnVal};
use serde_json::Value;
#[cfg(feature = "userfn")]
use serde_json_path::function;
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use std::borrow::Cow;
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

/// Record the calls the library makes on this thread
pub fn start_log() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}

pub fn take_log() -> Vec<String> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

fn hash(name: &str, args: &[FnVal]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in name.bytes().chain(encode_args(args).bytes()) {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    crate::engine::splitmix(h)
}

/// What every user function returns, by its name and declared result
pub fn body<'v>(name: &str, ret: Ty, args: &[FnVal<'v>]) -> FnVal<'v> {
    let h = hash(name, args);
    match ret {
        Ty::Logical => FnVal::Logical(h % 2 == 0),
        Ty::Nodes => {
            let mut out: Vec<&'v Value> = vec![];
            if h % 4 != 0 {
                for a in args {
                    if let FnVal::Nodes(ns) = a {
                        out.extend(ns.iter().rev());
                    }
                }
            }
            FnVal::Nodes(out)
        }
        Ty::Value => FnVal::Value(match h % 8 {
            0 => None,
            1 => Some(Cow::Owned(Value::Null)),
            2 => Some(Cow::Owned(Value::Bool(h % 16 < 8))),
            3 => Some(Cow::Owned(Value::from(h % 3))),
            4 | 5 => args
                .iter()
                .find_map(|a| match a {
                    FnVal::Nodes(ns) => ns.first().map(|n| Cow::Borrowed(*n)),
                    FnVal::Value(v) => v.clone(),
                    FnVal::Logical(_) => None,
                }),
            _ => {
                // quoting what is quoted already makes it longer and longer
                let args = encode_args(args);
                Some(Cow::Owned(Value::String(if args.len() > 200 { format!("{name}:{h}") } else { format!("{name}:{args}") })))
            }
        }),
    }
}

pub fn run<'v>(sig: &'static FnSig, args: &[FnVal<'v>]) -> FnVal<'v> {
    body(sig.name, sig.ret, args)
}

pub fn called<'v>(name: &str, ret: Ty, args: &[FnVal<'v>]) -> FnVal<'v> {
    LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.push(encode_call(name, args));
        }
    });
    body(name, ret, args)
}

/// The list, which every way to read it must present alike
pub fn nodes(n: NodesType<'_>) -> FnVal<'_> {
    let all = n.clone().all();
    let alike = |vs: &mut dyn Iterator<Item = &Value>| vs.map(|v| v as *const Value).eq(all.iter().map(|v| *v as *const Value));
    assert!(alike(&mut n.iter().copied()), "iter of a NodesType");
    assert!(alike(&mut n.clone().into_iter()), "into_iter of a NodesType");
    assert!(alike(&mut NodesType::from(all.clone()).all().into_iter()), "a NodesType made of a vector");
    assert!(alike(&mut NodesType::from((*n).clone()).all().into_iter()), "a NodesType made of a NodeList");
    assert_eq!((n.len(), n.is_empty()), (all.len(), all.is_empty()), "len and is_empty of a NodesType");
    assert_eq!((n.first(), n.last(), n.get(1)), (all.first().copied(), all.last().copied(), all.get(1).copied()), "first, last and get of a NodesType");
    assert_eq!(n.exactly_one().ok(), (all.len() == 1).then(|| all[0]), "exactly_one of a NodesType");
    assert!(NodesType::default().is_empty(), "the default NodesType");
    let mut other = n.clone();
    *other = all.iter().rev().copied().collect::<Vec<_>>().into();
    assert!(n == n.clone() && other.iter().eq(all.iter().rev()), "a NodesType changed through DerefMut");
    FnVal::Nodes(all)
}

pub fn value(v: ValueType<'_>) -> FnVal<'_> {
    let inner = match &v {
        ValueType::Value(v) => Some(v),
        ValueType::Node(v) => Some(*v),
        ValueType::Nothing => None,
    };
    assert!(v.as_value().map(|v| v as *const Value) == inner.map(|v| v as *const Value), "as_value of a ValueType");
    assert_eq!(v.is_nothing(), inner.is_none(), "is_nothing of a ValueType");
    assert!(v == v.clone() && ValueType::default().is_nothing(), "a ValueType cloned, and the default one");
    if let Some(i) = inner {
        assert!(ValueType::from(i.clone()).as_value() == Some(i), "a ValueType made of a value");
    }
    FnVal::Value(match v {
        ValueType::Value(v) => Some(Cow::Owned(v)),
        ValueType::Node(v) => Some(Cow::Borrowed(v)),
        ValueType::Nothing => None,
    })
}

pub fn logical<'v>(l: LogicalType) -> FnVal<'v> {
    let b: bool = l.clone().into();
    assert!(b == (l == LogicalType::True) && LogicalType::from(b) == l && LogicalType::default() == LogicalType::False, "the truth of a LogicalType");
    FnVal::Logical(b)
}

pub fn ret_n(v: FnVal<'_>) -> NodesType<'_> {
    match v {
        FnVal::Nodes(ns) => ns.into(),
        _ => unreachable!(),
    }
}

pub fn ret_v(v: FnVal<'_>) -> ValueType<'_> {
    match v {
        FnVal::Value(Some(Cow::Owned(v))) => ValueType::Value(v),
        FnVal::Value(Some(Cow::Borrowed(v))) => ValueType::Node(v),
        FnVal::Value(None) => ValueType::Nothing,
        _ => unreachable!(),
    }
}

pub fn ret_l(v: FnVal<'_>) -> LogicalType {
    match v {
        FnVal::Logical(b) => b.into(),
        _ => unreachable!(),
    }
}
''']
sigs=[]
def fn(name, params, ret, ident=None, lifetime=True, path=""):
    attr = '#[cfg_attr(feature = "userfn", function)]' if ident is None else f'#[cfg_attr(feature = "userfn", function(name = "{name}"))]'
    ident = ident or name
    def ty(k):
        t=path+T[k]
        if k=="l": return t
        return t+("<'a>" if lifetime else "<'_>")
    ps=", ".join(f"a{i}: {ty(k)}" for i,k in enumerate(params))
    # a result that borrows nothing may still be declared with the lifetime
    g="<'a>" if lifetime and ("n" in params or "v" in params) else ""
    r=T[ret] if ret=="l" else T[ret]+("<'a>" if g else "<'static>")
    args=", ".join(f"{C[k]}(a{i})" for i,k in enumerate(params))
    out.append(f'''{attr}
fn {ident}{g}({ps}) -> {path}{r} {{
    ret_{ret}(called("{name}", {M[ret]}, &[{args}]))
}}
''')
    sigs.append((name,params,ret))
n=0
for ret in "nvl":
    for k in range(4):
        for ps in itertools.product("nvl",repeat=k):
            name=f"f{ret}_{''.join(ps)}" if ps else f"f{ret}0"
            fn(name,"".join(ps),ret,path="" if n%3 else "serde_json_path::functions::")
            n+=1
for name,ps,ret,ident in [("x","v","v",None),("z","n","l",None),("q","","v",None),("nullable","v","l",None),("nulls","n","v",None),("trueish","v","l",None),("true_","l","v",None),
        ("true1","v","v",None),("falsey","n","l",None),("false0","v","l",None),("lengthy","v","v",None),("length2","v","l",None),("count_all","n","v",None),("matches","vv","l",None),
        ("search1","vv","l",None),("values","n","n",None),("value_","v","v",None),("lengt","v","v",None),("a1_b2__3","v","v",None),("e1","v","v",None),
        ("true","v","l","kw_true"),("null","n","v","kw_null"),("false","","l","kw_false"),("renamed","nv","l","original"),("fn","v","v","kw_fn"),("y9","l","n","other_name"),("r","v","l","x9")]:
    fn(name,ps,ret,ident)
# longer signatures, each kind in each place of some
for ps,ret in [("vnlv","v"),("lvnn","l"),("nllv","n"),("nlvnl","l"),("vvnlv","n"),("lnvlnv","v"),("vvvvvv","l"),("nvlnvln","l"),("llllvvvnn","v"),("vnlvnlvnlvnl","n")]:
    fn(f"g{len(ps)}_{ret}{ps[0]}",ps,ret)
# long names: of lengths around powers of two, names that begin or end alike, and one a part of the other
for name,ps,ret in [("ends_with_one","v","l"),("ends_with_one_of","vv","l"),("ends_with_one_of_the_values","nv","v"),("any_of_the_nodes_is_a_string_1","n","l"),("any_of_the_nodes_is_a_string_22","n","v"),("any_of_the_nodes_is_a_string__33","n","l"),
        ("a"*15,"v","v"),("a"*16,"v","l"),("a"*17,"n","v"),("abcdefgh01234567","","v"),("abcdefgh012345678","l","v"),("a"+"_9"*31+"z","v","v"),("a"+"_9"*31+"y","n","v"),("x"+"_long"*26,"v","l"),("l"+"0"*254,"n","n"),("l"+"0"*255,"v","n")]:
    fn(name,ps,ret)
# functions that no query can call, as their names are not function names
ODD=["Lower","lOwer","camelCase","with-dash","with space","é","x\u00e9","1st","_first","a.b","a(b","","@","UPPER","\u0131d","ｘ","x1 "," x1","$","*","length(@)","nonl\\n"]
for i,name in enumerate(ODD):
    out.append(f'''#[cfg_attr(feature = "userfn", function(name = "{name}"))]
fn odd{i}(v: ValueType<'_>) -> ValueType<'_> {{
    v
}}
''')
out.append("pub const ODD: [&str; %d] = [%s];\n" % (len(ODD), ", ".join(f'"{n}"' for n in ODD)))
out.append("macro_rules! sig {\n    ($name:expr, $ret:expr, $($p:expr),*) => {\n        FnSig { name: $name, params: &[$($p),*], ret: $ret, user: Some(run) }\n    };\n}\n")
out.append(f"pub static USER: [FnSig; {len(sigs)}] = [")
for name,ps,ret in sigs:
    out.append(f'    sig!("{name}", {M[ret]}, {", ".join(M[p] for p in ps)}),')
out.append("];\n\npub const FUNCS: crate::eval::Funcs = crate::eval::Funcs { user: &USER, regex: true };")
open(os.path.join(os.path.dirname(__file__),"../harness/src/userfn.rs"),"w").write("\n".join(out)+"\n")
