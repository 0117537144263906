//! Queries in which one thing is repeated, for every small number of repetitions and for numbers near powers of two
//! and of ten, each with a document on which the last repetition matters.

use crate::abnf::{self, Verdict};
use crate::ast::Query;
use crate::engine::{Fail, Outcome};
use crate::eval::Funcs;
use crate::userfn::FUNCS;
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Case {
    pub size: usize,
    pub text: String,
    pub doc: Value,
    pub tree: Query,
}

/// What is repeated
#[derive(Clone, Copy, PartialEq)]
pub enum Of {
    Segments,
    Selectors,
    Slices,
    Operands,
    Nests,
    Names,
    Literals,
    Blanks,
    Calls,
    Patterns,
    Members,
    Depth,
}
use Of::*;

pub const ALL: &[Of] = &[Segments, Selectors, Slices, Operands, Nests, Names, Literals, Blanks, Calls, Patterns, Members, Depth];

fn sizes(all: bool) -> Vec<usize> {
    let mut out: Vec<usize> = (0..=if all { 300 } else { 36 }).collect();
    for b in [40, 48, 50, 60, 64, 72, 80, 90, 96, 100, 120, 128, 150, 192, 200, 250, 256, 300, 400, 500, 512, 600, 800, 1000, 1024] {
        out.extend([b - 1, b, b + 1]);
    }
    out.sort_unstable();
    out.dedup();
    out
}

fn join(k: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..k).map(f).collect::<Vec<_>>().join(sep)
}

fn cat(k: usize, f: impl Fn(usize) -> String) -> String {
    join(k, "", f)
}

/// `{"NAME": …}` down to a core, with a neighbour at each level
fn chain(k: usize, core: Value, name: impl Fn(usize) -> String) -> Value {
    (0..k).rev().fold(core, |v, i| json!({name(i): v, "other": i}))
}

fn nest(k: usize, core: Value) -> Value {
    (0..k).fold(core, |v, i| json!([i, v]))
}

fn row(k: usize) -> Value {
    (0..k).map(Value::from).collect()
}

fn members(k: usize) -> Value {
    Value::Object((0..k).map(|i| (format!("m{i}"), json!(i))).collect())
}

/// Objects that differ in their members
fn table(k: usize) -> Value {
    (0..k).map(|i| json!({"a": i, "b": k - i, "c": [i]})).collect()
}

type Made = Option<(String, Value)>;
type Family = (Of, fn(usize) -> Made);

/// The name and those that are next to it
fn named(n: &str) -> Value {
    let mut m = Map::new();
    let chars: Vec<char> = n.chars().collect();
    let of = |cs: &[char]| cs.iter().collect::<String>();
    let k = chars.len();
    if k > 0 {
        m.insert(of(&chars[..k - 1]), json!("shorter"));
        m.insert(of(&chars[1..]), json!("cut"));
        m.insert(format!("{}y", of(&chars[..k - 1])), json!("last"));
        m.insert(format!("y{}", of(&chars[1..])), json!("first"));
        m.insert(format!("{}y{}", of(&chars[..k / 2]), of(&chars[k / 2 + 1..])), json!("middle"));
    }
    m.insert(format!("{n}x"), json!("longer"));
    m.insert(n.into(), json!("it"));
    Value::Object(m)
}

/// The string and those next to it, as elements
fn strings(n: &str) -> Value {
    let mut all: Vec<Value> = named(n).as_object().unwrap().keys().map(|k| json!(k)).collect();
    all.push(json!([n]));
    all.into()
}

fn up_to(k: usize, most: usize, f: impl FnOnce() -> (String, Value)) -> Made {
    (k <= most).then(f)
}

static FAMILIES: &[Family] = &[
    // segments
    (Segments, |k| Some((format!("${}", ".a".repeat(k)), chain(k, json!([1, {"a": 2}]), |_| "a".into())))),
    (Segments, |k| Some((format!("${}", cat(k, |i| format!(".n{i}"))), chain(k, json!([1]), |i| format!("n{i}"))))),
    (Segments, |k| Some((format!("${}", cat(k, |i| format!("['n{i}']"))), chain(k, json!([1]), |i| format!("n{i}"))))),
    (Segments, |k| Some((format!("${}", cat(k, |i| if i % 2 == 0 { format!("[\"n{i}\"]") } else { format!(" .n{i}") })), chain(k, json!([1]), |i| format!("n{i}"))))),
    (Segments, |k| Some((format!("${}", "[1]".repeat(k)), nest(k, json!([[0], [1]]))))),
    (Segments, |k| Some((format!("${}", "[-1]".repeat(k)), nest(k, json!({"a": 1}))))),
    (Segments, |k| Some((format!("${}[*]", "[1:]".repeat(k)), nest(k, json!({"a": 1}))))),
    (Segments, |k| up_to(k, 130, || (format!("${}", ".*".repeat(k)), nest(k, json!({"a": 1}))))),
    (Segments, |k| up_to(k, 130, || (format!("${}", "[?@.a || @[1]]".repeat(k)), nest(k, json!({"a": 1}))))),
    (Segments, |k| up_to(k, 64, || (format!("${}", cat(k, |i| format!("..n{i}"))), chain(k, json!([1]), |i| format!("n{i}"))))),
    (Segments, |k| up_to(k, 64, || (format!("${}", cat(k, |i| format!("..['n{i}','x']"))), chain(k, json!([1]), |i| format!("n{i}"))))),
    (Segments, |k| up_to(k, 10, || (format!("${}", "..*".repeat(k)), json!({"a": [1, {"b": [2, {"c": [3]}]}]})))),
    (Segments, |k| Some((format!("$[?@{} == 1]", cat(k, |i| format!(".n{i}"))), json!([chain(k, json!(1), |i| format!("n{i}")), chain(k, json!(2), |i| format!("n{i}")), chain(k.max(1) - 1, json!(1), |i| format!("n{i}"))])))),
    (Segments, |k| Some((format!("$[?$[0]{} == @]", cat(k, |i| format!("['n{i}']"))), json!([chain(k, json!(1), |i| format!("n{i}")), 1, null, 2])))),
    (Segments, |k| Some((format!("$[?@{}]", cat(k, |i| format!(".n{i}"))), json!([chain(k, json!(1), |i| format!("n{i}")), chain(k.max(1) - 1, json!({"x": 1}), |i| format!("n{i}"))])))),
    (Segments, |k| up_to(k, 300, || (format!("$[?!@{}]", "[1]".repeat(k)), json!([nest(k, json!(1)), nest(k.max(1) - 1, json!({"x": 1})), 2])))),
    (Segments, |k| up_to(k, 300, || (format!("$[?count(@{}) == 2]", cat(k, |_| ".a".into()) + ".*"), json!([chain(k, json!([1, 2]), |_| "a".into()), chain(k, json!([1]), |_| "a".into())])))),
    (Segments, |k| up_to(k, 300, || (format!("$[?length(@{}) == 2]", "[1]".repeat(k)), json!([nest(k, json!("ab")), nest(k, json!("abc")), [1, "ab"]])))),
    // selectors
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |i| i.to_string())), row(k + 2)))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ", ", |i| (k - i).to_string())), row(k + 2)))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, " ,", |i| format!("-{}", i + 1))), row(k + 2)))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |i| format!("'m{i}'"))), members(k + 2)))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |i| format!("\"m{}\"", k - i))), members(k + 2)))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |i| format!("{i}:{}", i + 1))), row(k + 2)))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |_| "0".into())), row(2)))),
    (Selectors, |k| Some((format!("$[{},1]", join(k + 1, ",", |_| "'a'".into())), json!({"a": 1})))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |_| "*".into())), json!([1, 2])))),
    (Selectors, |k| up_to(k, 300, || (format!("$[{}]", join(k + 1, ",", |i| format!("?@ == {i}"))), row(k + 2)))),
    (Selectors, |k| up_to(k, 300, || (format!("$..[{}]", join(k + 1, ",", |i| format!("'m{i}'"))), json!([members(k + 2), {"m0": {"m1": 1}}])))),
    (Selectors, |k| Some((format!("$[{}]", join(k + 1, ",", |i| ["0", "'m0'", "*", "::-1", "?@", "-1"][i % 6].into())), json!([[1], {"m0": 2}])))),
    (Selectors, |k| Some((format!("$[?@[{}]]", join(k + 1, ",", |i| format!("'n{i}'"))), json!([{format!("n{k}"): 1}, {format!("n{}", k + 1): 1}, {"n0": 1}])))),
    (Selectors, |k| Some((format!("$[?count(@[{}]) == {}]", join(k + 1, ",", |_| "0".into()), k + 1), json!([[1], [], [1, 2]])))),
    // slices and indices
    (Slices, |k| Some((format!("$[{k}]"), row(k + 1)))),
    (Slices, |k| Some((format!("$[-{},{k}]", k + 1), row(k + 1)))),
    (Slices, |k| Some((format!("$[-{},{k}]", k + 1), row(k)))),
    (Slices, |k| Some((format!("$[{k}:]"), row(k + 2)))),
    (Slices, |k| Some((format!("$[:{k}]"), row(k + 2)))),
    (Slices, |k| Some((format!("$[-{}:]", k + 1), row(k + 3)))),
    (Slices, |k| Some((format!("$[:-{}]", k + 1), row(k + 3)))),
    (Slices, |k| Some((format!("$[::{k}]"), row(2 * k + 3)))),
    (Slices, |k| Some((format!("$[::-{}]", k + 1), row(2 * k + 4)))),
    (Slices, |k| Some((format!("$[{}:{k}:-1]", k + 5), row(k + 3)))),
    (Slices, |k| Some((format!("$[{k}:{}:2]", 2 * k), row(2 * k + 3)))),
    (Slices, |k| Some((format!("$[-{}:-{}:3]", 2 * k + 1, k + 1), row(2 * k + 3)))),
    (Slices, |k| Some((format!("$.*[{k}::-1]"), json!([row(k), row(k + 1), row(k + 2), row(k + 3)])))),
    // operands
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, "||", |i| format!("@.a=={i}"))), table(k + 3)))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, " && ", |i| format!("@.a != {i}"))), table(k + 3)))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, " || ", |i| format!("@.n{i}"))), json!([{format!("n{k}"): 1}, {"n0": 1}, {format!("n{}", k + 1): 1}])))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, "&&", |i| format!("!@.n{i}"))), json!([{format!("n{k}"): 1}, {"n0": 1}, {format!("n{}", k + 1): 1}])))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, " || ", |i| format!("@.a == {i} && @.b == {}", k + 3 - i))), table(k + 3)))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, " && ", |i| format!("(@.a < {i} || @.a > {i})"))), table(k + 3)))),
    (Operands, |k| Some((format!("$[?{} || @.a == 0 && @.b]", join(k + 1, " && ", |i| format!("!(@.a == {i})"))), table(k + 3)))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, " || ", |i| format!("match(@, 'x{i}')"))), json!([format!("x{k}"), "x0", format!("x{}", k + 1)])))),
    (Operands, |k| Some((format!("$[?{}]", join(k + 1, " && ", |i| format!("!search(@, 'x{i}x')"))), json!([format!("x{k}x"), "x0x", format!("x{}x", k + 1)])))),
    (Operands, |k| up_to(k, 300, || (format!("$[?{}]", join(k + 1, " || ", |i| format!("length(@) == {i}"))), (0..k + 3).map(|i| json!(row(i))).collect()))),
    // nests
    (Nests, |k| up_to(k, 200, || (format!("$[?{}@.a{}]", "(".repeat(k), ")".repeat(k)), json!([{"a": 1}, {"b": 1}])))),
    (Nests, |k| up_to(k, 200, || (format!("$[?{}@.a{}]", "!(".repeat(k), ")".repeat(k)), json!([{"a": 1}, {"b": 1}])))),
    (Nests, |k| up_to(k, 200, || (format!("$[?{}@.a == 1{}]", "( ".repeat(k), " )".repeat(k)), json!([{"a": 1}, {"a": 2}])))),
    (Nests, |k| up_to(k, 200, || (format!("$[?{}@.a{}]", "(@.b || ".repeat(k), ")".repeat(k)), json!([{"a": 1}, {"b": 1}, {"c": 1}])))),
    (Nests, |k| up_to(k, 200, || (format!("$[?{}@.a{}]", cat(k, |i| format!("(@.n{i} && ")), ")".repeat(k)), json!([(0..k).map(|i| (format!("n{i}"), json!(1))).chain([("a".to_string(), json!(1))]).collect::<Map<_, _>>(), {"a": 1}])))),
    (Nests, |k| up_to(k, 200, || (format!("$[?{}@.a{}]", "(".repeat(k), cat(k, |i| format!(" || @.n{i})"))), json!([{format!("n{}", k.max(1) - 1): 1}, {"a": 1}, {"n0": 1}, {format!("n{k}"): 1}])))),
    (Nests, |k| up_to(k, 40, || (format!("$[?{}]", (0..k).fold("@ == 1".to_string(), |t, _| format!("@[?{t}]"))), json!([nest1(k, 1), nest1(k, 2), nest1(k.max(1) - 1, 1)])))),
    (Nests, |k| up_to(k, 40, || (format!("$[?{}]", (0..k).fold("@.a".to_string(), |t, i| if i % 2 == 0 { format!("@[?!({t})]") } else { format!("@[?{t}]") })), json!([nest1(k, 1), nest1(k.max(1) - 1, 2)])))),
    // names
    (Names, |k| up_to(k, 1025, || (format!("$.x{}", "a".repeat(k)), named(&format!("x{}", "a".repeat(k)))))),
    (Names, |k| Some((format!("$.{}", cat(k + 1, |i| ["é", "b_", "😀", "_", "n0"][i % 5].into())), named(&cat(k + 1, |i| ["é", "b_", "😀", "_", "n0"][i % 5].into()))))),
    (Names, |k| Some((format!("$..a{}", "1".repeat(k)), json!([named(&format!("a{}", "1".repeat(k)))])))),
    (Names, |k| Some((format!("$['{}']", "ab ".repeat(k)), named(&"ab ".repeat(k))))),
    (Names, |k| Some((format!("$[\"{}\"]", "'".repeat(k)), named(&"'".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "\\'".repeat(k)), named(&"'".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "\\\\".repeat(k)), named(&"\\".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "~/".repeat(k)), named(&"~/".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "~1~0".repeat(k)), named(&"~1~0".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "\\u00e9".repeat(k)), named(&"é".repeat(k))))),
    (Names, |k| Some((format!("$[\"{}\"]", "\\uD83D\\uDE00".repeat(k)), named(&"😀".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "\\n\\t\\r\\b\\f\\/".repeat(k)), named(&"\n\t\r\u{8}\u{c}/".repeat(k))))),
    (Names, |k| Some((format!("$['{}']", "\\u0000\\u001f\\u007f".repeat(k)), named(&"\0\u{1f}\u{7f}".repeat(k))))),
    (Names, |k| Some((format!("$[?@['{}'] == 'it']", "b".repeat(k)), json!([named(&"b".repeat(k)), {"b".repeat(k + 1): "it"}])))),
    // literals
    (Literals, |k| Some((format!("$[?@ == '{}']", "a".repeat(k)), strings(&"a".repeat(k))))),
    (Literals, |k| Some((format!("$[?@ > '{}']", "z".repeat(k)), strings(&"z".repeat(k))))),
    (Literals, |k| Some((format!("$[?'{}' <= @]", "é".repeat(k)), strings(&"é".repeat(k))))),
    (Literals, |k| Some((format!("$[?@ != \"{}\"]", "\\\"'".repeat(k)), strings(&"\"'".repeat(k))))),
    (Literals, |k| Some((format!("$[?@ == '{}']", "\\u0041\\ud83d\\ude00\\\\".repeat(k)), strings(&"A😀\\".repeat(k))))),
    (Literals, |k| up_to(k, 12, || (format!("$[?@ == 1.{}5]", "0".repeat(k)), json!([1, 1.5, 1.05, 1.005, 1.0005, 1.00005, 1.000005, 1.0000005])))),
    (Literals, |k| up_to(k, 90, || (format!("$[?@ == 1.5{}]", "0".repeat(k)), json!([1, 1.5, 15, 150, 0.15])))),
    (Literals, |k| up_to(k, 90, || (format!("$[?@ == 12e{}0]", "0".repeat(k.min(1))), json!([1, 12, 120, 1.2])))),
    (Literals, |k| up_to(k, 14, || (format!("$[?@ == 1{}]", "0".repeat(k)), (0..15).map(|i| json!(10u64.pow(i))).collect()))),
    (Literals, |k| up_to(k, 20, || (format!("$[?@ == 1e{k}]"), (0..19).map(|i| json!(10u64.pow(i))).collect()))),
    (Literals, |k| up_to(k, 20, || (format!("$[?@ < 1E-{k}]"), (0..22).map(|i| json!(5.0 / 10f64.powi(i + 1))).collect()))),
    (Literals, |k| Some((format!("$[?@ == {k}]"), json!([k, k + 1, k.max(1) - 1, k as f64, -(k as i64), k.to_string()])))),
    (Literals, |k| Some((format!("$[?@ > -{k}.5]"), json!([k, -(k as i64), -(k as i64) - 1, -(k as f64) - 0.5, -(k as f64) - 0.25])))),
    // calls
    (Calls, |k| up_to(k, 64, || (format!("$[?{}@{} == 'x']", "length(".repeat(k), ")".repeat(k)), json!(["x", 1, ["x"]])))),
    (Calls, |k| up_to(k, 300, || (format!("$[?length(@) == {k}]"), json!(["é".repeat(k), "a".repeat(k + 1), "😀".repeat(k), row(k), members(k), row(k + 1), members(k + 1)])))),
    (Calls, |k| Some((format!("$[?length(@) >= {}]", k + 1), json!(["a".repeat(k), "e\u{301}".repeat(k), row(k + 1), members(k)])))),
    (Calls, |k| Some((format!("$[?count(@.*) == {k}]"), json!([row(k), members(k), row(k + 1), [row(k)]])))),
    (Calls, |k| Some((format!("$[?count(@..*) == {}]", k + 1), json!([row(k), [row(k)], members(k + 1), [[row(k)]]])))),
    (Calls, |k| Some((format!("$[?value(@[{k}]) == {k}]"), json!([row(k), row(k + 1), [k]])))),
    (Calls, |k| Some((format!("$[?value(@..a) == 1]{}", "[?@]".repeat(k.min(2))), json!([chain(k, json!({"a": 1}), |i| format!("n{i}")), {"a": {"a": 1}}])))),
    (Calls, |k| up_to(k, 64, || (format!("$[?{}@.a{}]", "fl_l(".repeat(k), ")".repeat(k)), table(5)))),
    (Calls, |k| up_to(k, 64, || (format!("$[?{}@.a{} == 1]", "fv_v(".repeat(k), ")".repeat(k)), table(5)))),
    (Calls, |k| up_to(k, 64, || (format!("$[?{}@.*{}]", "fn_n(".repeat(k), ")".repeat(k)), table(5)))),
    (Calls, |k| Some((format!("$[?fl_v('{}')]", "a".repeat(k)), table(2)))),
    (Calls, |k| Some((format!("$[?fl_l({})]", join(k + 1, " || ", |i| format!("@.a == {i}"))), table(k.min(20) + 3)))),
    (Calls, |k| Some((format!("$[?fl_n(@[{}])]", join(k + 1, ",", |i| i.to_string())), json!([row(k), row(k + 1), row(k + 3)])))),
    // patterns
    (Patterns, |k| Some((format!("$[?match(@, '{}')]", "a".repeat(k)), strings(&"a".repeat(k))))),
    (Patterns, |k| Some((format!("$[?search(@, '{}b')]", "a".repeat(k)), json!([format!("{}b", "a".repeat(k)), "a".repeat(k), format!("x{}bx", "a".repeat(k + 1)), "b", "a"])))),
    (Patterns, |k| Some((format!("$[?match(@, '{}')]", ".".repeat(k)), json!(["é".repeat(k), "a".repeat(k + 1), "\n".repeat(k), "😀".repeat(k), "ab".repeat(k)])))),
    (Patterns, |k| up_to(k, 300, || (format!("$[?match(@, '{}')]", join(k + 1, "|", |i| format!("x{i}"))), json!([format!("x{k}"), "x0", format!("x{}", k + 1), format!("x{k}|x0"), "x"])))),
    (Patterns, |k| up_to(k, 300, || (format!("$[?match(@, 'a{{{k}}}')]"), strings(&"a".repeat(k))))),
    (Patterns, |k| up_to(k, 300, || (format!("$[?match(@, '[ab]{{{k},}}c')]"), json!([format!("{}c", "ab".repeat(k)), format!("{}c", "b".repeat(k)), format!("{}c", "b".repeat(k.max(1) - 1)), "c"])))),
    (Patterns, |k| up_to(k, 300, || (format!("$[?search(@, '^?[{}]')]", cat(k + 1, |i| char::from_u32(0x4e00 + 2 * i as u32).unwrap().to_string())).replace("^?", ""), json!(["一", "丁", char::from_u32(0x4e00 + 2 * k as u32).unwrap().to_string(), char::from_u32(0x4e01 + 2 * k as u32).unwrap().to_string()])))),
    (Patterns, |k| up_to(k, 100, || (format!("$[?match(@, '{}a{}')]", "(".repeat(k), ")".repeat(k)), json!(["a", "(a)", "b", "aa"])))),
    (Patterns, |k| up_to(k, 100, || (format!("$[?match(@, '{}a{}')]", "(".repeat(k), ")?".repeat(k)), json!(["a", "", "b", "aa"])))),
    (Patterns, |k| Some(("$[?match(@, '(ab)*')]".into(), strings(&"ab".repeat(k))))),
    (Patterns, |k| Some(("$[?search(@, 'z')]".into(), json!([format!("{}z", "é".repeat(k)), "é".repeat(k), format!("z{}", "a".repeat(k)), format!("{}z{}", "\n".repeat(k), "\r".repeat(k))])))),
    // members
    (Members, |k| Some(("$.*".into(), row(k)))),
    (Members, |k| Some(("$[*]".into(), members(k)))),
    (Members, |k| Some(("$..*".into(), json!([row(k), members(k)])))),
    (Members, |k| Some(("$[?@ >= 0]".into(), row(k)))),
    (Members, |k| Some(("$[?@ >= 0]".into(), members(k)))),
    (Members, |k| Some(("$[::-1]".into(), row(k)))),
    (Members, |k| Some(("$..[0]".into(), (0..k).map(|i| json!([i])).collect()))),
    (Members, |k| Some(("$..a".into(), table(k)))),
    (Members, |k| up_to(k, 300, || ("$[?@ == $[-1]]".into(), (0..k).map(|i| json!(i % 7)).collect()))),
    (Members, |k| Some(("$[?@ == $.x]".into(), json!({"a": row(k), "x": row(k), "b": row(k + 1), "c": members(k), "d": null})))),
    (Members, |k| Some(("$[?@ != $.x]".into(), json!({"a": members(k), "x": members(k), "b": members(k + 1), "c": row(k), "d": null})))),
    (Members, |k| up_to(k, 130, || ("$[?@ == $.x]".into(), json!({"a": nest(k, json!(1)), "x": nest(k, json!(1)), "b": nest(k, json!(2)), "c": nest(k + 1, json!(1))})))),
    (Members, |k| up_to(k, 130, || ("$..*..*".into(), json!([row(k), {"a": 1}])))),
    // depth
    (Depth, |k| up_to(k, 513, || ("$..z".into(), chain(k, json!({"z": 1}), |i| format!("n{i}"))))),
    (Depth, |k| up_to(k, 513, || ("$..[0]".into(), nest(k, json!([[1]]))))),
    (Depth, |k| up_to(k, 130, || ("$..*".into(), nest(k, json!({"a": [1]}))))),
    (Depth, |k| up_to(k, 130, || ("$..[?@.z]".into(), chain(k, json!({"z": 1}), |i| format!("n{i}"))))),
    (Depth, |k| up_to(k, 130, || ("$[?count(@..z) == 1]".into(), json!([chain(k, json!({"z": 1}), |i| format!("n{i}")), 1])))),
    (Depth, |k| up_to(k, 513, || ("$[?@..z]".into(), json!([chain(k, json!({"z": 1}), |i| format!("n{i}")), chain(k, json!({"y": 1}), |i| format!("n{i}"))])))),
    (Depth, |k| up_to(k, 130, || ("$[?value(@..z) == 1]".into(), json!([chain(k, json!({"z": 1}), |i| format!("n{i}")), chain(k, json!({"z": 2}), |i| format!("n{i}"))])))),
];

/// A list of one element, k times
fn nest1(k: usize, core: i32) -> Value {
    (0..k).fold(json!(core), |v, _| json!([v]))
}

/// A query with a gap `·` at every place where blank space may be
const GAPS: &[&str] = &["$·[·'a'·,·0·:·2·:·1·,·0·]·.b·..c", "$..[·'a'·]·..[·*·]", "$[·?·@.a·==·1·&&·!·@·.b·||·!·(·@.c·>=·'x'·)·&&·(·2·<·$·.d·)·]", "$[?·count(·@·[·0·,·1·]·)·==·1·,·?·!·match(·@·,·'a'·)·]·"];

fn gaps() -> Vec<(String, String)> {
    let mut out = vec![];
    for g in GAPS {
        let parts: Vec<&str> = g.trim_end_matches('·').split('·').collect();
        for i in 1..parts.len() {
            out.push((parts[..i].concat(), parts[i..].concat()));
        }
    }
    out
}

fn blanks(k: usize) -> Vec<(String, Value)> {
    let doc = json!([{"a": 1, "b": {"c": 2, "b": {"c": [3]}}}, "a", {"c": "w", "a": [1, {"c": 4}]}, {"c": "y", "a": 1, "b": 0}, [1], [1, 2]]);
    let mut out = vec![];
    for (i, (a, b)) in gaps().into_iter().enumerate() {
        let mixed: String = " \n\t\r".chars().cycle().skip(i).take(k).collect();
        out.push((format!("{a}{mixed}{b}"), doc.clone()));
        let one = ['\n', ' ', '\r', '\t'][(i + k) % 4];
        out.push((format!("{a}{}{b}", one.to_string().repeat(k)), doc.clone()));
    }
    if k <= 300 {
        for g in GAPS {
            out.push((g.trim_end_matches('·').replace('·', &" ".repeat(k)), doc.clone()));
        }
    }
    out
}

fn make(text: String, doc: Value, size: usize, funcs: Funcs) -> Option<Case> {
    match abnf::parse(&text, funcs) {
        Verdict::Accept(tree) => Some(Case { size, text, doc, tree }),
        Verdict::Unknown(_) => None,
        Verdict::Reject(why) => panic!("the sweep makes an invalid query: {text} {why}"),
    }
}

/// The queries in which one of these is repeated `k` times
pub fn of(what: &[Of], k: usize) -> Vec<Case> {
    let mut out = vec![];
    for (o, f) in FAMILIES {
        if what.contains(o) {
            if let Some((t, d)) = f(k) {
                out.extend(make(t, d, k, FUNCS));
            }
        }
    }
    if what.contains(&Blanks) {
        out.extend(blanks(k).into_iter().filter_map(|(t, d)| make(t, d, k, FUNCS)));
    }
    out
}

/// The text with one of its characters dropped, doubled or replaced near its end and its middle
pub fn faults(text: &str) -> Vec<String> {
    let chars: Vec<(usize, char)> = text.char_indices().collect();
    let mut out = vec![];
    for at in [chars.len() - 1, chars.len() * 2 / 3, chars.len() / 2] {
        let (i, c) = chars[at];
        let (front, back) = (&text[..i], &text[i + c.len_utf8()..]);
        out.push(format!("{front}{back}"));
        out.push(format!("{front}{c}{c}{back}"));
        out.push(format!("{front}]{back}"));
    }
    out
}

/// Judge them all; of several failures the first is returned, which does not depend on how they are scheduled
pub fn each(what: &[Of], f: impl Fn(&Case) -> Outcome + Sync) -> Result<u64, Fail> {
    let sizes = sizes(crate::cli::thorough());
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let failed: Mutex<Option<(usize, Fail)>> = Mutex::new(None);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(crate::engine::STACK)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let Some(&k) = sizes.get(i) else { break };
                    if failed.lock().unwrap().as_ref().is_some_and(|(j, _)| *j < i) {
                        break;
                    }
                    for c in of(what, k) {
                        if let Err(e) = f(&c) {
                            let mut failed = failed.lock().unwrap();
                            if failed.as_ref().is_none_or(|(j, _)| i < *j) {
                                *failed = Some((i, e));
                            }
                            break;
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                })
                .expect("spawn");
        }
    });
    match failed.into_inner().unwrap() {
        Some((_, e)) => Err(e),
        None => Ok(done.into_inner() as u64),
    }
}
