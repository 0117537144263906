use crate::ast::Ty;
use crate::engine::{Check, Cx, Fail, Outcome, Src};
use crate::{cli, fail};
use serde_json::Value;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub static CHECK: Check = Check {
    id: "C27",
    rule: "A case is a Rust program of a dozen functions with random names, parameter names, spellings of types and lifetimes, attribute \
           arguments and bodies, and a second one of as many functions each of which has one fault. The first must compile, and, when \
           run, must know each function under its name, accept calls as its signature says, and return what its body returns; every \
           function of the second must be reported by the compiler. Non-trivial: every program with a function of two or more \
           parameters; distinct by its text.",
    quick: 350,
    thorough: 12_000,
    run,
    fixed: Some(fixed),
    assumptions: &["the installed rustc", "functions return what they declare for every lifetime: bodies and signatures are valid Rust without the attribute"],
};

// ---------------------------------------------------------------- the compiler

struct Tools {
    deps: PathBuf,
    path: PathBuf,
    macros: PathBuf,
    json: PathBuf,
}

/// Build what the programs depend on, once
fn tools() -> &'static Tools {
    static T: OnceLock<Tools> = OnceLock::new();
    T.get_or_init(|| {
        let out = Command::new("cargo")
            .args(["build", "--offline", "--message-format=json"])
            .current_dir(cli::root().join("macrocheck"))
            .stderr(Stdio::piped())
            .output()
            .expect("cargo");
        let (mut path, mut macros, mut json) = (None, None, None);
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(m) = serde_json::from_str::<Value>(l) else { continue };
            if m["reason"] != "compiler-artifact" {
                continue;
            }
            let lib = || m["filenames"].as_array()?.iter().filter_map(Value::as_str).find(|f| f.ends_with(".rlib")).map(PathBuf::from);
            match m["target"]["name"].as_str() {
                Some("serde_json_path") => path = lib(),
                Some("serde_json_path_macros") => macros = lib(),
                Some("serde_json") => json = lib(),
                _ => {}
            }
        }
        let (Some(path), Some(macros), Some(json)) = (path, macros, json) else {
            panic!("building the dependencies of the programs failed: {}", String::from_utf8_lossy(&out.stderr));
        };
        Tools { deps: path.parent().unwrap().to_path_buf(), path, macros, json }
    })
}

/// A directory of its own, which goes when this does
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = cli::root().join("out/macro").join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

struct Report {
    success: bool,
    /// line numbers and messages of the errors
    errors: Vec<(usize, String)>,
}

fn compile(dir: &Scratch, text: &str, link: bool) -> Report {
    let t = tools();
    let file = dir.0.join("main.rs");
    fs::write(&file, text).expect("program");
    let mut cmd = Command::new("rustc");
    cmd.args(["--edition", "2021", "--error-format=json", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "codegen-units=1"]);
    cmd.arg("-L").arg(format!("dependency={}", t.deps.display()));
    for (n, p) in [("serde_json_path", &t.path), ("serde_json_path_macros", &t.macros), ("serde_json", &t.json)] {
        cmd.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    if link {
        cmd.arg("-o").arg(dir.0.join("program"));
    } else {
        cmd.arg("--emit=metadata").arg("--out-dir").arg(&dir.0);
    }
    let out = cmd.arg(&file).stdin(Stdio::null()).output().expect("rustc");
    let mut errors = vec![];
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        let Ok(m) = serde_json::from_str::<Value>(l) else { continue };
        if m["level"] != "error" {
            continue;
        }
        let msg = m["message"].as_str().unwrap_or("").to_string();
        for s in m["spans"].as_array().into_iter().flatten() {
            if s["is_primary"] == true {
                // an error within an expansion is where the expansion is
                let mut s = s;
                while s["file_name"].as_str().is_none_or(|f| !f.ends_with("main.rs")) && s["expansion"]["span"].is_object() {
                    s = &s["expansion"]["span"];
                }
                errors.push((s["line_start"].as_u64().unwrap_or(0) as usize, msg.clone()));
            }
        }
    }
    Report { success: out.status.success(), errors }
}

// ---------------------------------------------------------------- functions

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Rejected,
    Selects(bool),
}

#[derive(Debug, Clone)]
struct Fun {
    /// without the module around it
    src: String,
    /// in the same module as the one before
    joined: bool,
    queries: Vec<(String, Want)>,
    params: usize,
}

const HEADER: &str = "#[allow(unused_imports)] use serde_json_path::function;\n#[allow(unused_imports)] use serde_json_path::functions::{self, LogicalType, NodesType, ValueType};\n";

fn ty_name(t: Ty) -> &'static str {
    match t {
        Ty::Nodes => "NodesType",
        Ty::Value => "ValueType",
        Ty::Logical => "LogicalType",
    }
}

/// The type with one of its paths
fn ty_text(src: &mut Src, t: Ty, lifetime: &str) -> String {
    let q = src.pick(&["", "functions::", "serde_json_path::functions::", "::serde_json_path::functions::", "self::", "super::all::", "crate::all::"]);
    let lt = if t == Ty::Logical { String::new() } else { lifetime.to_string() };
    format!("{q}{}{lt}", ty_name(t))
}

const PARAM_NAMES: [&str; 34] = [
    "x", "y", "z", "v", "a", "args", "value", "nodes", "w", "i", "idx", "f", "res", "tk", "err", "core", "lazy", "name", "result", "_unused", "r#in", "r#type", "r#match", "arg0", "arg1",
    "b", "self_", "expected", "received", "position", "value_type", "it", "c", "d2",
];

/// Names that are equal but for the case or the underscores
const NEAR: [&str; 13] = ["ab", "a_b", "a__b", "ab_", "aB", "A_b", "AB", "_ab", "r#ab", "abc", "ab_validator", "AB_EVALUATOR2", "ab_evaluator"];

/// Names for the attribute, none of which is taken for another
const ATTR_NAMES: [&str; 28] = [
    "q_r", "q__r", "q___r", "q_r_", "q_r__", "qr", "qr_", "qr1", "qr01", "qr1_", "q1r", "q1_r", "qr2x", "qrqr", "q", "q_", "q9", "fn", "type", "self", "r", "rq", "match_", "matched", "lengths", "length2", "counter", "value_",
];

const FUN_NAMES: [&str; 18] =
    ["f", "x", "v", "a", "first", "to_text", "is_ok", "r#type", "r#match", "nodes", "h1", "function", "value_of", "len", "truely", "nullish", "falsey", "core"];

/// A name that no other function of the program has
fn fresh(src: &mut Src, used: &mut BTreeSet<String>, pool: &[&str]) -> String {
    let n = src.pick(pool).to_string();
    let bare = n.trim_start_matches("r#").to_string();
    if used.insert(bare.clone()) {
        return n;
    }
    let mut k = 2;
    loop {
        let n = format!("{}{k}", bare.trim_end_matches('_'));
        if used.insert(n.clone()) {
            return n;
        }
        k += 1;
    }
}

struct Sig {
    params: Vec<(String, Ty, String)>,
    ret: Ty,
    ret_text: String,
    generics: String,
    bounds: String,
    body: String,
    /// the parameter that is returned
    returned: Option<usize>,
}

fn signature(src: &mut Src, fun: &str) -> Sig {
    let n = if src.chance(1, 8) { src.size(5, 12) } else { src.size(0, 4) };
    let ret = src.of(&[Ty::Nodes, Ty::Value, Ty::Logical]);
    let generic = src.coin();
    let mut names = BTreeSet::new();
    let mut params = vec![];
    // one elided lifetime and no other can be elided in the return type
    let mut elided = 0;
    let mut lifetimes = vec![];
    for _ in 0..n {
        let ty = src.of(&[Ty::Nodes, Ty::Value, Ty::Logical]);
        let name = if src.chance(1, 8) && names.insert(fun.trim_start_matches("r#").to_string()) {
            fun.to_string()
        } else {
            fresh(src, &mut names, &PARAM_NAMES)
        };
        let lt = if generic { src.pick(&["<'a>", "<'b>", "", "<'_>"]) } else { src.pick(&["", "<'_>"]) };
        if ty != Ty::Logical {
            elided += if matches!(lt, "" | "<'_>") { 1 } else { 100 };
        }
        lifetimes.push(lt);
        let text = ty_text(src, ty, lt);
        let pat = if src.chance(1, 8) { format!("mut {name}") } else { name.clone() };
        params.push((name, ty, format!("{pat}: {text}")));
    }
    // what may be returned: a parameter whose lifetime the return type can name
    let can: Vec<usize> = (0..n)
        .filter(|&i| params[i].1 == ret)
        .filter(|&i| ret == Ty::Logical || matches!(lifetimes[i], "<'a>" | "<'b>") || elided == 1)
        .collect();
    let returned = if can.is_empty() || src.chance(1, 8) { None } else { Some(src.of(&can)) };
    let ret_lt = match returned {
        _ if ret == Ty::Logical => "",
        // 'b outlives 'a where both are there
        Some(i) if lifetimes[i] == "<'b>" => src.pick(&["<'b>", "<'a>"]),
        Some(i) if lifetimes[i] == "<'a>" => "<'a>",
        Some(_) => src.pick(&["", "<'_>"]),
        None if generic => src.pick(&["<'a>", "<'b>", "<'static>"]),
        None if elided == 1 => src.pick(&["<'static>", "", "<'_>"]),
        None => "<'static>",
    };
    let (generics, bounds) = match generic {
        false => ("", ""),
        true => src.of(&[("<'a, 'b: 'a>", ""), ("<'a, 'b>", " where 'b: 'a"), ("<'b: 'a, 'a>", ""), ("<'a, 'b,>", " where 'b: 'a,")]),
    };
    let body = match (returned, ret) {
        (Some(i), _) => match src.below(3) {
            0 => params[i].0.clone(),
            1 => format!("return {};", params[i].0),
            _ => format!("let answer = {}; answer", params[i].0),
        },
        (None, Ty::Nodes) => "functions::NodesType::default()".to_string(),
        (None, Ty::Value) => "functions::ValueType::from(7)".to_string(),
        (None, Ty::Logical) => "functions::LogicalType::True".to_string(),
    };
    let ret_text = ty_text(src, ret, ret_lt);
    Sig { params, ret, ret_text, generics: generics.to_string(), bounds: bounds.to_string(), body, returned }
}

fn assemble(src: &mut Src, s: &Sig, fun: &str, attr_name: Option<&str>) -> String {
    let attr = match attr_name {
        None => src.pick(&["#[function]", "#[serde_json_path::function]", "#[::serde_json_path::function]", "#[function()]"]).to_string(),
        Some(n) => {
            let a = format!("name = {n:?}");
            match src.below(3) {
                0 => format!("#[function({a})]"),
                1 => format!("#[serde_json_path::function({a})]"),
                _ => format!("#[function(\n    {a},\n)]"),
            }
        }
    };
    let before = src.pick(&["", "/// Documented\n", "#[allow(dead_code)]\n", "#[inline]\n"]);
    let vis = src.pick(&["", "pub ", "pub(crate) "]);
    let params: Vec<&str> = s.params.iter().map(|p| p.2.as_str()).collect();
    let comma = if params.is_empty() { "" } else { src.pick(&["", ","]) };
    let text = format!(
        "{before}{attr}\n{vis}fn {fun}{}({}{comma}) -> {}{} {{ {} }}\n",
        s.generics,
        params.join(", "),
        s.ret_text,
        s.bounds,
        s.body
    );
    match src.below(8) {
        1 => format!("#[allow(dead_code)] fn outer_{}() {{\n{text}}}\n", fun.trim_start_matches("r#")),
        _ => text,
    }
}

/// An argument for parameter `i`: the value 10 + i, the node of that value, or a truth
fn argument(src: &mut Src, ty: Ty, i: usize, truth: bool) -> String {
    match ty {
        Ty::Value => match src.below(3) {
            0 => format!("{}", 10 + i),
            1 => format!("@[{i}]"),
            _ => format!("value(@[{i}:{}])", i + 1),
        },
        Ty::Nodes => match src.below(3) {
            0 => format!("@[{i}]"),
            1 => format!("@[{i}:{}]", i + 1),
            _ => format!("@[?@=={}]", 10 + i),
        },
        Ty::Logical => match (src.below(3), truth) {
            (0, true) => format!("@[{i}]=={}", 10 + i),
            (0, false) => format!("@[{i}]!={}", 10 + i),
            (1, true) => format!("@[{i}]"),
            (1, false) => "@[19]".to_string(),
            (_, true) => "!@.a".to_string(),
            (_, false) => "@[1]&&@.a".to_string(),
        },
    }
}

fn queries(src: &mut Src, s: &Sig, name: &str) -> Vec<(String, Want)> {
    let truth: Vec<bool> = s.params.iter().map(|_| src.coin()).collect();
    let args: Vec<String> = s.params.iter().enumerate().map(|(i, p)| argument(src, p.1, i, truth[i])).collect();
    let call = |args: &[String]| format!("{name}({})", args.join(", "));
    let good = call(&args);
    let q = |t: String| format!("$[?{t}]");
    let mut out = vec![];
    match s.ret {
        Ty::Value => {
            let k = s.returned.map_or(7, |i| 10 + i);
            out.push((q(format!("{good} == {k}")), Want::Selects(true)));
            out.push((q(format!("{good} == {}", k + 1)), Want::Selects(false)));
            out.push((q(good.clone()), Want::Rejected));
        }
        Ty::Nodes => {
            out.push((q(good.clone()), Want::Selects(s.returned.is_some())));
            if let Some(i) = s.returned {
                out.push((q(format!("value({good}) == {}", 10 + i)), Want::Selects(true)));
            }
            out.push((q(format!("count({good}) == {}", u8::from(s.returned.is_some()))), Want::Selects(true)));
            out.push((q(format!("{good} == 1")), Want::Rejected));
        }
        Ty::Logical => {
            let t = s.returned.is_none_or(|i| truth[i]);
            out.push((q(good.clone()), Want::Selects(t)));
            out.push((q(format!("!{good}")), Want::Selects(!t)));
            out.push((q(format!("{good} == true")), Want::Rejected));
        }
    }
    // the same arguments with a fault, where the call would be used rightly
    let test = |c: String| if s.ret == Ty::Value { format!("$[?{c} == 1]") } else { format!("$[?{c}]") };
    let mut more = args.clone();
    more.push("1".to_string());
    out.push((test(call(&more)), Want::Rejected));
    if !args.is_empty() {
        let i = src.below(args.len());
        let mut fewer = args.clone();
        fewer.remove(i);
        out.push((test(call(&fewer)), Want::Rejected));
        let mut wrong = args.clone();
        wrong[i] = match s.params[i].1 {
            Ty::Value => src.pick(&["@.*", "@..a", "@[0]==1", "match(@,'a')"]),
            Ty::Nodes => src.pick(&["1", "'a'", "@[0]==1", "length(@)", "match(@,'a')"]),
            Ty::Logical => src.pick(&["1", "true", "length(@)"]),
        }
        .to_string();
        out.push((test(call(&wrong)), Want::Rejected));
    }
    out
}

const BUILTINS: [&str; 5] = ["length", "count", "match", "search", "value"];

fn good(src: &mut Src, used: &mut BTreeSet<String>) -> Fun {
    let fun = if src.chance(1, 3) { fresh(src, used, &NEAR) } else { fresh(src, used, &FUN_NAMES) };
    let own = fun.trim_start_matches("r#").to_string();
    let writable = own.starts_with(|c: char| c.is_ascii_lowercase()) && !own.contains(|c: char| c.is_ascii_uppercase());
    let sig = signature(src, &fun);
    let renamed = if !writable || src.chance(1, 3) || BUILTINS.contains(&own.as_str()) {
        Some(fresh(src, used, &["g", "renamed", "true_", "nullable", "as_text", "n_1", "t", "isin", "false1"]))
    } else {
        None
    };
    let text = assemble(src, &sig, &fun, renamed.as_deref());
    let known = renamed.clone().unwrap_or_else(|| own.clone());
    let mut queries = queries(src, &sig, &known);
    if renamed.is_some() && !BUILTINS.contains(&own.as_str()) {
        let first = queries[0].0.replacen(&format!("{known}("), &format!("{own}("), 1);
        // the first query may hold the name only once
        if first != queries[0].0 {
            queries.push((first, Want::Rejected));
        }
    }
    Fun { src: text, queries, params: sig.params.len(), joined: src.coin() }
}

/// A function with one fault
fn bad(src: &mut Src, used: &mut BTreeSet<String>) -> Fun {
    let fun = fresh(src, used, &FUN_NAMES[..5]);
    let mut s = signature(src, &fun);
    let fault = src.below(5);
    let mut wrapper = None;
    let mut prefix = None;
    match fault {
        // a parameter of another type
        0 => {
            let t = src.pick(&[
                "i64", "&str", "String", "bool", "serde_json::Value", "&serde_json::Value", "Vec<NodesType<'_>>", "Option<ValueType<'_>>", "(ValueType<'_>,)", "[LogicalType; 1]", "&LogicalType",
                "&mut LogicalType", "Box<LogicalType>", "crate::other::LogicalType", "crate::other::NodesType", "serde_json_path::NodeList<'_>", "&ValueType<'_>", "fn() -> LogicalType", "()",
                "impl Into<LogicalType>", "&'static NodesType<'static>", "<LogicalType as crate::other::Same>::LogicalType", "*const LogicalType", "crate::other::Alias",
            ]);
            let at = src.below(s.params.len() + 1);
            s.params.insert(at, ("p".into(), Ty::Logical, format!("other_: {t}")));
        }
        // a parameter that is not an identifier
        1 => {
            let p = src.pick(&["_: LogicalType", "(l): LogicalType", "LogicalType::True: LogicalType", "&l: &LogicalType", "(l, m): (LogicalType, LogicalType)", "ValueType::Nothing: ValueType<'_>"]);
            let at = src.below(s.params.len() + 1);
            s.params.insert(at, ("p".into(), Ty::Logical, p.to_string()));
        }
        // another return type
        2 => {
            let (t, b) = src.of(&[
                ("()", "()"),
                ("bool", "true"),
                ("i64", "7"),
                ("String", "String::new()"),
                ("serde_json::Value", "serde_json::Value::Null"),
                ("Option<LogicalType>", "None"),
                ("Result<LogicalType, ()>", "Err(())"),
                ("Vec<LogicalType>", "vec![]"),
                ("&'static LogicalType", "&LogicalType::True"),
                ("&'static str", "\"\""),
                ("(LogicalType,)", "(LogicalType::True,)"),
                ("[LogicalType; 1]", "[LogicalType::True]"),
                ("impl Into<bool>", "true"),
                ("Box<LogicalType>", "Box::new(LogicalType::True)"),
                ("crate::other::LogicalType", "crate::other::LogicalType"),
                ("crate::other::NodesType", "crate::other::NodesType"),
                ("serde_json_path::NodeList<'static>", "serde_json_path::NodeList::default()"),
                ("crate::other::Alias", "LogicalType::True"),
                ("!", "loop {}"),
                ("fn() -> LogicalType", "|| LogicalType::True"),
            ]);
            s.ret_text = t.to_string();
            s.body = b.to_string();
        }
        // a receiver
        3 => {
            let r = src.pick(&["self", "&self", "&mut self", "self: Box<Self>", "mut self"]);
            s.params.insert(0, ("self".into(), Ty::Logical, r.to_string()));
            s.body = match s.ret {
                Ty::Nodes => "functions::NodesType::default()",
                Ty::Value => "functions::ValueType::Nothing",
                Ty::Logical => "LogicalType::True",
            }
            .to_string();
            if src.coin() {
                wrapper = Some("struct Holder; impl Holder {\n");
            }
        }
        // no return type, or an attribute that is not one
        _ => match src.below(6) {
            0 | 1 => s.ret_text = String::new(),
            2 => prefix = Some("#[function(name)]"),
            3 => prefix = Some("#[function(name = 3)]"),
            4 => prefix = Some("#[function(name = \"aa\", name = \"bb\")]"),
            _ => prefix = Some("#[function(name = some_name)]"),
        },
    }
    let params: Vec<&str> = s.params.iter().map(|p| p.2.as_str()).collect();
    let (arrow, body) = if s.ret_text.is_empty() { ("", "") } else { (" -> ", s.body.as_str()) };
    let attr = prefix.unwrap_or_else(|| src.pick(&["#[function]", "#[serde_json_path::function]", "#[function(name = \"good\")]"]));
    let mut text = format!("{attr}\nfn {fun}{}({}){arrow}{}{} {{ {body} }}\n", s.generics, params.join(", "), s.ret_text, s.bounds);
    if let Some(w) = wrapper {
        text = format!("{w}{text}}}\n");
    }
    Fun { src: text, queries: vec![], params: params.len(), joined: false }
}

// ---------------------------------------------------------------- programs

const ALL: &str = "pub mod all { pub use serde_json_path::functions::*; }\n\
pub mod other { pub struct LogicalType; pub struct NodesType; pub type Alias = serde_json_path::functions::LogicalType;\n\
pub trait Same { type LogicalType; } impl Same for serde_json_path::functions::LogicalType { type LogicalType = Self; } }\n";

/// The text of a program, and the lines of each of its functions
fn program(funs: &[&Fun]) -> (String, Vec<(usize, usize)>) {
    let mut out = ALL.to_string();
    let mut lines = vec![];
    for (i, f) in funs.iter().enumerate() {
        if !f.joined || i == 0 {
            let _ = write!(out, "mod m{i} {{\n{HEADER}");
        }
        let from = out.matches('\n').count() + 1;
        out.push_str(&f.src);
        lines.push((from, out.matches('\n').count()));
        if funs.get(i + 1).is_none_or(|g| !g.joined) {
            out.push_str("}\n");
        }
    }
    let mut list = String::new();
    for (q, _) in funs.iter().flat_map(|f| &f.queries) {
        let _ = writeln!(list, "        {q:?},");
    }
    let _ = write!(
        out,
        "fn main() {{\n    let doc = serde_json::json!([[10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]]);\n    let queries: &[&str] = &[\n{list}    ];\n    for q in queries {{\n        \
         match serde_json_path::JsonPath::parse(q) {{\n            Ok(p) => println!(\"{{}} {{}}\", p.query(&doc).len(), p.query_located(&doc).len()),\n            \
         Err(e) => println!(\"rejected {{e}}\"),\n        }}\n    }}\n}}\n"
    );
    (out, lines)
}

fn check_good(funs: &[Fun], cx: &mut Cx) -> Outcome {
    let dir = Scratch::new();
    let funs: Vec<&Fun> = funs.iter().collect();
    let (text, lines) = program(&funs);
    let r = compile(&dir, &text, true);
    if !r.success {
        for (l, m) in &r.errors {
            if let Some(i) = lines.iter().position(|x| x.0 <= *l && *l <= x.1) {
                fail!("a function of a supported signature does not compile: {m}\n{}", funs[i].src);
            }
        }
        fail!("a program does not compile: {:?}\n{text}", r.errors);
    }
    let out = Command::new(dir.0.join("program")).stdin(Stdio::null()).output().expect("program");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut answers = text.lines();
    for f in funs {
        for (q, want) in &f.queries {
            let Some(a) = answers.next() else {
                fail!("a program ends on the query {q:?} with {}\n{}\n{}", out.status, String::from_utf8_lossy(&out.stderr), f.src);
            };
            let expected = match want {
                Want::Rejected => "rejected",
                Want::Selects(true) => "1 1",
                Want::Selects(false) => "0 0",
            };
            let fine = if *want == Want::Rejected { a.starts_with("rejected") } else { a == expected };
            cx.label(expected);
            if !fine {
                fail!("the query {q:?} should give {expected:?} and gives {a:?} for the function\n{}", f.src);
            }
        }
    }
    Ok(())
}

fn check_bad(funs: &[Fun], cx: &mut Cx) -> Outcome {
    let dir = Scratch::new();
    let mut left: Vec<&Fun> = funs.iter().collect();
    while !left.is_empty() {
        let (text, lines) = program(&left);
        let r = compile(&dir, &text, false);
        let hit: BTreeSet<usize> = r.errors.iter().filter_map(|(l, _)| lines.iter().position(|x| x.0 <= *l && *l <= x.1)).collect();
        if r.success {
            fail!("a function that the attribute does not support compiles:\n{}", left[0].src);
        }
        if hit.is_empty() {
            fail!("a program fails to compile for another reason: {:?}\n{text}", r.errors);
        }
        left = left.into_iter().enumerate().filter(|(i, _)| !hit.contains(i)).map(|(_, f)| f).collect();
        cx.label("compiler runs over faults");
    }
    Ok(())
}

fn fun(src: &str, queries: &[(&str, Want)]) -> Fun {
    Fun { src: format!("{src}\n"), queries: queries.iter().map(|(q, w)| (q.to_string(), w.clone())).collect(), params: 0, joined: false }
}

fn fixed(_: bool) -> Result<u64, Fail> {
    use Want::*;
    let mut cx = Cx::new(false);
    let goods = [
        fun("#[function] fn zero() -> LogicalType { LogicalType::True }", &[("$[?zero()]", Selects(true)), ("$[?zero(1)]", Rejected)]),
        fun("#[function] fn one(v: ValueType) -> ValueType { v }", &[("$[?one(1)==1]", Selects(true)), ("$[?one(@.*)==1]", Rejected), ("$[?one()==1]", Rejected)]),
        fun("#[function] fn two<'a>(n: NodesType<'a>, l: LogicalType) -> NodesType<'a> { if l.into() { n } else { NodesType::default() } }", &[
            ("$[?two(@.*, @[0])]", Selects(true)),
            ("$[?two(@.*, @.a)]", Selects(false)),
            ("$[?count(two(@.*, @[0]))==12]", Selects(true)),
            ("$[?two(@.*)]", Rejected),
            ("$[?two(@.*, 1)]", Rejected),
        ]),
        fun("#[function(name = \"three\")] fn other(a: ValueType, b: ValueType, c: ValueType) -> LogicalType { (a == b || b == c).into() }", &[
            ("$[?three(@[0], 11, @[1])]", Selects(false)),
            ("$[?other(1, 1, 1)]", Rejected),
            ("$[?three(1, 1)]", Rejected),
        ]),
        // defects that were repaired
        fun("#[function] fn shadow_v<'a>(v: NodesType<'a>, w: ValueType) -> NodesType<'a> { let _ = w; v }", &[("$[?shadow_v(@.*, 1)]", Selects(true))]),
        fun("#[function] fn same_name(same_name: ValueType) -> ValueType { same_name }", &[("$[?same_name(3)==3]", Selects(true))]),
        fun("#[function] fn r#move(r#in: ValueType) -> ValueType { r#in }", &[("$[?move(3)==3]", Selects(true))]),
        fun("#[function] fn bounded<'a, 'b>(x: NodesType<'a>, _y: NodesType<'b>) -> NodesType<'b> where 'a: 'b { x }", &[("$[?bounded(@.*, @.a)]", Selects(true))]),
    ];
    check_good(&goods, &mut cx)?;
    // in one module
    let mut near: Vec<Fun> = NEAR
        .iter()
        .filter(|n| **n != "r#ab")
        .enumerate()
        .map(|(i, n)| {
            let text = format!("#[function(name = \"near{i}\")] fn {n}({}) -> ValueType<'static> {{ {i}.into() }}", ["x: LogicalType", "x: ValueType", "x: NodesType", ""][i % 4]);
            let other = ["1", "@.*", "@[0]==1", "1"][i % 4];
            fun(&text, &[
                (&format!("$[?near{i}({})=={i}]", ["@", "1", "@.*", ""][i % 4]), Selects(true)),
                (&format!("$[?near{i}({})!={i}]", ["@", "1", "@.*", ""][i % 4]), Selects(false)),
                (&format!("$[?near{i}({other})=={i}]"), Rejected),
            ])
        })
        .chain(["cd", "c_d", "c__d", "cd_", "d", "c"].iter().enumerate().map(|(i, n)| {
            fun(&format!("#[function] fn {n}() -> ValueType<'static> {{ {i}.into() }}"), &[(&format!("$[?{n}()=={i}]"), Selects(true)), (&format!("$[?{n}(1)=={i}]"), Rejected)])
        }))
        .collect();
    // registered under these names
    for (i, n) in ATTR_NAMES.iter().enumerate() {
        let long = n.repeat(if i % 7 == 6 { 30 } else { 1 });
        near.push(fun(&format!("#[function(name = {long:?})] fn attr{i}() -> ValueType<'static> {{ {i}.into() }}"), &[(&format!("$[?{long}()=={i}]"), Selects(true)), (&format!("$[?{long}(1)=={i}]"), Rejected), (&format!("$[?attr{i}()=={i}]"), Rejected)]));
    }
    near.iter_mut().for_each(|f| f.joined = true);
    check_good(&near, &mut cx)?;
    let bads: Vec<Fun> = [
        "#[function] fn f(x: &str) -> LogicalType { LogicalType::True }",
        "#[function] fn f(x: ValueType) { }",
        "#[function] fn f(x: ValueType) -> bool { true }",
        "#[function] fn f(_: ValueType) -> LogicalType { LogicalType::True }",
        "struct S; impl S { #[function] fn f(&self) -> LogicalType { LogicalType::True } }",
        "#[function] fn f(self) -> LogicalType { LogicalType::True }",
        "#[function] struct S;",
        "#[function] static S: LogicalType = LogicalType::True;",
        "#[function] fn f(x: Option<ValueType>) -> LogicalType { LogicalType::True }",
        "#[function] fn f() -> Option<LogicalType> { None }",
        "#[function(name = f)] fn f() -> LogicalType { LogicalType::True }",
        "#[function] fn f(x: LogicalType, y: serde_json::Value) -> LogicalType { x }",
    ]
    .iter()
    .map(|s| fun(s, &[]))
    .collect();
    for b in &bads {
        check_bad(std::slice::from_ref(b), &mut cx)?;
    }
    Ok((goods.len() + near.len() + bads.len()) as u64)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut used = BTreeSet::new();
    let n = src.range(0, 14) as usize;
    let goods: Vec<Fun> = (0..n).map(|_| good(src, &mut used)).collect();
    if n > 0 {
        check_good(&goods, cx)?;
    }
    let m = src.range(0, 14) as usize;
    let bads: Vec<Fun> = (0..m).map(|_| bad(src, &mut used)).collect();
    check_bad(&bads, cx)?;
    for _ in 0..n {
        cx.label("functions that must compile");
    }
    for _ in 0..m {
        cx.label("functions that must not compile");
    }
    if goods.iter().any(|f| f.params > 1) {
        cx.nontrivial(goods.iter().map(|f| f.src.as_str()).collect::<String>());
        cx.sample(|| goods.iter().chain(&bads).map(|f| f.src.as_str()).collect());
    }
    Ok(())
}
