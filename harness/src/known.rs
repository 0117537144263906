//! The known findings: which of them known_findings.txt lists, and a demonstration of each.

use crate::oracle::Places;
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

static LIST: &str = include_str!("../../known_findings.txt");

/// (finding, what fails) for each finding that is listed for a property
pub fn listed(property: &str) -> Vec<(&'static str, &'static str)> {
    LIST.lines()
        .filter_map(|l| l.strip_prefix("known: property=")?.split_once(' '))
        .filter(|(p, _)| *p == property)
        .filter_map(|(_, rest)| rest.split_once(' '))
        .collect()
}

/// Whether any property lists a finding: if none does, no check tolerates it
pub fn tolerated(finding: &str) -> bool {
    LIST.lines().any(|l| l.starts_with("known: ") && l.split(' ').nth(2) == Some(finding))
}

/// Whether a finding still shows on the code under test
fn shows(finding: &str) -> bool {
    match finding {
        "F4" => {
            differs("$[?@[-1]==1]", json!([[1]]), &["$[0]"]) || differs("$[?length(@[-1])==1]", json!([["a"]]), &["$[0]"])
        }
        "F5" => differs("$.a[?@==$.b]", json!({"a": [[1.0]], "b": [1]}), &["$['a'][0]"]),
        "F6" => differs("$[?@>false]", json!([true]), &[]) || differs("$[?@.a<=@.b]", json!([1]), &["$[0]"]),
        "F7" => garbled("$[?!match(@,'a')]"),
        "F8" => garbled("$[\"a'b\"]"),
        "F18" => garbled("$..a"),
        "F16" => {
            let Ok(exe) = std::env::current_exe() else { return false };
            let s = Command::new(exe).args(["deep", "parens"]).stdout(Stdio::null()).stderr(Stdio::null()).status();
            s.is_ok_and(|s| s.signal().is_some())
        }
        _ => false,
    }
}

fn differs(text: &str, doc: Value, want: &[&str]) -> bool {
    let Ok(p) = JsonPath::parse(text) else { return true };
    let places = Places::of(&doc);
    let got: Vec<&str> = p.query(&doc).all().into_iter().map(|v| places.get(v).unwrap_or("")).collect();
    got != want
}

fn garbled(text: &str) -> bool {
    let Ok(p) = JsonPath::parse(text) else { return true };
    JsonPath::parse(&p.to_string()).map_or(true, |again| again != p)
}

/// The lines to print for a check that held
pub fn lines(property: &str) -> Vec<String> {
    listed(property).into_iter().filter(|(f, _)| shows(f)).map(|(f, what)| format!("{f} {what}")).collect()
}

/// Meant to be run in a process of its own, which it may end
pub fn deep(kind: &str) -> i32 {
    let n = 100_000;
    let text = match kind {
        "parens" => format!("$[?{}@{}]", "(".repeat(n), ")".repeat(n)),
        "filters" => format!("${}{}", "[?@".repeat(n), "]".repeat(n)),
        "calls" => format!("$[?{}@{}==1]", "length(".repeat(n), ")".repeat(n)),
        _ => return 2,
    };
    println!("{}", JsonPath::parse(&text).is_ok());
    0
}
