use crate::engine::{lib, Check, Cx, Fail, Outcome, Src};
use crate::{fail, oracle, sweep};
use serde_json::{json, Value};
use serde_json_path_core::spec::integer::Integer;
use std::str::FromStr;

pub static CHECK: Check = Check {
    id: "C10",
    rule: "A case is a decimal text (around 0, the array length, powers of two up to 2^130 or random digits, perhaps with leading \
           zeros, a plus sign, minus zero or inner blanks) put in every place of a query that takes an integer, and compared there with \
           its value as a big number; and a pair of in-range integers whose sum, difference and product are compared with 128-bit \
           arithmetic. Non-trivial: the text has at least two digits, or a sum or product near or beyond the limit; distinct by text and pair.",
    quick: 900_000,
    thorough: 40_000_000,
    run,
    fixed: Some(fixed),
    assumptions: &["128-bit integer arithmetic of the standard library"],
};

const MAX: i128 = (1 << 53) - 1;

/// The value of a well-formed integer in range
fn value(t: &str) -> Option<i64> {
    let d = t.strip_prefix('-').unwrap_or(t);
    let shape = !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) && (d == "0" && !t.starts_with('-') || !d.starts_with('0'));
    if !shape || d.len() > 30 {
        return None;
    }
    let v: i128 = t.parse().unwrap();
    (-MAX..=MAX).contains(&v).then_some(v as i64)
}

fn check_text(t: &str, len: usize) -> Outcome {
    let v = value(t);
    let doc = json!((0..len).collect::<Vec<_>>());
    let a = doc.as_array().unwrap();
    let l = len as i128;
    let templates: [(&str, fn(i128, i128, i128) -> bool); 7] = [
        ("$[{}]", |v, i, l| i == if v < 0 { l + v } else { v }),
        ("$[{}:]", |v, i, l| i >= if v < 0 { l + v } else { v }),
        ("$[:{}]", |v, i, l| i < if v < 0 { l + v } else { v }),
        ("$[:{}:1]", |v, i, l| i < if v < 0 { l + v } else { v }),
        ("$[9,{}]", |_, _, _| false),
        ("$[::{}]", |_, _, _| false),
        ("$[?@[{}]]", |_, _, _| false),
    ];
    for (k, (form, holds)) in templates.iter().enumerate() {
        let text = form.replace("{}", t);
        let p = match (oracle::parse(&text)?, v) {
            (Ok(p), Some(_)) => p,
            (Err(_), None) => continue,
            (Ok(p), None) => fail!("{text:?} has no well-formed integer in range, and is accepted as {p}"),
            (Err(e), Some(_)) => fail!("{text:?} has a well-formed integer in range, and is rejected: {e}"),
        };
        let v = i128::from(v.unwrap());
        match k {
            0..=3 => {
                let want: Vec<&Value> = a.iter().enumerate().filter(|(i, _)| holds(v, *i as i128, l)).map(|(_, x)| x).collect();
                oracle::check_places("integer in a selector", &text, &doc, &want, &oracle::query(&p, &text, &doc)?)?;
                oracle::check_places("integer in a selector, located", &text, &doc, &want, &oracle::values(&oracle::located(&p, &text, &doc)?))?;
            }
            5 => {
                // a step
                let want: Vec<&Value> = match v {
                    0 => vec![],
                    1.. => a.iter().step_by(v.min(1 << 40) as usize).collect(),
                    _ => a.iter().rev().step_by((-v).min(1 << 40) as usize).collect(),
                };
                oracle::check_places("integer as a step", &text, &doc, &want, &oracle::query(&p, &text, &doc)?)?;
            }
            _ => {}
        }
        // the value is kept exactly
        let shown = p.to_string();
        if !shown.contains(t) {
            fail!("{text:?} is displayed as {shown:?}");
        }
    }
    Ok(())
}

fn same(what: &str, a: i64, b: i64, want: i128, got: Option<Integer>) -> Outcome {
    let want = (-MAX..=MAX).contains(&want).then_some(want as i64);
    let ok = match (want, got) {
        (Some(w), Some(g)) => g == w && g.to_string() == w.to_string(),
        (None, None) => true,
        _ => false,
    };
    if !ok {
        fail!("{a} {what} {b} gives {got:?}, not {want:?}");
    }
    Ok(())
}

fn int(v: i64) -> Result<Integer, Fail> {
    Integer::try_from(v).map_err(|e| Fail::new(format!("Integer::try_from({v}) fails: {e}")))
}

fn check_pair(a: i64, b: i64) -> Outcome {
    let (x, y) = (int(a)?, int(b)?);
    let (wa, wb) = (i128::from(a), i128::from(b));
    same("+", a, b, wa + wb, lib("checked_add", || x.checked_add(y))?)?;
    same("-", a, b, wa - wb, lib("checked_sub", || x.checked_sub(y))?)?;
    same("*", a, b, wa * wb, lib("checked_mul", || x.checked_mul(y))?)?;
    if x.abs() != a.abs() || (x == y) != (a == b) || (x < y) != (a < b) || (x > b) != (a > b) || x.cmp(&y) != a.cmp(&b) {
        fail!("absolute value or order of {a} and {b} is wrong");
    }
    match (usize::try_from(x), usize::try_from(a)) {
        (Ok(p), Ok(q)) if p == q => {}
        (Err(_), Err(_)) => {}
        (p, q) => fail!("usize::try_from of {a} gives {p:?}, not {q:?}"),
    }
    Ok(())
}

fn check_conversions(v: i128) -> Outcome {
    let want = (-MAX..=MAX).contains(&v).then_some(v as i64);
    let is = |what: &str, got: Option<Integer>| -> Outcome {
        let ok = match (want, got) {
            (Some(w), Some(g)) => g == w,
            (None, None) => true,
            _ => false,
        };
        if !ok {
            fail!("{what} of {v} gives {got:?}");
        }
        Ok(())
    };
    is("Integer::try_from::<i128>", lib("try_from", || Integer::try_from(v).ok())?)?;
    if let Ok(x) = i64::try_from(v) {
        is("Integer::try_from::<i64>", lib("try_from", || Integer::try_from(x).ok())?)?;
    }
    if let Ok(x) = u64::try_from(v) {
        is("Integer::try_from::<u64>", lib("try_from", || Integer::try_from(x).ok())?)?;
    }
    if let Ok(x) = u128::try_from(v) {
        is("Integer::try_from::<u128>", lib("try_from", || Integer::try_from(x).ok())?)?;
    }
    if let Ok(x) = usize::try_from(v) {
        is("Integer::try_from::<usize>", lib("try_from", || Integer::try_from(x).ok())?)?;
    }
    if let Ok(x) = isize::try_from(v) {
        is("Integer::try_from::<isize>", lib("try_from", || Integer::try_from(x).ok())?)?;
    }
    if let Ok(x) = i32::try_from(v) {
        is("Integer::from::<i32>", Some(Integer::from(x)))?;
    }
    if let Ok(x) = u32::try_from(v) {
        is("Integer::from::<u32>", Some(Integer::from(x)))?;
    }
    if let Ok(x) = i16::try_from(v) {
        is("Integer::from::<i16>", Some(Integer::from(x)))?;
    }
    if let Ok(x) = u8::try_from(v) {
        is("Integer::from::<u8>", Some(Integer::from(x)))?;
    }
    is("Integer::from_str", lib("from_str", || Integer::from_str(&v.to_string()).ok())?)
}

fn fixed(all: bool) -> Result<u64, Fail> {
    let mut n = oracle::giant(|_, _, _| Ok(()))?;
    for t in [
        "0", "-0", "00", "01", "-01", "+1", "+0", "1", "-1", "--1", "- 1", "1 0", "9", "10", "-10", "1.0", "1e0", "0x1", "1_0", "٣", "１", "9007199254740990", "9007199254740991", "9007199254740992",
        "-9007199254740990", "-9007199254740991", "-9007199254740992", "09007199254740991", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103233", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457",
        "4294967296", "4294967297", "-4294967295", "2147483648", "100000000000000000000000000000000000000000000000000", "000000000000000000000000000000000000001",
    ] {
        for len in [0, 1, 3, 10] {
            check_text(t, len)?;
            n += 1;
        }
    }
    for c in crate::gen::many_chars(all).filter(|c| !c.is_ascii() || c.is_ascii_alphabetic()) {
        for t in [format!("{c}"), format!("1{c}"), format!("{c}1"), format!("-{c}"), format!("{c}0")] {
            check_text(&t, 3)?;
            n += 1;
        }
    }
    let edges = [0, 1, -1, 2, -2, 3, MAX as i64, -MAX as i64, MAX as i64 - 1, 1 - MAX as i64, 1 << 26, (1 << 27) - 1, 94_906_265, 94_906_266, -94_906_266, 1 << 52, (1 << 52) + 1, 1 << 32];
    for a in edges {
        for b in edges {
            check_pair(a, b)?;
            n += 1;
        }
    }
    for s in 0..126 {
        for d in -2i128..=2 {
            check_conversions((1i128 << s) + d)?;
            check_conversions(-(1i128 << s) + d)?;
            n += 2;
        }
    }
    Ok(n + repeated()?)
}

/// One thing repeated
fn repeated() -> Result<u64, crate::engine::Fail> {
    sweep::each(&[sweep::Of::Slices, sweep::Of::Selectors], |c| super::c07::judge(&c.text, &c.doc, &mut crate::engine::Cx::new(false)).map(drop))
}

fn text(src: &mut Src) -> String {
    let digits = match src.weighted(&[4, 4, 3, 2]) {
        0 => src.range(-12, 12).to_string(),
        1 => {
            let base = (1i128 << src.of(&[7u32, 8, 15, 16, 31, 32, 52, 53, 53, 53, 54, 63, 64, 65, 100, 126])) + i128::from(src.range(-3, 3));
            (if src.coin() { base } else { -base }).to_string()
        }
        2 => {
            let n = src.size(1, 40);
            (0..n).map(|_| char::from(b'0' + src.below(10) as u8)).collect()
        }
        _ => {
            // a multiple of 2^32 or 2^64 away from a small number
            let k = i128::from(src.range(1, 9)) << src.of(&[32u32, 64]);
            (i128::from(src.range(-3, 9)) + if src.coin() { k } else { -k }).to_string()
        }
    };
    match src.weighted(&[10, 1, 1, 1, 1]) {
        0 => digits,
        1 => format!("0{digits}"),
        2 => format!("-{digits}"),
        3 => format!("+{digits}"),
        _ => {
            let mut cs: Vec<char> = digits.chars().collect();
            let i = src.below(cs.len() + 1);
            cs.insert(i, src.of(&[' ', '.', '-', '_', 'e', 'a', '\u{660}']));
            cs.into_iter().collect()
        }
    }
}

fn edge(src: &mut Src) -> i64 {
    match src.weighted(&[2, 2, 3, 3]) {
        0 => src.range(-10, 10),
        1 => (MAX as i64 - src.range(0, 10)) * if src.coin() { 1 } else { -1 },
        2 => src.range(-(MAX as i64), MAX as i64),
        _ => {
            let m = 1i64 << (1 + src.below(52));
            (m + src.range(-1, 1)) * if src.coin() { 1 } else { -1 }
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let t = text(src);
    // a text that joins with its surroundings would be another query
    if t.trim() == t && !t.ends_with(['-', '+']) {
        check_text(&t, src.below(11))?;
        cx.label(if value(&t).is_some() { "well-formed and in range" } else { "not an integer in range" });
    }
    let a = edge(src);
    let b = match src.weighted(&[3, 2]) {
        0 => edge(src),
        // a product near the limit
        _ if a != 0 => {
            let q = MAX as i64 / a;
            (q + src.range(-1, 1)).clamp(-(MAX as i64), MAX as i64)
        }
        _ => 1,
    };
    check_pair(a, b)?;
    check_conversions(i128::from(a) * src.of(&[1i128, 1, 3, 1 << 11, 1 << 64]) + i128::from(src.range(-2, 2)))?;
    let far = (i128::from(a) * i128::from(b)).abs() > MAX / 2 || i128::from(a).abs() + i128::from(b).abs() > MAX;
    cx.label_if(far, "arithmetic near or beyond the limit");
    if t.len() > 1 || far {
        cx.nontrivial((&t, a, b));
        cx.sample(|| format!("{t:?}; {a} and {b}"));
    }
    Ok(())
}
