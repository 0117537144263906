//! Texts near the language of queries, and texts far from it.

use crate::engine::Src;
use crate::gen;

pub const TOKENS: [&str; 106] = [
    "$", "@", ".", "..", "*", "[", "]", "(", ")", ",", ":", "?", "!", "&&", "||", "==", "!=", "<", "<=", ">", ">=", "'", "\"", "\\", "-", "+", "0", "1", "-1",
    "01", "-0", "00", "1.5", "1e2", "1E-1", ".5", "5.", "1.e1", "0e", "-01", "true", "false", "null", "True", "NULL", "length(", "count(", "value(",
    "match(", "search(", "length", "a", "b", "é", "😀", "_", "a1", "1a", "\\u0061", "\\ud83d\\ude00", "\\uD83D", "\\uDE00", "\\n", "\\'", "\\\"", "\\/", "\\x", " ",
    "\t", "\n", "\r", "\u{a0}", "\u{c}", "\u{b}", "\u{feff}", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}", "@.a", "$.b", "@[0]", "@['a']", "[*]", "[?@.a]", "..*", ".*", "$[", "$..",
    "=", "&", "|", "===", "!==", "<>", "~", "/", "1e100", "1E-100", "e+099", "e007", "0.0e000", "1.50", "9007199254740991", "9007199254740992", "-9007199254740992",
];

pub fn token(src: &mut Src) -> String {
    match src.weighted(&[10, 1]) {
        0 => src.of(&TOKENS).to_string(),
        _ => gen::any_char(src).to_string(),
    }
}

fn boundary(src: &mut Src, s: &str) -> usize {
    let mut i = src.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// One edit, somewhere
pub fn once(src: &mut Src, s: &str) -> String {
    let i = boundary(src, s);
    let (a, b) = s.split_at(i);
    let rest = |n: usize| -> &str {
        let mut cs = b.chars();
        for _ in 0..n {
            cs.next();
        }
        cs.as_str()
    };
    match src.weighted(&[6, 5, 5, 1, 2, 2, 2, 1]) {
        0 => format!("{a}{}{b}", token(src)),
        1 => {
            let n = 1 + src.below(3);
            format!("{a}{}", rest(n))
        }
        2 => format!("{a}{}{}", token(src), rest(1)),
        3 => a.to_string(),
        4 => {
            // say something twice
            let n = 1 + src.below(4);
            let again: String = b.chars().take(n).collect();
            format!("{a}{again}{b}")
        }
        5 => {
            let mut cs = b.chars();
            match (cs.next(), cs.next()) {
                (Some(x), Some(y)) => format!("{a}{y}{x}{}", cs.as_str()),
                _ => s.to_string(),
            }
        }
        6 => {
            // move a piece elsewhere
            let n = 1 + src.below(5);
            let piece: String = b.chars().take(n).collect();
            let left = format!("{a}{}", rest(n));
            let j = boundary(src, &left);
            format!("{}{piece}{}", &left[..j], &left[j..])
        }
        _ => {
            let c = b.chars().next().map(|c| if c.is_lowercase() { c.to_uppercase().to_string() } else { c.to_lowercase().to_string() });
            format!("{a}{}{}", c.unwrap_or_default(), rest(1))
        }
    }
}

pub fn mutate(src: &mut Src, s: &str) -> String {
    let mut out = once(src, s);
    while src.chance(1, 3) {
        out = once(src, &out);
    }
    out
}

/// A sequence of tokens
pub fn soup(src: &mut Src, max: usize) -> String {
    let mut out = String::from(if src.chance(4, 5) { "$" } else { "" });
    if src.chance(1, 3) {
        out.push_str("[?");
    }
    for _ in 0..src.size(0, max) {
        let t = token(src);
        out.push_str(&t);
    }
    if src.coin() {
        out.push(']');
    }
    out
}

/// How deep brackets nest at most
pub fn depth(s: &str) -> usize {
    let mut d = 0usize;
    let mut max = 0;
    for c in s.chars() {
        match c {
            '[' | '(' => {
                d += 1;
                max = max.max(d);
            }
            ']' | ')' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    max
}

/// Queries that have each construct of the grammar, for `each_edit`
pub const BASES: [&str; 40] = [
    "$", "$.ab", "$.*", "$..a", "$..*", "$..[0]", "$['a\\n']", "$[\"a'\"]", "$[10]", "$[-1,'a']", "$[1:2:3]", "$[::-1]", "$[ : ]", "$[*,?@]", "$ .a\t[ 0 ]", "$[?@.a]", "$[?!@[0]]", "$[?$..a]",
    "$[?@.a && !@.b]", "$[?@.a||@.b&&@]", "$[?!(@.a || @)]", "$[?@.a == 1]", "$[?@['a']!=$[0]]", "$[?1.5e1<@]", "$[?@>=-0]", "$[?'a'<=\"b\"]", "$[?@ == null]", "$[?true!=false]", "$[?@[?@.a]]",
    "$[?length(@.a) == 1]", "$[?count(@.*)>0]", "$[?value(@..a) == 'x']", "$[?match(@, 'a.')]", "$[?!search(@.a,@.b)]", "$[?length(value(@.*))<3]", "$[?count( $..* ) != 2 ]", "$['\\u0061']",
    "$['\\uD83d\\uDe00']", "$.é_1[?@.😀]", "$[?fl_l(@.a == 1)]",
];

/// All texts that differ from `base` in one deletion, repetition or exchange of characters, or in one of `with` that is
/// put in or replaces a character
pub fn each_edit(base: &str, with: &str) -> Vec<String> {
    let cs: Vec<char> = base.chars().collect();
    let text = |parts: [&[char]; 3]| parts.concat().into_iter().collect::<String>();
    let mut out = vec![];
    for i in 0..=cs.len() {
        for c in with.chars() {
            out.push(text([&cs[..i], &[c], &cs[i..]]));
            if i < cs.len() {
                out.push(text([&cs[..i], &[c], &cs[i + 1..]]));
            }
        }
        if i < cs.len() {
            out.push(text([&cs[..i], &[], &cs[i + 1..]]));
            out.push(text([&cs[..=i], &[], &cs[i..]]));
        }
        if i + 1 < cs.len() {
            out.push(text([&cs[..i], &[cs[i + 1], cs[i]], &cs[i + 2..]]));
        }
    }
    out.sort();
    out.dedup();
    out
}
