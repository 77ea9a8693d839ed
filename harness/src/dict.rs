//! A dictionary for the generators, as fuzzers build one: the literals that occur in the sources of
//! the code under test. It only steers what is generated (a limit or a special name in the code is
//! tried as a size or a name); no verdict depends on it. Literals that the sources contain more often
//! than they did when the harness was written (`dict_base.txt`, rewritten by the `vdict` program) are
//! "fresh" and tried much more often: a change under test tends to bring the value it depends on.
use crate::choice::Src;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

const BASE: &str = include_str!("dict_base.txt");

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<usize>,
    /// string and character literals
    pub strings: Vec<String>,
    pub lower: Vec<String>,
    pub upper: Vec<String>,
    pub special: Vec<String>,
    /// words of capitals
    pub env: Vec<String>,
    pub fresh_ints: Vec<usize>,
    pub fresh_strings: Vec<String>,
    /// words in the fresh strings
    pub fresh_words: Vec<String>,
}

fn word(s: &str) -> bool {
    !s.is_empty() && s.len() <= 80 && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
}

type Counts<T> = BTreeMap<T, usize>;

fn scan(text: &str, ints: &mut Counts<usize>, strings: &mut Counts<String>) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && at(i) != '\n' {
                i += 1;
            }
        } else if at(i) == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && at(i) != '"' && s.len() < 200 {
                if at(i) == '\\' {
                    i += 1;
                    s.push(match at(i) {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        x => x,
                    });
                } else {
                    s.push(at(i));
                }
                i += 1;
            }
            i += 1;
            // a number in a pattern or a message
            for n in s.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()) {
                *ints.entry(n).or_default() += 1;
            }
            *strings.entry(s).or_default() += 1;
        } else if at(i) == '\'' && at(i + 1) != '\\' && at(i + 2) == '\'' {
            *strings.entry(at(i + 1).to_string()).or_default() += 1;
            i += 3;
        } else if at(i) == '\'' && at(i + 1) == '\\' && at(i + 2) == 'u' && at(i + 3) == '{' {
            let h: String = c[i + 4..].iter().take_while(|x| x.is_ascii_hexdigit()).collect();
            if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                *strings.entry(x.to_string()).or_default() += 1;
            }
            i += 4;
        } else if at(i).is_ascii_digit() && !(i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut w = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                if at(i) != '_' {
                    w.push(at(i));
                }
                i += 1;
            }
            let n = if let Some(h) = w.strip_prefix("0x") {
                usize::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
            } else {
                let d: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            if let Some(n) = n {
                *ints.entry(n).or_default() += 1;
                if n < 63 {
                    // may be the exponent of `1 << n`
                    let back: String = c[..i].iter().rev().skip(w.len()).take(3).collect();
                    if back.contains("<<") {
                        *ints.entry(1 << n).or_default() += 1;
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = s.as_bytes().chunks(2).filter_map(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()).collect();
    String::from_utf8_lossy(&b).into_owned()
}

fn literals() -> (Counts<usize>, Counts<String>) {
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let mut todo = vec![std::path::PathBuf::from(root).join("src")];
    let (mut ints, mut strings) = Default::default();
    while let Some(p) = todo.pop() {
        if p.is_dir() {
            todo.extend(std::fs::read_dir(&p).into_iter().flatten().flatten().map(|e| e.path()));
        } else if let Ok(t) = std::fs::read_to_string(&p) {
            scan(&t, &mut ints, &mut strings);
        }
    }
    (ints, strings)
}

/// The contents of `dict_base.txt` for the sources as they are.
pub fn base() -> String {
    let (ints, strings) = literals();
    let i = ints.iter().map(|(n, k)| format!("i {n} {k}\n"));
    let s = strings.iter().map(|(t, k)| format!("s {} {k}\n", hex(t)));
    i.chain(s).collect()
}

fn load() -> (BTreeSet<usize>, BTreeSet<String>, BTreeSet<usize>, BTreeSet<String>) {
    if let Ok(saved) = std::env::var("VH_DICT") {
        // a replay brings the dictionary it was found with
        let t = unhex(&saved);
        let mut parts = t.split('\u{2}');
        let mut int = || -> BTreeSet<usize> { parts.next().unwrap_or("").split(',').filter_map(|n| n.parse().ok()).collect() };
        let (ints, fresh_ints) = (int(), int());
        let mut str = || -> BTreeSet<String> { parts.next().unwrap_or("").split('\u{1}').filter(|s| !s.is_empty()).map(String::from).collect() };
        let (strings, fresh_strings) = (str(), str());
        return (ints, strings, fresh_ints, fresh_strings);
    }
    let (ints, strings) = literals();
    let (mut i0, mut s0): (Counts<usize>, Counts<String>) = Default::default();
    for l in BASE.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let k = w[2].parse().unwrap();
        match w[0] {
            "i" => drop(i0.insert(w[1].parse().unwrap(), k)),
            _ => drop(s0.insert(unhex(w[1]), k)),
        }
    }
    let fi = ints.iter().filter(|(n, k)| i0.get(n).copied().unwrap_or(0) < **k).map(|(n, _)| *n).collect();
    let fs = strings.iter().filter(|(n, k)| s0.get(*n).copied().unwrap_or(0) < **k).map(|(n, _)| n.clone()).collect();
    (ints.into_keys().collect(), strings.into_keys().collect(), fi, fs)
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (ints, strings, fresh_ints, fresh_strings) = load();
        let mut d = Dict { ints: ints.into_iter().filter(|n| *n > 2).collect(), ..Dict::default() };
        d.fresh_ints = fresh_ints.into_iter().filter(|n| *n > 2).collect();
        d.fresh_strings = fresh_strings.into_iter().filter(|s| !s.is_empty()).collect();
        let mut fresh: Vec<String> = Vec::new();
        for s in &d.fresh_strings {
            for w in s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                if word(w) && !fresh.iter().any(|f| f == w) {
                    fresh.push(w.to_string());
                }
            }
        }
        d.fresh_words = fresh;
        let mut words: BTreeSet<String> = BTreeSet::new();
        for s in &strings {
            for w in s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                if word(w) {
                    words.insert(w.to_string());
                }
            }
        }
        d.strings = strings.into_iter().filter(|s| !s.is_empty()).collect();
        for w in words {
            let b = w.as_bytes();
            if crate::tok::KEYWORDS.contains(&w.as_str()) || b[0].is_ascii_digit() || w == "_" {
                continue;
            }
            if b.len() > 2 && b.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_') {
                d.env.push(w.clone());
            }
            match b[0] {
                b'_' => d.special.push(w),
                b'a'..=b'z' => d.lower.push(w),
                _ if w.len() > 5 && w.starts_with("ByStr") && w[5..].bytes().all(|x| x.is_ascii_digit()) => {}
                _ => d.upper.push(w),
            }
        }
        d
    })
}

impl Dict {
    pub fn encode(&self) -> String {
        let i = |l: &[usize]| l.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",");
        let s = |l: &[String]| l.iter().filter(|s| !s.contains(['\u{1}', '\u{2}'])).cloned().collect::<Vec<_>>().join("\u{1}");
        hex(&[i(&self.ints), i(&self.fresh_ints), s(&self.strings), s(&self.fresh_strings)].join("\u{2}"))
    }
}

const EDGES: &[usize] = &[
    15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999,
    1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537,
];

/// A size where limits are likely, at most `max`.
pub fn edge(s: &mut Src, max: usize) -> usize {
    let d = get();
    let near = |s: &mut Src, l: &[usize]| {
        let near: Vec<usize> = l.iter().copied().filter(|n| *n <= max).collect();
        if near.is_empty() { s.usize(max + 1) } else { near[s.usize(near.len())] + s.usize(3) - 1 }
    };
    let fresh = if d.fresh_ints.iter().any(|n| *n <= max) { 12 } else { 0 };
    let n = match s.weighted(&[3, 3, 1, fresh]) {
        0 => EDGES[s.usize(EDGES.iter().filter(|e| **e <= max).count().max(1))],
        1 => near(s, &d.ints),
        2 => s.usize(max + 1),
        _ => {
            // one more is the commonest way to cross a limit
            let n = near(s, &d.fresh_ints);
            if s.chance(25) { n + s.usize(40) } else { n + s.usize(2) }
        }
    };
    n.min(max)
}

/// With probability `p` in a thousand, or much more often when there are fresh numbers to try: for
/// branches that draw an `edge`.
pub fn rarely(s: &mut Src, p: u32) -> bool {
    let p = if get().fresh_ints.is_empty() { p } else { (p * 10).min(250) };
    s.rarely(p)
}

/// The limit for a size that is large with probability `p` in a hundred.
pub fn max(s: &mut Src, small: usize, large: usize, p: u32) -> usize {
    let p = if get().fresh_ints.iter().any(|n| *n > small && *n <= large) { p.max(60) } else { p };
    if s.chance(p) { large } else { small }
}

/// A length below `max` near a fresh number, now and then.
pub fn fresh_len(s: &mut Src, max: usize) -> Option<usize> {
    let d = get();
    if d.fresh_ints.iter().any(|n| *n <= max) && s.chance(4) {
        let near: Vec<usize> = d.fresh_ints.iter().copied().filter(|n| *n <= max).collect();
        return Some((near[s.usize(near.len())] + s.usize(3) - 1).min(max));
    }
    None
}

/// The weight of a branch that calls `fresh_word`.
pub fn word_weight(w: u32) -> u32 {
    if get().fresh_words.is_empty() { 0 } else { w }
}

/// A word that begins with a character `first` allows and is, contains, begins or ends with a fresh
/// word. Only if there are fresh words.
pub fn fresh_word(s: &mut Src, first: fn(char) -> bool, prefixes: &[&str]) -> String {
    let l = &get().fresh_words;
    let mut w = l[s.usize(l.len())].clone();
    let form = s.weighted(&[6, 2, 2, 2, 1, 1]);
    match form {
        0 => {}
        1 => w = format!("{}{w}", prefixes[s.usize(prefixes.len())]),
        2 => w += ["x", "_", "1", "20", "X", "__", "abc"][s.usize(7)],
        3 => w = format!("{}{w}{}", prefixes[s.usize(prefixes.len())], ["x", "_", "1", "A"][s.usize(4)]),
        4 => w = if s.chance(50) { w.to_ascii_uppercase() } else { w.to_ascii_lowercase() },
        _ => w = w.repeat(2 + s.usize(3)),
    }
    if w.chars().next().is_some_and(first) { w } else { format!("{}{w}", prefixes[s.usize(prefixes.len())]) }
}

/// A fresh string with probability `p` in a hundred, if there are any.
pub fn fresh_string(s: &mut Src, p: u32) -> Option<&'static str> {
    let l = &get().fresh_strings;
    if l.is_empty() || !s.chance(p) { None } else { Some(&l[s.usize(l.len())]) }
}

pub fn pick<'a>(s: &mut Src, l: &'a [String]) -> Option<&'a str> {
    if l.is_empty() { None } else { Some(&l[s.usize(l.len())]) }
}
