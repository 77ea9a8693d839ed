//! Reference tokens, reference lexer (byte based, written from the token rules documented in the
//! grammar file, shares no code with the parser) and the layout printer.
use crate::choice::Src;
use crate::dict;

/// Terminal kinds. Keywords and punctuation are named by their spelling.
pub const TERMINALS: &[&str] = &[
    "+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",", "=>", "->", "=", "&", "<-", ":=", "@", "-", "_",
    "forall", "builtin", "library", "import", "let", "in", "match", "with", "end", "fun", "tfun", "contract",
    "transition", "send", "field", "accept", "exists", "delete", "throw", "Map", "scilla_version", "type", "of", "as",
    "procedure", "Emp", "event", "Event", "ByStr",
    // classes
    "<BYSTRN>", "<NUM>", "<HEX>", "<ID>", "<TID>", "<CID>", "<SPID>", "<STR>", "<UNKNOWN>",
];

pub type Kind = u8;

pub fn kind(name: &str) -> Kind {
    TERMINALS.iter().position(|t| *t == name).unwrap_or_else(|| panic!("no terminal {name}")) as Kind
}
pub fn kind_name(k: Kind) -> &'static str {
    TERMINALS[k as usize]
}
pub fn is_class(k: Kind) -> bool {
    let n = kind_name(k);
    n.len() > 2 && n.starts_with('<')
}

pub const KEYWORDS: &[&str] = &[
    "forall", "builtin", "library", "import", "let", "in", "match", "with", "end", "fun", "tfun", "contract",
    "transition", "send", "field", "accept", "exists", "delete", "throw", "Map", "scilla_version", "type", "of", "as",
    "procedure", "Emp", "event", "Event", "ByStr",
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: Kind,
    pub text: String,
}

impl Tok {
    pub fn kw(name: &str) -> Tok {
        Tok { kind: kind(name), text: name.to_string() }
    }
    pub fn class(class: &str, text: impl Into<String>) -> Tok {
        Tok { kind: kind(class), text: text.into() }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LexTok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
}

fn word_end(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
        i += 1;
    }
    i
}

/// Reference lexer. Lexing goes on after an <UNKNOWN> token of one character, but nothing is
/// specified about what follows one.
pub fn ref_lex(s: &str) -> Vec<LexTok> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let push = |k: &str, a: usize, e: usize, out: &mut Vec<LexTok>| {
        out.push(LexTok { kind: kind(k), start: a, end: e });
        e
    };
    while i < b.len() {
        let c = s[i..].chars().next().unwrap();
        if c.is_whitespace() {
            i += c.len_utf8();
            continue;
        }
        let rest = &s[i..];
        if let Some(body) = rest.strip_prefix("(*") {
            match body.find("*)") {
                Some(p) => {
                    i += 2 + p + 2;
                    continue;
                }
                None => {
                    push("<UNKNOWN>", i, i + 2, &mut out);
                    return out;
                }
            }
        }
        if let Some(op) = ["=>", "->", "<-", ":="].iter().find(|o| rest.starts_with(**o)) {
            i = push(op, i, i + 2, &mut out);
            continue;
        }
        match b[i] {
            b'-' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => {
                let mut e = i + 1;
                while e < b.len() && b[e].is_ascii_digit() {
                    e += 1;
                }
                i = push("<NUM>", i, e, &mut out);
            }
            b'_' => {
                let e = word_end(b, i);
                i = push(if e == i + 1 { "_" } else { "<SPID>" }, i, e, &mut out);
            }
            b'a'..=b'z' | b'A'..=b'Z' => {
                let e = word_end(b, i);
                let w = &s[i..e];
                let k = if KEYWORDS.contains(&w) {
                    w
                } else if b[i].is_ascii_lowercase() {
                    "<ID>"
                } else if w.len() > 5 && w.starts_with("ByStr") && w[5..].bytes().all(|x| x.is_ascii_digit()) {
                    "<BYSTRN>"
                } else {
                    "<CID>"
                };
                i = push(k, i, e, &mut out);
            }
            b'\'' if i + 1 < b.len() && b[i + 1].is_ascii_uppercase() => {
                let e = word_end(b, i + 1);
                i = push("<TID>", i, e, &mut out);
            }
            b'0' if i + 1 < b.len() && (b[i + 1] | 32) == b'x' => {
                let mut e = i + 2;
                while e + 1 < b.len() && b[e].is_ascii_hexdigit() && b[e + 1].is_ascii_hexdigit() {
                    e += 2;
                }
                i = push("<HEX>", i, e, &mut out);
            }
            b'0'..=b'9' => {
                let mut e = i;
                while e < b.len() && b[e].is_ascii_digit() {
                    e += 1;
                }
                i = push("<NUM>", i, e, &mut out);
            }
            b'"' => {
                let mut e = i + 1;
                let mut closed = false;
                while e < b.len() {
                    match b[e] {
                        b'\\' => e += 2,
                        b'"' => {
                            closed = true;
                            e += 1;
                            break;
                        }
                        _ => e += 1,
                    }
                }
                if closed {
                    i = push("<STR>", i, e, &mut out);
                } else {
                    push("<UNKNOWN>", i, i + 1, &mut out);
                    return out;
                }
            }
            _ => {
                let one = &s[i..i + c.len_utf8()];
                let k = if c != '<' && c != '\'' && TERMINALS.contains(&one) { one } else { "<UNKNOWN>" };
                i = push(k, i, i + c.len_utf8(), &mut out);
            }
        }
    }
    out
}

pub fn lex_to_toks(s: &str) -> Vec<Tok> {
    ref_lex(s).into_iter().map(|t| Tok { kind: t.kind, text: s[t.start..t.end].to_string() }).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pos {
    pub offset: usize,
    pub line: usize,
    pub column: usize,
}

#[derive(Clone, Debug)]
pub struct Laid {
    pub text: String,
    pub spans: Vec<(Pos, Pos)>,
    pub has_comment: bool,
}

fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// Whether two adjacent tokens need something between them (conservative).
pub fn needs_sep(a: &str, b: &str) -> bool {
    let (x, y) = match (a.chars().last(), b.chars().next()) {
        (Some(x), Some(y)) => (x, y),
        _ => return true,
    };
    // whether a word directly before a foreign letter is still that word is not specified
    if wordish(x) && (wordish(y) || !y.is_ascii()) {
        return true;
    }
    let op = |c: char| "=-<>:+*&".contains(c);
    if op(x) && (op(y) || y.is_ascii_digit() || !y.is_ascii()) {
        return true;
    }
    (x == '(' && y == '*') || !x.is_ascii() || x == '\''
}

const BLANKS: &[&str] = &[
    " ", "\n", "  ", "\t", "\r\n", "\n\n", "\r", "\u{c}", "\u{b}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{85}", "\u{3000}", "    ",
    "\n  ", " \n", "\t\t",
];
const COMMENT_BITS: &[&str] = &[
    "x", " ", "*", "**", "(", ")", "\"", "'", "\n", "\r\n", "é", "漢字", "😀", "contract", "end", "{", "}", "->", "\t", "0x", "\\",
    "transition T ()", "field f : Uint32 =", "--", ";", "|", "with", "0", "_", "\u{2028}", ")(", "* )", "( *", "#",
];

pub fn gen_comment(s: &mut Src) -> String {
    let n = s.len(12);
    let mut c = String::new();
    if dict::rarely(s, 4) {
        // long
        let max = dict::max(s, 1_100, 66_000, 20);
        let n = dict::edge(s, max);
        let b = COMMENT_BITS[s.usize(COMMENT_BITS.len())];
        c.push_str(&b.repeat(n / b.len() + s.usize(2)));
    }
    for _ in 0..n {
        if s.rarely(20) {
            c.push_str(dict::pick(s, &dict::get().strings).unwrap_or(""));
        }
        c.push_str(dict::fresh_string(s, 8).unwrap_or(""));
        let b = COMMENT_BITS[s.usize(COMMENT_BITS.len())];
        c.push_str(b);
    }
    // no closer inside, no (nested) opener inside: nesting is outside the specified language
    while c.contains("*)") || c.contains("(*") {
        c = c.replace("*)", "* ").replace("(*", " *");
    }
    if c.ends_with('(') {
        c.push(' ');
    }
    // the asterisk of the opener is no part of a closer
    if s.rarely(8) {
        c.insert(0, ')');
    }
    format!("(*{c}*)")
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Plain,
    Minimal,
    Blanks,
    Comments,
    Mixed,
}

pub fn gen_style(s: &mut Src) -> Style {
    [Style::Plain, Style::Minimal, Style::Blanks, Style::Comments, Style::Mixed][s.weighted(&[3, 2, 2, 2, 3])]
}

/// A lot of blank.
fn far(s: &mut Src, g: &mut String) {
    let n = if s.chance(30) { 65_500 + s.usize(600) } else { dict::edge(s, 66_000) };
    // mostly a blank that leaves the following tokens on the same line
    let b = if s.chance(60) { [" ", "\t", "\r", "\u{a0}"][s.usize(4)] } else { BLANKS[s.usize(BLANKS.len())] };
    g.push_str(&b.repeat(n / b.len() + 1));
}

fn gap(s: &mut Src, style: Style, required: bool, has_comment: &mut bool) -> String {
    let mut g = String::new();
    match style {
        Style::Plain => g.push(' '),
        Style::Minimal => {}
        Style::Blanks => {
            for _ in 0..s.weighted(&[3, 4, 2, 1]) {
                g.push_str(BLANKS[s.usize(BLANKS.len())]);
            }
        }
        Style::Comments | Style::Mixed => {
            let p = if style == Style::Comments { 50 } else { 12 };
            for _ in 0..s.weighted(&[4, 4, 2]) {
                if s.chance(p) {
                    g.push_str(&gen_comment(s));
                    *has_comment = true;
                } else {
                    g.push_str(BLANKS[s.usize(BLANKS.len())]);
                }
            }
        }
    }
    if style != Style::Plain && s.draw(5_000) == 4_999 {
        far(s, &mut g);
    }
    if required && g.is_empty() {
        g.push(if style == Style::Minimal { ' ' } else { '\n' });
    }
    g
}

/// Lays tokens out as text; records where every token went.
pub fn layout(s: &mut Src, toks: &[Tok], style: Style) -> Laid {
    let mut text = String::new();
    let mut spans = Vec::with_capacity(toks.len());
    let mut has_comment = false;
    if style != Style::Plain {
        let g = gap(s, style, false, &mut has_comment);
        text.push_str(&g);
    }
    // at one place, far from the token before
    let at = if s.rarely(4) { Some(s.usize(toks.len() + 1)) } else { None };
    let mut prev: Option<&str> = None;
    for (i, t) in toks.iter().enumerate() {
        if at == Some(i) {
            far(s, &mut text);
        }
        if let Some(p) = prev {
            let g = gap(s, style, needs_sep(p, &t.text), &mut has_comment);
            // a gap that starts with a comment right after an operator must not merge with it
            text.push_str(&g);
        }
        let a = text.len();
        text.push_str(&t.text);
        spans.push((a, text.len()));
        prev = Some(&t.text);
    }
    if style != Style::Plain {
        let g = gap(s, style, false, &mut has_comment);
        text.push_str(&g);
    }
    let spans = positions(&text, &spans);
    Laid { text, spans, has_comment }
}

/// Line/column of byte ranges: lines are separated by line feeds, columns are byte distances.
pub fn positions(text: &str, spans: &[(usize, usize)]) -> Vec<(Pos, Pos)> {
    let mut starts = vec![0usize];
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            starts.push(i + 1);
        }
    }
    let at = |o: usize| {
        let line = starts.partition_point(|x| *x <= o) - 1;
        Pos { offset: o, line, column: o - starts[line] }
    };
    spans.iter().map(|(a, e)| (at(*a), at(*e))).collect()
}

/// Plain rendering: tokens separated by single spaces.
pub fn plain(toks: &[Tok]) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        o.push_str(&t.text);
    }
    o
}

// ---------------------------------------------------------------------------------------------
// lexeme generators

const LOWER_NAMES: &[&str] = &[
    "a", "x", "b", "foo", "owner", "x1", "in_", "inbox", "ending", "end_", "fields", "field1", "matchx", "lets", "of_x", "ofx", "asx",
    "accepted", "sender", "sends", "throws", "typed", "types", "contracts", "contract_", "transition1", "librarys", "imports", "withx",
    "funx", "tfunx", "fun_", "builtins", "foralls", "existsx", "deleted", "events", "event_", "procedures", "scilla_version1", "scilla",
    "map", "emp", "bystr20", "e", "i", "o", "aS", "iN", "eND", "x__", "a_", "z9_Z", "tag", "balance", "f0x", "n0", "letMatch", "inIn",
];
const UPPER_NAMES: &[&str] = &[
    "A", "B", "Foo", "T", "Nil", "Cons", "Some", "None", "True", "False", "Maps", "Map_", "Mapping", "Emps", "Empty", "Events", "Event_",
    "EventType", "ByStrange", "ByStr_", "ByStr20x", "ByStr1A", "ByStrX", "Optional", "Options", "Lists", "Pairs", "Int33", "Int321", "Int",
    "Uint", "Uint8", "Uint320", "Uint1288", "Strings", "BNumber", "BNums", "Boolean", "Bools", "MAP", "EMP", "END", "Contract", "Field",
    "Transition", "In", "Library", "X_", "Z__9", "Message", "Unit", "Exception", "Nat", "ByS", "BySt", "ByStR20", "BYSTR20",
];
const BUILTIN_UPPER: &[&str] = &[
    "Uint32", "Int32", "Int64", "Int128", "Int256", "Uint64", "Uint128", "Uint256", "String", "BNum", "Bool", "Option", "List", "Pair",
];

fn tail(s: &mut Src, first: &str, max: usize) -> String {
    const CS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    let mut o = first.to_string();
    let edge = if dict::get().fresh_ints.is_empty() { 1 } else { 12 };
    let n = match s.weighted(&[120, 60, 15, edge]) {
        0 => s.usize(4),
        1 => s.usize(12),
        2 => s.usize(max),
        _ => {
            // one letter many times: the word's length is at an edge
            let max = dict::max(s, 1_100, 66_000, 10);
            let n = dict::edge(s, max);
            let c = CS[s.usize(CS.len())] as char;
            o.extend(std::iter::repeat(c).take(n.saturating_sub(o.len())));
            return o;
        }
    };
    for _ in 0..n {
        o.push(CS[s.usize(CS.len())] as char);
    }
    o
}

fn not_a_keyword(w: String) -> String {
    if KEYWORDS.contains(&w.as_str()) { format!("{w}_") } else { w }
}

pub fn gen_lower(s: &mut Src) -> String {
    match s.weighted(&[12, 6, 1, dict::word_weight(5)]) {
        3 => not_a_keyword(dict::fresh_word(s, |c| c.is_ascii_lowercase(), &["a", "x_", "foo"])),
        2 => dict::pick(s, &dict::get().lower).unwrap_or("x").to_string(),
        0 => LOWER_NAMES[s.usize(LOWER_NAMES.len())].to_string(),
        _ => {
            let c = ((b'a' + s.usize(26) as u8) as char).to_string();
            not_a_keyword(tail(s, &c, 300))
        }
    }
}

/// A type-like name that is neither a keyword nor a ByStrN nor a built-in type name.
pub fn gen_custom(s: &mut Src) -> String {
    let plain = |o: String| {
        let bystr = o.len() > 5 && o.starts_with("ByStr") && o[5..].bytes().all(|x| x.is_ascii_digit());
        if KEYWORDS.contains(&o.as_str()) || bystr || BUILTIN_UPPER.contains(&o.as_str()) { format!("{o}_") } else { o }
    };
    match s.weighted(&[12, 6, 1, dict::word_weight(5)]) {
        3 => plain(dict::fresh_word(s, |c| c.is_ascii_uppercase(), &["A", "X_", "Foo", "ByStr"])),
        2 => plain(dict::pick(s, &dict::get().upper).unwrap_or("X").to_string()),
        0 => UPPER_NAMES[s.usize(UPPER_NAMES.len())].to_string(),
        _ => {
            let c = ((b'A' + s.usize(26) as u8) as char).to_string();
            plain(tail(s, &c, 300))
        }
    }
}

pub fn gen_upper(s: &mut Src) -> String {
    if s.chance(25) { BUILTIN_UPPER[s.usize(BUILTIN_UPPER.len())].to_string() } else { gen_custom(s) }
}

pub const BYSTR_SIZES: &[&str] =
    &["20", "0", "1", "2", "19", "21", "30", "32", "33", "64", "200", "255", "256", "65535", "65536", "4294967296", "18446744073709551615"];

pub fn gen_bystrn(s: &mut Src) -> String {
    let edge = if dict::get().fresh_ints.is_empty() { 1 } else { 6 };
    match s.weighted(&[12, 4, edge]) {
        2 => format!("ByStr{}", dict::edge(s, 70_000)),
        0 => format!("ByStr{}", BYSTR_SIZES[s.usize(BYSTR_SIZES.len())]),
        _ => format!("ByStr{}", s.usize(400)),
    }
}

const STR_BITS: &[&str] = &[
    "a", "hello", " ", "\\\"", "\\\\", "\\n", "\\t", "é", "漢字", "😀", "(*", "*)", "contract C ()", "end", "'", ";", "0x00", "{", "}", "|",
    "=>", "\\b", "\u{301}", "ß", "\t", "0", "_", ":=", "\u{a0}",
];

pub fn gen_string(s: &mut Src, newlines: bool) -> String {
    let mut o = String::from("\"");
    if dict::rarely(s, 5) {
        // long
        let max = dict::max(s, 1_100, 66_000, 10);
        let n = dict::edge(s, max);
        let b = STR_BITS[s.usize(STR_BITS.len())];
        o.push_str(&b.repeat(n / b.len() + s.usize(2)));
    }
    for _ in 0..s.len(14) {
        if s.rarely(20) {
            let t = dict::pick(s, &dict::get().strings).unwrap_or("");
            o.extend(t.chars().filter(|c| !['"', '\\', '\n'].contains(c)));
        }
        if let Some(t) = dict::fresh_string(s, 8) {
            o.extend(t.chars().filter(|c| !['"', '\\', '\n'].contains(c)));
        }
        if newlines && s.chance(15) {
            o.push('\n');
        } else {
            o.push_str(STR_BITS[s.usize(STR_BITS.len())]);
        }
    }
    o.push('"');
    o
}

pub fn gen_number(s: &mut Src) -> String {
    let fresh = if dict::get().fresh_ints.is_empty() { 1 } else { 5 };
    match s.weighted(&[10, 6, 4, 2, 2, fresh, 1]) {
        6 => {
            // zeros in front
            let sign = if s.chance(40) { "-" } else { "" };
            let n = match s.usize(3) {
                0 => 1 + s.usize(12),
                1 => s.usize(80),
                _ => dict::edge(s, 300),
            };
            format!("{sign}{}{}", "0".repeat(n), s.usize(1000))
        }
        5 => {
            let sign = if s.chance(15) { "-" } else { "" };
            match s.usize(3) {
                0 => format!("{sign}{}", dict::edge(s, 70_000)),
                1 => format!("{sign}{}", dict::edge(s, 1 << 40)),
                _ => {
                    let n = dict::edge(s, 300).max(1);
                    let d = s.usize(11);
                    sign.chars().chain((0..n).map(|i| (b'0' + if d == 10 { 1 + (i % 9) as u8 } else { d as u8 }) as char)).collect()
                }
            }
        }
        0 => s.usize(300).to_string(),
        1 => format!("-{}", s.usize(1000)),
        2 => {
            const N: &[&str] = &[
                "0", "00", "007", "-0", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616",
                "340282366920938463463374607431768211455", "-170141183460469231731687303715884105728",
                "115792089237316195423570985008687907853269984665640564039457584007913129639936",
            ];
            N[s.usize(N.len())].to_string()
        }
        3 => {
            let n = 1 + s.usize(100);
            (0..n).map(|_| (b'0' + s.usize(10) as u8) as char).collect()
        }
        _ => format!("-{}", "9".repeat(1 + s.usize(60))),
    }
}

pub fn gen_hex(s: &mut Src) -> String {
    const H: &[u8] = b"0123456789abcdefABCDEF";
    let mut o = String::from(if s.chance(15) { "0X" } else { "0x" });
    let edge = if dict::get().fresh_ints.is_empty() { 1 } else { 6 };
    let n = match s.weighted(&[16, 8, 4, edge]) {
        0 => s.usize(5),
        1 => 20,
        2 => s.usize(130),
        _ => dict::edge(s, 1_100),
    };
    for _ in 0..2 * n {
        o.push(H[s.usize(H.len())] as char);
    }
    o
}

pub fn gen_class(s: &mut Src, class: &str) -> String {
    match class {
        "<ID>" => gen_lower(s),
        "<CID>" => gen_upper(s),
        "<BYSTRN>" => gen_bystrn(s),
        "<NUM>" => gen_number(s),
        "<HEX>" => gen_hex(s),
        "<STR>" => gen_string(s, false),
        "<TID>" => format!("'{}", gen_tvar(s)),
        "<SPID>" => {
            const S: &[&str] = &["_sender", "_balance", "_amount", "_origin", "_this_address", "__", "_a", "_X", "_1", "_in", "_end", "_codehash"];
            match s.weighted(&[14, 6, 1, dict::word_weight(5)]) {
                3 => {
                    let w = dict::fresh_word(s, |_| true, &["_"]);
                    if w.starts_with('_') && w.len() > 1 { w } else { format!("_{w}") }
                }
                0 => S[s.usize(S.len())].to_string(),
                1 => tail(s, "_x", 60),
                _ => dict::pick(s, &dict::get().special).unwrap_or("_y").to_string(),
            }
        }
        other => panic!("no generator for {other}"),
    }
}

fn gen_tvar(s: &mut Src) -> String {
    const S: &[&str] = &["A", "B", "T", "Map", "Event", "ByStr20", "A1", "X_", "Emp"];
    match s.weighted(&[14, 5, 1, dict::word_weight(4)]) {
        3 => dict::fresh_word(s, |c| c.is_ascii_uppercase(), &["A", "T", "X_"]),
        0 => S[s.usize(S.len())].to_string(),
        1 => tail(s, "K", 60),
        _ => dict::pick(s, &dict::get().upper).unwrap_or("X").to_string(),
    }
}
