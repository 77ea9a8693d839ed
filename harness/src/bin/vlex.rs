//! Checks on texts and tokens: C03 C04 C06 C09 C14. They use the lexer, the category parsers (their
//! verdicts and the debug text of their trees) and the parsing of a contract.
use lalrpop_util::ParseError;
use std::io::{Read, Write};
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser as p;
use scilla_parser::{Contract, Error};
use vcommon::choice::{hash64, Src};
use vcommon::dict;
use vcommon::grammar::{self, SampleCfg, Verdict};
use vcommon::iface::*;
use vcommon::runner::{self, fail, guard, CaseResult, Check, Info, GENERATED};
use vcommon::tok::{self, kind, kind_name, Kind, Pos, Tok};

// ----------------------------------------------------------------------------- code under test

/// How a category parser refused a text.
#[derive(Debug, Clone, PartialEq)]
enum Bad {
    /// start, end, kind and spelling of the blamed token, and what was expected
    Token(Pos, Pos, Kind, String, Vec<String>),
    End(Pos, Vec<String>),
    Other(String),
}

fn pos(s: &SourcePosition) -> Pos {
    Pos { offset: s.position, line: s.line, column: s.column }
}

fn token_kind(t: &Token<&str>) -> Kind {
    kind(match t {
        Token::Plus => "+",
        Token::Asterisk => "*",
        Token::Semicolon => ";",
        Token::Colon => ":",
        Token::Dot => ".",
        Token::Pipe => "|",
        Token::OpenBracket => "[",
        Token::CloseBracket => "]",
        Token::OpenParen => "(",
        Token::CloseParen => ")",
        Token::OpenBrace => "{",
        Token::CloseBrace => "}",
        Token::Comma => ",",
        Token::DoubleArrow => "=>",
        Token::Arrow => "->",
        Token::Equals => "=",
        Token::Ampersand => "&",
        Token::LeftArrow => "<-",
        Token::ColonEquals => ":=",
        Token::At => "@",
        Token::Minus => "-",
        Token::Underscore => "_",
        Token::Forall => "forall",
        Token::Builtin => "builtin",
        Token::Library => "library",
        Token::Import => "import",
        Token::Let => "let",
        Token::In => "in",
        Token::Match => "match",
        Token::With => "with",
        Token::End => "end",
        Token::Fun => "fun",
        Token::Tfun => "tfun",
        Token::Contract => "contract",
        Token::Transition => "transition",
        Token::Send => "send",
        Token::Field => "field",
        Token::Accept => "accept",
        Token::Exists => "exists",
        Token::Delete => "delete",
        Token::Throw => "throw",
        Token::Map => "Map",
        Token::ScillaVersion => "scilla_version",
        Token::Type => "type",
        Token::Of => "of",
        Token::As => "as",
        Token::Procedure => "procedure",
        Token::Emp => "Emp",
        Token::Event => "event",
        Token::EventType => "Event",
        Token::ByStr => "ByStr",
        Token::ByStrWithSize(_) => "<BYSTRN>",
        Token::Number(_) => "<NUM>",
        Token::HexNumber(_) => "<HEX>",
        Token::Identifier(_) => "<ID>",
        Token::TemplateIdentifier(_) => "<TID>",
        Token::CustomIdentifier(_) => "<CID>",
        Token::SpecialIdentifier(_) => "<SPID>",
        Token::StringLiteral(_) => "<STR>",
        _ => "<UNKNOWN>",
    })
}

fn bad<E: std::fmt::Debug>(e: ParseError<SourcePosition, Token<&str>, E>) -> Bad {
    match e {
        ParseError::UnrecognizedToken { token: (a, t, b), expected } => {
            Bad::Token(pos(&a), pos(&b), token_kind(&t), String::from(t), expected)
        }
        ParseError::ExtraToken { token: (a, t, b) } => Bad::Token(pos(&a), pos(&b), token_kind(&t), String::from(t), vec![]),
        ParseError::UnrecognizedEof { location, expected } => Bad::End(pos(&location), expected),
        other => Bad::Other(format!("{other:?}")),
    }
}

/// The categories whose parsers are tried.
const CATS: &[&str] = &[
    "Program", "ByteString", "TypeNameIdentifier", "ImportedName", "ImportDeclarations", "MetaIdentifier", "VariableIdentifier",
    "BuiltinArguments", "ScillaType", "TypeArgument", "AddressType", "AddressTypeField", "TypeMapKey", "TypeMapValue",
    "TypeMapValueArguments", "TypeMapValueAllowingTypeArguments", "LibraryDefinition", "LibrarySingleDefinition", "TypedIdentifier",
    "TypeAnnotation", "TypeAlternativeClause", "ContractTypeArguments", "FullExpression", "PatternMatchExpressionClause", "Pattern",
    "ArgumentPattern", "MessageEntry", "AtomicExpression", "ValueLiteral", "Statement", "StatementBlock",
    "BlockchainFetchArguments", "ComponentId", "PatternMatchClause", "RemoteFetchStatement", "MapAccess", "ParameterPair",
    "ComponentParameters", "ComponentDefinition", "TransitionDefinition", "ProcedureDefinition", "ComponentBody",
    "ContractDefinition", "ContractField", "WithConstraint",
];

/// Reusable parser objects, one per category.
struct Parsers {
    program: p::ProgramParser,
    expr: p::FullExpressionParser,
    ty: p::ScillaTypeParser,
    stmt: p::StatementBlockParser,
}

impl Parsers {
    fn new() -> Self {
        Parsers {
            program: p::ProgramParser::new(),
            expr: p::FullExpressionParser::new(),
            ty: p::ScillaTypeParser::new(),
            stmt: p::StatementBlockParser::new(),
        }
    }
}

/// Parses `text` as category number `c`: Ok(Ok(debug text, empty unless asked for)).
fn parse_cat(c: usize, text: &str, debug: bool) -> Result<Result<String, Bad>, String> {
    macro_rules! dispatch {
        ($($name:literal $parser:ident),* $(,)?) => {
            match CATS[c] {
                $($name => guard(|| {
                    let mut errors = vec![];
                    match p::$parser::new().parse(&mut errors, Lexer::new(text)) {
                        Ok(t) => Ok(if debug { format!("{t:?}") } else { String::new() }),
                        Err(e) => Err(bad(e)),
                    }
                }),)*
                other => panic!("{other}"),
            }
        };
    }
    dispatch!(
        "Program" ProgramParser, "ByteString" ByteStringParser, "TypeNameIdentifier" TypeNameIdentifierParser,
        "ImportedName" ImportedNameParser, "ImportDeclarations" ImportDeclarationsParser,
        "MetaIdentifier" MetaIdentifierParser, "VariableIdentifier" VariableIdentifierParser,
        "BuiltinArguments" BuiltinArgumentsParser, "ScillaType" ScillaTypeParser, "TypeArgument" TypeArgumentParser,
        "AddressType" AddressTypeParser, "AddressTypeField" AddressTypeFieldParser, "TypeMapKey" TypeMapKeyParser,
        "TypeMapValue" TypeMapValueParser, "TypeMapValueArguments" TypeMapValueArgumentsParser,
        "TypeMapValueAllowingTypeArguments" TypeMapValueAllowingTypeArgumentsParser,
        "LibraryDefinition" LibraryDefinitionParser, "LibrarySingleDefinition" LibrarySingleDefinitionParser,
        "TypedIdentifier" TypedIdentifierParser, "TypeAnnotation" TypeAnnotationParser,
        "TypeAlternativeClause" TypeAlternativeClauseParser, "ContractTypeArguments" ContractTypeArgumentsParser,
        "FullExpression" FullExpressionParser, "PatternMatchExpressionClause" PatternMatchExpressionClauseParser,
        "Pattern" PatternParser, "ArgumentPattern" ArgumentPatternParser, "MessageEntry" MessageEntryParser,
        "AtomicExpression" AtomicExpressionParser, "ValueLiteral" ValueLiteralParser, "Statement" StatementParser,
        "StatementBlock" StatementBlockParser, "BlockchainFetchArguments" BlockchainFetchArgumentsParser,
        "ComponentId" ComponentIdParser, "PatternMatchClause" PatternMatchClauseParser,
        "RemoteFetchStatement" RemoteFetchStatementParser, "MapAccess" MapAccessParser,
        "ParameterPair" ParameterPairParser, "ComponentParameters" ComponentParametersParser,
        "ComponentDefinition" ComponentDefinitionParser, "TransitionDefinition" TransitionDefinitionParser,
        "ProcedureDefinition" ProcedureDefinitionParser, "ComponentBody" ComponentBodyParser,
        "ContractDefinition" ContractDefinitionParser, "ContractField" ContractFieldParser,
        "WithConstraint" WithConstraintParser,
    )
}

fn parse_contract(text: &str) -> Result<Result<Contract, Error>, String> {
    guard(|| text.parse::<Contract>())
}

#[derive(Debug, Clone, PartialEq)]
struct Lexeme {
    kind: Kind,
    start: usize,
    end: usize,
    text: String,
}

/// Tokenises; Err is a violation message.
fn lex(text: &str) -> Result<Vec<Lexeme>, String> {
    let limit = text.len() + 1;
    guard(|| {
        let mut out = Vec::new();
        for t in Lexer::new(text) {
            match t {
                Ok((a, t, b)) => {
                    out.push(Lexeme { kind: token_kind(&t), start: a.position, end: b.position, text: String::from(t) })
                }
                Err(e) => return Err(format!("lexer error {e:?}")),
            }
            if out.len() > limit {
                return Err(format!("more tokens than characters: {} and counting", out.len()));
            }
        }
        Ok(out)
    })
    .unwrap_or_else(|p| Err(format!("panic while tokenising: {p}")))
}

// ---------------------------------------------------------------------------------------- C03

const CHARS: &[&str] = &[
    " ", "\n", "\t", "\r", "\0", "\u{7f}", "\u{1}", "\u{b}", "\u{c}", "(", ")", "*", "(*", "*)", "\"", "\\", "\\\"", "'", "'A", "'a", "_",
    "-", "-1", "+", "+1", "<", "<-", "=", "=>", ":", ":=", "->", ".", ",", ";", "|", "[", "]", "{", "}", "&", "@", "#", "$", "%", "^",
    "!", "?", "/", "~", "`", "0", "9", "0x", "0xa", "0xAB", "0X1f", "a", "z", "A", "Z", "é", "É", "ß", "ı", "Ω", "漢", "字", "😀", "\u{301}",
    "\u{feff}", "\u{200b}", "\u{2028}", "\u{85}", "\u{a0}", "\u{fffd}", "\u{10ffff}", "٣", "²", "Ⅷ", "ａ", "１", "＿", "ª", "ʰ", "ByStr",
    "ByStr20", "ByStr٣", "ByStr99999999999999999999999999", "end", "in", "Map", "Emp", "contract", "transition", "field", "with",
    "scilla_version", "library", "let", "fun", "match", "forall", "éa", "aé", "Aé", "_é", "endé", "éend", "-é", "-٣", "0xé", "\"é\"",
];

fn bit(s: &mut Src) -> &'static str {
    match dict::fresh_string(s, 10) {
        Some(t) => t,
        None => CHARS[s.usize(CHARS.len())],
    }
}

fn gen_soup(s: &mut Src, max: usize) -> String {
    let n = match s.weighted(&[5, 4, 2, 1]) {
        0 => s.usize(8),
        1 => s.usize(40),
        2 => s.usize(200),
        _ => s.usize(max),
    };
    let mut o = String::new();
    for _ in 0..n {
        if s.chance(12) {
            let c = char::from_u32(match s.usize(4) {
                0 => s.draw(0x80),
                1 => s.draw(0x800),
                2 => s.draw(0x10000),
                _ => s.draw(0x110000),
            });
            o.push(c.unwrap_or('\u{fffd}'));
        } else {
            o.push_str(bit(s));
        }
    }
    o
}

/// Damage at the level of characters.
fn maul(s: &mut Src, text: &mut String) {
    let cut = |s: &mut Src, t: &str| -> usize {
        let mut i = s.usize(t.len() + 1);
        while !t.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    for _ in 0..1 + s.usize(4) {
        let i = cut(s, text);
        match s.usize(6) {
            0 => text.truncate(i),
            1 => {
                let x = gen_soup(s, 20);
                text.insert_str(i, &x);
            }
            2 => {
                let j = cut(s, text);
                text.replace_range(i.min(j)..i.max(j), "");
            }
            3 => {
                if let Some(c) = text[i..].chars().next() {
                    text.replace_range(i..i + c.len_utf8(), bit(s));
                }
            }
            4 => {
                // splice in a piece of another contract
                let (_, t) = &corpus()[s.usize(corpus().len())];
                let a = cut(s, t);
                let mut b = (a + s.usize(200)).min(t.len());
                while !t.is_char_boundary(b) {
                    b -= 1;
                }
                let piece = t[a..b.max(a)].to_string();
                text.insert_str(i, &piece);
            }
            _ => {
                // repeat a piece
                let j = cut(s, text);
                let piece = text[i.min(j)..i.max(j)].chars().take(40).collect::<String>();
                text.insert_str(i, &piece);
            }
        }
    }
}

/// Nested constructs: category and text.
fn gen_nested(s: &mut Src, levels: usize) -> (&'static str, String) {
    let rep = |open: &str, core: &str, close: &str| format!("{}{core}{}", open.repeat(levels), close.repeat(levels));
    let ty = |s: &mut Src| match s.usize(10) {
        0 => rep("(", "Uint32", ")"),
        1 => rep("Map Uint32 (", "Uint32", ")"),
        2 => rep("Map Uint32 ", "String", ""),
        3 => rep("List (", "Bool", ")"),
        4 => rep("Pair Bool (", "Bool", ")"),
        5 => rep("ByStr20 with contract field f : ", "Uint32", " end"),
        6 => rep("Uint32 -> ", "Uint32", ""),
        7 => rep("(", "Uint32", " -> Uint32)"),
        8 => rep("forall 'A . ", "'A", ""),
        _ => rep("Option (", "Bool", ")"),
    };
    let expr = |s: &mut Src| match s.usize(8) {
        0 => rep("let x = a in ", "x", ""),
        1 => rep("let x = ", "a", " in x"),
        2 => rep("fun (x : Bool) => ", "x", ""),
        3 => rep("tfun 'A => ", "x", ""),
        4 => rep("match x with | _ => ", "x", " end"),
        5 => format!("match x with | {} => x end", rep("Foo (", "_", ")")),
        6 => format!("fun (x : {}) => x", rep("(", "Bool", ")")),
        _ => format!("Emp Uint32 {}", rep("(Map Uint32 ", "Bool", ")")),
    };
    match s.usize(6) {
        0 => ("ScillaType", ty(s)),
        1 => ("FullExpression", expr(s)),
        2 => ("ComponentBody", format!("{} end", rep("match x with | _ => ", "accept", " end"))),
        3 => ("Program", format!("scilla_version 0 contract C (x : {})", ty(s))),
        4 => ("Program", format!("scilla_version 0 contract C () field x : {} = {}", ty(s), expr(s))),
        _ => ("Program", format!("scilla_version 0 library L let x = {} contract C () transition T (a : {}) y = {} end", expr(s), ty(s), expr(s))),
    }
}

/// What a main thread gets by default; the code under test is built without optimisation here, and
/// then takes about 8 KiB for a level.
const SMALL_STACK: usize = 8 << 20;

fn c03_fixed(i: usize) -> Option<String> {
    const F: &[&str] = &[
        "", "\u{feff}", "\"", "(*", "(*)", "*)", "\"\\", "\"\\\"", "'", "'é", "-", "0x", "é", "aé", "_é", "Aé", "ByStr", "ByStré", "ByStr1é",
        "ByStr1_", "scilla_version", "scilla_version 0", "scilla_version 0 contract", "scilla_version 0 contract C (", "inbox é",
        "(* é *)", "\"é\" x", "(* é", "scilla_versioné 0", "٣", "-٣", "1٣", "a٣", "A٣", "_٣", "'A٣",
        "scilla_version 0 contract C (x : ByStr99999999999999999999999999)",
        "scilla_version 0 contract C (x : Option)", "scilla_version 0 contract C (x : Pair Bool)",
        "scilla_version 0 contract C (x : Map (ByStr20 with end) Bool)",
        "scilla_version 0 contract C (x : Map Bool (List (Map Bool Bool)))",
        "scilla_version 0 contract C (x : Map Bool (List Map Bool Bool))",
        "scilla_version 0 contract C (x : 'A)", "scilla_version 0 contract C (x : forall 'A. 'A)",
        "scilla_version 0 contract C (x : Bool -> Bool)", "scilla_version 0 contract C (x : List ('A))",
        "scilla_version 0 contract C (x : List 'A)", "scilla_version 0 library L let x = y contract C ()",
        "scilla_version 0 contract C (x : ByStr20 with contract field _a : Bool end)",
        "scilla_version 0 contract C (x : ByStr20 with contract field A.a : Bool end)",
    ];
    F.get(i).map(|s| s.to_string())
}
const C03_FIXED: usize = 50;

fn try_everything(s: &mut Src, text: &str, evals: &mut u64) -> Result<&'static str, String> {
    *evals += 3;
    lex(text)?;
    let class = match parse_contract(text) {
        Err(p) => return Err(format!("parsing the contract panics: {p}")),
        Ok(Ok(_)) => "accepted as contract",
        Ok(Err(e)) => {
            // the error itself must be printable
            if let Err(p) = guard(|| format!("{e} {e:?}")) {
                return Err(format!("printing the error panics: {p}"));
            }
            "rejected as contract"
        }
    };
    let c = s.usize(CATS.len());
    if let Err(p) = parse_cat(c, text, false) {
        return Err(format!("parsing a {} panics: {p}", CATS[c]));
    }
    Ok(class)
}

fn c03(s: &mut Src, fixed: usize) -> CaseResult {
    let mut evals = 0;
    let mut nested = None;
    let (text, class): (String, &'static str) = if fixed != GENERATED {
        match c03_fixed(fixed) {
            Some(t) => (t, "fixed text"),
            None => return Ok(Info::default()),
        }
    } else {
        match s.weighted(&[30, 15, 15, 20, 10, 8, 2]) {
            0 => (gen_soup(s, 400), "arbitrary characters"),
            1 => {
                // tokens in any order
                let mut toks = vec![];
                for _ in 0..s.usize(60) {
                    let t = random_tok(s, &toks);
                    toks.push(t);
                }
                let style = tok::gen_style(s);
                (tok::layout(s, &toks, style).text, "token soup")
            }
            2 => {
                let (m, _) = gen_contract(s, Shape { small: true, depth: 3 });
                let style = tok::gen_style(s);
                let mut t = tok::layout(s, &m.toks(), style).text;
                maul(s, &mut t);
                (t, "mauled contract")
            }
            3 => {
                // grammatical programs with any types at all in the interface
                let toks = sample_cat(s, "Program", 120, 9);
                let style = tok::gen_style(s);
                (tok::layout(s, &toks, style).text, "grammatical program")
            }
            4 => {
                let (_, t) = &corpus()[s.usize(corpus().len())];
                let mut t = t.clone();
                maul(s, &mut t);
                if t.len() > 3000 && s.chance(80) {
                    let mut c = 3000;
                    while !t.is_char_boundary(c) {
                        c -= 1;
                    }
                    t.truncate(c);
                }
                (t, "mauled example contract")
            }
            5 => {
                let levels = 1 + s.usize(200);
                let (cat, mut t) = gen_nested(s, levels);
                nested = Some(cat);
                if s.chance(30) {
                    maul(s, &mut t);
                }
                (t, "deep nesting on a small stack")
            }
            _ => {
                // up to 64 KiB of one thing
                let unit = bit(s);
                let size = [4_000, 16_000, 65_536][s.weighted(&[6, 2, 1])];
                let n = if unit.len() < 3 || unit.chars().all(|c| c.is_alphanumeric()) { size / unit.len() } else { size / unit.len() / 4 };
                let prefix = *s.pick(&["", "\"", "(*", "scilla_version 0 contract C (", "a", "0x", "-", "'A", "_", "A", "ByStr"]);
                let sep = *s.pick(&["", "", " "]);
                let body: Vec<&str> = std::iter::repeat(unit).take(n / (1 + sep.len())).collect();
                (format!("{prefix}{}", body.join(sep)), "one thing many times")
            }
        }
    };
    let text = if text.len() > 65_536 {
        let mut c = 65_536;
        while !text.is_char_boundary(c) {
            c -= 1;
        }
        text[..c].to_string()
    } else {
        text
    };
    let r = if let Some(cat) = nested {
        evals += 2;
        std::thread::scope(|sc| {
            let text = &text;
            std::thread::Builder::new()
                .stack_size(SMALL_STACK)
                .spawn_scoped(sc, move || {
                    let c = CATS.iter().position(|x| *x == cat).unwrap();
                    match parse_cat(c, text, false) {
                        Err(p) => return Err(format!("parsing a {cat} panics: {p}")),
                        Ok(_) => {}
                    }
                    match parse_contract(text) {
                        Err(p) => Err(format!("parsing the contract panics: {p}")),
                        Ok(Ok(_)) => Ok("accepted as contract"),
                        Ok(Err(_)) => Ok("rejected as contract"),
                    }
                })
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err("the thread died".into()))
        })
    } else {
        try_everything(s, &text, &mut evals)
    };
    match r {
        Err(e) => fail(e, text),
        Ok(verdict) => Ok(Info {
            nontrivial: text.chars().any(|c| !c.is_whitespace()),
            classes: vec![class, verdict, if text.is_ascii() { "ASCII only" } else { "non-ASCII" }],
            key: hash64(text.as_bytes()),
            sample: text,
            evals,
        }),
    }
}

// ----------------------------------------------------------------------------------- C04, C09

/// Token sequences about which the documentation says nothing.
fn unspecified(toks: &[Tok]) -> bool {
    // a negative version; several names in a later import line
    let k = |n: &str| kind(n);
    let name = |t: &Tok| t.kind == k("<CID>") || t.kind == k("<BYSTRN>") || t.kind == k("Event");
    for i in 0..toks.len() {
        if toks[i].kind == k("scilla_version") && toks.get(i + 1).is_some_and(|t| t.text.starts_with('-')) {
            return true;
        }
        if toks[i].kind == k("import") && toks[..i].iter().any(|t| t.kind == k("import")) {
            let mut j = i + 1;
            if toks.get(j).is_some_and(name) {
                j += 1;
                if toks.get(j).is_some_and(|t| t.kind == k("as")) && toks.get(j + 1).is_some_and(name) {
                    j += 2;
                }
                if toks.get(j).is_some_and(name) {
                    return true;
                }
            }
        }
    }
    false
}

fn kinds_of(toks: &[Tok]) -> Vec<Kind> {
    toks.iter().map(|t| t.kind).collect()
}

const STRAYS: &[&str] = &["#", "$", "!", "?", "/", "%", "^", "~", "`", "<", "\\", "'", "é", "漢", "😀", "\u{301}", "\0", "\u{200b}", ">"];

/// A category, a token sequence and how it came about.
fn gen_sequence(s: &mut Src, damaged: u32) -> (usize, Vec<Tok>, &'static str) {
    let c = if s.chance(25) { 0 } else { s.usize(CATS.len()) };
    let cat = CATS[c];
    let g = grammar::get();
    let mut toks = Vec::new();
    let size = [3, 12, 40, 120, 380][s.weighted(&[3, 5, 5, 2, 1])];
    let depth = 2 + s.usize(10);
    if cat == "Program" && s.chance(40) {
        let (m, _) = gen_contract(s, Shape { small: true, depth: 3 });
        toks = m.toks();
        toks.truncate(600);
    } else if dict::rarely(s, 8) {
        let steps = dict::edge(s, 300);
        g.sample_deep(s, g.cat(cat), &mut toks, steps);
    } else {
        g.sample(s, g.cat(cat), &mut toks, &SampleCfg { max_tokens: size, max_depth: depth });
    }
    for i in 1..toks.len() {
        if toks[i - 1].kind == kind("scilla_version") {
            toks[i].text = toks[i].text.trim_start_matches('-').to_string();
        }
    }
    let mut how = "sampled";
    if s.chance(damaged) {
        how = damage(s, &mut toks);
        if s.chance(6) {
            let at = s.usize(toks.len() + 1);
            toks.insert(at, Tok::class("<UNKNOWN>", STRAYS[s.usize(STRAYS.len())]));
            how = "stray character";
        }
    }
    (c, toks, how)
}

/// The layout of a token sequence; sometimes with something unterminated at the end.
fn lay(s: &mut Src, toks: &mut Vec<Tok>, unterminated: bool) -> tok::Laid {
    let style = tok::gen_style(s);
    if unterminated && s.chance(4) {
        let tail = *s.pick(&["(* never closed", "(*", "(* (", "(* *", "\"never closed", "\"", "(* é"]);
        toks.push(Tok::class("<UNKNOWN>", tail));
        // nothing may follow it
        let mut l = tok::layout(s, toks, style);
        let e = l.spans.last().unwrap().1.offset;
        l.text.truncate(e);
        return l;
    }
    tok::layout(s, toks, style)
}

/// Merging neighbours would make the text another token sequence; the layout keeps them apart. This
/// is checked here with the reference lexer.
fn check_layout(toks: &[Tok], l: &tok::Laid) {
    let r = tok::ref_lex(&l.text);
    for (i, t) in toks.iter().enumerate() {
        let x = &r[i];
        assert!(
            x.kind == t.kind && x.start == l.spans[i].0.offset && (x.end == l.spans[i].1.offset || t.kind == kind("<UNKNOWN>")),
            "layout of {t:?} ({x:?}) in {:?}",
            l.text
        );
        if t.kind == kind("<UNKNOWN>") {
            return;
        }
    }
    assert_eq!(r.len(), toks.len(), "{:?}", l.text);
}

fn c04_verdict(c: usize, toks: &[Tok]) -> Verdict {
    let g = grammar::get();
    g.recognise(g.cat(CATS[c]), &kinds_of(toks))
}

/// A short sentence of some category.
fn gen_sentence(s: &mut Src) -> (usize, Vec<Tok>) {
    let c = if s.chance(20) { 0 } else { s.usize(CATS.len()) };
    let g = grammar::get();
    let mut toks = Vec::new();
    let size = [4, 10, 20, 40][s.weighted(&[2, 4, 4, 2])];
    let depth = 2 + s.usize(8);
    if CATS[c] == "Program" {
        // the parts before the contract are long enough to leave nothing for the others
        let depth = 2 + s.usize(12);
        g.sample(s, g.cat(CATS[c]), &mut toks, &SampleCfg { max_tokens: 8 + size, max_depth: depth });
    } else {
        g.sample(s, g.cat(CATS[c]), &mut toks, &SampleCfg { max_tokens: size, max_depth: depth });
    }
    toks.truncate(150);
    (c, toks)
}

/// One token of every kind, the same for the whole case; the class tokens vary between cases.
fn one_of_each(s: &mut Src) -> Vec<Tok> {
    (0..tok::TERMINALS.len() - 1)
        .map(|k| {
            let n = tok::TERMINALS[k];
            if tok::is_class(k as u8) { Tok::class(n, tok::gen_class(s, n)) } else { Tok::kw(n) }
        })
        .collect()
}

/// Positions in a sequence, all of them or a few.
fn places(s: &mut Src, n: usize, max: usize) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..max).map(|_| s.usize(n)).collect();
    v.sort();
    v.dedup();
    v
}

/// Every insertion, substitution and deletion of one token at some places of a sentence.
fn c04_edits(s: &mut Src) -> CaseResult {
    let (c, toks) = gen_sentence(s);
    let g = grammar::get();
    let cat = g.cat(CATS[c]);
    let each = one_of_each(s);
    let (v, front) = g.frontiers(cat, &kinds_of(&toks));
    assert!(v != Verdict::Accept || front.len() == toks.len() + 1);
    let mut evals = 0;
    let mut derivable = 0;
    for i in places(s, front.len(), 5) {
        for k in 0..=each.len() {
            for instead in [false, true] {
                if instead && i >= toks.len() || !instead && k == each.len() {
                    continue;
                }
                let mut new = toks[..i].to_vec();
                if k < each.len() {
                    new.push(each[k].clone());
                }
                new.extend_from_slice(&toks[i + instead as usize..]);
                if unspecified(&new) {
                    continue;
                }
                let want = (k == each.len() || front[i].0 >> each[k].kind & 1 == 1) && c04_verdict(c, &new) == Verdict::Accept;
                let text = tok::plain(&new);
                let got = match parse_cat(c, &text, false) {
                    Ok(r) => r,
                    Err(p) => return fail(format!("{}: panic: {p}", CATS[c]), text),
                };
                evals += 1;
                derivable += want as u64;
                if want != got.is_ok() {
                    let m = match got {
                        Ok(_) => format!("{}: accepted, but no derivation exists ({:?})", CATS[c], c04_verdict(c, &new)),
                        Err(e) => format!("{}: derivable, but rejected: {e:?}", CATS[c]),
                    };
                    return fail(m, text);
                }
            }
        }
    }
    let text = tok::plain(&toks);
    Ok(Info {
        nontrivial: toks.len() >= 2,
        classes: vec!["all edits at some places", if derivable > 0 { "some edits derivable" } else { "no edit derivable" }],
        key: hash64(format!("edits {c} {text}").as_bytes()),
        sample: format!("all edits of {}: {text}", CATS[c]),
        evals,
    })
}

/// Every kind of token after some prefixes of a sentence: blamed exactly when it cannot follow.
fn c09_next(s: &mut Src) -> CaseResult {
    let (c, toks) = gen_sentence(s);
    let g = grammar::get();
    let each = one_of_each(s);
    let (_, front) = g.frontiers(g.cat(CATS[c]), &kinds_of(&toks));
    let mut evals = 0;
    for i in places(s, front.len(), 8) {
        for x in &each {
            let mut new = toks[..i].to_vec();
            new.push(x.clone());
            if unspecified(&new) {
                continue;
            }
            let text = tok::plain(&new);
            let got = match parse_cat(c, &text, false) {
                Ok(r) => r,
                Err(p) => return fail(format!("{}: panic: {p}", CATS[c]), text),
            };
            evals += 1;
            let at = text.len() - x.text.len();
            let can = front[i].0 >> x.kind & 1 == 1;
            let good = match &got {
                Ok(_) => can,
                Err(Bad::End(p, _)) => can && p.offset == text.len(),
                Err(Bad::Token(a, b, k, t, _)) => !can && a.offset == at && b.offset == text.len() && *k == x.kind && *t == x.text,
                Err(Bad::Other(_)) => false,
            };
            if !good {
                let how = if can { "can" } else { "cannot" };
                return fail(format!("{}: the last token {:?} {how} follow the others, but: {got:?}", CATS[c], x.text), text);
            }
        }
    }
    let text = tok::plain(&toks);
    Ok(Info {
        nontrivial: toks.len() >= 2,
        classes: vec!["every kind of token next", CATS[c]],
        key: hash64(format!("next {c} {text}").as_bytes()),
        sample: format!("every next token in {}: {text}", CATS[c]),
        evals,
    })
}

/// What other languages take for a comment, a separator, a literal or nothing.
const FOREIGN: &[&str] = &[
    "--", "//", "/*", "*/", "#", "#!", "%", "{-", "-}", "{--}", "-- |", ";;", ";", ",", ",,", "::", "..", "...", "||", "&&", "==", "=>>", "= =>", "->>",
    "- >", "< -", ": =", "<--", "-->", "*)", "*", "**", "( )", "()", "(())", "[]", "{}", "@@", "'", "''", "'a'", "`", "``", "\\", "\\\n", "\\n", "$", "?",
    "!", "~", "^", "^Z", "\u{1a}", "\0", "\u{feff}", "\u{200b}", "\u{ad}", "\u{2060}", "<!--", "<!-- -->", "end.", "end;", ".", "_", "-", "+", "0x", "0b1", "1.5", "1_0", "1e3",
    "0X1F", "'c", "\"\"\"", "\"\" \"\"", "__", "@rem", "<?", "?>", "&", "|", "|>", "<|", ":=", "=", "<-", "->", "=>",
];

/// A sentence with something foreign put in somewhere.
fn c04_foreign(s: &mut Src) -> CaseResult {
    let (c, toks, _) = gen_sequence(s, 0);
    let l = lay(s, &mut toks.clone(), false);
    let mut bounds: Vec<usize> = l.spans.iter().flat_map(|(a, b)| [a.offset, b.offset]).collect();
    bounds.extend([0, l.text.len()]);
    let foreign = |s: &mut Src| dict::fresh_string(s, 40).unwrap_or_else(|| FOREIGN[s.usize(FOREIGN.len())]);
    let (at, mut piece) = if s.chance(12) {
        // right at the start of the text
        (0, String::new())
    } else {
        (bounds[s.usize(bounds.len())], ["", " ", "\n"][s.usize(3)].to_string())
    };
    piece += foreign(s);
    for _ in 0..s.weighted(&[4, 2, 1, 1]) {
        let more = match s.usize(3) {
            0 => tok::gen_lower(s),
            1 => tok::gen_number(s),
            _ => foreign(s).into(),
        };
        piece += [" ", ""][s.usize(2)];
        piece += &more;
    }
    piece += ["", " ", "\n"][s.usize(3)];
    let text = format!("{}{piece}{}", &l.text[..at], &l.text[at..]);
    let toks = tok::lex_to_toks(&text);
    let signed = text.as_bytes().windows(2).any(|w| w[0] == b'+' && w[1].is_ascii_digit());
    let raw_break = toks.iter().any(|t| t.kind == kind("<STR>") && t.text.contains('\n'));
    if unspecified(&toks) || raw_break || signed {
        return Ok(Info { classes: vec!["unspecified (not judged)"], key: hash64(text.as_bytes()), ..Info::default() });
    }
    let want = c04_verdict(c, &toks) == Verdict::Accept;
    match parse_cat(c, &text, false) {
        Err(p) => fail(format!("{}: panic: {p}", CATS[c]), text),
        Ok(Ok(_)) if !want => fail(format!("{}: accepted, but no derivation exists ({:?})", CATS[c], c04_verdict(c, &toks)), text),
        Ok(Err(e)) if want => fail(format!("{}: derivable, but rejected: {e:?}", CATS[c]), text),
        _ => Ok(Info {
            nontrivial: toks.len() >= 2,
            classes: vec!["something foreign", if want { "derivable" } else { "not derivable" }],
            key: hash64(format!("{c} {text}").as_bytes()),
            sample: format!("{}: {text}", CATS[c]),
            evals: 1,
        }),
    }
}

fn c04(s: &mut Src, fixed: usize) -> CaseResult {
    if fixed == GENERATED && s.chance(10) {
        return c04_edits(s);
    }
    if fixed == GENERATED && s.chance(if dict::get().fresh_strings.is_empty() { 10 } else { 20 }) {
        return c04_foreign(s);
    }
    let (c, toks, text, how) = if fixed != GENERATED {
        let text = corpus()[fixed].1.clone();
        (0, tok::lex_to_toks(&text), text, "example contract")
    } else {
        let (c, mut toks, how) = gen_sequence(s, 60);
        let l = lay(s, &mut toks, true);
        check_layout(&toks, &l);
        (c, toks, l.text, how)
    };
    if unspecified(&toks) {
        return Ok(Info { classes: vec!["unspecified (not judged)"], key: hash64(text.as_bytes()), ..Info::default() });
    }
    let want = c04_verdict(c, &toks) == Verdict::Accept;
    let got = match parse_cat(c, &text, false) {
        Ok(r) => r,
        Err(p) => return fail(format!("{}: panic: {p}", CATS[c]), text),
    };
    if want != got.is_ok() {
        let m = match got {
            Ok(_) => format!("{}: accepted, but no derivation exists ({:?})", CATS[c], c04_verdict(c, &toks)),
            Err(e) => format!("{}: derivable, but rejected: {e:?}", CATS[c]),
        };
        return fail(m, text);
    }
    if CATS[c] == "Program" {
        // a contract is accepted only if it is a program; one that is rejected for other reasons is
        // the business of another property
        let r = match parse_contract(&text) {
            Ok(r) => r,
            Err(p) => return fail(format!("contract: panic: {p}"), text),
        };
        if !want && r.is_ok() {
            return fail("accepted as a contract, but it is no program", text);
        }
        if fixed != GENERATED && r.is_err() {
            return fail("example contract rejected", text);
        }
    }
    Ok(Info {
        nontrivial: toks.len() >= 2,
        classes: vec![CATS[c], how, if want { "derivable" } else { "not derivable" }],
        key: hash64(format!("{c} {text}").as_bytes()),
        sample: format!("{}: {text}", CATS[c]),
        evals: 1,
    })
}

fn c09(s: &mut Src, _: usize) -> CaseResult {
    if s.chance(3) {
        return c09_next(s);
    }
    let (c, mut toks, how) = gen_sequence(s, 96);
    let l = lay(s, &mut toks, true);
    check_layout(&toks, &l);
    if unspecified(&toks) {
        return Ok(Info { classes: vec!["unspecified (not judged)"], key: hash64(l.text.as_bytes()), ..Info::default() });
    }
    let v = c04_verdict(c, &toks);
    let got = match parse_cat(c, &l.text, false) {
        Ok(r) => r,
        Err(p) => return fail(format!("{}: panic: {p}", CATS[c]), l.text),
    };
    let cat = CATS[c];
    let mut classes = vec![cat, how];
    let blamed: Pos;
    match (v, got) {
        (Verdict::Accept, Ok(_)) => {
            classes.push("accepted");
            return Ok(Info { classes, key: hash64(l.text.as_bytes()), sample: l.text, ..Info::default() });
        }
        (Verdict::Accept, Err(_)) | (Verdict::Incomplete | Verdict::Offends(_), Ok(_)) => {
            // accepted or rejected wrongly: the business of another property
            classes.push("verdict differs (not judged)");
            return Ok(Info { classes, key: hash64(l.text.as_bytes()), sample: l.text, ..Info::default() });
        }
        (Verdict::Incomplete, Err(Bad::End(p, _))) => {
            classes.push("end of text");
            let last = l.spans.last().map(|x| x.1.offset).unwrap_or(0);
            if p.offset < last || p.offset > l.text.len() {
                return fail(format!("{cat}: the end of the text is reported at {p:?}, the last token ends at {last}"), l.text);
            }
            blamed = p;
        }
        (Verdict::Offends(i), Err(Bad::Token(a, b, k, text, _))) => {
            classes.push("token");
            let (wa, wb) = l.spans[i];
            let unknown = toks[i].kind == kind("<UNKNOWN>");
            if unknown {
                classes.push("stray character or unterminated literal");
            }
            if k != toks[i].kind || a != wa || (!unknown && (b != wb || text != toks[i].text)) {
                return fail(
                    format!(
                        "{cat}: blames {} {text:?} at {a:?}..{b:?}, the first offending token is #{i} {} {:?} at {wa:?}..{wb:?}",
                        kind_name(k),
                        kind_name(toks[i].kind),
                        toks[i].text
                    ),
                    l.text,
                );
            }
            blamed = a;
        }
        (v, Err(e)) => return fail(format!("{cat}: expected {v:?}, got {e:?}"), l.text),
    }
    if cat == "Program" {
        match parse_contract(&l.text) {
            Err(p) => return fail(format!("contract: panic: {p}"), l.text),
            Ok(Ok(_)) => {}
            Ok(Err(e)) => {
                classes.push("contract error");
                let m = e.to_string();
                let has = |n: usize| {
                    m.split(|c: char| !c.is_ascii_digit()).any(|w| w.parse::<usize>() == Ok(n))
                };
                let offset = has(blamed.offset);
                let linecol = (has(blamed.line) && has(blamed.column)) || (has(blamed.line + 1) && has(blamed.column + 1));
                if !matches!(e, Error::ParseError(_)) || !(offset || linecol) {
                    return fail(format!("the contract's error does not carry the location {blamed:?}: {m}"), l.text);
                }
            }
        }
    }
    Ok(Info { nontrivial: true, classes, key: hash64(format!("{c} {}", l.text).as_bytes()), sample: format!("{cat}: {}", l.text), evals: 1 })
}

// ---------------------------------------------------------------------------------------- C22

/// The kinds of token an entry of a list of expected tokens can stand for: the one it spells, or the
/// one class whose tokens its pattern describes.
fn stands_for(entry: &str) -> Option<Kind> {
    let inner = entry.trim_start_matches('r').trim_matches('#').trim_matches('"');
    if let Some(k) = tok::TERMINALS.iter().position(|t| *t == inner && !(t.len() > 2 && t.starts_with('<'))) {
        return Some(k as Kind);
    }
    let class = match inner {
        _ if inner.starts_with("ByStr") => "<BYSTRN>",
        _ if inner.starts_with("0(x") || inner.starts_with("0[x") => "<HEX>",
        _ if inner.contains("[']") || inner.starts_with('\'') => "<TID>",
        _ if inner.starts_with("[_]") || inner.starts_with('_') => "<SPID>",
        _ if inner.starts_with("[a-z]") => "<ID>",
        _ if inner.starts_with("[A-Z]") => "<CID>",
        _ if inner.contains("[+-]") || inner.starts_with("-?") => "<NUM>",
        _ if inner.contains("\\\\") || entry.contains("(?:") => "<STR>",
        _ => return None,
    };
    Some(kind(class))
}

fn c22(s: &mut Src, _: usize) -> CaseResult {
    let (c, toks) = if s.chance(60) {
        gen_sentence(s)
    } else {
        let (c, toks, _) = gen_sequence(s, 60);
        (c, toks)
    };
    let g = grammar::get();
    let (_, front) = g.frontiers(g.cat(CATS[c]), &kinds_of(&toks));
    let each = one_of_each(s);
    let (mut evals, mut most) = (0, 0);
    let mut classes = vec![CATS[c]];
    let mut texts = vec![];
    for i in places(s, front.len(), 6) {
        // up to here, with nothing or something impossible after it
        let mut new = toks[..i].to_vec();
        let offends = s.chance(70);
        if offends {
            let wrong: Vec<&Tok> = each.iter().filter(|x| front[i].0 >> x.kind & 1 == 0).collect();
            new.push((*s.pick(&wrong)).clone());
        } else if front[i].1 {
            continue;
        }
        if unspecified(&new) {
            continue;
        }
        let style = tok::gen_style(s);
        let text = tok::layout(s, &new, style).text;
        let got = match parse_cat(c, &text, false) {
            Ok(r) => r,
            Err(p) => return fail(format!("{}: panic: {p}", CATS[c]), text),
        };
        let expected = match got {
            Err(Bad::Token(_, _, _, _, e)) if offends => e,
            Err(Bad::End(_, e)) if !offends => e,
            _ => continue,
        };
        evals += 1;
        let want: Vec<&str> = (0..tok::TERMINALS.len()).filter(|k| front[i].0 >> k & 1 == 1).map(|k| tok::TERMINALS[k]).collect();
        let mut have: Vec<&str> = vec![];
        for e in &expected {
            // an entry that is no token's name says nothing definite
            have.extend(stands_for(e).map(kind_name));
        }
        have.sort_by_key(|n| kind(n));
        if have.iter().any(|k| !want.contains(k)) {
            return fail(format!("{}: expected are said to be {have:?}, but what can follow is {want:?}", CATS[c]), text);
        }
        most = most.max(have.len());
        if CATS[c] == "Program" {
            let m = match parse_contract(&text) {
                Ok(Err(Error::ParseError(m))) => m,
                r => return fail(format!("contract: {r:?}"), text),
            };
            let bare = |t: &str| t.replace(['"', '\\'], "");
            let m = bare(&m);
            if let Some(e) = expected.iter().find(|e| !m.contains(&bare(e))) {
                return fail(format!("the contract's error does not say that {e} was expected: {m}"), text);
            }
            classes.push("contract error");
        }
        texts.push(text);
    }
    if most > 1 {
        classes.push("several expected");
    }
    let sample = format!("{}: {}", CATS[c], texts.join("\n--- "));
    Ok(Info { nontrivial: most > 0, classes, key: hash64(sample.as_bytes()), sample, evals: evals.max(1) })
}

// ---------------------------------------------------------------------------------------- C06

const TRICKY: &[&str] = &[
    "inbox", "in_", "in1", "inIn", "endx", "end_", "Mapping", "Map_", "Map1", "ByStrange", "ByStr20x", "ByStr20_", "ByStr1A", "ByStr_1",
    "ByStr", "ByStr0", "ByStr00020", "Emp1", "Events", "event1", "scilla_version0", "scilla_version_", "asx", "ofx", "lett", "of", "as",
    "in", "end", "fun", "tfun", "tfunx", "Map", "Emp", "Event", "event", "=>", "->", "<-", ":=", "=", "-", ":", "&", "@", "_", "__", "_1",
    "_x", "+", "*", "|", ";", ",", ".", "[", "]", "{", "}", "(", ")", "-1", "-0", "0", "00", "007", "0x", "0X", "0x0", "0xAb", "0xABC",
    "0xg", "1x", "1a", "9A", "0_", "12_3", "'A", "'Map", "'A_1", "\"\"", "\"\\\"\"", "\"\\\\\"", "\"(*\"", "\"é\"", "\"in\"", "(* c *)", "(**)",
    "(***)", "(* \" *)", "(* é漢 *)", "(* in *)", "(*)*)", "x", "X", "a1", "A1", "forallx", "withh", "matchend", "sendx", "typeof",
];

fn c06(s: &mut Src, fixed: usize) -> CaseResult {
    let mut text = String::new();
    let class;
    if fixed != GENERATED {
        text = corpus()[fixed].1.clone();
        class = "example contract";
    } else if s.chance(45) {
        // separated lexemes of every kind
        let n = 1 + s.usize(30);
        let mut toks = vec![];
        for _ in 0..n {
            let k = s.usize(tok::TERMINALS.len() - 1);
            let name = tok::TERMINALS[k];
            toks.push(if tok::is_class(k as u8) { Tok::class(name, tok::gen_class(s, name)) } else { Tok::kw(name) });
        }
        let style = tok::gen_style(s);
        let l = tok::layout(s, &toks, style);
        check_layout(&toks, &l);
        text = l.text;
        class = "separated lexemes";
    } else {
        // lexemes run together or split by little
        let n = 1 + s.usize(24);
        for _ in 0..n {
            match s.weighted(&[6, 2, 1]) {
                0 => text.push_str(TRICKY[s.usize(TRICKY.len())]),
                1 => {
                    let k = s.usize(tok::TERMINALS.len() - 1);
                    let name = tok::TERMINALS[k];
                    text.push_str(&if tok::is_class(k as u8) { tok::gen_class(s, name) } else { name.to_string() });
                }
                _ => text.push_str(&tok::gen_comment(s)),
            }
            match s.weighted(&[5, 3, 1]) {
                0 => {}
                1 => text.push(' '),
                _ => text.push_str(*s.pick(&["\n", "\t", "\r\n", "\u{a0}", "\u{2003}"])),
            }
        }
        class = "run together";
    }
    // The reference stops being a reference at: a comment opener inside a comment, a sign in front
    // of digits, an unknown token, a line feed inside a string, a backslash that escapes nothing.
    let want = tok::ref_lex(&text);
    let mut usable = want.len();
    let mut gaps_ok = true;
    let mut prev = 0;
    for (i, t) in want.iter().enumerate() {
        let gap = &text[prev..t.start];
        if gap.matches("(*").count() > gap.matches("*)").count() || nested_comment(gap) {
            gaps_ok = false;
        }
        prev = t.end;
        let sp = &text[t.start..t.end];
        let plus = sp == "+" && text[t.end..].starts_with(|c: char| c.is_ascii_digit());
        if !gaps_ok || t.kind == kind("<UNKNOWN>") || plus || (t.kind == kind("<STR>") && sp.contains('\n')) {
            usable = i;
            break;
        }
    }
    if usable == want.len() && nested_comment(&text[prev..]) {
        gaps_ok = false;
    }
    let complete = usable == want.len() && gaps_ok;
    let got = match lex(&text) {
        Ok(g) => g,
        Err(e) => return fail(e, text),
    };
    for i in 0..usable {
        let w = &want[i];
        let sp = &text[w.start..w.end];
        match got.get(i) {
            Some(g) if g.kind == w.kind && g.start == w.start && g.end == w.end && g.text == sp => {}
            Some(g) => {
                return fail(
                    format!(
                        "token #{i}: want {} {sp:?} at {}..{}, got {} {:?} at {}..{}",
                        kind_name(w.kind),
                        w.start,
                        w.end,
                        kind_name(g.kind),
                        g.text,
                        g.start,
                        g.end
                    ),
                    text,
                )
            }
            None => return fail(format!("token #{i} {sp:?} is missing"), text),
        }
    }
    if complete && got.len() != want.len() {
        return fail(format!("{} tokens, want {}; extra {:?}", got.len(), want.len(), got.get(want.len())), text);
    }
    Ok(Info {
        nontrivial: usable >= 2,
        classes: vec![class, if complete { "whole text judged" } else { "prefix judged" }],
        key: hash64(text.as_bytes()),
        sample: text,
        evals: usable as u64,
    })
}

fn nested_comment(gap: &str) -> bool {
    let mut rest = gap;
    while let Some(i) = rest.find("(*") {
        let body = &rest[i + 2..];
        match body.find("*)") {
            None => return true,
            Some(e) => {
                if body[..e].contains("(*") {
                    return true;
                }
                rest = &body[e + 2..];
            }
        }
    }
    false
}

// ---------------------------------------------------------------------------------------- C14

#[derive(Clone, Debug)]
struct Op {
    /// 0 contract from text, 1.. category + 1 with a fresh parser, large numbers: a shared parser
    how: usize,
    text: usize,
}

const SHARED: usize = 1000;

fn run_op(op: &Op, texts: &[String], shared: &Parsers) -> String {
    let t = &texts[op.text];
    let r = match op.how {
        0 => guard(|| match t.parse::<Contract>() {
            Ok(c) => format!("Ok({c:?})"),
            Err(e) => format!("Err({e:?} / {e})"),
        }),
        h if h >= SHARED => guard(|| {
            let mut errors = vec![];
            let l = Lexer::new(t);
            match h - SHARED {
                0 => format!("{:?}", shared.program.parse(&mut errors, l)),
                1 => format!("{:?}", shared.expr.parse(&mut errors, l)),
                2 => format!("{:?}", shared.ty.parse(&mut errors, l)),
                _ => format!("{:?}", shared.stmt.parse(&mut errors, l)),
            }
        }),
        h => return format!("{:?}", parse_cat(h - 1, t, true)),
    };
    format!("{r:?}")
}

/// Operations whose results were taken before anything else was parsed.
fn canaries() -> &'static (Vec<String>, Vec<(Op, String)>) {
    static C: std::sync::OnceLock<(Vec<String>, Vec<(Op, String)>)> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut texts: Vec<String> = corpus().iter().map(|c| c.1.clone()).filter(|t| t.len() < 4_000).take(4).collect();
        let own: &[(&str, &str)] = &[
            ("", "scilla_version 0 contract C (a : Map ByStr20 (Pair Bool (List ByStr33)), a : Option X.Y) field _f : ByStr20 with contract field a : Bool end = b transition T (x : BNum) end procedure P (y : 'A) end"),
            ("", "scilla_version 0 contract C (a : Uint32 -> Bool)"),
            ("", "scilla_version 0\n contract C (a : Uint32,, b)"),
            ("", "scilla_version 0 contract C ("),
            ("", "scilla_version 0 contract C () # x"),
            ("FullExpression", "let x = builtin add 0x00 -1 in match x with | Foo (A _) b => { _tag : \"é\" ; _x : Uint32 1 } | _ => @x 'A (Map Bool 'A) end"),
            ("FullExpression", "fun (x : 'A) -> y"),
            ("StatementBlock", "x <- a[b][c]; a[b] := c; delete a[b]; b <- & BLOCKNUMBER; c <- & REPLICATE_CONTRACT(a, b); forall l p; p a b; throw; send m; event e; accept"),
            ("ScillaType", "forall 'A. ByStr20 with contract field x : Map Bool Bool end -> (Uint32 -> 'A) -> Pair ByStr1 (ByStr)"),
        ];
        let mut ops: Vec<Op> = (0..texts.len()).map(|text| Op { how: 0, text }).collect();
        for (c, t) in own {
            let how = if c.is_empty() { 0 } else { 1 + CATS.iter().position(|x| x == c).unwrap() };
            ops.push(Op { how, text: texts.len() });
            texts.push(t.to_string());
        }
        let want = ops.into_iter().map(|o| (o.clone(), run_op(&o, &texts, &Parsers::new()))).collect();
        (texts, want)
    })
}

/// Another process, another directory, environment and locale: the same results.
fn elsewhere(s: &mut Src, plan: &[Op], texts: &[String]) -> Result<(String, Vec<String>), String> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    let mut how = String::new();
    if s.chance(40) {
        c.env_clear();
        how += "env -i ";
    }
    for _ in 0..s.usize(8) {
        const N: &[&str] = &[
            "LANG", "LC_ALL", "LC_CTYPE", "LC_NUMERIC", "LANGUAGE", "TZ", "HOME", "PATH", "USER", "RUST_BACKTRACE", "RUST_LOG", "NO_COLOR",
            "CLICOLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS", "TMPDIR", "DEBUG", "CI", "PWD", "RUST_TEST", "SCILLA_STDLIB_PATH", "SCILLA_HOME",
        ];
        const V: &[&str] = &["", "0", "1", "2", "C", "C.UTF-8", "tr_TR.UTF-8", "de_DE", "ja_JP.eucJP", "full", "/", "/nonexistent", "trace", "x", "false", "true"];
        let name = if let Some(w) = dict::fresh_string(s, 40).filter(|w| !w.contains(['=', '\0'])) {
            w
        } else if s.chance(30) { dict::pick(s, &dict::get().env).unwrap_or("A") } else { *s.pick(N) };
        let v = *s.pick(V);
        c.env(name, v);
        how += &format!("{name}={v} ");
    }
    let dir = *s.pick(&["/", "/tmp", "/usr", "/verif", "/repo", "/repo/src", "/dev"]);
    if std::path::Path::new(dir).is_dir() {
        c.current_dir(dir);
        how += &format!("in {dir}");
    }
    c.env("VH_PROBE", "1").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let mut child = c.spawn().map_err(|e| format!("cannot start: {e}"))?;
    let mut job = String::new();
    for op in plan {
        job += &format!("{} {:?}\n", op.how, texts[op.text].bytes().map(|b| format!("{b:02x}")).collect::<String>());
    }
    let mut inp = child.stdin.take().unwrap();
    let out = std::thread::scope(|sc| {
        sc.spawn(move || inp.write_all(job.as_bytes()).ok());
        child.wait_with_output()
    })
    .map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&out.stdout).into_owned();
    let results: Vec<String> = out.lines().map(|l| l.to_string()).collect();
    Ok((how, results))
}

fn probe() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut job = String::new();
    std::io::stdin().read_to_string(&mut job).unwrap();
    let run = || {
        let shared = Parsers::new();
        for l in job.lines() {
            let (how, hex) = l.split_once(' ').unwrap();
            let hex = hex.trim_matches('"').as_bytes();
            let b: Vec<u8> = hex.chunks(2).map(|h| u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()).collect();
            let text = String::from_utf8(b).unwrap();
            println!("{:?}", run_op(&Op { how: how.parse().unwrap(), text: 0 }, &[text], &shared));
        }
    };
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, run).unwrap().join().unwrap());
}

fn near(s: &mut Src, text: &str) -> String {
    let mut b: Vec<char> = text.chars().collect();
    let inner: Vec<usize> = (1..b.len())
        .filter(|i| b[*i].is_ascii_alphanumeric() && b[*i - 1].is_ascii_alphanumeric() && b[*i] != b[*i - 1])
        .collect();
    for _ in 0..1 + s.usize(3) {
        if inner.is_empty() {
            break;
        }
        let i = inner[s.usize(inner.len())];
        match s.usize(3) {
            0 => b.swap(i, i - 1),
            1 => {
                // up here, down there: sums stay what they are
                let (x, y) = (b[i] as u8, b[i - 1] as u8);
                let d = if s.chance(50) { 2 } else { 1 };
                if (x + 1).is_ascii_alphanumeric() && (y.wrapping_sub(d)).is_ascii_alphanumeric() {
                    b[i] = (x + 1) as char;
                    b[i - 1] = (y - d) as char;
                }
            }
            _ => b[i] = (b'a' + s.usize(26) as u8) as char,
        }
    }
    let t: String = b.into_iter().collect();
    if s.chance(30) {
        let mut toks = tok::lex_to_toks(&t);
        if toks.len() > 1 {
            let (i, j) = (s.usize(toks.len()), s.usize(toks.len()));
            toks.swap(i, j);
        }
        return tok::plain(&toks);
    }
    t
}

fn c14(s: &mut Src, _: usize) -> CaseResult {
    let canaries = canaries();
    // texts
    let nt = 2 + s.usize(5);
    let mut texts: Vec<String> = vec![];
    let mut fit: Vec<usize> = vec![];
    for _ in 0..nt {
        match s.weighted(&[4, 3, 4, 2, if texts.is_empty() { 0 } else { 4 }]) {
            4 => {
                // nearly an earlier text: the same length, the same letters in another order, ...
                let i = s.usize(texts.len());
                texts.push(near(s, &texts[i].clone()));
                fit.push(fit[i]);
            }
            0 => {
                let (m, _) = gen_contract(s, Shape { small: true, depth: 2 });
                let style = tok::gen_style(s);
                texts.push(tok::layout(s, &m.toks(), style).text);
                fit.push(0);
            }
            1 => {
                let (m, _) = gen_contract(s, Shape { small: true, depth: 2 });
                let mut toks = m.toks();
                damage(s, &mut toks);
                texts.push(tok::plain(&toks));
                fit.push(0);
            }
            2 => {
                let c = *s.pick(&["FullExpression", "ScillaType", "StatementBlock"]);
                let mut toks = sample_cat(s, c, 40, 8);
                if s.chance(30) {
                    damage(s, &mut toks);
                }
                let style = tok::gen_style(s);
                texts.push(tok::layout(s, &toks, style).text);
                fit.push(1 + CATS.iter().position(|x| *x == c).unwrap());
            }
            _ => {
                texts.push(gen_soup(s, 60));
                fit.push(0);
            }
        }
    }
    let shared = Parsers::new();
    let gen_op = |s: &mut Src, fit: &[usize]| -> Op {
        let text = s.usize(fit.len());
        let how = match s.usize(4) {
            0 => 0,
            1 if fit[text] > 0 => match CATS[fit[text] - 1] {
                "FullExpression" => SHARED + 1,
                "ScillaType" => SHARED + 2,
                _ => SHARED + 3,
            },
            1 => SHARED,
            2 => SHARED + s.usize(4),
            _ => {
                if fit[text] > 0 {
                    fit[text]
                } else {
                    1 + s.usize(CATS.len())
                }
            }
        };
        Op { how, text }
    };
    let threads = [1, 1, 2, 4, 8][s.usize(5)];
    let total = 2 + s.usize(39);
    let mut plans: Vec<Vec<Op>> = vec![vec![]; threads];
    for i in 0..total {
        let op = gen_op(s, &fit);
        plans[i % threads].push(op.clone());
        // the same operation again, elsewhere
        if s.chance(30) {
            plans[s.usize(threads)].push(op);
        }
    }
    // expected: each operation on its own, in a fresh thread, with fresh parsers
    let mut want: std::collections::BTreeMap<(usize, usize), String> = Default::default();
    for op in plans.iter().flatten() {
        want.entry((op.how, op.text)).or_insert_with(|| {
            std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || run_op(op, &texts, &Parsers::new()))
                    .unwrap()
                    .join()
                    .unwrap()
            })
        });
    }
    let input = || {
        let mut o = format!("{threads} threads\n");
        for (i, p) in plans.iter().enumerate() {
            o += &format!("thread {i}: {p:?}\n");
        }
        for (i, t) in texts.iter().enumerate() {
            o += &format!("text {i}: {t:?}\n");
        }
        o
    };
    let barrier = std::sync::Barrier::new(threads);
    let results: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (texts, shared, barrier) = (&texts, &shared, &barrier);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        barrier.wait();
                        plan.iter().map(|op| run_op(op, texts, shared)).collect::<Vec<_>>()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut n = 0;
    for (t, (plan, res)) in plans.iter().zip(&results).enumerate() {
        for (i, (op, r)) in plan.iter().zip(res).enumerate() {
            n += 1;
            let w = &want[&(op.how, op.text)];
            if r != w {
                return fail(format!("thread {t}, operation {i} {op:?}: got {r}\nalone: {w}"), input());
            }
        }
    }
    let mut classes = vec![match threads {
        1 => "one thread",
        2 => "two threads",
        4 => "four threads",
        _ => "eight threads",
    }];
    if s.chance(10) {
        classes.push("another process");
        let plan: Vec<Op> = plans.concat();
        let (how, got) = elsewhere(s, &plan, &texts).unwrap_or_else(|e| panic!("{e}"));
        n += got.len() as u64;
        for (i, op) in plan.iter().enumerate() {
            let w = format!("{:?}", want[&(op.how, op.text)]);
            if got.get(i) != Some(&w) {
                return fail(format!("another process ({how}), operation {i} {op:?}: got {:?}\nhere: {w}", got.get(i)), input());
            }
        }
    }
    // as at the beginning
    let fresh = Parsers::new();
    for _ in 0..2 {
        let (op, w) = &canaries.1[s.usize(canaries.1.len())];
        let r = run_op(op, &canaries.0, if s.chance(50) { &fresh } else { &shared });
        n += 1;
        if r != *w {
            return fail(format!("{}{:?} gives {r}\nit gave {w}", runner::DRIFT, canaries.0[op.text]), input());
        }
    }
    let key = hash64(input().as_bytes());
    Ok(Info {
        nontrivial: n >= 2,
        classes,
        key,
        sample: input(),
        evals: n,
    })
}

fn main() {
    if std::env::var_os("VH_PROBE").is_some() {
        return probe();
    }
    let n = corpus().len();
    runner::main(&[
        Check {
            id: "C03",
            quick: 60_000,
            thorough: 3_600_000,
            rule: "a text with at least one character that is not blank; distinct by text",
            assumptions: &["texts up to 64 KiB; nesting up to 200 levels on an 8 MiB stack"],
            fixed: C03_FIXED,
            f: c03,
            known: None,
            guided: 4,
        },
        Check {
            id: "C04",
            quick: 110_000,
            thorough: 6_600_000,
            rule: "at least two tokens; distinct by category and text",
            assumptions: &["the documented grammar is the one in the BNF comments, transcribed in spec.rs"],
            fixed: n,
            f: c04,
            known: None,
            guided: 4,
        },
        Check {
            id: "C06",
            quick: 800_000,
            thorough: 48_000_000,
            rule: "at least two tokens judged; distinct by text",
            assumptions: &[],
            fixed: n,
            f: c06,
            known: None,
            guided: 4,
        },
        Check {
            id: "C09",
            quick: 300_000,
            thorough: 18_000_000,
            rule: "a text that is rejected; distinct by category and text",
            assumptions: &["the documented grammar is the one in the BNF comments, transcribed in spec.rs"],
            fixed: 0,
            f: c09,
            known: None,
            guided: 4,
        },
        Check {
            id: "C22",
            quick: 350_000,
            thorough: 21_000_000,
            rule: "at least one text was rejected with a list of expected tokens that was compared; distinct by texts",
            assumptions: &["the BNF comments of the grammar file are the documented grammar"],
            fixed: 0,
            f: c22,
            known: None,
            guided: 4,
        },
        Check {
            id: "C14",
            quick: 10_000,
            thorough: 600_000,
            rule: "at least two operations; distinct by history",
            assumptions: &["thread interleavings are those the operating system chose"],
            fixed: 0,
            f: c14,
            known: None,
            guided: 0,
        },
    ])
}
