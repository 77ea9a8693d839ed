//! C20: what reading costs grows in step with the text.
use scilla_parser::ast::{converting::AstConverting, nodes::*, TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser as p;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vcommon::choice::{hash64, Src};
use vcommon::grammar::{self, SampleCfg, Verdict};
use vcommon::runner::{self, guard, CaseResult, Check, Info};
use vcommon::tok::{self, Kind, Tok};

#[path = "../trees.rs"]
mod trees;
use trees::{parse_tree, Nothing, Toks, CATS};

// -------------------------------------------------------------------------------------- measuring

/// Counts what each thread asks for.
struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn count(size: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + size as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread.
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0);
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    calls: u64,
    bytes: u64,
    ns: u64,
}

/// What `f` costs, its result's end included.
fn measure<T>(f: impl FnOnce() -> T) -> Result<Cost, String> {
    let (c, b, t) = (CALLS.with(|c| c.get()), BYTES.with(|c| c.get()), cpu());
    guard(|| {
        f();
    })?;
    Ok(Cost { calls: CALLS.with(|x| x.get()) - c, bytes: BYTES.with(|x| x.get()) - b, ns: cpu() - t })
}

/// How many times the proportional cost is tolerated: growing vectors, caches and page faults
/// account for a factor of about four in processor time and two in memory.
const MEMORY: f64 = 3.0;
const TIME: f64 = 10.0;
/// Costs below these are not compared.
const FLOOR: Cost = Cost { calls: 200, bytes: 200_000, ns: 400_000 };

fn excess(ratio: f64, base: Cost, now: Cost) -> Option<String> {
    let over = |what: &str, unit: &str, a: u64, b: u64, floor: u64, tolerance: f64| {
        let allowed = tolerance * ratio * (a.max(floor)) as f64;
        (b as f64 > allowed).then(|| format!("{what} from {a} to {b}{unit} while the repeated part grows {ratio:.1} times"))
    };
    over("allocations grow", "", base.calls, now.calls, FLOOR.calls, MEMORY)
        .or_else(|| over("memory asked for grows", " bytes", base.bytes, now.bytes, FLOOR.bytes, MEMORY))
        .or_else(|| over("processor time grows", " ns", base.ns, now.ns, FLOOR.ns, TIME))
}

/// Measures `f` for growing numbers of repetitions until one costs out of proportion: what is not
/// repeated only adds a constant, so proportional costs grow at most as the number does.
/// Returns the number of measurements.
fn grows(what: &str, sizes: &[usize], budget: u64, f: &dyn Fn(usize) -> Result<Cost, String>) -> Result<u64, String> {
    let mut points: Vec<(usize, Cost)> = vec![];
    let mut n = 0;
    for k in sizes {
        let cost = f(*k).map_err(|e| format!("{what}, {k} times: {e}"))?;
        n += 1;
        for (k0, cost0) in &points {
            let ratio = *k as f64 / *k0 as f64;
            if std::env::var_os("VH_MARGIN").is_some() {
                let r = |a: u64, b: u64, f: u64| b as f64 / (a.max(f) as f64 * ratio);
                let (c, b, t) = (r(cost0.calls, cost.calls, FLOOR.calls), r(cost0.bytes, cost.bytes, FLOOR.bytes), r(cost0.ns, cost.ns, FLOOR.ns));
                if c > 1.5 || b > 2.0 || t > 4.0 {
                    eprintln!("margin {c:.1} {b:.1} {t:.1} {what} {k0} {k}");
                }
            }
            if excess(ratio, *cost0, cost).is_none() {
                continue;
            }
            // measured again: what other processes do must not decide
            let (mut a, mut b) = (*cost0, cost);
            for _ in 0..4 {
                n += 2;
                let x = f(*k0)?;
                a.ns = a.ns.max(x.ns);
                let x = f(*k)?;
                b.ns = b.ns.min(x.ns);
            }
            if let Some(e) = excess(ratio, a, b) {
                return Err(format!("{what}: repeated {k0} and {k} times: {e}"));
            }
        }
        if cost.ns > budget {
            break;
        }
        points.push((*k, cost));
    }
    Ok(n)
}

// ------------------------------------------------------------------------------------ code under test

/// How deep a tree is, and how often its nodes are entered.
#[derive(Default)]
struct Depth {
    now: usize,
    deepest: usize,
}
macro_rules! depth {
    ($($f:ident $t:ident),* $(,)?) => {
        impl AstConverting for Depth {
            fn push_source_position(&mut self, _: &SourcePosition, _: &SourcePosition) {}
            fn pop_source_position(&mut self) {}
            $(fn $f(&mut self, mode: TreeTraversalMode, _: &$t) -> Result<TraversalResult, String> {
                match mode {
                    TreeTraversalMode::Enter => {
                        self.now += 1;
                        self.deepest = self.deepest.max(self.now);
                    }
                    TreeTraversalMode::Exit => self.now = self.now.saturating_sub(1),
                }
                Ok(TraversalResult::Continue)
            })*
        }
    };
}
depth!(
    emit_byte_str NodeByteStr,
    emit_type_name_identifier NodeTypeNameIdentifier,
    emit_imported_name NodeImportedName,
    emit_import_declarations NodeImportDeclarations,
    emit_meta_identifier NodeMetaIdentifier,
    emit_variable_identifier NodeVariableIdentifier,
    emit_builtin_arguments NodeBuiltinArguments,
    emit_type_map_key NodeTypeMapKey,
    emit_type_map_value NodeTypeMapValue,
    emit_type_argument NodeTypeArgument,
    emit_scilla_type NodeScillaType,
    emit_type_map_entry NodeTypeMapEntry,
    emit_address_type_field NodeAddressTypeField,
    emit_address_type NodeAddressType,
    emit_full_expression NodeFullExpression,
    emit_message_entry NodeMessageEntry,
    emit_pattern_match_expression_clause NodePatternMatchExpressionClause,
    emit_atomic_expression NodeAtomicExpression,
    emit_contract_type_arguments NodeContractTypeArguments,
    emit_value_literal NodeValueLiteral,
    emit_map_access NodeMapAccess,
    emit_pattern NodePattern,
    emit_argument_pattern NodeArgumentPattern,
    emit_pattern_match_clause NodePatternMatchClause,
    emit_blockchain_fetch_arguments NodeBlockchainFetchArguments,
    emit_statement NodeStatement,
    emit_remote_fetch_statement NodeRemoteFetchStatement,
    emit_component_id NodeComponentId,
    emit_component_parameters NodeComponentParameters,
    emit_parameter_pair NodeParameterPair,
    emit_component_body NodeComponentBody,
    emit_statement_block NodeStatementBlock,
    emit_typed_identifier NodeTypedIdentifier,
    emit_type_annotation NodeTypeAnnotation,
    emit_program NodeProgram,
    emit_library_definition NodeLibraryDefinition,
    emit_library_single_definition NodeLibrarySingleDefinition,
    emit_contract_definition NodeContractDefinition,
    emit_contract_field NodeContractField,
    emit_with_constraint NodeWithConstraint,
    emit_component_definition NodeComponentDefinition,
    emit_procedure_definition NodeProcedureDefinition,
    emit_transition_definition NodeTransitionDefinition,
    emit_type_alternative_clause NodeTypeAlternativeClause,
    emit_type_map_value_arguments NodeTypeMapValueArguments,
    emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments,
);

/// Parses tokens and throws the tree away.
fn parse_only(cat: &str, toks: &Toks) -> bool {
    macro_rules! dispatch {
        ($($name:literal $parser:ident),* $(,)?) => {
            match cat {
                $($name => p::$parser::new().parse(&mut vec![], toks.iter().cloned()).is_ok(),)*
                other => panic!("{other}"),
            }
        };
    }
    dispatch!(
        "Program" ProgramParser, "ByteString" ByteStringParser, "TypeNameIdentifier" TypeNameIdentifierParser,
        "ImportedName" ImportedNameParser, "ImportDeclarations" ImportDeclarationsParser,
        "MetaIdentifier" MetaIdentifierParser, "VariableIdentifier" VariableIdentifierParser,
        "BuiltinArguments" BuiltinArgumentsParser, "ScillaType" ScillaTypeParser, "TypeArgument" TypeArgumentParser,
        "AddressType" AddressTypeParser, "AddressTypeField" AddressTypeFieldParser, "TypeMapKey" TypeMapKeyParser,
        "TypeMapValue" TypeMapValueParser, "TypeMapValueArguments" TypeMapValueArgumentsParser,
        "TypeMapValueAllowingTypeArguments" TypeMapValueAllowingTypeArgumentsParser,
        "LibraryDefinition" LibraryDefinitionParser, "LibrarySingleDefinition" LibrarySingleDefinitionParser,
        "TypedIdentifier" TypedIdentifierParser, "TypeAnnotation" TypeAnnotationParser,
        "TypeAlternativeClause" TypeAlternativeClauseParser, "ContractTypeArguments" ContractTypeArgumentsParser,
        "FullExpression" FullExpressionParser, "PatternMatchExpressionClause" PatternMatchExpressionClauseParser,
        "Pattern" PatternParser, "ArgumentPattern" ArgumentPatternParser, "MessageEntry" MessageEntryParser,
        "AtomicExpression" AtomicExpressionParser, "ValueLiteral" ValueLiteralParser, "Statement" StatementParser,
        "StatementBlock" StatementBlockParser, "BlockchainFetchArguments" BlockchainFetchArgumentsParser,
        "ComponentId" ComponentIdParser, "PatternMatchClause" PatternMatchClauseParser,
        "RemoteFetchStatement" RemoteFetchStatementParser, "MapAccess" MapAccessParser,
        "ParameterPair" ParameterPairParser, "ComponentParameters" ComponentParametersParser,
        "ComponentDefinition" ComponentDefinitionParser, "TransitionDefinition" TransitionDefinitionParser,
        "ProcedureDefinition" ProcedureDefinitionParser, "ComponentBody" ComponentBodyParser,
        "ContractDefinition" ContractDefinitionParser, "ContractField" ContractFieldParser,
        "WithConstraint" WithConstraintParser,
    )
}

/// The tokens as the lexer makes them, each made once, laid out one blank apart.
fn real_tokens<'a>(toks: &'a [Tok], order: &[usize]) -> Toks<'a> {
    let made: Vec<Option<Token<&'a str>>> = toks.iter().map(|t| Some(Lexer::new(&t.text).next()?.ok()?.1)).collect();
    let mut at = 0;
    let place = |position: usize| SourcePosition { position, line: 0, column: position };
    order
        .iter()
        .filter_map(|i| {
            let a = at;
            at += toks[*i].text.len() + 1;
            Some(Ok((place(a), made[*i].clone()?, place(at - 1))))
        })
        .collect()
}

// -------------------------------------------------------------------------------------- generation

/// A sentence u v w x y in which v and x (the same number of times) may be repeated.
struct Pump {
    cat: &'static str,
    toks: Vec<Tok>,
    cut: [usize; 4],
    nested: bool,
    /// levels that one repetition adds
    levels: f64,
}

impl Pump {
    fn order(&self, n: usize) -> Vec<usize> {
        let [a, b, c, d] = self.cut;
        let mut o: Vec<usize> = (0..a).collect();
        (0..n).for_each(|_| o.extend(a..b));
        o.extend(b..c);
        (0..n).for_each(|_| o.extend(c..d));
        o.extend(d..self.toks.len());
        o
    }
    fn show(&self) -> String {
        let [a, b, c, d] = self.cut;
        let t = |r: std::ops::Range<usize>| tok::plain(&self.toks[r]);
        format!("{}: {} ⟦{}⟧ {} ⟦{}⟧ {}", self.cat, t(0..a), t(a..b), t(b..c), t(c..d), t(d..self.toks.len()))
    }
}

/// Measures how much deeper the tree gets with each repetition.
fn set_levels(mut p: Pump) -> Option<Pump> {
    let depth = |k: usize| {
        let t = parse_tree(p.cat, &real_tokens(&p.toks, &p.order(k)))?;
        let mut d = Depth::default();
        let _ = t.visit(&mut d);
        Some(d.deepest as f64)
    };
    let (a, b) = (guard(|| depth(4)).ok()??, guard(|| depth(10)).ok()??);
    p.levels = ((b - a) / 6.0).max(0.0);
    p.nested = p.levels > 0.0;
    Some(p)
}

fn gen_pump(s: &mut Src) -> Option<Pump> {
    let g = grammar::get();
    let cat = match s.weighted(&[10, 3, 3, 2, 8]) {
        0 => "Program",
        1 => "FullExpression",
        2 => "StatementBlock",
        3 => "ScillaType",
        _ => CATS[s.usize(CATS.len())],
    };
    let c = g.cat(cat);
    let mut toks = vec![];
    let max_tokens = [12, 30, 60][s.usize(3)];
    let max_depth = 2 + s.usize(9);
    g.sample(s, c, &mut toks, &SampleCfg { max_tokens, max_depth });
    if toks.len() > 150 {
        return None;
    }
    let kinds: Vec<Kind> = toks.iter().map(|t| t.kind).collect();
    let n = toks.len();
    let nested = s.chance(35);
    for _ in 0..60 {
        let a = s.usize(n);
        let b = a + 1 + s.usize((n - a).min(16));
        let cut = if nested {
            let c = b + s.usize(n - b + 1).min(12);
            let d = c + s.usize((n - c + 1).min(8));
            [a, b, c, d]
        } else {
            [a, b, b, b]
        };
        let pump = Pump { cat, toks: vec![], cut, nested, levels: 0.0 };
        let fits = |k: usize| {
            let p = Pump { cat, toks: toks.clone(), cut, nested, levels: 0.0 };
            let ks: Vec<Kind> = p.order(k).iter().map(|i| kinds[*i]).collect();
            g.recognise(c, &ks) == Verdict::Accept
        };
        if fits(2) && fits(3) && fits(5) {
            return set_levels(Pump { toks, ..pump });
        }
    }
    None
}

/// A type, or what goes around one: text before and after.
fn around_type(s: &mut Src) -> (&'static str, &'static str) {
    [
        ("(", ")"),
        ("((", "))"),
        ("Option (", ")"),
        ("List (", ")"),
        ("Pair (", ") Bool"),
        ("Pair Bool (", ")"),
        ("Map String (", ")"),
        ("Map ByStr20 ", ""),
        ("Map String (List (", "))"),
        ("Map (Uint32) Option (", ")"),
        ("ByStr20 with contract field f : ", " end"),
        ("ByStr20 with contract field a : Bool, field f : (", ") end"),
        ("(ByStr20 with contract field f : ", ", field b : Map Uint32 Bool end)"),
        ("Any (", ")"),
        ("A.Some Bool (", ") String"),
    ][s.usize(15)]
}

fn some_type(s: &mut Src) -> String {
    let inner = ["Uint32", "String", "Bool", "ByStr20", "ByStr", "ByStr33", "Any", "A.Any", "BNum", "Map Uint32 Bool", "ByStr20 with end"][s.usize(11)];
    let mut t = inner.to_string();
    for _ in 0..s.weighted(&[5, 3, 1]) {
        let (a, b) = around_type(s);
        t = format!("{a}{}{b}", if a.ends_with(' ') && a.starts_with("Map") && inner.contains(' ') { format!("({t})") } else { t });
    }
    t
}

/// Contracts of many entries, or with types that are deep.
fn gen_interface(s: &mut Src) -> Option<Pump> {
    let nested = s.chance(50);
    let (head, unit, middle, back, tail): (String, String, String, String, String) = if nested {
        let (mut a, mut b) = (String::new(), String::new());
        for _ in 0..1 + s.usize(2) {
            let (x, y) = around_type(s);
            a += x;
            b = format!("{y}{b}");
        }
        let (h, t) = [
            ("contract C (a : Bool, x : ", ") field g : Bool = y"),
            ("contract C () field f : ", " = x field g : Bool = y"),
            ("contract C () transition T (a : Bool, x : ", ") end"),
            ("contract C () procedure P (x : ", ") end transition T () end"),
            ("library L let a : ", " = b contract C (x : Bool)"),
        ][s.usize(5)];
        (format!("scilla_version 0 {h}"), a, some_type(s), b, t.to_string())
    } else {
        let t = some_type(s);
        let u = some_type(s);
        let (h, unit, tail) = match s.usize(9) {
            0 => ("contract C (".into(), format!("p : {t}, "), format!("q : {u}) field f : Bool = x")),
            1 => ("contract C () ".into(), format!("field f : {t} = x "), format!("field g : {u} = x")),
            2 => ("contract C () transition T (".into(), format!("p : {t}, "), format!("q : {u}) end")),
            3 => ("contract C () ".into(), format!("transition T (p : {t}, q : {u}) end "), "transition S () end".into()),
            4 => ("contract C () ".into(), format!("procedure p (p : {t}, q : {u}) end "), "transition S () end".into()),
            5 => ("contract C (p : ByStr20 with contract ".into(), format!("field f : {t}, "), format!("field g : {u} end)")),
            6 => (format!("contract C (p : Any ({t}) "), format!("({u}) "), ")".into()),
            7 => ("contract C () ".into(), format!("field f : {t} = x transition T (p : {u}) end ").replace("field", "transition U () accept end procedure V () end transition W (p : Bool, q : Bool) end (* field").replace(" = x", " *)"), String::new()),
            _ => ("library L ".into(), format!("type T = | A of ({t}) | B of ({u}) let x : {t} = y "), format!("contract C (p : {t})")),
        };
        (format!("scilla_version 0 {h}"), unit, String::new(), String::new(), tail)
    };
    let mut toks = vec![];
    let mut cut = [0; 4];
    for (i, part) in [head, unit, middle, back, tail].iter().enumerate() {
        toks.extend(tok::lex_to_toks(part));
        if i < 4 {
            cut[i] = toks.len();
        }
    }
    set_levels(Pump { cat: "Program", toks, cut, nested, levels: 0.0 })
}

// ---------------------------------------------------------------------------------------------- C20

/// Sizes for repetition side by side and for nesting.
const WIDE: &[usize] = &[60, 240, 960, 3_840, 15_360, 61_440];
const DEEP: &[usize] = &[6, 12, 24, 48, 96, 190];

/// Parsing, walking and summarising when a part of a sentence is repeated.
fn syntax(s: &mut Src) -> CaseResult {
    let by_hand = s.chance(30);
    let Some(p) = (if by_hand { gen_interface(s) } else { gen_pump(s) }) else {
        return Ok(Info { classes: vec!["nothing to repeat"], key: hash64(&s.record.len().to_le_bytes()), ..Info::default() });
    };
    // sometimes the text ends in an offending token
    let spoiled = s.chance(15);
    let mut p = p;
    if spoiled {
        let t = Tok::kw(["library", ")", "=>", "end", "scilla_version"][s.usize(5)]);
        p.toks.push(t);
    }
    let mut evals = 0;
    let run = |what: &str, f: &dyn Fn(&Toks) -> Result<Cost, String>| -> Result<u64, runner::Fail> {
        let unit = (p.cut[1] - p.cut[0] + p.cut[3] - p.cut[2]).max(1);
        let sizes: Vec<usize> = if p.nested {
            DEEP.iter().copied().filter(|k| *k as f64 * p.levels <= 1_200.0).collect()
        } else {
            WIDE.iter().copied().filter(|k| k * unit <= 150_000).collect()
        };
        grows(what, &sizes, 400_000_000, &|k| {
            let order = p.order(k);
            let toks = real_tokens(&p.toks, &order);
            f(&toks)
        })
        .map_err(|msg| runner::Fail { msg, input: p.show() })
    };
    evals += run("parsing", &|toks| measure(|| parse_only(p.cat, toks)))?;
    if !spoiled {
        evals += run("walking the tree", &|toks| {
            let t = parse_tree(p.cat, toks).ok_or("no tree")?;
            measure(|| t.visit(&mut Nothing).is_ok())
        })?;
    }
    let mut classes = vec![if p.nested { "nested" } else { "side by side" }, if spoiled { "rejected" } else { "accepted" }];
    if p.cat == "Program" {
        classes.push("summarised");
        if !spoiled {
            evals += run("making the summary", &|toks| {
                let t = p::ProgramParser::new().parse(&mut vec![], toks.iter().cloned()).map_err(|e| format!("{e:?}"))?;
                measure(|| SrEmitter::default().emit(&t).is_ok())
            })?;
        }
        // the whole way from the text, which is slower by itself
        let unit = (p.cut[1] - p.cut[0] + p.cut[3] - p.cut[2]).max(1);
        let sizes: Vec<usize> = if p.nested {
            DEEP.iter().copied().filter(|k| *k as f64 * p.levels <= 1_200.0).collect()
        } else {
            WIDE.iter().copied().filter(|k| k * unit <= 50_000).collect()
        };
        evals += grows("reading the contract", &sizes, 300_000_000, &|k| {
            let text: Vec<&str> = p.order(k).iter().map(|i| p.toks[*i].text.as_str()).collect();
            let text = text.join(" ");
            measure(|| text.parse::<Contract>().is_ok())
        })
        .map_err(|msg| runner::Fail { msg, input: p.show() })?;
    }
    let sample = p.show();
    Ok(Info { nontrivial: true, classes, key: hash64(sample.as_bytes()), sample, evals })
}

/// A piece of text that may be repeated between tokens or inside one.
fn gen_filler(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 2, 2]) {
        0 => [" ", "\n", "\t", "\r\n", "  \n", "\u{2003}", "\n\n\n"][s.usize(7)].to_string(),
        1 => tok::gen_comment(s),
        2 => format!("{}{}", tok::gen_comment(s), [" ", "\n"][s.usize(2)]),
        _ => ["(**)", "(* ( * ) *)", "(*\n*)", "(* * *)"][s.usize(4)].to_string(),
    }
}

/// Tokenising text of many tokens, long tokens, long gaps.
fn lexical(s: &mut Src) -> CaseResult {
    // (class, text before, repeated text, text after, most repetitions, contract around it)
    let (what, head, unit, tail, most, around): (&'static str, String, String, String, usize, Option<(&str, &str)>) = match s.weighted(&[3, 3, 3, 2, 1]) {
        // many tokens; those that are no keywords cost more
        0 => {
            let k = 1 + s.usize(3);
            let mut unit = String::new();
            let mut dear = 0;
            for _ in 0..k {
                if s.chance(35) {
                    dear += 1;
                    unit += &[tok::gen_lower(s), tok::gen_upper(s), tok::gen_number(s), tok::gen_string(s, true), tok::gen_bystrn(s), tok::gen_hex(s)]
                        [s.usize(6)];
                } else {
                    unit += tok::TERMINALS[s.usize(50)];
                }
                unit += [" ", "\n", "  ", "(* *)"][s.usize(4)];
            }
            ("many tokens", String::new(), unit, String::new(), if dear > 0 { 20_000 } else { 150_000 }, None)
        }
        // one long token
        1 => {
            const FIELD: &str = "scilla_version 0 contract C () field f : ";
            let (h, u, t, around) = match s.usize(12) {
                0 => ("\"", "a", "\"", ("scilla_version 0 contract C () field f : String = ", " field g : Bool = b")),
                1 => ("\"", "\\\"", "\"", ("scilla_version 0 contract C () field f : String = ", "")),
                2 => ("\"", "é\n", "\"", ("scilla_version 0 contract C () field f : String = ", "")),
                3 => ("x", "y1_", "", ("scilla_version 0 contract C (", " : Uint32)")),
                4 => ("X", "yZ", "", ("scilla_version 0 contract ", " ()")),
                5 => ("X", "y", "", (FIELD, " = x")),
                6 => ("1", "0", "", ("scilla_version ", " contract C ()")),
                7 => ("0x", "aF", "", ("scilla_version 0 contract C () field f : ByStr = ", "")),
                8 => ("0x", "aF", "", (FIELD, ".A = x")),
                9 => ("ByStr", "1", "", (FIELD, " = x")),
                10 => ("_", "_a", "", ("scilla_version 0 contract C () field f : Bool = ", "")),
                _ => ("'A", "b_", "", (FIELD, " = x")),
            };
            ("a long token", h.into(), u.into(), t.into(), 400_000, Some(around))
        }
        // long gaps
        2 => {
            let open = s.chance(25);
            let (h, u, t) = if open {
                ("(*".to_string(), ["a", "*", "\n", "(", "é", "* )"][s.usize(6)].to_string(), ["*)", ""][s.usize(2)].to_string())
            } else {
                (String::new(), gen_filler(s), String::new())
            };
            let around = [
                ("", "scilla_version 0 contract C (a : Uint32)"),
                ("scilla_version 0 ", " contract C (a : Uint32)"),
                ("scilla_version 0 contract C (a : Map Uint32 ", " Bool) transition T () end"),
                ("scilla_version 0 contract C (a : Uint32) ", ""),
                ("scilla_version 0 contract C () transition T () accept ", " ; accept end procedure p () end"),
            ][s.usize(5)];
            ("a long gap", h, u, t, 200_000, Some(around))
        }
        // characters no token begins with, also among others
        4 => {
            const ODD: &[&str] = &["é", "漢", "٣", "#", "\u{1}", "$", "ß", "'", "!", "²", "\u{301}", "😀"];
            let mut unit = ODD[s.usize(ODD.len())].to_string();
            for _ in 0..s.usize(3) {
                unit += ["a", "end", "_", "1", "X", " ", "é", "ByStr", "=", "漢"][s.usize(10)];
            }
            ("no tokens", String::new(), unit, String::new(), 20_000, Some(("scilla_version 0 contract C (", ")")))
        }
        // some tokens with long gaps between them
        _ => {
            let filler = gen_filler(s).repeat(40 + s.usize(80));
            let (t, around) = [
                ("import A", ("scilla_version 0 ", " library L contract C ()")),
                ("field f : Uint32 = x", ("scilla_version 0 contract C () ", "")),
                ("transition T () end", ("scilla_version 0 contract C () ", "")),
                ("type T", ("scilla_version 0 library L ", " contract C ()")),
                ("a : Uint32,", ("scilla_version 0 contract C (", " a : Uint32)")),
            ][s.usize(5)];
            ("tokens far apart", String::new(), format!("{t} {filler}"), String::new(), 300, Some(around))
        }
    };
    let text = |k: usize| format!("{head}{}{tail}", unit.repeat(k));
    let lex = |text: &str| {
        Lexer::new(text).take(text.len() + 1).count()
    };
    let most = most.min(600_000 / unit.len().max(1)).max(64);
    let sizes: Vec<usize> = [16, 64, 256, 1_024, 4_096, 16_384, 65_536, 262_144].into_iter().filter(|k| *k <= most).collect();
    let (before, after) = around.unwrap_or_default();
    let input = format!("{before}{head}⟦{unit}⟧{tail}{after}");
    let mut evals = grows("tokenising", &sizes, 400_000_000, &|k| {
        let t = format!("{} x", text(k));
        measure(|| lex(&t))
    })
    .map_err(|msg| runner::Fail { msg, input: input.clone() })?;
    if around.is_some() {
        evals += grows("reading the contract", &sizes, 400_000_000, &|k| {
            let t = format!("{before}{}{after}", text(k));
            measure(|| t.parse::<Contract>().is_ok())
        })
        .map_err(|msg| runner::Fail { msg, input: input.clone() })?;
    }
    Ok(Info { nontrivial: true, classes: vec![what], key: hash64(input.as_bytes()), sample: input, evals })
}

fn c20(s: &mut Src, _: usize) -> CaseResult {
    if s.chance(40) {
        lexical(s)
    } else {
        syntax(s)
    }
}

fn main() {
    runner::main(&[
        Check {
            id: "C20",
            quick: 1_300,
            thorough: 52_000,
            rule: "a text with a part that is repeated: some part could be repeated and its costs were compared at three sizes at least",
            assumptions: &["processor time is judged with a tolerance of 10 times the proportional cost, memory with one of 3"],
            fixed: 0,
            f: c20,
            known: None,
            guided: 0,
        },
    ])
}
