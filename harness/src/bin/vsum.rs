//! Checks on summaries made from syntax trees: C19.
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::{Lexer, SourcePosition};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use vcommon::choice::{hash64, Src};
use vcommon::iface::*;
use vcommon::runner::{self, fail, guard, CaseResult, Check, Info, GENERATED};
use vcommon::tok;

#[path = "../api.rs"]
mod api;
use api::*;

// ---------------------------------------------------------------------------------------- C19

/// One of the parts of a deck of parsed contracts, with what its summary entry is.
struct Deck {
    programs: Vec<(NodeProgram, CModel)>,
}

fn parse_tree(text: &str) -> Result<NodeProgram, String> {
    match guard(|| ProgramParser::new().parse(&mut vec![], Lexer::new(text)).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("rejected: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn gen_position(s: &mut Src) -> SourcePosition {
    match s.usize(3) {
        0 => SourcePosition::invalid_position(),
        1 => SourcePosition::start_position(),
        _ => SourcePosition { position: s.usize(1 << 20), line: s.usize(9999), column: s.usize(300) },
    }
}

/// How the positions of a tree put together by hand look.
#[derive(Clone, Copy)]
enum Spots {
    AsRead,
    /// every node starts where it ends
    Empty,
    /// all nodes at one place
    One(SourcePosition),
    Swapped,
    /// as if read from a text some way into another one
    Shifted(usize),
    Any,
}

fn gen_spots(s: &mut Src) -> Spots {
    match s.weighted(&[4, 1, 1, 1, 1, 2]) {
        0 => Spots::AsRead,
        1 => Spots::Empty,
        2 => Spots::One(gen_position(s)),
        3 => Spots::Swapped,
        4 => Spots::Shifted(s.usize(1 << 20)),
        _ => Spots::Any,
    }
}

fn spot<T>(s: &mut Src, how: Spots, n: &mut WithMetaData<T>) {
    match how {
        Spots::AsRead => {}
        Spots::Empty => n.end = n.start,
        Spots::One(p) => (n.start, n.end) = (p, p),
        Spots::Swapped => std::mem::swap(&mut n.start, &mut n.end),
        Spots::Shifted(d) => {
            for p in [&mut n.start, &mut n.end] {
                p.position = p.position.wrapping_add(d);
                p.line = p.line.wrapping_add(d / 30);
            }
        }
        Spots::Any => {
            n.start = gen_position(s);
            n.end = if s.chance(30) { n.start } else { gen_position(s) };
        }
    }
}

fn spot_type(s: &mut Src, how: Spots, n: &mut WithMetaData<NodeScillaType>) {
    spot(s, how, n);
    match &mut n.node {
        NodeScillaType::GenericTypeWithArgs(lead, args) => {
            spot(s, how, lead);
            for a in args {
                spot(s, how, a);
                match &mut a.node {
                    NodeTypeArgument::EnclosedTypeArgument(t) => spot_type(s, how, t),
                    NodeTypeArgument::GenericTypeArgument(t) => spot(s, how, t),
                    _ => {}
                }
            }
        }
        NodeScillaType::MapType(k, v) => {
            spot(s, how, k);
            spot(s, how, v);
        }
        NodeScillaType::EnclosedType(t) => spot_type(s, how, t),
        NodeScillaType::ScillaAddresseType(a) => {
            spot(s, how, a);
            spot(s, how, &mut a.node.identifier);
            spot(s, how, &mut a.node.type_name);
            for f in &mut a.node.address_fields {
                spot(s, how, f);
                spot(s, how, &mut f.node.identifier);
                spot_type(s, how, &mut f.node.type_name);
            }
        }
        _ => {}
    }
}

fn spot_named(s: &mut Src, how: Spots, n: &mut WithMetaData<NodeTypedIdentifier>) {
    spot(s, how, n);
    spot(s, how, &mut n.node.identifier_name);
    spot(s, how, &mut n.node.annotation);
    spot_type(s, how, &mut n.node.annotation.node.type_name);
}

fn spot_all(s: &mut Src, how: Spots, t: &mut NodeProgram) {
    spot(s, how, &mut t.version);
    if let Some(i) = &mut t.import_declarations {
        spot(s, how, i);
    }
    if let Some(l) = &mut t.library_definition {
        spot(s, how, l);
    }
    spot(s, how, &mut t.contract_definition);
    let d = &mut t.contract_definition.node;
    spot(s, how, &mut d.contract_name);
    let params = |s: &mut Src, n: &mut WithMetaData<NodeComponentParameters>| {
        spot(s, how, n);
        for p in &mut n.node.parameters {
            spot(s, how, p);
            spot_named(s, how, &mut p.node.identifier_with_type);
        }
    };
    params(s, &mut d.parameters);
    if let Some(c) = &mut d.constraint {
        spot(s, how, c);
    }
    for f in &mut d.fields {
        spot(s, how, f);
        spot_named(s, how, &mut f.node.typed_identifier);
        spot(s, how, &mut f.node.right_hand_side);
    }
    for c in &mut d.components {
        spot(s, how, c);
        let (name, ps, body) = match &mut c.node {
            NodeComponentDefinition::TransitionComponent(t) => {
                spot(s, how, t);
                (&mut t.node.name, &mut t.node.parameters, &mut t.node.body)
            }
            NodeComponentDefinition::ProcedureComponent(t) => {
                spot(s, how, t);
                (&mut t.node.name, &mut t.node.parameters, &mut t.node.body)
            }
        };
        spot(s, how, name);
        params(s, ps);
        spot(s, how, body);
    }
}

/// A name no text can give.
fn odd_name(s: &mut Src) -> String {
    const N: &[&str] = &["", " ", "a b", "é", "A.b", "contract", "Map", "0x00", "'A", "\"", "a\nb", "ByStr20", "_", "(*", "end", "Uint32", " a"];
    N[s.usize(N.len())].to_string()
}

fn c19(s: &mut Src, fixed: usize) -> CaseResult {
    let mut deck = Deck { programs: vec![] };
    let mut texts = vec![];
    let n = 1 + s.weighted(&[4, 4, 1]);
    for i in 0..n {
        let d = s.usize(4);
        let (m, _) = gen_contract(s, Shape { small: true, depth: d });
        let (text, m) = if fixed != GENERATED && i == 0 {
            // a real contract lends its parts that are not in the summary
            let t = corpus()[fixed].1.clone();
            let c = model_of(&tok::lex_to_toks(&t));
            (t, c)
        } else {
            let style = tok::gen_style(s);
            (tok::layout(s, &m.toks(), style).text, m)
        };
        let tree = match parse_tree(&text) {
            Ok(t) => t,
            Err(e) => return fail(e, text),
        };
        let d = &tree.contract_definition.node;
        if d.parameters.node.parameters.len() != m.params.len() || d.fields.len() != m.fields.len() || d.components.len() != m.comps.len() {
            return fail("the tree has another number of parameters, fields or components than the text", text);
        }
        texts.push(text);
        deck.programs.push((tree, m));
    }
    // what could lie in the deck unrepresented; planted into it on purpose
    let bad = if s.chance(12) {
        let (ty, class) = {
            let d = s.usize(4);
            gen_offending(s, d)
        };
        let mut toks = vec![];
        emit_ty(s, &ty, Place::Scilla, &mut toks, 0);
        let t = format!("scilla_version 0 contract C (v : {})", tok::plain(&toks));
        match parse_tree(&t) {
            Ok(p) => {
                texts.push(t);
                Some((p.contract_definition.node.parameters.node.parameters[0].clone(), class))
            }
            Err(e) => return fail(e, t),
        }
    } else {
        None
    };
    let pick = |s: &mut Src| s.usize(n);
    // assemble a new tree
    let mut log = String::new();
    let mut tree = deck.programs[pick(s)].0.clone();
    let from = pick(s);
    tree.import_declarations = if s.chance(60) { deck.programs[from].0.import_declarations.clone() } else { None };
    let from = pick(s);
    tree.library_definition = if s.chance(60) { deck.programs[from].0.library_definition.clone() } else { None };
    let from = pick(s);
    tree.version = deck.programs[from].0.version.clone();
    let mut want = Summary::default();
    {
        let c = &mut tree.contract_definition.node;
        let from = pick(s);
        c.contract_name = deck.programs[from].0.contract_definition.node.contract_name.clone();
        want.name = deck.programs[from].1.name.text.clone();
        if s.chance(10) {
            want.name = odd_name(s);
            let n = &mut c.contract_name;
            n.node = NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(WithMetaData { node: want.name.clone(), start: n.start, end: n.end });
        }
        let from = pick(s);
        c.constraint = if s.chance(60) { deck.programs[from].0.contract_definition.node.constraint.clone() } else { None };
        // entries: (tree part, summary) pairs of parts whose types are modelled
        let typed = |e: &Entry| e.want.clone().map(|t| (e.name.clone(), t));
        let params: Vec<_> = deck
            .programs
            .iter()
            .flat_map(|(t, m)| t.contract_definition.node.parameters.node.parameters.iter().zip(&m.params))
            .filter_map(|(t, e)| Some((t, typed(e)?)))
            .chain(deck.programs.iter().flat_map(|(t, m)| {
                // parameters of components serve as well
                t.contract_definition.node.components.iter().zip(&m.comps).flat_map(|(c, e)| {
                    let ps = match &c.node {
                        NodeComponentDefinition::TransitionComponent(t) => &t.node.parameters.node.parameters,
                        NodeComponentDefinition::ProcedureComponent(p) => &p.node.parameters.node.parameters,
                    };
                    ps.iter().zip(&e.params).filter_map(|(t, e)| Some((t, typed(e)?)))
                })
            }))
            .collect();
        let gen_params = |s: &mut Src| -> (Vec<WithMetaData<NodeParameterPair>>, Vec<(String, MTy)>) {
            let k = if params.is_empty() { 0 } else { s.usize(6) };
            (0..k)
                .map(|_| {
                    let (t, e) = &params[s.usize(params.len())];
                    let (mut t, mut e) = ((*t).clone(), e.clone());
                    if s.chance(25) {
                        e.0 = if s.chance(20) { odd_name(s) } else { tok::gen_lower(s) };
                        t.node.identifier_with_type.node.identifier_name.node = e.0.clone();
                    }
                    if s.chance(15) {
                        // one pair of parentheses more
                        let ty = &mut t.node.identifier_with_type.node.annotation.node.type_name;
                        *ty = WithMetaData { node: NodeScillaType::EnclosedType(Box::new(ty.clone())), start: gen_position(s), end: gen_position(s) };
                    }
                    if s.chance(25) {
                        t.start = gen_position(s);
                        t.node.identifier_with_type.node.annotation.start = gen_position(s);
                        t.node.identifier_with_type.node.annotation.node.type_name.end = gen_position(s);
                    }
                    (t, e)
                })
                .unzip()
        };
        let (t, e) = gen_params(s);
        c.parameters.node.parameters = t;
        want.params = e;
        let fields: Vec<_> = deck
            .programs
            .iter()
            .flat_map(|(t, m)| t.contract_definition.node.fields.iter().zip(&m.fields))
            .collect();
        let k = if fields.is_empty() { 0 } else { s.usize(6) };
        c.fields.clear();
        for _ in 0..k {
            let (t, f) = fields[s.usize(fields.len())];
            let mut t = t.clone();
            let init = &fields[s.usize(fields.len())].0.node.right_hand_side;
            if s.chance(50) {
                t.node.right_hand_side = init.clone();
            }
            let e = match typed(&f.entry) {
                Some(e) => e,
                // only its right-hand side is of use
                None => match params.is_empty() {
                    true => continue,
                    false => {
                        let (p, e) = &params[s.usize(params.len())];
                        t.node.typed_identifier = p.node.identifier_with_type.clone();
                        e.clone()
                    }
                },
            };
            if s.chance(25) {
                t.end = gen_position(s);
                t.node.typed_identifier.start = gen_position(s);
            }
            c.fields.push(t);
            want.fields.push(e);
        }
        let comps: Vec<_> = deck
            .programs
            .iter()
            .flat_map(|(t, m)| t.contract_definition.node.components.iter().zip(&m.comps))
            .collect();
        let k = if comps.is_empty() { 0 } else { s.usize(7) };
        c.components.clear();
        for _ in 0..k {
            let (t, m) = comps[s.usize(comps.len())];
            let (name, body) = match &t.node {
                NodeComponentDefinition::TransitionComponent(t) => (&t.node.name, &t.node.body),
                NodeComponentDefinition::ProcedureComponent(p) => (&p.node.name, &p.node.body),
            };
            let (ps, es) = gen_params(s);
            let parameters = WithMetaData { node: NodeComponentParameters { parameters: ps }, start: gen_position(s), end: gen_position(s) };
            let (mut name, mut body) = (name.clone(), body.clone());
            let mut text = m.name.text.clone();
            if s.chance(15) {
                text = if s.chance(30) { odd_name(s) } else { tok::gen_upper(s) };
                let n = WithMetaData { node: text.clone(), start: name.start, end: name.end };
                name.node = if s.chance(50) {
                    NodeComponentId::WithRegularId(n)
                } else {
                    let (start, end) = (n.start, n.end);
                    NodeComponentId::WithTypeLikeName(WithMetaData { node: NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(n), start, end })
                };
            }
            if s.chance(10) {
                body.node.statement_block = None;
            }
            let part = if s.chance(70) {
                want.transitions.push((text, es));
                NodeComponentDefinition::TransitionComponent(Box::new(WithMetaData {
                    node: NodeTransitionDefinition { name, parameters, body },
                    start: t.start,
                    end: t.end,
                }))
            } else {
                NodeComponentDefinition::ProcedureComponent(Box::new(WithMetaData {
                    node: NodeProcedureDefinition { name, parameters, body },
                    start: gen_position(s),
                    end: t.end,
                }))
            };
            c.components.push(WithMetaData { node: part, start: t.start, end: t.end });
        }
    }
    let how = gen_spots(s);
    spot_all(s, how, &mut tree);
    let mut classes = vec!["assembled"];
    classes.push(match how {
        Spots::AsRead => "positions as read",
        Spots::Empty => "empty spans",
        Spots::One(_) => "all at one place",
        Spots::Swapped => "spans the wrong way round",
        Spots::Shifted(_) => "shifted",
        Spots::Any => "any positions",
    });
    let mut refuse = None;
    if let Some((p, class)) = &bad {
        let c = &mut tree.contract_definition.node;
        let mut trans: Vec<(usize, bool)> = vec![];
        for (i, x) in c.components.iter().enumerate() {
            trans.push((i, matches!(x.node, NodeComponentDefinition::TransitionComponent(_))));
        }
        if trans.is_empty() || s.chance(30) {
            let at = s.usize(c.parameters.node.parameters.len() + 1);
            c.parameters.node.parameters.insert(at, p.clone());
            refuse = Some(*class);
        } else {
            let (i, t) = trans[s.usize(trans.len())];
            match &mut c.components[i].node {
                NodeComponentDefinition::TransitionComponent(x) => x.node.parameters.node.parameters.push(p.clone()),
                NodeComponentDefinition::ProcedureComponent(x) => x.node.parameters.node.parameters.push(p.clone()),
            }
            if t {
                refuse = Some(*class);
            }
        }
        log += &format!("with an unrepresentable parameter ({class})\n");
    }
    let input = || format!("{log}texts:\n{}\ntree: {tree:#?}", texts.join("\n---\n"));
    let before = tree.clone();
    let emit = || guard(|| SrEmitter::default().emit(&tree));
    let first = emit();
    let second = emit();
    match (&first, refuse) {
        (Err(p), _) => return fail(format!("panic: {p}"), input()),
        (Ok(Ok(c)), Some(class)) => return fail(format!("{class} is misreported: {:?}", summary(c)), input()),
        (Ok(Err(_)), Some(_)) => classes.push("refused"),
        (Ok(Err(e)), None) => return fail(format!("refused: {e}"), input()),
        (Ok(Ok(c)), None) => {
            let got = summary(c);
            if got != want {
                return fail(format!("summary of a hand-made tree: {}", diff(&want, &got)), input());
            }
        }
    }
    if format!("{first:?}") != format!("{second:?}") {
        return fail(format!("two summaries of one tree: {first:?} and {second:?}"), input());
    }
    if tree != before {
        return fail("making the summary changed the tree", input());
    }
    // the trees as they were read: the summary is the one parsing the text gives
    for ((t, _), text) in deck.programs.iter().zip(&texts) {
        let (a, b) = (guard(|| SrEmitter::default().emit(t)), parse(text));
        match (&a, &b) {
            (Ok(Ok(x)), Ok(Ok(y))) if x == y => {}
            (Ok(Err(_)), Ok(Err(_))) => {}
            _ => return fail(format!("summary of the tree: {a:?}\nsummary of the text: {b:?}"), text.clone()),
        }
    }
    let entries = want.params.len() + want.fields.len() + want.transitions.len();
    let key = hash64(format!("{tree:?}").as_bytes());
    let sample = format!("{}\n=> {want:?}", texts.join("\n---\n"));
    Ok(Info { nontrivial: entries >= 3, classes, key, sample, evals: 2 + n as u64 })
}

fn main() {
    let n = corpus().len();
    runner::main(&[
        Check {
            id: "C19",
            quick: 80_000,
            thorough: 4_800_000,
            rule: "a tree with at least three interface entries, put together from parts of several parsed contracts; distinct by tree",
            assumptions: &["every part of the tree was once parsed, up to names, positions and enclosing parentheses"],
            fixed: n,
            f: c19,
            known: None,
            guided: 4,
        },
    ])
}
