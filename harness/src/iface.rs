//! Interface model: types, contracts, their rendering as token sequences, the expected summary, and
//! edits. Independent of the code under test.
use crate::choice::Src;
use crate::grammar::{self, SampleCfg};
use crate::tok::{self, kind, Tok};

// ------------------------------------------------------------------------------------------ types

/// What a summary says about a type (mirror of the public `Type`).
#[derive(Clone, Debug, PartialEq)]
pub enum MTy {
    Prim(&'static str),
    ByStr20,
    ByStrX(usize),
    With(String, Vec<(String, MTy)>),
    Map(Box<MTy>, Box<MTy>),
    Option(Box<MTy>),
    List(Box<MTy>),
    Pair(Box<MTy>, Box<MTy>),
    Other(String),
}

pub const PRIMS: &[&str] = &[
    "Uint128", "Uint32", "Int32", "Int64", "Int128", "Int256", "Uint64", "Uint256", "String", "BNum", "Bool", "ByStr",
];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(&'static str),
    ByStrN(usize),
    /// address: kind ("" / contract / library / special name), fields (name tokens, type)
    Addr(String, Vec<(Vec<Tok>, Ty)>),
    Map(Box<Ty>, Box<Ty>),
    /// Option, List, Pair with the right number of arguments
    App(&'static str, Vec<Ty>),
    /// any other name, possibly qualified, possibly applied
    Named(Vec<Tok>, Vec<Ty>),
    // ---- not representable
    Fun(Box<Ty>, Box<Ty>),
    Forall(String, Box<Ty>),
    TVar(String),
    /// a built-in name applied to a wrong number of arguments
    BadArity(Tok, Vec<Ty>),
}

fn join(t: &[Tok]) -> String {
    t.iter().map(|x| x.text.as_str()).collect()
}

impl Ty {
    pub fn summary(&self) -> MTy {
        match self {
            Ty::Prim(p) => MTy::Prim(p),
            Ty::ByStrN(20) => MTy::ByStr20,
            Ty::ByStrN(n) => MTy::ByStrX(*n),
            Ty::Addr(k, f) => MTy::With(k.clone(), f.iter().map(|(n, t)| (join(n), t.summary())).collect()),
            Ty::Map(k, v) => MTy::Map(Box::new(k.summary()), Box::new(v.summary())),
            Ty::App("Option", a) => MTy::Option(Box::new(a[0].summary())),
            Ty::App("List", a) => MTy::List(Box::new(a[0].summary())),
            Ty::App("Pair", a) => MTy::Pair(Box::new(a[0].summary()), Box::new(a[1].summary())),
            Ty::App(..) => unreachable!(),
            Ty::Named(n, _) => MTy::Other(join(n)),
            _ => panic!("not representable"),
        }
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            Ty::Addr(_, f) => f.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            Ty::Map(k, v) | Ty::Fun(k, v) => k.depth().max(v.depth()),
            Ty::App(_, a) | Ty::Named(_, a) | Ty::BadArity(_, a) => a.iter().map(|x| x.depth()).max().unwrap_or(0),
            Ty::Forall(_, t) => t.depth(),
            _ => 0,
        }
    }
    fn is_leaf(&self) -> bool {
        match self {
            Ty::Prim(_) | Ty::ByStrN(_) => true,
            Ty::Named(_, a) | Ty::BadArity(_, a) => a.is_empty(),
            _ => false,
        }
    }
}

fn gen_field_name(s: &mut Src) -> Vec<Tok> {
    match s.weighted(&[7, 2, 2]) {
        0 => vec![Tok::class("<ID>", tok::gen_lower(s))],
        1 => vec![Tok::class("<SPID>", tok::gen_class(s, "<SPID>"))],
        _ => {
            let q = gen_simple_name(s);
            vec![q, Tok::kw("."), Tok::class("<ID>", tok::gen_lower(s))]
        }
    }
}

/// TypeNameIdentifier token
pub fn gen_simple_name(s: &mut Src) -> Tok {
    match s.weighted(&[8, 1, 1]) {
        0 => Tok::class("<CID>", tok::gen_upper(s)),
        1 => Tok::kw("Event"),
        _ => Tok::class("<BYSTRN>", tok::gen_bystrn(s)),
    }
}

fn gen_other_name(s: &mut Src) -> Vec<Tok> {
    match s.weighted(&[7, 1, 2, 2]) {
        0 => vec![Tok::class("<CID>", tok::gen_custom(s))],
        1 => vec![Tok::kw("Event")],
        2 => {
            // names of modules that exist qualify the names of built-in types, too
            const Q: &[&str] = &["Prelude", "ListUtils", "PairUtils", "IntUtils", "BoolUtils", "NatUtils", "Polynetwork", "Conversions", "Core", "Std", "Types", "Scilla"];
            let q = if s.chance(25) { Tok::class("<CID>", Q[s.usize(Q.len())]) } else { gen_simple_name(s) };
            let n = match s.weighted(&[4, 2, 1]) {
                0 => gen_simple_name(s),
                1 => Tok::class("<CID>", PRIMS[s.usize(PRIMS.len() - 1)]),
                _ => Tok::class("<CID>", *s.pick(&["Option", "List", "Pair"])),
            };
            vec![q, Tok::kw("."), n]
        }
        _ => vec![Tok::class("<HEX>", tok::gen_hex(s)), Tok::kw("."), gen_simple_name(s)],
    }
}

pub fn gen_size(s: &mut Src) -> usize {
    let edge = if crate::dict::get().fresh_ints.is_empty() { 1 } else { 6 };
    match s.weighted(&[10, 8, 4, edge]) {
        0 => 20,
        1 => s.usize(300),
        3 => crate::dict::edge(s, 1 << 40),
        _ => *s.pick(&[0, 1, 2, 19, 21, 32, 33, 255, 256, 65535, 65536, 4294967295, 4294967296, usize::MAX - 1, usize::MAX]),
    }
}

fn gen_leaf(s: &mut Src) -> Ty {
    match s.weighted(&[8, 4, 4]) {
        0 => Ty::Prim(PRIMS[s.usize(PRIMS.len())]),
        1 => Ty::ByStrN(gen_size(s)),
        _ => Ty::Named(gen_other_name(s), vec![]),
    }
}

fn gen_addr(s: &mut Src, depth: usize) -> Ty {
    match s.weighted(&[2, 6, 1, 2]) {
        0 => Ty::Addr(String::new(), vec![]),
        1 => {
            let many = crate::dict::rarely(s, 6);
            let n = if many {
                crate::dict::edge(s, 150)
            } else if depth == 0 {
                s.usize(2)
            } else {
                s.len(6)
            };
            let depth = if many { 0 } else { depth };
            let mut fields: Vec<(Vec<Tok>, Ty)> = Vec::new();
            for _ in 0..n {
                // sometimes reuse a name
                let name = if !fields.is_empty() && s.chance(10) {
                    fields[s.usize(fields.len())].0.clone()
                } else {
                    gen_field_name(s)
                };
                fields.push((name, if many { gen_leaf(s) } else { gen_ty(s, depth.saturating_sub(1)) }));
            }
            Ty::Addr("contract".into(), fields)
        }
        2 => Ty::Addr("library".into(), vec![]),
        _ => Ty::Addr(tok::gen_class(s, "<SPID>"), vec![]),
    }
}

/// A representable type.
pub fn gen_ty(s: &mut Src, depth: usize) -> Ty {
    if depth == 0 {
        return if s.chance(10) { gen_addr(s, 0) } else { gen_leaf(s) };
    }
    match s.weighted(&[6, 4, 4, 2, 2, 3, 2]) {
        0 => gen_leaf(s),
        1 => {
            let key = if s.chance(20) { gen_addr(s, depth - 1) } else { gen_key_leaf(s) };
            Ty::Map(Box::new(key), Box::new(gen_ty(s, depth - 1)))
        }
        2 => gen_addr(s, depth),
        3 => Ty::App("Option", vec![gen_ty(s, depth - 1)]),
        4 => Ty::App("List", vec![gen_ty(s, depth - 1)]),
        5 => Ty::App("Pair", vec![gen_ty(s, depth - 1), gen_ty(s, depth - 1)]),
        _ => {
            let n = gen_other_name(s);
            let k = 1 + s.usize(3);
            Ty::Named(n, (0..k).map(|_| gen_ty(s, depth - 1)).collect())
        }
    }
}

fn gen_key_leaf(s: &mut Src) -> Ty {
    gen_leaf(s)
}

/// A representable type; rarely a deep one.
pub fn gen_ty_top(s: &mut Src, depth: usize) -> Ty {
    if !crate::dict::rarely(s, 6) {
        return gen_ty(s, depth);
    }
    let mut t = gen_ty(s, 1);
    let w = s.usize(8);
    for _ in 0..crate::dict::edge(s, 150) {
        t = match if w < 6 { w } else { s.usize(6) } {
            0 => Ty::Map(Box::new(gen_leaf(s)), Box::new(t)),
            1 => {
                let mut f = vec![(gen_field_name(s), t)];
                if s.chance(10) {
                    f.insert(s.usize(2), (gen_field_name(s), gen_leaf(s)));
                }
                Ty::Addr("contract".into(), f)
            }
            2 => Ty::App("Option", vec![t]),
            3 => Ty::App("List", vec![t]),
            4 => {
                let o = gen_leaf(s);
                Ty::App("Pair", if s.chance(50) { vec![t, o] } else { vec![o, t] })
            }
            _ => Ty::Named(gen_other_name(s), vec![t]),
        };
    }
    t
}

/// A type that contains exactly one construct that no summary can represent. Returns its class too.
pub fn gen_offending(s: &mut Src, depth: usize) -> (Ty, &'static str) {
    if depth == 0 || (depth <= 8 && s.chance(30)) {
        return gen_offence(s, depth.min(2));
    }
    match s.weighted(&[3, 3, 2, 2, 3, 2, 1]) {
        0 => {
            let (v, c) = gen_offending_map_value(s, depth - 1);
            (Ty::Map(Box::new(gen_leaf(s)), Box::new(v)), c)
        }
        1 => {
            let (t, c) = gen_offending(s, depth - 1);
            let n = 1 + s.usize(4);
            let at = s.usize(n);
            let mut fields = Vec::new();
            let mut t = Some(t);
            for i in 0..n {
                let name = gen_field_name(s);
                fields.push((name, if i == at { t.take().unwrap() } else { gen_ty(s, (depth - 1).min(3)) }));
            }
            (Ty::Addr("contract".into(), fields), c)
        }
        2 => {
            let (t, c) = gen_offending(s, depth - 1);
            (Ty::App("Option", vec![t]), c)
        }
        3 => {
            let (t, c) = gen_offending(s, depth - 1);
            (Ty::App("List", vec![t]), c)
        }
        4 => {
            let (t, c) = gen_offending(s, depth - 1);
            let o = gen_ty(s, (depth - 1).min(3));
            (Ty::App("Pair", if s.chance(50) { vec![t, o] } else { vec![o, t] }), c)
        }
        5 => {
            let n = gen_other_name(s);
            let (t, c) = gen_offending(s, depth - 1);
            let mut args: Vec<Ty> = (0..s.usize(3)).map(|_| gen_ty(s, (depth - 1).min(3))).collect();
            let at = s.usize(args.len() + 1);
            args.insert(at, t);
            (Ty::Named(n, args), c)
        }
        _ => {
            // in the key of a map
            let k = bad_arity(s, true, 0);
            (Ty::Map(Box::new(k), Box::new(gen_ty(s, (depth - 1).min(3)))), "arity in map key")
        }
    }
}

/// Inside a map value the grammar has neither function types nor type variables, except below an
/// address type's fields.
fn gen_offending_map_value(s: &mut Src, depth: usize) -> (Ty, &'static str) {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => (bad_arity_mv(s, depth.min(2)), "arity in map value"),
        1 => {
            let (t, c) = gen_offending(s, depth.saturating_sub(1));
            (Ty::Addr("contract".into(), vec![(gen_field_name(s), t)]), c)
        }
        2 => {
            let (v, c) = gen_offending_map_value(s, depth.saturating_sub(1));
            (Ty::Map(Box::new(gen_leaf(s)), Box::new(v)), c)
        }
        _ => {
            let (v, c) = gen_offending_map_value(s, depth.saturating_sub(1));
            (Ty::App("Pair", vec![gen_leaf(s), v]), c)
        }
    }
}

fn gen_offence(s: &mut Src, depth: usize) -> (Ty, &'static str) {
    match s.weighted(&[2, 2, 2, 4]) {
        0 => (Ty::Fun(Box::new(gen_ty(s, depth)), Box::new(gen_ty(s, depth))), "function type"),
        1 => (Ty::Forall(tok::gen_class(s, "<TID>"), Box::new(gen_ty(s, depth))), "polymorphic type"),
        2 => (Ty::TVar(tok::gen_class(s, "<TID>")), "type variable"),
        _ => (bad_arity(s, false, depth), "arity"),
    }
}

fn bad_arity(s: &mut Src, leaf: bool, depth: usize) -> Ty {
    let (name, want): (Tok, usize) = match if leaf { 1 + s.usize(2) } else { s.weighted(&[4, 3, 3, 2, 1]) } {
        0 => {
            let p = PRIMS[s.usize(PRIMS.len() - 1)];
            (Tok::class("<CID>", p), 0)
        }
        1 => (Tok::class("<CID>", *s.pick(&["Option", "List"])), 1),
        2 => (Tok::class("<CID>", "Pair"), 2),
        3 => (Tok::class("<BYSTRN>", format!("ByStr{}", gen_size(s))), 0),
        _ => (Tok::kw("ByStr"), 0),
    };
    let n = if leaf {
        0
    } else {
        let mut n = s.usize(4);
        if n == want {
            n = want + 1;
        }
        n
    };
    Ty::BadArity(name, (0..n).map(|_| gen_ty(s, depth)).collect())
}

fn bad_arity_mv(s: &mut Src, depth: usize) -> Ty {
    bad_arity(s, false, depth)
}

/// How a type is spelled.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Scilla,
    Arg,
    Key,
    Value,
    /// inside the parentheses of a map value
    ValueIn,
    ValueArg,
}

fn name_toks(t: &Ty) -> Vec<Tok> {
    match t {
        Ty::Prim("ByStr") => vec![Tok::kw("ByStr")],
        Ty::Prim(p) => vec![Tok::class("<CID>", *p)],
        Ty::ByStrN(n) => vec![Tok::class("<BYSTRN>", format!("ByStr{n}"))],
        Ty::App(n, _) => vec![Tok::class("<CID>", *n)],
        Ty::Named(n, _) => n.clone(),
        Ty::BadArity(n, _) => vec![n.clone()],
        _ => unreachable!(),
    }
}

fn emit_addr(s: &mut Src, t: &Ty, out: &mut Vec<Tok>, extra: u32) {
    let (k, f) = match t {
        Ty::Addr(k, f) => (k, f),
        _ => unreachable!(),
    };
    out.push(Tok::class("<BYSTRN>", "ByStr20"));
    out.push(Tok::kw("with"));
    match k.as_str() {
        "" => {}
        "contract" | "library" => out.push(Tok::kw(k)),
        _ => out.push(Tok::class("<SPID>", k.clone())),
    }
    for (i, (n, t)) in f.iter().enumerate() {
        if i > 0 {
            out.push(Tok::kw(","));
        }
        out.push(Tok::kw("field"));
        out.extend(n.iter().cloned());
        out.push(Tok::kw(":"));
        emit_ty(s, t, Place::Scilla, out, extra);
    }
    out.push(Tok::kw("end"));
}

/// Emits a type at a place; `extra` is the percentage of redundant parentheses.
pub fn emit_ty(s: &mut Src, t: &Ty, place: Place, out: &mut Vec<Tok>, extra: u32) {
    let paren = |s: &mut Src, inner: Place, out: &mut Vec<Tok>| {
        out.push(Tok::kw("("));
        emit_ty(s, t, inner, out, extra);
        out.push(Tok::kw(")"));
    };
    match place {
        Place::Key => {
            let p = s.chance(extra);
            if p {
                out.push(Tok::kw("("));
            }
            if let Ty::Addr(..) = t {
                emit_addr(s, t, out, extra);
            } else {
                assert!(t.is_leaf());
                out.extend(name_toks(t));
            }
            if p {
                out.push(Tok::kw(")"));
            }
        }
        Place::Scilla | Place::Arg => {
            let applied = !t.is_leaf() && !matches!(t, Ty::Addr(..) | Ty::Map(..) | Ty::TVar(_));
            if s.chance(extra) || (place == Place::Arg && applied) {
                return paren(s, Place::Scilla, out);
            }
            match t {
                Ty::Addr(..) => emit_addr(s, t, out, extra),
                Ty::Map(k, v) => {
                    out.push(Tok::kw("Map"));
                    emit_ty(s, k, Place::Key, out, extra);
                    emit_ty(s, v, Place::Value, out, extra);
                }
                Ty::TVar(v) => out.push(Tok::class("<TID>", v.clone())),
                Ty::Fun(a, b) => {
                    if matches!(**a, Ty::Fun(..) | Ty::Forall(..)) {
                        out.push(Tok::kw("("));
                        emit_ty(s, a, Place::Scilla, out, extra);
                        out.push(Tok::kw(")"));
                    } else {
                        emit_ty(s, a, Place::Scilla, out, extra);
                    }
                    out.push(Tok::kw("->"));
                    emit_ty(s, b, Place::Scilla, out, extra);
                }
                Ty::Forall(v, b) => {
                    out.push(Tok::kw("forall"));
                    out.push(Tok::class("<TID>", v.clone()));
                    out.push(Tok::kw("."));
                    emit_ty(s, b, Place::Scilla, out, extra);
                }
                Ty::App(_, a) | Ty::Named(_, a) | Ty::BadArity(_, a) => {
                    out.extend(name_toks(t));
                    for x in a {
                        emit_ty(s, x, Place::Arg, out, extra);
                    }
                }
                _ => out.extend(name_toks(t)),
            }
        }
        Place::Value => match t {
            _ if s.chance(extra) => paren(s, Place::ValueIn, out),
            Ty::Addr(..) => emit_addr(s, t, out, extra),
            Ty::Map(k, v) => {
                out.push(Tok::kw("Map"));
                emit_ty(s, k, Place::Key, out, extra);
                emit_ty(s, v, Place::Value, out, extra);
            }
            _ if t.is_leaf() => out.extend(name_toks(t)),
            _ => paren(s, Place::ValueIn, out),
        },
        Place::ValueIn => match t {
            Ty::App(_, a) | Ty::Named(_, a) | Ty::BadArity(_, a) if !a.is_empty() && !s.chance(extra) => {
                out.extend(name_toks(t));
                for x in a {
                    emit_ty(s, x, Place::ValueArg, out, extra);
                }
            }
            _ => emit_ty(s, t, Place::Value, out, extra),
        },
        Place::ValueArg => match t {
            _ if s.chance(extra) => paren(s, Place::ValueIn, out),
            Ty::Map(k, v) => {
                out.push(Tok::kw("Map"));
                emit_ty(s, k, Place::Key, out, extra);
                emit_ty(s, v, Place::Value, out, extra);
            }
            _ if t.is_leaf() => out.extend(name_toks(t)),
            _ => paren(s, Place::ValueIn, out),
        },
    }
}

pub fn ty_toks(s: &mut Src, t: &Ty) -> Vec<Tok> {
    let extra = [0, 25, 60][s.weighted(&[4, 3, 1])];
    let mut out = Vec::new();
    emit_ty(s, t, Place::Scilla, &mut out, extra);
    out
}

// -------------------------------------------------------------------------------------- contracts

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Summary {
    pub name: String,
    pub params: Vec<(String, MTy)>,
    pub fields: Vec<(String, MTy)>,
    pub transitions: Vec<(String, Vec<(String, MTy)>)>,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub name: String,
    pub ty: Vec<Tok>,
    /// None where the type is not modelled (real contracts, procedures)
    pub want: Option<MTy>,
}

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub entry: Entry,
    pub init: Vec<Tok>,
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub transition: bool,
    pub name: Tok,
    pub params: Vec<Entry>,
    /// with the final `end`
    pub body: Vec<Tok>,
}

#[derive(Clone, Debug)]
pub struct CModel {
    pub version: String,
    pub imports: Vec<Tok>,
    pub library: Vec<Tok>,
    pub name: Tok,
    pub params: Vec<Entry>,
    pub constraint: Vec<Tok>,
    pub fields: Vec<FieldDef>,
    pub comps: Vec<Comp>,
}

fn emit_params(ps: &[Entry], out: &mut Vec<Tok>) {
    out.push(Tok::kw("("));
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            out.push(Tok::kw(","));
        }
        emit_entry(p, out);
    }
    out.push(Tok::kw(")"));
}

fn emit_entry(p: &Entry, out: &mut Vec<Tok>) {
    out.push(Tok::class("<ID>", p.name.clone()));
    out.push(Tok::kw(":"));
    out.extend(p.ty.iter().cloned());
}

impl CModel {
    pub fn toks(&self) -> Vec<Tok> {
        let mut o = vec![Tok::kw("scilla_version"), Tok::class("<NUM>", self.version.clone())];
        o.extend(self.imports.iter().cloned());
        o.extend(self.library.iter().cloned());
        o.push(Tok::kw("contract"));
        o.push(self.name.clone());
        emit_params(&self.params, &mut o);
        o.extend(self.constraint.iter().cloned());
        for f in &self.fields {
            o.push(Tok::kw("field"));
            emit_entry(&f.entry, &mut o);
            o.push(Tok::kw("="));
            o.extend(f.init.iter().cloned());
        }
        for c in &self.comps {
            o.push(Tok::kw(if c.transition { "transition" } else { "procedure" }));
            o.push(c.name.clone());
            emit_params(&c.params, &mut o);
            o.extend(c.body.iter().cloned());
        }
        o
    }
    /// None if some entry's type is not modelled.
    pub fn summary(&self) -> Option<Summary> {
        let es = |v: &[Entry]| v.iter().map(|e| Some((e.name.clone(), e.want.clone()?))).collect::<Option<Vec<_>>>();
        Some(Summary {
            name: self.name.text.clone(),
            params: es(&self.params)?,
            fields: self.fields.iter().map(|f| Some((f.entry.name.clone(), f.entry.want.clone()?))).collect::<Option<_>>()?,
            transitions: self
                .comps
                .iter()
                .filter(|c| c.transition)
                .map(|c| Some((c.name.text.clone(), es(&c.params)?)))
                .collect::<Option<_>>()?,
        })
    }
}

pub fn sample_cat(s: &mut Src, cat: &str, max_tokens: usize, max_depth: usize) -> Vec<Tok> {
    let g = grammar::get();
    let mut toks = Vec::new();
    g.sample(s, g.cat(cat), &mut toks, &SampleCfg { max_tokens, max_depth });
    toks
}

pub struct Names {
    lower: Vec<String>,
    upper: Vec<String>,
}

impl Names {
    pub fn new(s: &mut Src) -> Self {
        let n = 1 + s.usize(6);
        Names {
            lower: (0..n).map(|_| tok::gen_lower(s)).collect(),
            upper: (0..1 + n / 2).map(|_| tok::gen_upper(s)).collect(),
        }
    }
    pub fn lower(&self, s: &mut Src) -> String {
        if s.chance(40) { self.lower[s.usize(self.lower.len())].clone() } else { tok::gen_lower(s) }
    }
    pub fn comp(&self, s: &mut Src) -> Tok {
        match s.weighted(&[5, 4, 1, 1]) {
            0 => Tok::class("<CID>", if s.chance(40) { self.upper[s.usize(self.upper.len())].clone() } else { tok::gen_upper(s) }),
            1 => Tok::class("<ID>", self.lower(s)),
            2 => Tok::kw("Event"),
            _ => Tok::class("<BYSTRN>", tok::gen_bystrn(s)),
        }
    }
}

pub fn gen_entry(s: &mut Src, names: &Names, depth: usize) -> Entry {
    let t = gen_ty_top(s, depth);
    let ty = ty_toks(s, &t);
    Entry { name: names.lower(s), ty, want: Some(t.summary()) }
}

/// How many, and how deep each may be.
fn count(s: &mut Src, small: bool, depth: usize) -> (usize, usize) {
    if small {
        (s.usize(4), depth)
    } else if crate::dict::rarely(s, 4) {
        (crate::dict::edge(s, 300), 0)
    } else {
        (s.len(40), depth)
    }
}

pub fn gen_body(s: &mut Src) -> Vec<Tok> {
    let n = [1, 8, 25, 60][s.weighted(&[4, 4, 3, 1])];
    sample_cat(s, "ComponentBody", n, 5)
}

pub fn gen_init(s: &mut Src) -> Vec<Tok> {
    let n = [1, 6, 20, 50][s.weighted(&[4, 4, 2, 1])];
    sample_cat(s, "FullExpression", n, 5)
}

pub fn gen_proc_entry(s: &mut Src, names: &Names) -> Entry {
    Entry { name: names.lower(s), ty: sample_cat(s, "ScillaType", 10, 3), want: None }
}

pub fn gen_comp(s: &mut Src, names: &Names, transition: bool, depth: usize, small: bool) -> Comp {
    let (n, depth) = count(s, small, depth);
    let params = (0..n).map(|_| if transition { gen_entry(s, names, depth) } else { gen_proc_entry(s, names) }).collect();
    Comp { transition, name: names.comp(s), params, body: gen_body(s) }
}

pub fn gen_constraint(s: &mut Src) -> Vec<Tok> {
    let mut c = vec![Tok::kw("with")];
    c.extend(gen_init(s));
    c.push(Tok::kw("=>"));
    c
}

pub fn gen_version(s: &mut Src) -> String {
    if s.chance(30) { tok::gen_number(s).trim_start_matches('-').to_string() } else { "0".into() }
}

pub fn gen_library(s: &mut Src) -> Vec<Tok> {
    let n = [4, 30, 90][s.weighted(&[3, 3, 1])];
    sample_cat(s, "LibraryDefinition", n, 6)
}

pub fn gen_imports(s: &mut Src) -> Vec<Tok> {
    sample_cat(s, "ImportDeclarations", 8, 3)
}

/// Lets the parts of a contract share names: what a library, an import, a body or a constraint calls something
/// may be called like a part of the interface, and the other way round components like their contract.
pub fn crosslink(s: &mut Src, m: &mut CModel) {
    let share = [10, 40, 80][s.usize(3)];
    let (mut lower, mut upper): (Vec<String>, Vec<String>) = (vec![], vec![]);
    {
        let mut note = |t: &Tok| match tok::kind_name(t.kind) {
            "<ID>" => lower.push(t.text.clone()),
            "<CID>" => upper.push(t.text.clone()),
            _ => {}
        };
        note(&m.name);
        let fields = m.fields.iter().map(|f| &f.entry);
        let comps = m.comps.iter().filter(|c| c.transition);
        for e in m.params.iter().chain(fields).chain(comps.clone().flat_map(|c| &c.params)).take(40) {
            note(&Tok::class("<ID>", e.name.clone()));
            e.ty.iter().take(30).for_each(&mut note);
        }
        comps.take(20).for_each(|c| note(&c.name));
    }
    let link = |s: &mut Src, t: &mut Tok| {
        let pool = match tok::kind_name(t.kind) {
            "<ID>" => &lower,
            "<CID>" => &upper,
            _ => return,
        };
        if !pool.is_empty() && s.chance(share) {
            t.text = pool[s.usize(pool.len())].clone();
        }
    };
    if m.imports.is_empty() && s.chance(40) {
        m.imports = gen_imports(s);
    }
    m.imports.iter_mut().for_each(|t| link(s, t));
    m.library.iter_mut().for_each(|t| link(s, t));
    m.constraint.iter_mut().for_each(|t| link(s, t));
    m.fields.iter_mut().flat_map(|f| f.init.iter_mut()).for_each(|t| link(s, t));
    for c in m.comps.iter_mut() {
        c.body.iter_mut().for_each(|t| link(s, t));
        if s.chance(50) {
            link(s, &mut c.name);
        }
        if !c.transition {
            for p in c.params.iter_mut() {
                let mut n = Tok::class("<ID>", p.name.clone());
                link(s, &mut n);
                p.name = n.text;
                p.ty.iter_mut().for_each(|t| link(s, t));
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub small: bool,
    pub depth: usize,
}

pub fn gen_contract(s: &mut Src, shape: Shape) -> (CModel, Names) {
    let names = Names::new(s);
    let small = shape.small;
    let depth = shape.depth;
    let version = gen_version(s);
    let imports = if s.chance(30) { gen_imports(s) } else { vec![] };
    let library = if s.chance(40) { gen_library(s) } else { vec![] };
    let name = gen_simple_name(s);
    let (np, d) = count(s, small, depth);
    let params = (0..np).map(|_| gen_entry(s, &names, d)).collect();
    let constraint = if s.chance(25) { gen_constraint(s) } else { vec![] };
    let (nf, d) = count(s, small, depth);
    let fields = (0..nf).map(|_| FieldDef { entry: gen_entry(s, &names, d), init: gen_init(s) }).collect();
    let (nc, d) = count(s, small, depth);
    let comps = (0..nc)
        .map(|_| {
            let tr = !s.chance(30);
            gen_comp(s, &names, tr, d, small || nc > 40)
        })
        .collect();
    let mut m = CModel { version, imports, library, name, params, constraint, fields, comps };
    if s.chance(35) {
        crosslink(s, &mut m);
    }
    (m, names)
}

// ------------------------------------------------------- reading a model off an existing contract

/// Splits the token sequence of a well-formed contract into a model (types are not modelled).
pub fn model_of(toks: &[Tok]) -> CModel {
    let k = |n: &str| kind(n);
    let find = |from: usize, n: &str| toks[from..].iter().position(|t| t.kind == k(n)).map(|p| p + from);
    assert_eq!(toks[0].text, "scilla_version");
    // the first `contract` keyword that is not part of an address type
    let mut c = 0;
    loop {
        c = find(c + 1, "contract").expect("contract");
        if toks[c - 1].kind != k("with") {
            break;
        }
    }
    let lib = find(0, "library").filter(|l| *l < c && toks[*l - 1].kind != k("with")).unwrap_or(c);
    let imports = toks[2..lib].to_vec();
    let library = toks[lib..c].to_vec();
    let name = toks[c + 1].clone();
    let (params, mut i) = read_params(toks, c + 2);
    let mut constraint = vec![];
    // parts start at `field`, `transition`, `procedure` at nesting 0
    let starts = |i: usize| -> bool {
        let t = toks[i].kind;
        t == k("transition")
            || t == k("procedure")
            || (t == k("field") && toks[i - 1].kind != k("contract") && !(toks[i - 1].kind == k(",")))
    };
    let next_part = |mut i: usize| -> usize {
        while i < toks.len() && !starts(i) {
            i += 1;
        }
        i
    };
    if i < toks.len() && toks[i].kind == k("with") {
        let e = next_part(i);
        constraint = toks[i..e].to_vec();
        i = e;
    }
    let mut fields = vec![];
    let mut comps = vec![];
    while i < toks.len() {
        let e = next_part(i + 1);
        if toks[i].kind == k("field") {
            let mut eq = i + 3;
            while toks[eq].kind != k("=") {
                eq += 1;
            }
            fields.push(FieldDef {
                entry: Entry { name: toks[i + 1].text.clone(), ty: toks[i + 3..eq].to_vec(), want: None },
                init: toks[eq + 1..e].to_vec(),
            });
        } else {
            let (ps, b) = read_params(toks, i + 2);
            comps.push(Comp {
                transition: toks[i].kind == k("transition"),
                name: toks[i + 1].clone(),
                params: ps,
                body: toks[b..e].to_vec(),
            });
        }
        i = e;
    }
    CModel { version: toks[1].text.clone(), imports, library, name, params, constraint, fields, comps }
}

fn read_params(toks: &[Tok], open: usize) -> (Vec<Entry>, usize) {
    let k = |n: &str| kind(n);
    assert_eq!(toks[open].text, "(");
    let mut i = open + 1;
    let mut out = vec![];
    while toks[i].kind != k(")") {
        if toks[i].kind == k(",") {
            i += 1;
        }
        let name = toks[i].text.clone();
        let start = i + 2;
        i = start;
        let (mut par, mut with) = (0, 0);
        loop {
            let t = toks[i].kind;
            if par == 0 && with == 0 && (t == k(",") || t == k(")")) {
                break;
            }
            if t == k("(") {
                par += 1;
            } else if t == k(")") {
                par -= 1;
            } else if t == k("with") {
                with += 1;
            } else if t == k("end") {
                with -= 1;
            }
            i += 1;
        }
        out.push(Entry { name, ty: toks[start..i].to_vec(), want: None });
    }
    (out, i + 1)
}

// ------------------------------------------------------------------------------------------ edits

/// Applies one random edit to the model and the corresponding change to the summary.
/// Returns a description.
pub fn gen_edit(s: &mut Src, m: &mut CModel, names: &Names, sum: &mut Summary) -> String {
    let depth = 3;
    let tcomps: Vec<usize> = (0..m.comps.len()).filter(|i| m.comps[*i].transition).collect();
    let procs: Vec<usize> = (0..m.comps.len()).filter(|i| !m.comps[*i].transition).collect();
    for _ in 0..20 {
        let what = s.weighted(&[6, 5, 6, 5, 4, 2, 2, 2, 2, 2, 2, 1]);
        match what {
            0 => return format!("deployment parameter: {}", edit_list(s, &mut m.params, &mut sum.params, names, depth)),
            1 => {
                let mut es: Vec<Entry> = m.fields.iter().map(|f| f.entry.clone()).collect();
                let mut inits: Vec<Vec<Tok>> = m.fields.iter().map(|f| f.init.clone()).collect();
                let before = es.len();
                let (d, pos) = edit_list_at(s, &mut es, &mut sum.fields, names, depth);
                if es.len() > before {
                    inits.insert(pos.0, gen_init(s));
                } else if es.len() < before {
                    inits.remove(pos.0);
                } else if pos.0 != pos.1 {
                    let x = inits.remove(pos.0);
                    inits.insert(pos.1, x);
                }
                m.fields = es.into_iter().zip(inits).map(|(entry, init)| FieldDef { entry, init }).collect();
                return format!("field: {d}");
            }
            2 => {
                // whole transitions
                match s.usize(4) {
                    0 => {
                        let at = s.usize(m.comps.len() + 1);
                        let c = gen_comp(s, names, true, depth, true);
                        let ti = m.comps[..at].iter().filter(|c| c.transition).count();
                        let ps = c.params.iter().map(|e| (e.name.clone(), e.want.clone().unwrap())).collect();
                        sum.transitions.insert(ti, (c.name.text.clone(), ps));
                        m.comps.insert(at, c);
                        return format!("add transition at {at}");
                    }
                    1 if !tcomps.is_empty() => {
                        let ti = s.usize(tcomps.len());
                        m.comps.remove(tcomps[ti]);
                        sum.transitions.remove(ti);
                        return format!("remove transition {ti}");
                    }
                    2 if !tcomps.is_empty() => {
                        let ti = s.usize(tcomps.len());
                        let n = names.comp(s);
                        sum.transitions[ti].0 = n.text.clone();
                        m.comps[tcomps[ti]].name = n;
                        return format!("rename transition {ti}");
                    }
                    3 if tcomps.len() > 1 => {
                        let a = s.usize(tcomps.len());
                        let b = s.usize(tcomps.len());
                        m.comps.swap(tcomps[a], tcomps[b]);
                        sum.transitions.swap(a, b);
                        return format!("swap transitions {a} {b}");
                    }
                    _ => continue,
                }
            }
            3 if !tcomps.is_empty() => {
                let ti = s.usize(tcomps.len());
                let d = edit_list(s, &mut m.comps[tcomps[ti]].params, &mut sum.transitions[ti].1, names, depth);
                return format!("parameter of transition {ti}: {d}");
            }
            4 if !m.comps.is_empty() => {
                let i = s.usize(m.comps.len());
                m.comps[i].body = gen_body(s);
                return format!("body of component {i}");
            }
            5 => {
                let at = s.usize(m.comps.len() + 1);
                m.comps.insert(at, gen_comp(s, names, false, depth, true));
                return format!("add procedure at {at}");
            }
            6 if !procs.is_empty() => {
                let p = *s.pick(&procs);
                if s.chance(50) {
                    m.comps.remove(p);
                    return format!("remove procedure {p}");
                }
                m.comps[p].name = names.comp(s);
                m.comps[p].params = (0..s.usize(4)).map(|_| gen_proc_entry(s, names)).collect();
                return format!("change procedure {p}");
            }
            7 if !m.fields.is_empty() => {
                let i = s.usize(m.fields.len());
                m.fields[i].init = gen_init(s);
                return format!("initialiser of field {i}");
            }
            8 => {
                m.constraint = if m.constraint.is_empty() || s.chance(40) { gen_constraint(s) } else { vec![] };
                return "constraint".into();
            }
            9 => {
                m.library = if m.library.is_empty() || s.chance(50) { gen_library(s) } else { vec![] };
                return "library".into();
            }
            10 => {
                m.imports = if m.imports.is_empty() || s.chance(50) { gen_imports(s) } else { vec![] };
                return "imports".into();
            }
            _ => {
                if s.chance(50) {
                    m.version = gen_version(s);
                    return "version".into();
                }
                m.name = gen_simple_name(s);
                sum.name = m.name.text.clone();
                return "contract name".into();
            }
        }
    }
    m.version = "1".into();
    "version".into()
}

fn edit_list(s: &mut Src, l: &mut Vec<Entry>, sum: &mut Vec<(String, MTy)>, names: &Names, depth: usize) -> String {
    edit_list_at(s, l, sum, names, depth).0
}

fn edit_list_at(
    s: &mut Src,
    l: &mut Vec<Entry>,
    sum: &mut Vec<(String, MTy)>,
    names: &Names,
    depth: usize,
) -> (String, (usize, usize)) {
    let op = if l.is_empty() { 0 } else { s.usize(5) };
    match op {
        0 => {
            let at = s.usize(l.len() + 1);
            let e = gen_entry(s, names, depth);
            sum.insert(at, (e.name.clone(), e.want.clone().unwrap()));
            l.insert(at, e);
            (format!("add at {at}"), (at, at))
        }
        1 => {
            let at = s.usize(l.len());
            l.remove(at);
            sum.remove(at);
            (format!("remove {at}"), (at, at))
        }
        2 => {
            let at = s.usize(l.len());
            let n = names.lower(s);
            l[at].name = n.clone();
            sum[at].0 = n;
            (format!("rename {at}"), (at, at))
        }
        3 => {
            let at = s.usize(l.len());
            let t = gen_ty(s, depth);
            l[at].ty = ty_toks(s, &t);
            l[at].want = Some(t.summary());
            sum[at].1 = t.summary();
            (format!("retype {at}"), (at, at))
        }
        _ => {
            let a = s.usize(l.len());
            let b = s.usize(l.len());
            let x = l.remove(a);
            l.insert(b, x);
            let x = sum.remove(a);
            sum.insert(b, x);
            (format!("move {a} to {b}"), (a, b))
        }
    }
}

// ---------------------------------------------------------------------------------------- damage

/// Token-level damage: 1..3 insertions, deletions, substitutions, swaps, duplications, truncation.
pub fn damage(s: &mut Src, toks: &mut Vec<Tok>) -> &'static str {
    let n = 1 + s.weighted(&[6, 2, 1]);
    let mut last = "none";
    for _ in 0..n {
        let at = if toks.is_empty() { 0 } else { s.usize(toks.len()) };
        match s.weighted(&[4, 4, 4, 2, 2, 2]) {
            0 if !toks.is_empty() => {
                toks.remove(at);
                last = "delete";
            }
            1 => {
                let t = random_tok(s, toks);
                let at = s.usize(toks.len() + 1);
                toks.insert(at, t);
                last = "insert";
            }
            2 if !toks.is_empty() => {
                toks[at] = random_tok(s, toks);
                last = "substitute";
            }
            3 if toks.len() > 1 => {
                let b = s.usize(toks.len());
                toks.swap(at, b);
                last = "swap";
            }
            4 if !toks.is_empty() => {
                let t = toks[at].clone();
                toks.insert(at, t);
                last = "duplicate";
            }
            5 if !toks.is_empty() => {
                toks.truncate(at);
                last = "truncate";
            }
            _ => {}
        }
    }
    last
}

/// A token of any kind (or one already in the text).
pub fn random_tok(s: &mut Src, toks: &[Tok]) -> Tok {
    if !toks.is_empty() && s.chance(30) {
        return toks[s.usize(toks.len())].clone();
    }
    let k = s.usize(tok::TERMINALS.len() - 1);
    let n = tok::TERMINALS[k];
    if tok::is_class(k as u8) { Tok::class(n, tok::gen_class(s, n)) } else { Tok::kw(n) }
}

// ------------------------------------------------------------- reading a type off its token sequence

/// Reads the summary of a type off its (grammatical) token sequence; None when it is not
/// representable. Independent second route to the expected summary, used for real contracts.
pub fn read_type(toks: &[Tok]) -> Option<MTy> {
    let mut i = 0;
    let t = read_full(toks, &mut i)?;
    if i == toks.len() { Some(t) } else { None }
}

fn at(toks: &[Tok], i: usize, n: &str) -> bool {
    toks.get(i).is_some_and(|t| t.kind == kind(n))
}

fn expect(toks: &[Tok], i: &mut usize, n: &str) -> Option<()> {
    if at(toks, *i, n) {
        *i += 1;
        Some(())
    } else {
        None
    }
}

fn is_name(toks: &[Tok], i: usize) -> bool {
    ["<CID>", "<BYSTRN>", "Event", "ByStr", "<HEX>"].iter().any(|n| at(toks, i, n))
}

fn read_name(toks: &[Tok], i: &mut usize) -> Option<String> {
    if !is_name(toks, *i) {
        return None;
    }
    let mut s = toks[*i].text.clone();
    *i += 1;
    if at(toks, *i, ".") {
        s.push('.');
        s.push_str(&toks.get(*i + 1)?.text);
        *i += 2;
    }
    Some(s)
}

fn read_arg(toks: &[Tok], i: &mut usize) -> Option<MTy> {
    if at(toks, *i, "(") {
        *i += 1;
        let t = read_full(toks, i)?;
        expect(toks, i, ")")?;
        return Some(t);
    }
    if at(toks, *i, "Map") {
        *i += 1;
        let k = read_arg(toks, i)?;
        let v = read_arg(toks, i)?;
        return Some(MTy::Map(Box::new(k), Box::new(v)));
    }
    if at(toks, *i + 1, "with") {
        if toks[*i].text != "ByStr20" {
            return None;
        }
        *i += 2;
        let mut kindname = String::new();
        let mut fields = vec![];
        if !at(toks, *i, "end") {
            kindname = toks.get(*i)?.text.clone();
            *i += 1;
            while at(toks, *i, "field") || at(toks, *i, ",") {
                if at(toks, *i, ",") {
                    *i += 1;
                }
                expect(toks, i, "field")?;
                let mut n = String::new();
                while !at(toks, *i, ":") {
                    n.push_str(&toks.get(*i)?.text);
                    *i += 1;
                }
                *i += 1;
                fields.push((n, read_full(toks, i)?));
            }
        }
        expect(toks, i, "end")?;
        return Some(MTy::With(kindname, fields));
    }
    let n = read_name(toks, i)?;
    named(n, vec![])
}

fn read_full(toks: &[Tok], i: &mut usize) -> Option<MTy> {
    if !is_name(toks, *i) || at(toks, *i + 1, "with") {
        return read_arg(toks, i);
    }
    let n = read_name(toks, i)?;
    let mut args = vec![];
    while is_name(toks, *i) || at(toks, *i, "(") || at(toks, *i, "Map") {
        args.push(read_arg(toks, i)?);
    }
    named(n, args)
}

fn named(n: String, mut args: Vec<MTy>) -> Option<MTy> {
    let none = args.is_empty();
    if let Some(p) = PRIMS.iter().find(|p| **p == n) {
        return none.then_some(MTy::Prim(p));
    }
    match (n.as_str(), args.len()) {
        ("Option", 1) => return Some(MTy::Option(Box::new(args.remove(0)))),
        ("List", 1) => return Some(MTy::List(Box::new(args.remove(0)))),
        ("Pair", 2) => {
            let b = args.remove(1);
            return Some(MTy::Pair(Box::new(args.remove(0)), Box::new(b)));
        }
        ("Option" | "List" | "Pair", _) => return None,
        _ => {}
    }
    if let Some(d) = n.strip_prefix("ByStr") {
        if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) {
            return match (none, d.parse::<usize>()) {
                (true, Ok(20)) => Some(MTy::ByStr20),
                (true, Ok(k)) => Some(MTy::ByStrX(k)),
                _ => None,
            };
        }
    }
    Some(MTy::Other(n))
}

impl CModel {
    /// Fills in the modelled types of the interface from their tokens.
    pub fn read_types(&mut self) {
        let f = |e: &mut Entry| e.want = read_type(&e.ty);
        self.params.iter_mut().for_each(f);
        self.fields.iter_mut().for_each(|x| f(&mut x.entry));
        self.comps.iter_mut().filter(|c| c.transition).for_each(|c| c.params.iter_mut().for_each(f));
    }
}

/// The repository's example contracts, copied to /verif/corpus.
pub fn corpus() -> &'static Vec<(String, String)> {
    static C: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let dir = crate::runner::verif().join("corpus");
        let mut v: Vec<(String, String)> = std::fs::read_dir(&dir)
            .unwrap_or_else(|e| panic!("{}: {e}", dir.display()))
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().is_some_and(|x| x == "scilla"))
            .map(|p| (p.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read_to_string(&p).unwrap()))
            .collect();
        v.sort();
        assert!(!v.is_empty());
        v
    })
}
