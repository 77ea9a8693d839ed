//! Reading and building the values of the top-level API.
#![allow(dead_code)]
use scilla_parser::{Contract, Error, Field, FieldList, Type};
use vcommon::iface::*;
use vcommon::runner::guard;

// ------------------------------------------------------------------ reading the API's values

pub fn mty(t: &Type) -> MTy {
    let b = |t: &Type| Box::new(mty(t));
    match t {
        Type::Int32 => MTy::Prim("Int32"),
        Type::Int64 => MTy::Prim("Int64"),
        Type::Int128 => MTy::Prim("Int128"),
        Type::Int256 => MTy::Prim("Int256"),
        Type::Uint32 => MTy::Prim("Uint32"),
        Type::Uint64 => MTy::Prim("Uint64"),
        Type::Uint128 => MTy::Prim("Uint128"),
        Type::Uint256 => MTy::Prim("Uint256"),
        Type::String => MTy::Prim("String"),
        Type::BNum => MTy::Prim("BNum"),
        Type::Bool => MTy::Prim("Bool"),
        Type::ByStr => MTy::Prim("ByStr"),
        Type::ByStr20 => MTy::ByStr20,
        Type::ByStrX(n) => MTy::ByStrX(*n),
        Type::ByStr20With { type_name, fields } => MTy::With(type_name.clone(), entries(fields)),
        Type::Map(k, v) => MTy::Map(b(k), b(v)),
        Type::Option(x) => MTy::Option(b(x)),
        Type::List(x) => MTy::List(b(x)),
        Type::Pair(x, y) => MTy::Pair(b(x), b(y)),
        Type::Other(s) => MTy::Other(s.clone()),
    }
}

pub fn real(t: &MTy) -> Type {
    let b = |t: &MTy| Box::new(real(t));
    match t {
        MTy::Prim(p) => match *p {
            "Int32" => Type::Int32,
            "Int64" => Type::Int64,
            "Int128" => Type::Int128,
            "Int256" => Type::Int256,
            "Uint32" => Type::Uint32,
            "Uint64" => Type::Uint64,
            "Uint128" => Type::Uint128,
            "Uint256" => Type::Uint256,
            "String" => Type::String,
            "BNum" => Type::BNum,
            "Bool" => Type::Bool,
            "ByStr" => Type::ByStr,
            other => panic!("{other}"),
        },
        MTy::ByStr20 => Type::ByStr20,
        MTy::ByStrX(n) => Type::ByStrX(*n),
        MTy::With(k, f) => Type::ByStr20With {
            type_name: k.clone(),
            fields: FieldList(f.iter().map(|(n, t)| Field { name: n.clone(), r#type: real(t) }).collect()),
        },
        MTy::Map(k, v) => Type::Map(b(k), b(v)),
        MTy::Option(x) => Type::Option(b(x)),
        MTy::List(x) => Type::List(b(x)),
        MTy::Pair(x, y) => Type::Pair(b(x), b(y)),
        MTy::Other(s) => Type::Other(s.clone()),
    }
}

pub fn entries(l: &FieldList) -> Vec<(String, MTy)> {
    l.0.iter().map(|f| (f.name.clone(), mty(&f.r#type))).collect()
}

pub fn summary(c: &Contract) -> Summary {
    Summary {
        name: c.name.clone(),
        params: entries(&c.init_params),
        fields: entries(&c.fields),
        transitions: c.transitions.0.iter().map(|t| (t.name.clone(), entries(&t.params))).collect(),
    }
}

pub fn parse(text: &str) -> Result<Result<Contract, Error>, String> {
    guard(|| text.parse::<Contract>())
}

/// Parses a text that must be accepted; Err is the violation message.
pub fn must(text: &str) -> Result<Summary, String> {
    match parse(text) {
        Ok(Ok(c)) => Ok(summary(&c)),
        Ok(Err(e)) => Err(format!("rejected: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub fn diff(want: &Summary, got: &Summary) -> String {
    if want.name != got.name {
        return format!("contract name: want {:?}, got {:?}", want.name, got.name);
    }
    let list = |what: &str, a: &[(String, MTy)], b: &[(String, MTy)]| -> Option<String> {
        for i in 0..a.len().max(b.len()) {
            if a.get(i) != b.get(i) {
                return Some(format!("{what} #{i}: want {:?}, got {:?}", a.get(i), b.get(i)));
            }
        }
        None
    };
    if let Some(d) = list("deployment parameter", &want.params, &got.params) {
        return d;
    }
    if let Some(d) = list("field", &want.fields, &got.fields) {
        return d;
    }
    for i in 0..want.transitions.len().max(got.transitions.len()) {
        match (want.transitions.get(i), got.transitions.get(i)) {
            (Some(a), Some(b)) => {
                if a.0 != b.0 {
                    return format!("transition #{i}: want name {:?}, got {:?}", a.0, b.0);
                }
                if let Some(d) = list(&format!("transition {} parameter", a.0), &a.1, &b.1) {
                    return d;
                }
            }
            (a, b) => return format!("transition #{i}: want {a:?}, got {b:?}"),
        }
    }
    "equal".into()
}
