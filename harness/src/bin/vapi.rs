//! Checks that use only the top-level API (Contract, Field, Transition, Type, Error):
//! C01 C02 C10 C11 C15 C16 C17.
use scilla_parser::{Contract, Error, Field, FieldList, Transition, TransitionList, Type};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vcommon::choice::{hash64, Src};
use vcommon::dict;
use vcommon::iface::*;
use vcommon::runner::{self, fail, guard, CaseResult, Check, Info, GENERATED};
use vcommon::tok::{self, Tok};

#[path = "../api.rs"]
mod api;
use api::*;


fn expect(text: &str, want: &Summary) -> Result<(), String> {
    let got = must(text)?;
    if got == *want { Ok(()) } else { Err(diff(want, &got)) }
}

// ---------------------------------------------------------------------------------------- C01

fn corpus_model(i: usize) -> (String, CModel) {
    let (name, text) = &corpus()[i];
    let toks = tok::lex_to_toks(text);
    let mut m = model_of(&toks);
    assert_eq!(m.toks(), toks, "{name}: model does not reproduce the tokens");
    m.read_types();
    (name.clone(), m)
}

fn c01(s: &mut Src, fixed: usize) -> CaseResult {
    if fixed != GENERATED {
        let (name, m) = corpus_model(fixed);
        let text = &corpus()[fixed].1;
        let want = m.summary().unwrap_or_else(|| panic!("{name}: unmodelled type"));
        if let Err(e) = expect(text, &want) {
            return fail(format!("{name}: {e}"), text.clone());
        }
        return Ok(Info { nontrivial: true, classes: vec!["example contract"], key: hash64(text.as_bytes()), sample: name, evals: 1 });
    }
    let shape = Shape { small: !s.chance(35), depth: s.usize(5) };
    let (m, _) = gen_contract(s, shape);
    let style = tok::gen_style(s);
    let laid = tok::layout(s, &m.toks(), style);
    let want = m.summary().unwrap();
    if let Err(e) = expect(&laid.text, &want) {
        return fail(e, laid.text);
    }
    let entries = want.params.len() + want.fields.len() + want.transitions.iter().map(|t| 1 + t.1.len()).sum::<usize>();
    let mut classes = vec![];
    let procs = m.comps.iter().filter(|c| !c.transition).count();
    let mut note = |b: bool, c: &'static str| {
        if b {
            classes.push(c)
        }
    };
    note(procs > 0, "procedures");
    note(!m.imports.is_empty(), "imports");
    note(!m.library.is_empty(), "library");
    note(!m.constraint.is_empty(), "constraint");
    note(entries == 0, "empty interface");
    note(m.comps.len() > 8 || m.params.len() > 8 || m.fields.len() > 8, "long list");
    let other = procs > 0 || !m.imports.is_empty() || !m.library.is_empty() || !m.constraint.is_empty() || !m.fields.is_empty();
    Ok(Info {
        nontrivial: entries >= 2 && !want.transitions.is_empty() && other,
        classes,
        key: hash64(laid.text.as_bytes()),
        sample: laid.text,
        evals: 1,
    })
}

// ---------------------------------------------------------------------------------------- C02

fn entry(name: &str, t: &Ty, s: &mut Src) -> Entry {
    Entry { name: name.into(), ty: ty_toks(s, t), want: Some(t.summary()) }
}

fn wrap_contract(params: Vec<Entry>, fields: Vec<Entry>, tparams: Vec<Entry>) -> CModel {
    CModel {
        version: "0".into(),
        imports: vec![],
        library: vec![],
        name: Tok::class("<CID>", "C"),
        params,
        constraint: vec![],
        fields: fields.into_iter().map(|entry| FieldDef { entry, init: vec![Tok::class("<ID>", "x")] }).collect(),
        comps: vec![Comp { transition: true, name: Tok::class("<CID>", "T"), params: tparams, body: vec![Tok::kw("end")] }],
    }
}

fn kinds(t: &MTy, out: &mut Vec<&'static str>) {
    let mut n = |k: &'static str| {
        if !out.contains(&k) {
            out.push(k)
        }
    };
    match t {
        MTy::Prim(_) => n("primitive"),
        MTy::ByStr20 | MTy::ByStrX(_) => n("sized byte string"),
        MTy::With(k, f) => {
            n(match k.as_str() {
                "" => "address",
                "contract" => "contract address",
                "library" => "library address",
                _ => "special address",
            });
            if f.len() > 1 {
                n("address with several fields");
            }
            for (_, t) in f {
                kinds(t, out);
            }
        }
        MTy::Map(k, v) => {
            n("map");
            if matches!(**k, MTy::With(..)) {
                n("address map key");
            }
            if matches!(**v, MTy::Map(..)) {
                n("map in map");
            }
            kinds(k, out);
            kinds(v, out);
        }
        MTy::Option(x) => {
            n("option");
            kinds(x, out);
        }
        MTy::List(x) => {
            n("list");
            kinds(x, out);
        }
        MTy::Pair(x, y) => {
            n("pair");
            kinds(x, out);
            kinds(y, out);
        }
        MTy::Other(s) => n(if s.contains('.') { "qualified name" } else { "other name" }),
    }
}

fn c02(s: &mut Src, _: usize) -> CaseResult {
    let depth = if s.chance(20) { s.usize(13) } else { s.usize(6) };
    let t = gen_ty(s, depth);
    let t2 = gen_ty(s, 2);
    // the same type in every position, each with its own parentheses
    let mut m = wrap_contract(
        vec![entry("a", &t2, s), entry("b", &t, s)],
        vec![entry("f", &t, s), entry("g", &t2, s)],
        vec![entry("x", &t, s), entry("y", &t2, s), entry("z", &t, s)],
    );
    let among = s.chance(25);
    if among {
        m.imports = gen_imports(s);
        if s.chance(50) {
            m.library = gen_library(s);
        }
        crosslink(s, &mut m);
    }
    let style = tok::gen_style(s);
    let laid = tok::layout(s, &m.toks(), style);
    if let Err(e) = expect(&laid.text, &m.summary().unwrap()) {
        return fail(e, laid.text);
    }
    // as map value, type argument and address field too
    let outer: Vec<Ty> = vec![
        Ty::Map(Box::new(Ty::Prim("String")), Box::new(t.clone())),
        Ty::App("Pair", vec![t.clone(), t2.clone()]),
        Ty::App("Option", vec![Ty::Map(Box::new(Ty::ByStrN(20)), Box::new(Ty::App("List", vec![t.clone()])))]),
        Ty::Addr("contract".into(), vec![(vec![Tok::class("<ID>", "f")], t2), (vec![Tok::class("<ID>", "g")], t.clone())]),
    ];
    let mut es = vec![];
    for (i, o) in outer.iter().enumerate() {
        es.push(entry(&format!("o{i}"), o, s));
    }
    let m2 = wrap_contract(es.clone(), vec![], es);
    let laid2 = tok::layout(s, &m2.toks(), tok::Style::Plain);
    if let Err(e) = expect(&laid2.text, &m2.summary().unwrap()) {
        return fail(e, laid2.text);
    }
    let mut classes = vec![];
    kinds(&t.summary(), &mut classes);
    if t.depth() > 5 {
        classes.push("deeper than 5");
    }
    if among {
        classes.push("names shared with imports and library");
    }
    Ok(Info { nontrivial: t.depth() >= 2, classes, key: hash64(laid.text.as_bytes()), sample: tok::plain(&m.params[1].ty), evals: 2 })
}

// ---------------------------------------------------------------------------------------- C10

/// Changes a type value in exactly one place.
fn nudge(s: &mut Src, t: &MTy) -> MTy {
    let here = |s: &mut Src, t: &MTy| -> MTy {
        match t {
            MTy::Prim(p) => {
                let i = s.usize(PRIMS.len());
                let q = PRIMS[i];
                MTy::Prim(if q != *p { q } else { PRIMS[(i + 1) % PRIMS.len()] })
            }
            MTy::ByStr20 => {
                if s.chance(50) {
                    MTy::ByStrX(21)
                } else {
                    MTy::With(String::new(), vec![])
                }
            }
            MTy::ByStrX(n) => {
                let m = if *n == usize::MAX { n - 1 } else { n + 1 };
                if m == 20 { MTy::ByStr20 } else { MTy::ByStrX(m) }
            }
            MTy::With(k, f) => match s.usize(4) {
                0 if !f.is_empty() => {
                    let mut f = f.clone();
                    f.remove(s.usize(f.len()));
                    MTy::With(k.clone(), f)
                }
                1 if f.len() > 1 && f[0] != f[1] => {
                    let mut f = f.clone();
                    f.swap(0, 1);
                    MTy::With(k.clone(), f)
                }
                2 if !f.is_empty() => {
                    let mut f = f.clone();
                    let i = s.usize(f.len());
                    f[i].0.push('x');
                    MTy::With(k.clone(), f)
                }
                _ if k == "contract" => {
                    let mut f = f.clone();
                    f.push(("zz".into(), MTy::Prim("Bool")));
                    MTy::With(k.clone(), f)
                }
                _ => MTy::With(if k == "library" { String::new() } else { "library".into() }, vec![]),
            },
            MTy::Map(k, v) => MTy::Pair(k.clone(), v.clone()),
            MTy::Option(x) => MTy::List(x.clone()),
            MTy::List(x) => MTy::Option(x.clone()),
            MTy::Pair(x, y) if x != y => MTy::Pair(y.clone(), x.clone()),
            MTy::Pair(x, _) => MTy::Option(x.clone()),
            MTy::Other(o) => MTy::Other(format!("{o}x")),
        }
    };
    let down = s.chance(65);
    match t {
        MTy::Map(k, v) if down => {
            if s.chance(70) {
                MTy::Map(k.clone(), Box::new(nudge(s, v)))
            } else {
                MTy::Map(Box::new(nudge(s, k)), v.clone())
            }
        }
        MTy::Option(x) if down => MTy::Option(Box::new(nudge(s, x))),
        MTy::List(x) if down => MTy::List(Box::new(nudge(s, x))),
        MTy::Pair(x, y) if down => {
            if s.chance(50) {
                MTy::Pair(Box::new(nudge(s, x)), y.clone())
            } else {
                MTy::Pair(x.clone(), Box::new(nudge(s, y)))
            }
        }
        MTy::With(k, f) if down && !f.is_empty() => {
            let mut f = f.clone();
            let i = s.usize(f.len());
            f[i].1 = nudge(s, &f[i].1.clone());
            MTy::With(k.clone(), f)
        }
        _ => here(s, t),
    }
}

/// Whether a map key is spelled the way the grammar wants one (a name or an address).
fn legal(t: &MTy) -> bool {
    match t {
        MTy::Map(k, v) => matches!(**k, MTy::Prim(_) | MTy::ByStr20 | MTy::ByStrX(_) | MTy::With(..) | MTy::Other(_)) && legal(k) && legal(v),
        MTy::Option(x) | MTy::List(x) => legal(x),
        MTy::Pair(x, y) => legal(x) && legal(y),
        MTy::With(_, f) => f.iter().all(|x| legal(&x.1)),
        _ => true,
    }
}

fn read_back(printed: &str, place: usize) -> (String, Result<Summary, String>) {
    let text = match place {
        0 => format!("scilla_version 0\ncontract C (x : {printed})\ntransition T ()\nend\n"),
        1 => format!("scilla_version 0\ncontract C ()\nfield x : {printed} = y\n"),
        _ => format!("scilla_version 0\ncontract C ()\ntransition T (x : {printed}, y : Bool)\nend\n"),
    };
    let r = must(&text);
    (text, r)
}

fn only_type(s: &Summary) -> Option<&MTy> {
    s.params.first().or(s.fields.first()).or(s.transitions.first().and_then(|t| t.1.first())).map(|e| &e.1)
}

fn c10(s: &mut Src, _: usize) -> CaseResult {
    let depth = s.usize(8);
    let t = gen_ty(s, depth).summary();
    let rt = real(&t);
    let printed = match guard(|| (rt.to_string(), format!("{rt}"))) {
        Ok((a, b)) if a == b => a,
        Ok((a, b)) => return fail(format!("two texts for one type: {a:?} / {b:?}"), format!("{t:?}")),
        Err(p) => return fail(format!("printing panics: {p}"), format!("{t:?}")),
    };
    for place in 0..3 {
        let (text, r) = read_back(&printed, place);
        match r {
            Ok(sum) if only_type(&sum) == Some(&t) => {}
            Ok(sum) => return fail(format!("{printed:?} (printed from {t:?}) reads back as {:?}", only_type(&sum)), text),
            Err(e) => return fail(format!("{printed:?} (printed from {t:?}): {e}"), text),
        }
    }
    // nested inside another type: the outer type's text contains this one
    let outer = match s.usize(5) {
        0 => MTy::List(Box::new(t.clone())),
        1 => MTy::Map(Box::new(MTy::ByStr20), Box::new(t.clone())),
        2 => MTy::Pair(Box::new(t.clone()), Box::new(t.clone())),
        3 => MTy::With("contract".into(), vec![("a".into(), t.clone()), ("b".into(), t.clone())]),
        _ => MTy::Option(Box::new(MTy::Map(Box::new(MTy::Prim("BNum")), Box::new(MTy::Option(Box::new(t.clone())))))),
    };
    let op = real(&outer).to_string();
    let (text, r) = read_back(&op, 2);
    match r {
        Ok(sum) if only_type(&sum) == Some(&outer) => {}
        Ok(sum) => return fail(format!("{op:?} reads back as {:?}, printed from {outer:?}", only_type(&sum)), text),
        Err(e) => return fail(format!("{op:?} (printed from {outer:?}): {e}"), text),
    }
    // equality: reflexive, and false for a type that differs in one place
    #[allow(clippy::eq_op)]
    let refl = real(&t) == rt && rt.clone() == rt && mty(&rt.clone()) == t;
    if !refl {
        return fail("a type is not equal to its copy", format!("{t:?}"));
    }
    let n = nudge(s, &t);
    assert_ne!(n, t);
    let rn = real(&n);
    if rn == rt || rt == rn {
        return fail(format!("different types compare equal: {t:?} and {n:?}"), printed);
    }
    let f = |t: &Type| Field::new("f", t.clone());
    if f(&rn) == f(&rt) || FieldList(vec![f(&rn)]) == FieldList(vec![f(&rt)]) || f(&rt) != f(&rt) {
        return fail(format!("fields of different types compare equal: {t:?} and {n:?}"), printed);
    }
    // and the neighbour, too, reads back as itself
    if legal(&n) {
        let np = rn.to_string();
        let (text, r) = read_back(&np, 1);
        match r {
            Ok(sum) if only_type(&sum) == Some(&n) => {}
            Ok(sum) => return fail(format!("{np:?} (printed from {n:?}) reads back as {:?}", only_type(&sum)), text),
            Err(e) => return fail(format!("{np:?} (printed from {n:?}): {e}"), text),
        }
    }
    let mut classes = vec![];
    kinds(&t, &mut classes);
    Ok(Info { nontrivial: printed.contains(' '), classes, key: hash64(printed.as_bytes()), sample: printed, evals: 6 })
}

// ---------------------------------------------------------------------------------------- C11

static SCRATCH: AtomicUsize = AtomicUsize::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = SCRATCH.fetch_add(1, SeqCst);
        let p = std::env::temp_dir().join(format!("vharness-c11-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

fn show(r: &Result<Contract, Error>) -> String {
    match r {
        Ok(c) => format!("Ok({c:?})"),
        Err(e) => format!("Err({e:?} / {e})"),
    }
}

fn gen_text(s: &mut Src) -> (String, &'static str) {
    let k = s.weighted(&[8, 4, 1, 2, 2, 2]);
    let depth = s.usize(4);
    let (m, _) = gen_contract(s, Shape { small: true, depth });
    let mut toks = m.toks();
    match k {
        0 => {
            let style = tok::gen_style(s);
            (tok::layout(s, &toks, style).text, "valid")
        }
        1 => {
            damage(s, &mut toks);
            let style = tok::gen_style(s);
            (tok::layout(s, &toks, style).text, "damaged")
        }
        2 => (String::new(), "empty"),
        3 => {
            let style = tok::gen_style(s);
            let mut t = tok::layout(s, &toks, style).text;
            match s.usize(5) {
                0 => t = format!("\u{feff}{t}"),
                1 => t = t.trim_end().to_string(),
                2 => t = t.replace('\n', "\r\n"),
                3 => t.push('\0'),
                _ => t.push_str("\n\n\u{1a}"),
            }
            (t, "framing")
        }
        4 => {
            // large: padded with comments and strings
            let n = match s.weighted(&[8, 6, 4, 2, 1, 1]) {
                k @ 0..=3 => [100, 5_000, 70_000, 1_000_000][k],
                4 => 1 << (17 + s.usize(6)),
                _ => dict::edge(s, 5_000_000),
            };
            let unit = ["(* pad *)\n", "(* é漢😀 *)", "   \t\r\n"][s.usize(3)];
            let mut t = unit.repeat(n / unit.len() + 1);
            t.push_str(&tok::plain(&toks));
            if s.chance(30) {
                t.push_str(" (* never closed ");
            }
            (t, "large")
        }
        _ => {
            let t = tok::plain(&toks);
            let mut cut = s.usize(t.len() + 1);
            while !t.is_char_boundary(cut) {
                cut -= 1;
            }
            (t[..cut].to_string(), "truncated")
        }
    }
}

fn c11(s: &mut Src, _: usize) -> CaseResult {
    let dir = Scratch::new();
    let base = dir.0.clone();
    let (name, file, sub) = {
        use std::os::unix::ffi::OsStringExt;
        const NAMES: &[&str] = &[
            "c.scilla", "a b.scilla", "contrat-é.scilla", "漢字", ".hidden", "no_extension", "x.tar.gz", "-dash", "n\nl", "C.SCILLA", "q'\"?*",
            "c.scilla ", " c", "c.", "c..scilla", "-", "~", "~root", "$HOME", "${HOME}.scilla", "%41.scilla", "c%20d", "file:c.scilla", "c.scillib",
            "c.scilexp", "c.scilla~", "#c#", "c.md", "c.json", "C", "*", "[a]", "{a,b}", "a\\b", "e\u{301}", "NUL", "con",
            "c.scilla:1", "\t", "c.txt", "…", "c.scilla.gz", "&", ";ls", "`x`", "scilla",
        ];
        let name: std::ffi::OsString = if let Some(w) = dict::fresh_string(s, 30).filter(|w| !w.contains(['/', '\0']) && w.len() < 200) {
            match s.usize(4) {
                0 => w.into(),
                1 => format!("c{w}").into(),
                2 => format!("{w}c").into(),
                _ => format!("c.{w}").into(),
            }
        } else {
            match s.weighted(&[20, 1, 1]) {
                0 => NAMES[s.usize(NAMES.len())].into(),
                1 => "n".repeat(dict::edge(s, 255).max(1)).into(),
                _ => std::ffi::OsString::from_vec(vec![b'c', 0xff, b'.', b's', 0xc3]),
            }
        };
        let name = if name == "." || name == ".." { "dots".into() } else { name };
        let sub = match s.weighted(&[4, 4, 4, 4, 1]) {
            0 => PathBuf::new(),
            1 => PathBuf::from("d"),
            2 => PathBuf::from("a dir/é"),
            3 => PathBuf::from("p/q/r/s"),
            _ => PathBuf::from("c.scilla/x"),
        };
        std::fs::create_dir_all(base.join(&sub)).unwrap();
        let file = base.join(&sub).join(&name);
        (name, file, sub)
    };
    let (text, kind) = gen_text(s);
    // the path's spelling
    let rel = |p: &Path| -> PathBuf {
        let up = std::env::current_dir().unwrap().components().count() - 1;
        let mut r = PathBuf::new();
        for _ in 0..up {
            r.push("..");
        }
        r.join(p.strip_prefix("/").unwrap())
    };
    let spell = s.weighted(&[2, 2, 2, 2, 2, 2, 2, 1, 1, 1]);
    let fault = s.weighted(&[20, 3, 4, 8, 1, 1, 1, 1, 1, 1, 1, 1]);
    let mut classes = vec![kind];
    let mut bytes = text.clone().into_bytes();
    classes.extend(match fault {
        0 => None,
        1 => Some("missing file"),
        2 => Some("directory"),
        3 => Some("not UTF-8"),
        4 => Some("link to itself"),
        5 => Some("dangling link"),
        6 => Some("path through a file"),
        7 => Some("empty path"),
        8 => Some("slash after a file"),
        9 => Some("NUL in the path"),
        10 => Some("name too long"),
        _ => Some("dot-dot after a missing directory"),
    });
    if fault == 3 {
        let wide = |big: bool| -> Vec<u8> {
            let unit = |u: u16| if big { u.to_be_bytes() } else { u.to_le_bytes() };
            std::iter::once(0xfeff).chain(text.encode_utf16()).flat_map(unit).collect()
        };
        match s.weighted(&[12, 1, 1, 1, 1]) {
            1 => bytes = wide(false),
            2 => bytes = wide(true),
            3 => bytes = text.chars().chain(" (* é *)".chars()).map(|c| c as u32 as u8).collect(),
            4 => bytes.splice(0..0, [0x1f, 0x8b, 8, 0, 0]).for_each(drop),
            _ => {
                let bad: &[u8] = [&[0xffu8][..], &[0xc3], &[0x80], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x98], &[0xc0, 0xaf], &[0xfe, 0xff]][s.usize(7)];
                let at = match s.usize(3) {
                    0 => bytes.len(),
                    1 => 0,
                    _ => s.usize(bytes.len() + 1),
                };
                bytes.splice(at..at, bad.iter().copied());
            }
        }
        if std::str::from_utf8(&bytes).is_ok() {
            bytes.push(0xff);
        }
    }
    match fault {
        0 | 3 | 6 | 8 => std::fs::write(&file, &bytes).unwrap(),
        2 => std::fs::create_dir_all(&file).unwrap(),
        4 => std::os::unix::fs::symlink(&file, &file).unwrap(),
        5 => std::os::unix::fs::symlink("nowhere", &file).unwrap(),
        _ => {}
    }
    // other contracts nearby, under names a reader might try as well
    if s.chance(60) {
        let mut near: Vec<PathBuf> = ["scilla", "scillib", "scilexp", "txt", ""].iter().map(|e| file.with_extension(e)).collect();
        let dir = file.parent().unwrap().to_path_buf();
        for e in ["scilla", "bak", "utf8", "orig"] {
            let mut n = name.clone();
            n.push(".");
            n.push(e);
            near.push(dir.join(n));
        }
        if let Some(n) = name.to_str() {
            let mut more = vec![n.trim().to_string(), n.to_lowercase(), n.to_uppercase(), n.replace("%20", " ").replace("%41", "A")];
            more.extend([n.trim_end_matches('~'), n.trim_start_matches("file:"), n.trim_end_matches(".gz"), n.trim_end_matches('.')].map(String::from));
            more.extend(dict::get().fresh_strings.iter().flat_map(|w| [format!("{n}{w}"), format!("{w}{n}"), w.clone(), format!("c.{w}"), format!("c{w}")]));
            near.extend(more.iter().filter(|m| !m.is_empty() && m.len() < 200 && !m.contains('\0')).flat_map(|m| [dir.join(m), base.join(m)]));
        }
        near.push(base.join(&name));
        for n in ["contract.scilla", "main.scilla", "index.scilla", "c.scilla", "scilla", "lib.scilla"] {
            near.push(dir.join(n));
            if fault == 2 {
                near.push(file.join(n));
            }
        }
        if fault == 2 {
            near.push(file.join(&name));
        }
        for n in near {
            let ok = n.starts_with(&base) && n.components().all(|c| c != std::path::Component::ParentDir) && n != file;
            if ok && std::fs::symlink_metadata(&n).is_err() && n.parent().is_some_and(|d| d.is_dir()) {
                std::fs::write(&n, "scilla_version 0 contract Decoy (decoy : ByStr20)").ok();
            }
        }
        classes.push("others nearby");
    }
    if fault == 0 && s.chance(15) {
        use std::os::unix::fs::PermissionsExt;
        let mode = *s.pick(&[0o444, 0o400, 0o755, 0o666]);
        std::fs::set_permissions(&file, std::fs::Permissions::from_mode(mode)).unwrap();
    }
    let mut open = None;
    let link = |to: &Path, n: &str| {
        let l = base.join(n);
        std::os::unix::fs::symlink(to, &l).unwrap();
        l
    };
    std::fs::create_dir_all(base.join("d2")).unwrap();
    let path = match spell {
        0 => file.clone(),
        1 => rel(&file),
        2 => {
            let mut p = std::ffi::OsString::from(format!("{}//.//", file.parent().unwrap().display()));
            p.push(&name);
            p.into()
        }
        3 => base.join("d2/..").join(&sub).join(&name),
        4 => link(&file, "link-to.scilla"),
        5 => link(file.parent().unwrap(), "link-to-dir").join(&name),
        6 => rel(&link(&sub.join(&name), "rl")),
        7 => link(&link(&link(&file, "l1"), "l2"), "l3"),
        8 if fault == 0 => {
            let l = base.join("d2/hard");
            std::fs::hard_link(&file, &l).unwrap();
            l
        }
        9 if fault == 0 || fault == 3 => {
            use std::os::fd::AsRawFd;
            let f = std::fs::File::open(&file).unwrap();
            let p = format!("/proc/self/fd/{}", f.as_raw_fd());
            open = Some(f);
            if Path::new(&p).exists() { p.into() } else { file.clone() }
        }
        _ => base.join("./d2/../d2/.././").join(&sub).join(&name),
    };
    classes.push(
        [
            "absolute", "relative", "redundant slashes", "dot-dot", "symlink", "linked directory", "relative symlink", "chain of links",
            "hard link", "descriptor",
        ][spell],
    );
    let path = match fault {
        6 => path.join(["x", "c.scilla", ".", ".."][s.usize(4)]),
        7 => PathBuf::new(),
        8 => {
            let mut p = path.into_os_string();
            p.push("/");
            p.into()
        }
        9 => {
            let mut p = path.into_os_string();
            p.push(["\0", "\0.scilla", "\0/"][s.usize(3)]);
            p.into()
        }
        10 => path.parent().unwrap().join("n".repeat(256 + s.usize(5000))),
        11 => {
            std::fs::write(&file, &bytes).unwrap();
            base.join("missing/..").join(&sub).join(&name)
        }
        _ => path,
    };
    assert!(fault != 3 || std::str::from_utf8(&bytes).is_err());
    let listing = |d: &Path| -> Vec<String> {
        let mut out = vec![];
        let mut todo = vec![d.to_path_buf()];
        while let Some(p) = todo.pop() {
            for e in std::fs::read_dir(&p).unwrap() {
                let e = e.unwrap();
                let t = e.file_type().unwrap();
                let meta = e.metadata().unwrap();
                let time = if t.is_dir() { None } else { meta.modified().ok() };
                use std::os::unix::fs::PermissionsExt;
                out.push(format!("{:?} {} {:o} {:?}", e.path(), meta.len(), meta.permissions().mode(), time));
                if t.is_dir() {
                    todo.push(e.path());
                }
            }
        }
        out.sort();
        out
    };
    let before = listing(&base);
    let input = format!("path {path:?} ({}), {} bytes:\n{}", classes.join(", "), bytes.len(), text.chars().take(4000).collect::<String>());
    let got = match guard(|| Contract::parse(&path)) {
        Ok(r) => r,
        Err(p) => return fail(format!("panic: {p}"), input),
    };
    if fault == 0 {
        let want = match parse(&text) {
            Ok(r) => r,
            Err(p) => return fail(format!("panic: {p}"), input),
        };
        if show(&want) != show(&got) || (want.is_ok() && want.as_ref().unwrap() != got.as_ref().unwrap()) {
            return fail(format!("file gives {}\ntext gives {}", show(&got), show(&want)), input);
        }
        classes.push(if want.is_ok() { "contract" } else { "same error" });
    } else if !matches!(got, Err(Error::IoError(_))) {
        return fail(format!("expected an I/O error, got {}", show(&got)), input);
    }
    if listing(&base) != before {
        return fail("the directory changed", input);
    }
    if (fault == 0 || fault == 3) && std::fs::read(&file).ok().as_deref() != Some(&bytes[..]) {
        return fail("the file changed", input);
    }
    drop(open);
    Ok(Info { nontrivial: fault != 0 || kind != "empty", classes, key: hash64(input.as_bytes()), sample: input, evals: 2 })
}

// ---------------------------------------------------------------------------------------- C15

fn c15(s: &mut Src, fixed: usize) -> CaseResult {
    let (mut m, names) = if fixed != GENERATED || s.chance(25) {
        let n = if fixed != GENERATED { fixed } else { s.usize(corpus().len()) };
        (corpus_model(n).1, Names::new(s))
    } else {
        let depth = s.usize(4);
        let small = !s.chance(15);
        gen_contract(s, Shape { small, depth })
    };
    let style = [tok::Style::Plain, tok::Style::Minimal, tok::Style::Mixed][s.weighted(&[4, 1, 1])];
    let mut text = tok::layout(s, &m.toks(), style).text;
    let mut sum = match must(&text) {
        Ok(x) => x,
        Err(e) => return fail(e, text),
    };
    let n = 1 + s.usize(12);
    let mut log: Vec<String> = vec![];
    let mut interface = 0;
    for _ in 0..n {
        let old = sum.clone();
        let d = gen_edit(s, &mut m, &names, &mut sum);
        log.push(d.clone());
        if old != sum {
            interface += 1;
        }
        let new = tok::layout(s, &m.toks(), style).text;
        if let Err(e) = expect(&new, &sum) {
            return fail(format!("after edit {d:?}: {e}"), format!("--- edits {log:?}\n--- before\n{text}\n--- after\n{new}"));
        }
        text = new;
    }
    let mut classes = vec![];
    if interface > 0 {
        classes.push("changes the interface");
    }
    if interface < n {
        classes.push("leaves the interface alone");
    }
    Ok(Info {
        nontrivial: n >= 2 && interface > 0,
        classes,
        key: hash64(text.as_bytes()),
        sample: format!("{log:?} ending in {text}"),
        evals: 1 + n as u64,
    })
}

// ---------------------------------------------------------------------------------------- C16

fn c16(s: &mut Src, _: usize) -> CaseResult {
    let shape = Shape { small: true, depth: s.usize(3) };
    let (m, names) = gen_contract(s, shape);
    let d = if dict::rarely(s, 10) { dict::edge(s, 150) } else { s.usize(6) };
    let (bad, class) = gen_offending(s, d);
    let toks = {
        let extra = [0, 25][s.usize(2)];
        let mut o = vec![];
        emit_ty(s, &bad, Place::Scilla, &mut o, extra);
        o
    };
    let style = tok::gen_style(s);
    let base = m.summary().unwrap();
    // (1) in the interface
    let mut mi = m.clone();
    let e = Entry { name: names.lower(s), ty: toks.clone(), want: None };
    let trans: Vec<usize> = (0..mi.comps.len()).filter(|i| mi.comps[*i].transition).collect();
    let place = match s.usize(3) {
        0 => {
            let at = s.usize(mi.params.len() + 1);
            mi.params.insert(at, e.clone());
            "deployment parameter"
        }
        1 if !trans.is_empty() => {
            let c = &mut mi.comps[trans[s.usize(trans.len())]];
            let at = s.usize(c.params.len() + 1);
            c.params.insert(at, e.clone());
            "transition parameter"
        }
        _ => {
            let at = s.usize(mi.fields.len() + 1);
            mi.fields.insert(at, FieldDef { entry: e.clone(), init: gen_init(s) });
            "field"
        }
    };
    let text = tok::layout(s, &mi.toks(), style).text;
    match parse(&text) {
        Ok(Err(_)) => {}
        Ok(Ok(c)) => {
            return fail(
                format!("{class} in a {place} ({}) is misreported: {:?}", tok::plain(&toks), summary(&c)),
                text,
            )
        }
        Err(p) => return fail(format!("panic for {class} in a {place} ({}): {p}", tok::plain(&toks)), text),
    }
    // (2) the same type only outside the interface
    let mut mo = m;
    let note = Entry { name: names.lower(s), ty: toks.clone(), want: None };
    let fun = |s: &mut Src| {
        // fun (x : T) => body
        let mut o = vec![Tok::kw("fun"), Tok::kw("("), Tok::class("<ID>", "x"), Tok::kw(":")];
        o.extend(toks.iter().cloned());
        o.extend([Tok::kw(")"), Tok::kw("=>")]);
        o.extend(gen_init(s));
        o
    };
    let k = s.usize(6);
    let outside = match k {
        0 => {
            let mut c = gen_comp(s, &names, false, 2, true);
            let at = s.usize(c.params.len() + 1);
            c.params.insert(at, note);
            let at = s.usize(mo.comps.len() + 1);
            mo.comps.insert(at, c);
            "procedure parameter"
        }
        1 => {
            let mut l = if mo.library.is_empty() { gen_library(s) } else { mo.library.clone() };
            l.extend([Tok::kw("let"), Tok::class("<ID>", "v"), Tok::kw(":")]);
            l.extend(toks.iter().cloned());
            l.push(Tok::kw("="));
            l.extend(gen_init(s));
            mo.library = l;
            "library annotation"
        }
        2 if !mo.fields.is_empty() => {
            let i = s.usize(mo.fields.len());
            mo.fields[i].init = fun(s);
            "field initialiser"
        }
        3 if !mo.comps.is_empty() => {
            let i = s.usize(mo.comps.len());
            let mut b = vec![Tok::class("<ID>", "f"), Tok::kw("=")];
            b.extend(fun(s));
            b.push(Tok::kw("end"));
            mo.comps[i].body = b;
            "body"
        }
        4 => {
            let mut l = if mo.library.is_empty() { gen_library(s) } else { mo.library.clone() };
            l.extend([Tok::kw("type"), Tok::class("<CID>", "Ty"), Tok::kw("="), Tok::kw("|"), Tok::class("<CID>", "Cc"), Tok::kw("of"), Tok::kw("(")]);
            l.extend(toks.iter().cloned());
            l.push(Tok::kw(")"));
            mo.library = l;
            "library type definition"
        }
        _ => {
            let mut c = vec![Tok::kw("with")];
            c.extend(fun(s));
            c.push(Tok::kw("=>"));
            mo.constraint = c;
            "constraint"
        }
    };
    let text2 = tok::layout(s, &mo.toks(), style).text;
    if let Err(e) = expect(&text2, &base) {
        return fail(format!("{class} ({}) only in a {outside}: {e}", tok::plain(&toks)), text2);
    }
    Ok(Info {
        nontrivial: true,
        classes: vec![class, place, outside, if bad.depth() > 2 { "nested" } else { "shallow" }],
        key: hash64(text.as_bytes()),
        sample: format!("{} in a {place}: {text}", tok::plain(&toks)),
        evals: 2,
    })
}

// ---------------------------------------------------------------------------------------- C17

fn list_of(l: &[(String, MTy)]) -> FieldList {
    FieldList(l.iter().map(|(n, t)| Field { name: n.clone(), r#type: real(t) }).collect())
}

fn contract_of(s: &Summary) -> Contract {
    Contract {
        name: s.name.clone(),
        init_params: list_of(&s.params),
        fields: list_of(&s.fields),
        transitions: TransitionList(s.transitions.iter().map(|(n, p)| Transition { name: n.clone(), params: list_of(p) }).collect()),
    }
}

/// A name as no contract spells it, but a program may.
fn odd(s: &mut Src, n: &str) -> String {
    const ODD: &[&str] = &["", " ", "\t", "\n", "\0", "\u{feff}", "\u{a0}", "\u{2003}", "\u{200b}", "é", "e\u{301}", "ß", "ſ", "İ", "\u{1F600}", "\"", "'", "(", "0", "_", "."];
    if s.chance(10) {
        return ODD[s.usize(ODD.len())].to_string();
    }
    let o = ODD[s.usize(ODD.len())];
    match s.usize(5) {
        0 => format!("{o}{n}"),
        1 => format!("{n}{o}"),
        2 => n.repeat(2 + s.usize(3)),
        3 => format!("{n}{o}{n}"),
        _ => match dict::pick(s, &dict::get().strings) {
            Some(x) => if s.chance(50) { x.to_string() } else { format!("{x}{n}") },
            None => o.to_string(),
        },
    }
}

/// Gives some parts of a summary such names.
fn make_odd(s: &mut Src, m: &mut Summary) {
    for _ in 0..1 + s.usize(3) {
        let np = m.params.len();
        let nt = m.transitions.len();
        match s.usize(5) {
            0 => m.name = odd(s, &m.name.clone()),
            1 if np > 0 => {
                let i = s.usize(np);
                m.params[i].0 = odd(s, &m.params[i].0.clone());
            }
            2 if !m.fields.is_empty() => {
                let i = s.usize(m.fields.len());
                if s.chance(50) {
                    m.fields[i].1 = MTy::Other(odd(s, "Type"));
                } else {
                    m.fields[i].0 = odd(s, &m.fields[i].0.clone());
                }
            }
            3 if nt > 0 => {
                let i = s.usize(nt);
                if !m.transitions[i].1.is_empty() {
                    let j = s.usize(m.transitions[i].1.len());
                    m.transitions[i].1[j].0 = odd(s, &m.transitions[i].1[j].0.clone());
                }
            }
            _ if nt > 0 => {
                let i = s.usize(nt);
                m.transitions[i].0 = odd(s, &m.transitions[i].0.clone());
                if s.chance(30) {
                    m.transitions[i].1.clear();
                }
            }
            _ => m.transitions.push((odd(s, "T"), vec![])),
        }
    }
}

fn other_name(s: &mut Src, n: &mut String) {
    if s.chance(10) {
        *n = odd(s, n);
        return;
    }
    let flip = |c: char| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
    match s.usize(5) {
        0 => n.push('x'),
        1 => {
            n.pop();
        }
        2 => {
            let at = s.usize(n.chars().count().max(1));
            *n = n.chars().enumerate().map(|(i, c)| if i == at { flip(c) } else { c }).collect();
        }
        3 => *n = n.chars().rev().collect(),
        _ => n.insert(0, '_'),
    }
}

fn other_list(s: &mut Src, l: &mut Vec<(String, MTy)>) -> &'static str {
    if l.is_empty() || s.chance(8) {
        let t = gen_ty(s, 2).summary();
        let at = s.usize(l.len() + 1);
        l.insert(at, (tok::gen_lower(s), t));
        return "entry added";
    }
    let i = s.usize(l.len());
    match s.usize(6) {
        0 => {
            other_name(s, &mut l[i].0);
            "entry renamed"
        }
        1 => {
            l[i].1 = nudge(s, &l[i].1.clone());
            "entry retyped"
        }
        2 => {
            l.remove(i);
            "entry removed"
        }
        3 => {
            l.insert(i, l[i].clone());
            "entry doubled"
        }
        4 => {
            let j = s.usize(l.len());
            l.swap(i, j);
            "entries swapped"
        }
        _ => {
            let j = s.usize(l.len());
            let x = l[j].1.clone();
            l[j].1 = std::mem::replace(&mut l[i].1, x);
            "types swapped"
        }
    }
}

/// Changes (most often) one thing.
fn other_summary(s: &mut Src, m: &mut Summary) -> &'static str {
    let nt = m.transitions.len();
    match s.usize(10) {
        0 => {
            other_name(s, &mut m.name);
            "contract renamed"
        }
        1 => other_list(s, &mut m.params),
        2 => other_list(s, &mut m.fields),
        3 | 4 if nt > 0 => {
            let i = s.usize(nt);
            other_list(s, &mut m.transitions[i].1)
        }
        5 => {
            std::mem::swap(&mut m.params, &mut m.fields);
            "parameters and fields exchanged"
        }
        6 if nt > 0 => {
            let i = s.usize(nt);
            other_name(s, &mut m.transitions[i].0);
            "transition renamed"
        }
        7 if nt > 0 => {
            let (i, j) = (s.usize(nt), s.usize(nt));
            match s.usize(4) {
                0 => {
                    m.transitions.swap(i, j);
                }
                1 => {
                    m.transitions.remove(i);
                }
                2 => {
                    let t = m.transitions[i].clone();
                    m.transitions.insert(j, t);
                }
                _ => {
                    let p = m.transitions[j].1.clone();
                    m.transitions[j].1 = std::mem::replace(&mut m.transitions[i].1, p);
                }
            }
            "transitions rearranged"
        }
        8 if !m.params.is_empty() => {
            let e = m.params.pop().unwrap();
            m.fields.insert(0, e);
            "parameter becomes a field"
        }
        8 if !m.fields.is_empty() => {
            let e = m.fields.remove(0);
            m.params.push(e);
            "field becomes a parameter"
        }
        _ => {
            let at = s.usize(nt + 1);
            m.transitions.insert(at, (tok::gen_upper(s), vec![]));
            "transition added"
        }
    }
}

fn c17(s: &mut Src, _: usize) -> CaseResult {
    let shape = Shape { small: !s.chance(20), depth: s.usize(4) };
    let (m, _) = gen_contract(s, shape);
    let mut a = m.summary().unwrap();
    let mut classes = vec![];
    if s.chance(30) {
        make_odd(s, &mut a);
        classes.push("odd names");
    }
    let mut b = a.clone();
    for _ in 0..s.weighted(&[3, 12, 2]) {
        classes.push(other_summary(s, &mut b));
    }
    let same = a == b;
    classes.push(if same { "equal" } else { "different" });
    let input = || format!("{a:?}\n=== and\n{b:?}");
    let bad = |m: String| fail(m, input());
    let style = tok::gen_style(s);
    let text = tok::layout(s, &m.toks(), style).text;
    let parsed = match parse(&text) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return fail(format!("rejected: {e}"), text),
        Err(p) => return fail(format!("panic: {p}"), text),
    };
    let r = guard(|| {
        let (ca, cb) = (contract_of(&a), contract_of(&b));
        let mut wrong: Vec<String> = vec![];
        let mut judge = |what: &str, got: bool, want: bool| {
            if got != want {
                wrong.push(format!("{what} compare {}", if got { "equal" } else { "different" }));
            }
        };
        let is = summary(&parsed) == a;
        judge("the parsed contract and the one built by hand", parsed == ca, is);
        judge("the one built by hand and the parsed contract", ca == parsed, is);
        judge("the contracts", ca == cb, same);
        judge("the contracts (other way round)", cb == ca, same);
        #[allow(clippy::nonminimal_bool)]
        judge("the contracts (by !=)", !(ca != cb), same);
        judge("the contract and itself", ca == contract_of(&a), true);
        judge("parameters", ca.init_params == cb.init_params, a.params == b.params);
        judge("fields", ca.fields == cb.fields, a.fields == b.fields);
        judge("transition lists", ca.transitions == cb.transitions, a.transitions == b.transitions);
        judge("parameters and fields", ca.init_params == cb.fields, a.params == b.fields);
        for (i, x) in a.transitions.iter().enumerate().take(6) {
            for (j, y) in b.transitions.iter().enumerate().take(6) {
                judge(&format!("transitions {i} and {j}"), ca.transitions[i] == cb.transitions[j], x == y);
                judge(&format!("parameters of transitions {i} and {j}"), ca.transitions[i].params == cb.transitions[j].params, x.1 == y.1);
            }
        }
        for (i, x) in a.params.iter().chain(&a.fields).enumerate().take(8) {
            for (j, y) in b.params.iter().chain(&b.fields).enumerate().take(8) {
                let f = |e: &(String, MTy)| Field::new(&e.0, real(&e.1));
                judge(&format!("entries {i} and {j}"), f(x) == f(y), x == y);
            }
        }
        if !wrong.is_empty() {
            return Err(wrong.join("; "));
        }
        // copies, and lists built step by step
        let copy = ca.fields.clone();
        if copy != ca.fields || entries(&copy) != a.fields {
            return Err(format!("the copy of {:?} is {copy:?}", ca.fields));
        }
        let mut built = FieldList::default();
        if built.len() != 0 || !built.is_empty() {
            return Err("the empty list is not empty".into());
        }
        for (i, (n, t)) in a.params.iter().enumerate() {
            let f = Field::new(n, real(t));
            if f.name != *n || mty(&f.r#type) != *t {
                return Err(format!("the field made of {n:?} and {t:?} is {f:?}"));
            }
            built.push(f.clone());
            if built.len() != i + 1 || built.last() != Some(&f) || built[i] != f {
                return Err(format!("after adding {f:?} the list is {built:?}"));
            }
        }
        if built != ca.init_params || entries(&built) != a.params || built.iter().ne(ca.init_params.iter()) {
            return Err(format!("built {built:?} instead of {:?}", ca.init_params));
        }
        let mut ts = TransitionList::default();
        for (n, p) in &a.transitions {
            let t = if p.is_empty() && n.len() % 2 == 0 { Transition::new_without_param(n) } else { Transition::new(n, list_of(p)) };
            if t.name != *n || entries(&t.params) != *p {
                return Err(format!("the transition made of {n:?} and {p:?} is {t:?}"));
            }
            ts.push(t);
        }
        if ts != ca.transitions || ts.len() != a.transitions.len() || ts.iter().zip(&a.transitions).any(|(t, w)| t.name != w.0) {
            return Err(format!("built {ts:?} instead of {:?}", ca.transitions));
        }
        let none = Contract::default();
        if summary(&none) != Summary::default() || none != contract_of(&Summary::default()) {
            return Err(format!("the default contract is {none:?}"));
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return bad(e),
        Err(p) => return bad(format!("panic: {p}")),
    }
    let n = a.params.len() + a.fields.len() + a.transitions.len();
    let key = input();
    Ok(Info { nontrivial: n >= 2 && !same, classes, key: hash64(key.as_bytes()), sample: key, evals: 2 })
}

fn main() {
    let n = corpus().len();
    runner::main(&[
        Check {
            id: "C01",
            quick: 250_000,
            thorough: 15_000_000,
            rule: "at least two interface entries, a transition, and at least one part that must not show up (field initialiser, procedure, import, library or constraint); distinct by text",
            assumptions: &["the corpus contracts' expected summaries are read off their reference tokens"],
            fixed: n,
            f: c01,
            known: None,
            guided: 4,
        },
        Check {
            id: "C02",
            quick: 100_000,
            thorough: 6_000_000,
            rule: "a type expression with at least one constructor applied; distinct by text",
            assumptions: &["sizes are written without leading zeros and fit in usize"],
            fixed: 0,
            f: c02,
            known: None,
            guided: 4,
        },
        Check {
            id: "C10",
            quick: 200_000,
            thorough: 12_000_000,
            rule: "a type whose text has at least two words; distinct by text",
            assumptions: &["ByStrX(20) is not a canonical value (the parser reports ByStr20)"],
            fixed: 0,
            f: c10,
            known: None,
            guided: 4,
        },
        Check {
            id: "C11",
            quick: 45_000,
            thorough: 2_700_000,
            rule: "an injected fault, or a non-empty file; distinct by path and content",
            assumptions: &["runs as root: permission faults cannot be injected"],
            fixed: 0,
            f: c11,
            known: None,
            guided: 4,
        },
        Check {
            id: "C15",
            quick: 6_000,
            thorough: 360_000,
            rule: "an edit history of at least two edits of which at least one changes the interface; distinct by final text",
            assumptions: &[],
            fixed: n,
            f: c15,
            known: None,
            guided: 4,
        },
        Check {
            id: "C16",
            quick: 140_000,
            thorough: 8_400_000,
            rule: "every case: one offending type in the interface and the same one only outside; distinct by text",
            assumptions: &["arguments of user-defined types are interface types too"],
            fixed: 0,
            f: c16,
            known: None,
            guided: 4,
        },
        Check {
            id: "C17",
            quick: 250_000,
            thorough: 15_000_000,
            rule: "two summaries that differ, the first with at least two entries; distinct by both",
            assumptions: &[],
            fixed: 0,
            f: c17,
            known: None,
            guided: 4,
        },
    ])
}
