//! Reference grammar: data (from `spec`), sampler producing concrete syntax trees, Earley recogniser
//! with viable-prefix computation.
use crate::choice::Src;
use crate::tok::{self, is_class, kind, Kind, Tok};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub enum Sym {
    /// keyword or punctuation, no tree child
    T(Kind),
    /// token whose text is a leaf child of the node
    L(Kind),
    /// marker leaf without tokens
    M(&'static str),
    N(usize),
    Opt(Vec<Sym>),
    Star(Vec<Sym>),
    Plus(Vec<Sym>),
}

#[derive(Clone, Debug)]
pub struct Alt {
    /// (category, variant) of the node; None splices the children into the parent
    pub label: Option<(&'static str, &'static str)>,
    /// node carries a source span
    pub meta: bool,
    pub syms: Vec<Sym>,
}

pub struct Grammar {
    pub names: Vec<&'static str>,
    pub alts: Vec<Vec<Alt>>,
    min_cat: Vec<usize>,
    order: Vec<Vec<usize>>,
    /// categories from which one comes back to some category
    cyclic: Vec<bool>,
    // Earley form
    rules: Vec<(usize, Vec<ESym>)>,
    by_lhs: Vec<Vec<usize>>,
    nullable: Vec<bool>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum ESym {
    T(Kind),
    N(usize),
}

/// Concrete/abstract tree: spans are inclusive token index ranges.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Leaf { text: String, tok: Option<usize> },
    Node { cat: &'static str, var: &'static str, meta: bool, toks: (usize, usize), kids: Vec<Tree> },
}

impl Tree {
    pub fn count_nodes(&self) -> usize {
        match self {
            Tree::Leaf { .. } => 0,
            Tree::Node { kids, .. } => 1 + kids.iter().map(|k| k.count_nodes()).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Leaf { .. } => 0,
            Tree::Node { kids, .. } => 1 + kids.iter().map(|k| k.depth()).max().unwrap_or(0),
        }
    }
    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a Tree)) {
        f(self);
        if let Tree::Node { kids, .. } = self {
            for k in kids {
                k.visit(f);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    /// index of the first token that no grammatical text can have there
    Offends(usize),
    /// all tokens fine so far, but the text is incomplete
    Incomplete,
}

pub fn get() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| Grammar::new(crate::spec::categories()))
}

pub struct SampleCfg {
    pub max_tokens: usize,
    pub max_depth: usize,
}

impl Grammar {
    pub fn new(cats: Vec<(&'static str, Vec<Alt>)>) -> Self {
        let names: Vec<_> = cats.iter().map(|c| c.0).collect();
        let alts: Vec<Vec<Alt>> = cats.into_iter().map(|c| c.1).collect();
        let n = names.len();
        // minimal token counts
        let mut min_cat = vec![usize::MAX / 4; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                let m = alts[i].iter().map(|a| Self::min_syms(&a.syms, &min_cat)).min().unwrap();
                if m < min_cat[i] {
                    min_cat[i] = m;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let order = (0..n)
            .map(|i| {
                let mut o: Vec<usize> = (0..alts[i].len()).collect();
                o.sort_by_key(|k| Self::min_syms(&alts[i][*k].syms, &min_cat));
                o
            })
            .collect();
        // reachability
        fn refs(syms: &[Sym], out: &mut Vec<usize>) {
            for s in syms {
                match s {
                    Sym::N(c) => out.push(*c),
                    Sym::Opt(b) | Sym::Star(b) | Sym::Plus(b) => refs(b, out),
                    _ => {}
                }
            }
        }
        let mut reach = vec![vec![false; n]; n];
        for i in 0..n {
            let mut o = vec![];
            alts[i].iter().for_each(|a| refs(&a.syms, &mut o));
            o.into_iter().for_each(|c| reach[i][c] = true);
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    reach[i][j] |= reach[i][k] && reach[k][j];
                }
            }
        }
        let cyclic: Vec<bool> = (0..n).map(|i| (0..n).any(|j| reach[j][j] && (i == j || reach[i][j]))).collect();
        // Earley rules
        let mut rules: Vec<(usize, Vec<ESym>)> = Vec::new();
        let mut next = n;
        fn conv(syms: &[Sym], rules: &mut Vec<(usize, Vec<ESym>)>, next: &mut usize) -> Vec<ESym> {
            let mut out = Vec::new();
            for s in syms {
                match s {
                    Sym::T(k) | Sym::L(k) => out.push(ESym::T(*k)),
                    Sym::M(_) => {}
                    Sym::N(c) => out.push(ESym::N(*c)),
                    Sym::Opt(b) | Sym::Star(b) | Sym::Plus(b) => {
                        let body = conv(b, rules, next);
                        let nt = *next;
                        *next += 1;
                        match s {
                            Sym::Opt(_) => {
                                rules.push((nt, vec![]));
                                rules.push((nt, body));
                            }
                            Sym::Star(_) => {
                                rules.push((nt, vec![]));
                                let mut r = vec![ESym::N(nt)];
                                r.extend(body);
                                rules.push((nt, r));
                            }
                            _ => {
                                rules.push((nt, body.clone()));
                                let mut r = vec![ESym::N(nt)];
                                r.extend(body);
                                rules.push((nt, r));
                            }
                        }
                        out.push(ESym::N(nt));
                    }
                }
            }
            out
        }
        for i in 0..n {
            for a in &alts[i] {
                let body = conv(&a.syms, &mut rules, &mut next);
                rules.push((i, body));
            }
        }
        let mut by_lhs = vec![Vec::new(); next];
        for (i, r) in rules.iter().enumerate() {
            by_lhs[r.0].push(i);
        }
        let mut nullable = vec![false; next];
        loop {
            let mut ch = false;
            for (l, b) in &rules {
                if !nullable[*l] && b.iter().all(|s| matches!(s, ESym::N(x) if nullable[*x])) {
                    nullable[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        Grammar { names, alts, min_cat, order, cyclic, rules, by_lhs, nullable }
    }

    fn min_syms(syms: &[Sym], min_cat: &[usize]) -> usize {
        syms.iter()
            .map(|s| match s {
                Sym::T(_) | Sym::L(_) => 1,
                Sym::M(_) | Sym::Opt(_) | Sym::Star(_) => 0,
                Sym::N(c) => min_cat[*c],
                Sym::Plus(b) => Self::min_syms(b, min_cat),
            })
            .fold(0usize, |a, b| a.saturating_add(b))
            .min(usize::MAX / 4)
    }

    pub fn cat(&self, name: &str) -> usize {
        self.names.iter().position(|n| *n == name).unwrap_or_else(|| panic!("no category {name}"))
    }

    // ------------------------------------------------------------------ sampling

    /// Samples a sentence of the category, appending to `toks`; returns the tree pieces.
    pub fn sample(&self, s: &mut Src, cat: usize, toks: &mut Vec<Tok>, cfg: &SampleCfg) -> Vec<Tree> {
        let limit = toks.len() + cfg.max_tokens;
        self.sample_cat(s, cat, toks, limit, cfg.max_depth)
    }

    fn sample_cat(&self, s: &mut Src, cat: usize, toks: &mut Vec<Tok>, limit: usize, depth: usize) -> Vec<Tree> {
        let order = &self.order[cat];
        let tight = depth == 0 || toks.len() + self.min_cat[cat] >= limit;
        let ai = if order.len() == 1 {
            order[0]
        } else if tight {
            // among the alternatives of minimal size
            let m = self.min_cat[cat];
            let c: Vec<usize> =
                order.iter().copied().filter(|k| Self::min_syms(&self.alts[cat][*k].syms, &self.min_cat) == m).collect();
            c[s.usize(c.len())]
        } else {
            order[s.usize(order.len())]
        };
        let alt = &self.alts[cat][ai];
        let first = toks.len();
        let d = depth.saturating_sub(if alt.label.is_some() { 1 } else { 0 });
        let kids = self.sample_syms(s, &alt.syms, toks, limit, d);
        match alt.label {
            None => kids,
            Some((cat, var)) => vec![Tree::Node { cat, var, meta: alt.meta, toks: (first, toks.len().wrapping_sub(1)), kids }],
        }
    }

    /// Samples a sentence with a chain of `steps` nested constructs, everything beside it small.
    pub fn sample_deep(&self, s: &mut Src, cat: usize, toks: &mut Vec<Tok>, steps: usize) -> Vec<Tree> {
        let carriers: Vec<(usize, usize)> =
            self.alts[cat].iter().enumerate().map(|(i, a)| (i, self.carriers(&a.syms))).filter(|x| x.1 > 0).collect();
        if steps == 0 || carriers.is_empty() {
            let limit = toks.len() + 30;
            return self.sample_cat(s, cat, toks, limit, 2);
        }
        let (ai, n) = carriers[s.usize(carriers.len())];
        let alt = &self.alts[cat][ai];
        let first = toks.len();
        let mut at = s.usize(n) as isize;
        let kids = self.deep_syms(s, &alt.syms, toks, steps - 1, &mut at);
        match alt.label {
            None => kids,
            Some((cat, var)) => vec![Tree::Node { cat, var, meta: alt.meta, toks: (first, toks.len().wrapping_sub(1)), kids }],
        }
    }

    fn carriers(&self, syms: &[Sym]) -> usize {
        syms.iter()
            .map(|x| match x {
                Sym::N(c) => self.cyclic[*c] as usize,
                Sym::Opt(b) | Sym::Star(b) | Sym::Plus(b) => self.carriers(b),
                _ => 0,
            })
            .sum()
    }

    /// `at`: how many possible carriers of the chain come before the chosen one.
    fn deep_syms(&self, s: &mut Src, syms: &[Sym], toks: &mut Vec<Tok>, steps: usize, at: &mut isize) -> Vec<Tree> {
        let mut kids = Vec::new();
        for sym in syms {
            let inside = self.carriers(std::slice::from_ref(sym)) as isize;
            if *at >= 0 && *at < inside {
                match sym {
                    Sym::N(c) => {
                        *at = -1;
                        kids.extend(self.sample_deep(s, *c, toks, steps));
                    }
                    Sym::Opt(b) => kids.extend(self.deep_syms(s, b, toks, steps, at)),
                    Sym::Star(b) | Sym::Plus(b) => {
                        for _ in 0..s.weighted(&[6, 1, 1]) {
                            let limit = toks.len() + 10;
                            kids.extend(self.sample_syms(s, b, toks, limit, 0));
                        }
                        kids.extend(self.deep_syms(s, b, toks, steps, at));
                        for _ in 0..s.weighted(&[6, 1, 1]) {
                            let limit = toks.len() + 10;
                            kids.extend(self.sample_syms(s, b, toks, limit, 0));
                        }
                    }
                    _ => unreachable!(),
                }
            } else {
                if *at >= 0 {
                    *at -= inside;
                }
                let limit = toks.len() + 10;
                kids.extend(self.sample_syms(s, std::slice::from_ref(sym), toks, limit, 0));
            }
        }
        kids
    }

    fn sample_syms(&self, s: &mut Src, syms: &[Sym], toks: &mut Vec<Tok>, limit: usize, depth: usize) -> Vec<Tree> {
        let mut kids = Vec::new();
        for sym in syms {
            match sym {
                Sym::T(k) => toks.push(Tok { kind: *k, text: tok::kind_name(*k).to_string() }),
                Sym::L(k) => {
                    let text = if is_class(*k) { tok::gen_class(s, tok::kind_name(*k)) } else { tok::kind_name(*k).to_string() };
                    kids.push(Tree::Leaf { text: text.clone(), tok: Some(toks.len()) });
                    toks.push(Tok { kind: *k, text });
                }
                Sym::M(m) => kids.push(Tree::Leaf { text: m.to_string(), tok: None }),
                Sym::N(c) => kids.extend(self.sample_cat(s, *c, toks, limit, depth)),
                Sym::Opt(b) => {
                    let ok = depth > 0 && toks.len() + Self::min_syms(b, &self.min_cat) < limit;
                    if ok && s.chance(45) {
                        kids.extend(self.sample_syms(s, b, toks, limit, depth));
                    }
                }
                Sym::Star(b) | Sym::Plus(b) => {
                    let min = if matches!(sym, Sym::Plus(_)) { 1 } else { 0 };
                    let room = depth > 0 && toks.len() + Self::min_syms(b, &self.min_cat) < limit;
                    if room && crate::dict::rarely(s, 3) && toks.len() < 1_000 {
                        // many small ones
                        for _ in 0..crate::dict::edge(s, 700).max(min) {
                            kids.extend(self.sample_syms(s, b, toks, limit, 0));
                        }
                        continue;
                    }
                    let n = if room { min + s.len(40) } else { min };
                    for i in 0..n {
                        if i >= min && toks.len() + Self::min_syms(b, &self.min_cat) >= limit {
                            break;
                        }
                        kids.extend(self.sample_syms(s, b, toks, limit, depth));
                    }
                }
            }
        }
        kids
    }

    // ------------------------------------------------------------------ recognition

    pub fn recognise(&self, cat: usize, kinds: &[Kind]) -> Verdict {
        self.run(cat, kinds, &mut |_, _, _| {})
    }

    /// What may follow each prefix (a bit for each kind of token), and whether the prefix is a
    /// sentence, for all prefixes up to the first one that cannot be continued.
    pub fn frontiers(&self, cat: usize, kinds: &[Kind]) -> (Verdict, Vec<(u128, bool)>) {
        let mut f: Vec<(u128, bool)> = vec![];
        let v = self.run(cat, kinds, &mut |i, next, accepted| {
            if f.len() == i {
                f.push((0, false));
            }
            f[i].0 |= next;
            f[i].1 |= accepted;
        });
        (v, f)
    }

    fn run(&self, cat: usize, kinds: &[Kind], tell: &mut impl FnMut(usize, u128, bool)) -> Verdict {
        // item = (rule, dot, origin)
        type Item = (u32, u32, u32);
        let n = kinds.len();
        // waiting[set][nonterminal] -> items with the dot before it
        let mut waiting: Vec<HashMap<usize, Vec<Item>>> = Vec::with_capacity(n + 1);
        let mut cur: Vec<Item> = self.by_lhs[cat].iter().map(|r| (*r as u32, 0, 0)).collect();
        for i in 0..=n {
            let mut seen: std::collections::HashSet<Item> = cur.iter().copied().collect();
            let mut predicted = vec![false; self.by_lhs.len()];
            let mut wait: HashMap<usize, Vec<Item>> = HashMap::new();
            let mut next: Vec<Item> = Vec::new();
            let mut j = 0;
            let mut accepted = false;
            let mut follow = 0u128;
            while j < cur.len() {
                let (r, d, o) = cur[j];
                j += 1;
                let (lhs, body) = &self.rules[r as usize];
                if (d as usize) == body.len() {
                    if *lhs == cat && o == 0 {
                        accepted = true;
                    }
                    let parents: Vec<Item> = if o as usize == i {
                        wait.get(lhs).cloned().unwrap_or_default()
                    } else {
                        waiting[o as usize].get(lhs).cloned().unwrap_or_default()
                    };
                    for (pr, pd, po) in parents {
                        let it = (pr, pd + 1, po);
                        if seen.insert(it) {
                            cur.push(it);
                        }
                    }
                    continue;
                }
                match body[d as usize] {
                    ESym::T(k) => {
                        follow |= 1 << k;
                        if i < n && kinds[i] == k {
                            next.push((r, d + 1, o));
                        }
                    }
                    ESym::N(nt) => {
                        wait.entry(nt).or_default().push((r, d, o));
                        if !predicted[nt] {
                            predicted[nt] = true;
                            for pr in &self.by_lhs[nt] {
                                let it = (*pr as u32, 0, i as u32);
                                if seen.insert(it) {
                                    cur.push(it);
                                }
                            }
                        }
                        if self.nullable[nt] {
                            let it = (r, d + 1, o);
                            if seen.insert(it) {
                                cur.push(it);
                            }
                        }
                    }
                }
            }
            tell(i, follow, accepted);
            waiting.push(wait);
            if i == n {
                return if accepted { Verdict::Accept } else { Verdict::Incomplete };
            }
            cur.clear();
            if next.is_empty() {
                return Verdict::Offends(i);
            }
            cur = next;
        }
        unreachable!()
    }
}

// DSL helpers used by `spec`
pub fn t(x: &str) -> Sym {
    Sym::T(kind(x))
}
pub fn l(x: &str) -> Sym {
    Sym::L(kind(x))
}
