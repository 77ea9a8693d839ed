//! Runs checks: a parent process that survives aborts of the code under test, eight workers with a
//! fixed number of cases, shrinking, replay files, evidence.
use crate::choice::{hash64, mutate, shrink, Rng, Src};
use crate::cov::Seen;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a case that held was.
#[derive(Default, Clone)]
pub struct Info {
    /// non-trivial by the check's rule
    pub nontrivial: bool,
    /// classes the case belongs to (distribution)
    pub classes: Vec<&'static str>,
    /// identifies the case (distinctness)
    pub key: u64,
    /// rendered input
    pub sample: String,
    /// how many sub-evaluations of the code under test
    pub evals: u64,
}

/// A violation: message and rendered input.
#[derive(Clone)]
pub struct Fail {
    pub msg: String,
    pub input: String,
}

pub type CaseResult = Result<Info, Fail>;

pub fn fail<T>(msg: impl Into<String>, input: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), input: input.into() })
}

pub struct Check {
    pub id: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of fixed cases run first (index < fixed selects one)
    pub fixed: usize,
    pub f: fn(&mut Src, usize) -> CaseResult,
    pub known: Option<fn() -> Vec<String>>,
    /// of how many generated cases one more is made from an earlier one, by coverage; 0: none
    pub guided: usize,
}

/// Index passed to a case that is not one of the fixed ones.
pub const GENERATED: usize = usize::MAX;

/// Runs code under test; a panic in it becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

thread_local! {
    static IN_GUARD: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

struct Args {
    id: String,
    tier: String,
    seed: u64,
    replay: Option<PathBuf>,
    cases: Option<usize>,
    one: Option<String>,
    secs: u64,
    guided: Option<usize>,
}

fn args() -> Args {
    let mut a = Args {
        id: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None,
        cases: None,
        one: None,
        secs: 0,
        guided: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.tier = it.next().unwrap(),
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--replay" => a.replay = it.next().map(PathBuf::from),
            "--cases" => a.cases = it.next().map(|x| x.parse().unwrap()),
            "--guided" => a.guided = it.next().map(|x| x.parse().unwrap()),
            "--one" => a.one = it.next(),
            "--secs" => a.secs = it.next().unwrap().parse().unwrap(),
            _ => a.id = x,
        }
    }
    if a.secs == 0 {
        a.secs = if a.tier == "thorough" { 3000 } else { 540 };
    }
    a
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let h: String = s.chars().take(n).collect();
        format!("{h}… [{} bytes]", s.len())
    }
}

fn case_seed(seed: u64, id: &str, index: usize) -> u64 {
    hash64(format!("{seed}/{id}/{index}").as_bytes())
}

#[derive(Clone)]
enum Case {
    Index(usize),
    Choices(Vec<u32>),
    /// these choices, then random ones
    Extend(Vec<u32>, u64),
    /// all generated cases up to this one, one after another
    History(usize),
}

/// Begins the message of a failure that needs the cases before it.
pub const DRIFT: &str = "after all that went before: ";

fn join(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

impl Case {
    fn encode(&self) -> String {
        match self {
            Case::Index(i) => format!("i{i}"),
            Case::History(i) => format!("h{i}"),
            Case::Choices(c) => format!("c{}", join(c)),
            Case::Extend(c, tail) => format!("x{tail},{}", join(c)),
        }
    }
    fn decode(s: &str) -> Case {
        let choices = |c: &str| c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<u32>>();
        match s.split_at(1) {
            ("i", n) => Case::Index(n.parse().unwrap()),
            ("h", n) => Case::History(n.parse().unwrap()),
            ("x", c) => {
                let (tail, c) = c.split_once(',').unwrap();
                Case::Extend(choices(c), tail.parse().unwrap())
            }
            (_, c) => Case::Choices(choices(c)),
        }
    }
}

enum Ran {
    Held(Info),
    Broke(Fail),
    Harness(String),
}

fn run_case(check: &Check, seed: u64, case: &Case) -> (Ran, Vec<u32>) {
    let (src, fixed) = match case {
        Case::History(n) => {
            let mut last = (Ran::Harness("empty history".into()), vec![]);
            for i in 0..=*n {
                last = run_case(check, seed, &Case::Index(i));
                if !matches!(last.0, Ran::Held(_)) {
                    break;
                }
            }
            return last;
        }
        Case::Index(i) if *i < check.fixed => (Src::random(case_seed(seed, check.id, *i)), *i),
        Case::Index(i) => (Src::random(case_seed(seed, check.id, *i)), GENERATED),
        Case::Choices(c) => (Src::replay(c.clone()), GENERATED),
        Case::Extend(c, tail) => (Src::extend(c.clone(), *tail), GENERATED),
    };
    run_src(check, src, fixed)
}

fn run_src(check: &Check, mut src: Src, fixed: usize) -> (Ran, Vec<u32>) {
    let r = catch_unwind(AssertUnwindSafe(|| (check.f)(&mut src, fixed)));
    let rec = std::mem::take(&mut src.record);
    match r {
        Ok(Ok(i)) => (Ran::Held(i), rec),
        Ok(Err(f)) => (Ran::Broke(f), rec),
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            (Ran::Harness(m), rec)
        }
    }
}

fn write_replay(dir: &Path, check: &Check, seed: u64, case: &Case, fail: &Fail) -> PathBuf {
    let p = dir.join(format!("replay-{}.json", check.id));
    let body = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"case\": {},\n \"message\": {},\n \"input\": {},\n \"dictionary\": {}\n}}\n",
        json_str(check.id),
        seed,
        json_str(&case.encode()),
        json_str(&clip(&fail.msg, 4000)),
        json_str(&clip(&fail.input, 20000)),
        json_str(&crate::dict::get().encode()),
    );
    std::fs::write(&p, body).ok();
    p
}

/// Entry point of a check binary.
pub fn main(checks: &[Check]) -> ! {
    let a = args();
    let mut id = a.id.clone();
    let mut seed = a.seed;
    let mut one = a.one.clone();
    if let Some(r) = &a.replay {
        let t = std::fs::read_to_string(r).unwrap_or_else(|e| die(&format!("cannot read {}: {e}", r.display())));
        let field = |k: &str| -> String {
            let p = t.find(&format!("\"{k}\": ")).unwrap_or_else(|| die("bad replay file")) + k.len() + 4;
            t[p..].lines().next().unwrap().trim_end_matches(',').trim_matches('"').to_string()
        };
        id = field("property");
        seed = field("seed").parse().unwrap();
        one = Some(field("case"));
        if t.contains("\"dictionary\"") {
            std::env::set_var("VH_DICT", field("dictionary"));
        }
    }
    let check = checks.iter().find(|c| c.id == id).unwrap_or_else(|| die(&format!("no check {id}")));
    if std::env::var_os("VH_CHILD").is_some() {
        child(check, &a, seed, one);
    }
    parent(check, &a, seed, one)
}

fn die(m: &str) -> ! {
    eprintln!("harness error: {m}");
    std::process::exit(2)
}

fn respawn(extra: &[&str], cpu: Option<u64>) -> std::process::Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = match cpu {
        None => std::process::Command::new(exe),
        Some(s) => {
            let mut c = std::process::Command::new("/bin/sh");
            c.arg("-c").arg(format!("ulimit -t {s}; ulimit -c 0; exec \"$0\" \"$@\"")).arg(exe);
            c
        }
    };
    c.args(extra).env("VH_CHILD", "1");
    c
}

/// A long case is handed over in a file.
fn as_arg(case: &str) -> String {
    if case.len() < 50_000 {
        return case.to_string();
    }
    let p = verif().join("evidence").join(format!(".case-{}", std::process::id()));
    std::fs::write(&p, case).unwrap_or_else(|e| die(&format!("cannot write {}: {e}", p.display())));
    format!("@{}", p.display())
}

fn drop_arg_file() {
    std::fs::remove_file(verif().join("evidence").join(format!(".case-{}", std::process::id()))).ok();
}

/// Runs the child; when the code under test takes the whole process down, finds the case that does.
fn parent(check: &Check, a: &Args, seed: u64, one: Option<String>) -> ! {
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let slots = dir.join(format!(".running-{}", check.id));
    std::fs::remove_file(&slots).ok();
    let seed_s = seed.to_string();
    let mut cmd: Vec<String> = vec![check.id.into(), "--tier".into(), a.tier.clone(), "--seed".into(), seed_s.clone()];
    if let Some(o) = &one {
        cmd.push("--one".into());
        cmd.push(as_arg(o));
    }
    if let Some(n) = a.cases {
        cmd.push("--cases".into());
        cmd.push(n.to_string());
    }
    if let Some(n) = a.guided {
        cmd.push("--guided".into());
        cmd.push(n.to_string());
    }
    cmd.push("--secs".into());
    cmd.push(a.secs.to_string());
    let refs: Vec<&str> = cmd.iter().map(|s| s.as_str()).collect();
    let status = respawn(&refs, None).status().unwrap_or_else(|e| die(&format!("cannot start: {e}")));
    match status.code() {
        Some(c @ (0 | 1)) => {
            std::fs::remove_file(&slots).ok();
            std::process::exit(c)
        }
        // 3: a case did not end; a signal: the process was taken down
        Some(3) | None => {}
        Some(c) => std::process::exit(if c == 0 { 2 } else { c }),
    }
    eprintln!("child ended with {status}; looking for the case");
    if let Some(o) = one {
        println!("VIOLATION property={} replay={}", check.id, a.replay.as_ref().map(|p| p.display().to_string()).unwrap_or(o));
        std::process::exit(1);
    }
    let running = std::fs::read_to_string(&slots).unwrap_or_default();
    let mut cand: Vec<String> = running.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    for w in 0..W {
        let p = dir.join(format!(".running-{}-{w}", check.id));
        cand.extend(std::fs::read_to_string(&p).ok().filter(|c| !c.is_empty()));
        std::fs::remove_file(&p).ok();
    }
    cand.sort();
    cand.dedup();
    let kills = |case: &str| -> Option<String> {
        let st = respawn(&[check.id, "--seed", &seed_s, "--one", &as_arg(case)], Some(60))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .ok()?;
        match st.code() {
            None => Some(format!("{st}")),
            Some(3) => Some("does not end".into()),
            _ => None,
        }
    };
    for c in cand {
        if let Some(how) = kills(&c) {
            // only C03 and C20 are about ending; elsewhere a case that does not end decides nothing
            if !["C03", "C20"].contains(&check.id) && (how.contains("signal: 24") || how.contains("signal: 9") || how.contains("does not end")) {
                die(&format!("case {c} uses more than a minute of processor time: {how}"));
            }
            let case = Case::decode(&c);
            let f = Fail { msg: format!("the process is taken down or never ends: {how}"), input: format!("case {c}") };
            let p = write_replay(&dir, check, seed, &case, &f);
            write_evidence(check, a, seed, &Stats::default(), 0.0, 1, &dir);
            println!("{}", f.msg);
            println!("VIOLATION property={} replay={}", check.id, p.display());
            std::process::exit(1);
        }
    }
    die("the child died but no single case reproduces it")
}

#[derive(Default)]
struct Stats {
    cases: u64,
    evals: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    truncated: bool,
    /// guided cases, those that showed something new, edges taken
    guided: (u64, u64, u64),
}

impl Stats {
    fn held(&mut self, info: Info, n: u64) {
        self.cases += 1;
        self.evals += info.evals.max(1);
        self.distinct.insert(info.key);
        if info.nontrivial {
            self.nontrivial.insert(info.key);
        }
        for c in info.classes {
            *self.classes.entry(c).or_default() += 1;
        }
        if info.nontrivial && self.samples.len() < 200 {
            self.samples.push((n, clip(&info.sample, 600)));
        }
    }
}

/// Makes cases from earlier ones that showed something new in the instrumented code under test: a
/// fixed number, each a function of the code, the seed and the worker alone.
struct Guide {
    rng: Rng,
    seen: Box<Seen>,
    hits: Vec<u32>,
    corpus: Vec<Entry>,
    /// longest stream that is kept
    longest: usize,
}

struct Entry {
    choices: Vec<u32>,
    features: Vec<u32>,
    tries: u32,
}

impl Guide {
    fn new(seed: u64, id: &str, w: usize) -> Guide {
        Guide {
            rng: Rng::new(hash64(format!("{seed}/{id}/guided/{w}").as_bytes())),
            seen: Seen::new(),
            hits: vec![0; Seen::features()],
            corpus: vec![],
            longest: 20_000,
        }
    }
    fn below(&mut self, n: usize) -> usize {
        (self.rng.next() >> 33) as usize % n.max(1)
    }
    /// The choices to begin with, and whether random ones follow.
    fn next(&mut self, k: usize, of: usize) -> (Vec<u32>, bool) {
        if self.corpus.is_empty() || k < of / 10 || self.below(20) == 0 {
            return (vec![], true);
        }
        // of some, the one with the rarest feature, tried least
        let mut best = self.below(self.corpus.len());
        let rounds = 1 + self.below(6);
        for _ in 0..rounds {
            let i = self.below(self.corpus.len());
            let rank = |e: &Entry, hits: &[u32]| {
                let rare = e.features.iter().map(|f| hits[*f as usize]).min().unwrap_or(u32::MAX);
                rare as u64 + e.tries as u64 * 2 + e.choices.len() as u64 / 50
            };
            if rank(&self.corpus[i], &self.hits) < rank(&self.corpus[best], &self.hits) {
                best = i;
            }
        }
        self.corpus[best].tries += 1;
        let other = self.below(self.corpus.len());
        let (c, end) = mutate(&self.corpus[best].choices, &self.corpus[other].choices, &mut self.rng);
        (c, !end)
    }
    fn learn(&mut self, rec: Vec<u32>, features: Vec<u32>) -> bool {
        let mut new = vec![];
        for f in &features {
            let h = &mut self.hits[*f as usize];
            if *h == 0 {
                new.push(*f);
            }
            *h += 1;
        }
        if new.is_empty() || rec.len() > self.longest {
            return false;
        }
        self.corpus.push(Entry { choices: rec, features: new, tries: 0 });
        true
    }
}

fn child(check: &Check, a: &Args, seed: u64, one: Option<String>) -> ! {
    // panics of the code under test are caught and reported by the checks themselves
    let verbose = std::env::var_os("VH_VERBOSE").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if verbose || IN_GUARD.with(|g| g.get()) == 0 {
            eprintln!("{i}");
        }
    }));
    let dir = verif().join("evidence");
    if let Some(o) = one {
        let case = match o.strip_prefix('@') {
            Some(p) => Case::decode(&std::fs::read_to_string(p).unwrap_or_else(|e| die(&format!("cannot read {p}: {e}")))),
            None => Case::decode(&o),
        };
        let h = std::thread::Builder::new().stack_size(STACK);
        let r = std::thread::scope(|s| h.spawn_scoped(s, || run_case(check, seed, &case)).unwrap().join());
        match r {
            Ok((Ran::Held(i), _)) => {
                println!("held: {}", clip(&i.sample, 2000));
                std::process::exit(0)
            }
            Ok((Ran::Broke(f), _)) => {
                println!("{}\n--- input\n{}", f.msg, f.input);
                println!("VIOLATION property={} replay={}", check.id, a.replay.as_ref().map(|p| p.display().to_string()).unwrap_or(o));
                std::process::exit(1)
            }
            Ok((Ran::Harness(m), _)) => die(&m),
            Err(_) => die("thread died"),
        }
    }
    let start = Instant::now();
    let total = a.cases.unwrap_or(if a.tier == "thorough" { check.thorough } else { check.quick }) + check.fixed;
    let guided = match (check.guided, crate::cov::edges()) {
        (0, _) | (_, 0) => 0,
        (n, _) => a.guided.unwrap_or((total - check.fixed) / n),
    };
    let cap = Duration::from_secs(a.secs);
    let slow = std::env::var_os("VH_VERBOSE").is_some();
    let next = AtomicUsize::new(0);
    let lowest = AtomicUsize::new(usize::MAX);
    let found: Mutex<Option<(usize, Fail, Vec<u32>)>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let stats = Mutex::new(Stats::default());
    let running: Vec<AtomicUsize> = (0..W).map(|_| AtomicUsize::new(usize::MAX)).collect();
    let since: Vec<AtomicU64> = (0..W).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicUsize::new(0);
    let slots = dir.join(format!(".running-{}", check.id));
    // Each worker notes the case it runs in a fixed-width line, so that the parent finds it.
    let file = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&slots).ok();
    std::thread::scope(|sc| {
        for w in 0..W {
            let dir = &dir;
            let (next, lowest, found, harness, stats, running, since, done, file) =
                (&next, &lowest, &found, &harness, &stats, &running, &since, &done, &file);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    use std::os::unix::fs::FileExt;
                    let mut local = Stats::default();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= total || i > lowest.load(SeqCst) || harness.lock().unwrap().is_some() {
                            break;
                        }
                        if start.elapsed() > cap {
                            local.truncated = true;
                            break;
                        }
                        running[w].store(i, SeqCst);
                        since[w].store(start.elapsed().as_millis() as u64, SeqCst);
                        if let Some(f) = file {
                            let line = format!("{:<23}\n", format!("i{i}"));
                            f.write_all_at(line.as_bytes(), (w * 24) as u64).ok();
                        }
                        let (r, rec) = run_case(check, seed, &Case::Index(i));
                        if slow && start.elapsed().as_millis() as u64 > since[w].load(SeqCst) + 2000 {
                            eprintln!("case {i}: {} ms", start.elapsed().as_millis() as u64 - since[w].load(SeqCst));
                        }
                        match r {
                            Ran::Held(info) => {
                                local.held(info, i as u64);
                            }
                            Ran::Broke(f) => {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map_or(true, |(j, ..)| i < *j) {
                                    *g = Some((i, f, rec));
                                    lowest.fetch_min(i, SeqCst);
                                }
                            }
                            Ran::Harness(m) => {
                                *harness.lock().unwrap() = Some(format!("case {i}: {m}"));
                            }
                        }
                        running[w].store(usize::MAX, SeqCst);
                    }
                    let mine = guided / W;
                    let mut guide = (mine > 0).then(|| Guide::new(seed, check.id, w));
                    let gslot = dir.join(format!(".running-{}-{w}", check.id));
                    for k in 0..mine {
                        let g = guide.as_mut().unwrap();
                        // (an index beyond those of the other cases; lower k of lower worker first)
                        let i = total + k * W + w;
                        if i > lowest.load(SeqCst) || harness.lock().unwrap().is_some() {
                            break;
                        }
                        if start.elapsed() > cap {
                            local.truncated = true;
                            break;
                        }
                        let (choices, random) = g.next(k, mine);
                        let tail = g.rng.next();
                        // what is drawn is known only afterwards: the case is noted as what determines it
                        let case = if random { Case::Extend(choices, tail) } else { Case::Choices(choices) };
                        std::fs::write(&gslot, case.encode()).ok();
                        running[w].store(i, SeqCst);
                        since[w].store(start.elapsed().as_millis() as u64, SeqCst);
                        let ((r, rec), features) = g.seen.watch(|| run_case(check, seed, &case));
                        match r {
                            Ran::Held(info) => {
                                local.held(info, i as u64);
                                local.guided.0 += 1;
                                local.guided.1 += g.learn(rec, features) as u64;
                            }
                            Ran::Broke(f) => {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map_or(true, |(j, ..)| i < *j) {
                                    *g = Some((i, f, rec));
                                    lowest.fetch_min(i, SeqCst);
                                }
                            }
                            Ran::Harness(m) => {
                                *harness.lock().unwrap() = Some(format!("guided case {k} of worker {w}: {m}"));
                            }
                        }
                        running[w].store(usize::MAX, SeqCst);
                    }
                    std::fs::remove_file(&gslot).ok();
                    if let Some(g) = &guide {
                        local.guided.2 = g.hits[..(crate::cov::edges() + 1) * 8].chunks(8).filter(|c| c.iter().any(|h| *h > 0)).count() as u64;
                    }
                    let mut g = stats.lock().unwrap();
                    g.cases += local.cases;
                    g.evals += local.evals;
                    g.truncated |= local.truncated;
                    g.distinct.extend(local.distinct);
                    g.nontrivial.extend(local.nontrivial);
                    for (k, v) in local.classes {
                        *g.classes.entry(k).or_default() += v;
                    }
                    g.samples.extend(local.samples);
                    g.guided.0 += local.guided.0;
                    g.guided.1 += local.guided.1;
                    g.guided.2 = g.guided.2.max(local.guided.2);
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog: a case that runs for minutes is handed to the parent, which decides with a
        // processor-time limit in a process of its own
        while done.load(SeqCst) < W {
            std::thread::sleep(Duration::from_millis(50));
            let now = start.elapsed().as_millis() as u64;
            for w in 0..W {
                if running[w].load(SeqCst) != usize::MAX && now.saturating_sub(since[w].load(SeqCst)) > 150_000 {
                    let i = running[w].load(SeqCst);
                    eprintln!("case {i} does not end");
                    if i < total {
                        std::fs::write(&slots, format!("i{i}\n")).ok();
                    }
                    std::process::exit(3);
                }
            }
        }
    });
    if let Some(m) = harness.into_inner().unwrap() {
        die(&m);
    }
    let stats = stats.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    if let Some((i, f, rec)) = found {
        let (case, f) = if f.msg.starts_with(DRIFT) { (Case::History(i), f) } else { minimise(check, seed, i, f.clone(), rec.clone()) };
        // the replay has to fail in a process of its own
        let fails = |c: &Case| {
            let st = respawn(&[check.id, "--seed", &seed.to_string(), "--one", &as_arg(&c.encode())], Some(120))
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
            !matches!(st.map(|s| s.code()), Ok(Some(0)))
        };
        let case = if i < total {
            [case, Case::Index(i), Case::History(i)].into_iter().find(|c| fails(c)).unwrap_or(Case::History(i))
        } else {
            [case, Case::Choices(rec.clone())].into_iter().find(|c| fails(c)).unwrap_or(Case::Choices(rec))
        };
        drop_arg_file();
        let p = write_replay(&dir, check, seed, &case, &f);
        write_evidence(check, a, seed, &stats, start.elapsed().as_secs_f64(), 1, &dir);
        println!("{}: case {i} of seed {seed}: {}", check.id, clip(&f.msg, 3000));
        println!("--- input\n{}\n---", clip(&f.input, 3000));
        println!("VIOLATION property={} replay={}", check.id, p.display());
        std::io::stdout().flush().ok();
        std::process::exit(1);
    }
    let known = check.known.map(|k| k()).unwrap_or_default();
    for k in known {
        println!("KNOWN-FINDING: property={} {k}", check.id);
    }
    write_evidence(check, a, seed, &stats, start.elapsed().as_secs_f64(), 0, &dir);
    println!(
        "{}: held on {} cases ({} distinct non-trivial, {} evaluations){} in {:.1} s",
        check.id,
        stats.cases,
        stats.nontrivial.len(),
        stats.evals,
        if stats.truncated { ", stopped by the time limit" } else { "" },
        start.elapsed().as_secs_f64()
    );
    if stats.guided.0 > 0 {
        println!("  guided: {} cases, {} new, {} of {} edges", stats.guided.0, stats.guided.1, stats.guided.2, crate::cov::edges());
    }
    for (k, v) in &stats.classes {
        println!("  {k}: {v}");
    }
    std::process::exit(0)
}

const W: usize = 8;
const STACK: usize = 64 << 20;

fn minimise(check: &Check, seed: u64, index: usize, f: Fail, rec: Vec<u32>) -> (Case, Fail) {
    // (tools/mutate.py asks only whether there is a failure)
    if index < check.fixed || std::env::var_os("VH_NO_SHRINK").is_some() {
        return (Case::Index(index), f);
    }
    let best = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                shrink(
                    rec.clone(),
                    |c| match run_case(check, seed, &Case::Choices(c.to_vec())) {
                        (Ran::Broke(_), used) => Some(used),
                        _ => None,
                    },
                    20_000,
                    Duration::from_secs(60),
                )
            })
            .unwrap()
            .join()
    });
    let best = best.unwrap_or(rec);
    let case = Case::Choices(best);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || run_case(check, seed, &case).0).unwrap().join()
    });
    match r {
        Ok(Ran::Broke(f2)) => (case, f2),
        _ => (Case::Index(index), f),
    }
}

fn write_evidence(check: &Check, a: &Args, seed: u64, st: &Stats, wall: f64, violations: u64, dir: &Path) {
    let mut samples = st.samples.clone();
    samples.sort();
    // the first few and some spread over the run
    let n = samples.len();
    let mut pick: Vec<&(u64, String)> = Vec::new();
    for k in 0..12usize.min(n) {
        pick.push(&samples[k * n / 12usize.min(n)]);
    }
    let samples = pick.iter().map(|(i, s)| format!("{{\"case\": {i}, \"input\": {}}}", json_str(s))).collect::<Vec<_>>().join(",\n   ");
    let classes = st.classes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    let ass = check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"cases\": {},\n  \"distinct\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{{classes}}},\n  \"guided\": {{\"cases\": {}, \"kept\": {}, \"edges_taken\": {}, \"edges\": {}}},\n  \"stopped_by_time\": {},\n  \"samples\": [\n   {samples}\n  ]\n }},\n \"wall_s\": {wall:.2},\n \"assumptions\": [{ass}],\n \"violations\": {violations}\n}}\n",
        json_str(check.id),
        json_str(&a.tier),
        st.evals,
        st.cases,
        st.distinct.len(),
        st.nontrivial.len(),
        json_str(check.rule),
        st.guided.0,
        st.guided.1,
        st.guided.2,
        crate::cov::edges(),
        st.truncated,
    );
    std::fs::create_dir_all(dir).ok();
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", check.id)), body) {
        die(&format!("cannot write evidence: {e}"));
    }
}
