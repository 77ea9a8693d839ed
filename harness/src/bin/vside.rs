//! C21: reading leaves nothing behind.
use scilla_parser::parser::lexer::{Lexer, Token};
use scilla_parser::parser::parser as p;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use vcommon::choice::{hash64, Src};
use vcommon::dict;
use vcommon::grammar::{self, SampleCfg};
use vcommon::iface::{self, Shape};
use vcommon::runner::{self, fail, guard, CaseResult, Check, Info};
use vcommon::tok::{self, kind_name, Tok};

#[path = "../trees.rs"]
mod trees;
use trees::{parse_tree, Nothing, Toks, CATS};

// ------------------------------------------------------------------------------- memory in use

static COUNTING: AtomicBool = AtomicBool::new(false);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);

/// Counts what is in use.
struct Counting;

fn count(blocks: i64, bytes: i64) {
    if COUNTING.load(Relaxed) {
        BLOCKS.fetch_add(blocks, Relaxed);
        BYTES.fetch_add(bytes, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

// ------------------------------------------------------------------ the process that only reads

/// What is done: c contract, f file, l tokens, s summary of a tree, t and a number: a tree of that category.
#[derive(Clone, Debug)]
struct Op {
    how: String,
    before: String,
    after: String,
    times: usize,
}

impl Op {
    fn text(&self, n: usize) -> String {
        if self.after.is_empty() { self.before.clone() } else { format!("{}{:04}{}", self.before, n % 10_000, self.after) }
    }
    fn run(&self, n: usize) {
        let t = self.text(n);
        let _ = guard(|| match self.how.as_bytes()[0] {
            b'c' => drop(t.parse::<Contract>().map_err(|e| e.to_string())),
            b'f' => drop(Contract::parse(Path::new(&t)).map_err(|e| e.to_string())),
            b'l' => {
                let n = Lexer::new(&t).take(t.len() + 1).take_while(|t| !matches!(t, Ok((_, Token::Unknown, _)))).count();
                std::hint::black_box(n);
            }
            b's' => {
                if let Ok(tree) = p::ProgramParser::new().parse(&mut vec![], Lexer::new(&t)) {
                    drop(SrEmitter::default().emit(&tree).map(|c| c.init_params.iter().map(|f| f.r#type.to_string()).collect::<String>()));
                }
            }
            _ => {
                let toks: Toks = Lexer::new(&t).take(t.len() + 1).collect();
                if let Some(tree) = parse_tree(CATS[self.how[1..].parse::<usize>().unwrap()], &toks) {
                    let _ = tree.visit(&mut Nothing);
                }
            }
        });
    }
}

extern "C" {
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

/// The state of the process that reading has no business to change.
fn state() -> Vec<(String, String)> {
    let mut o = vec![];
    let mut fds: Vec<(String, String)> = std::fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.flatten()
                .map(|e| (format!("file descriptor {}", e.file_name().to_string_lossy()), std::fs::read_link(e.path()).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()))
                .filter(|(_, to)| !to.is_empty() && !(to.starts_with("/proc/") && to.ends_with("/fd")))
                .collect()
        })
        .unwrap_or_default();
    fds.sort();
    o.extend(fds);
    let status = std::fs::read_to_string("/proc/thread-self/status").unwrap_or_default();
    for l in status.lines() {
        if let Some((k, v)) = l.split_once(':') {
            if ["Umask", "SigBlk", "SigIgn", "SigCgt", "Threads", "Uid", "Gid"].contains(&k) {
                o.push((k.to_string(), v.trim().to_string()));
            }
        }
    }
    o.push(("limits".into(), std::fs::read_to_string("/proc/self/limits").unwrap_or_default()));
    o.push(("working directory".into(), format!("{:?}", std::env::current_dir())));
    let mut env: Vec<(String, String)> = std::env::vars_os().map(|(k, v)| (format!("variable {k:?}"), format!("{v:?}"))).collect();
    env.sort();
    o.extend(env);
    let child = unsafe { waitpid(-1, std::ptr::null_mut(), 1) };
    o.push(("children".into(), (child >= 0).to_string()));
    o
}

fn changes(a: &[(String, String)], b: &[(String, String)]) -> Option<String> {
    let gone = a.iter().filter(|x| !b.contains(x)).map(|x| format!("was {}: {}", x.0, x.1));
    let new = b.iter().filter(|x| !a.contains(x)).map(|x| format!("is {}: {}", x.0, x.1));
    let all: Vec<String> = gone.chain(new).collect();
    (!all.is_empty()).then(|| all.join("; "))
}

static PANICS: AtomicU64 = AtomicU64::new(0);

fn unhex(h: &str) -> String {
    let b: Vec<u8> = h.as_bytes().chunks(2).map(|h| u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn hex(t: &str) -> String {
    t.bytes().map(|b| format!("{b:02x}")).collect()
}

/// Does what is asked for on standard input and writes to `report` what it left behind.
fn reader(report: &Path) {
    let mut job = String::new();
    std::io::stdin().read_to_string(&mut job).unwrap();
    std::panic::set_hook(Box::new(|_| {
        PANICS.fetch_add(1, Relaxed);
    }));
    let run = || {
        let ops: Vec<Op> = job
            .lines()
            .map(|l| {
                let w: Vec<&str> = l.split('|').collect();
                Op { how: w[0].into(), before: unhex(w[1]), after: unhex(w[2]), times: w[3].parse().unwrap() }
            })
            .collect();
        let mut found: Vec<String> = vec![];
        let before = state();
        for (i, op) in ops.iter().enumerate() {
            const WARM: usize = 4;
            let n = op.times;
            COUNTING.store(true, Relaxed);
            (0..WARM).for_each(|i| op.run(i));
            // what is made once and kept, or a cache that fills, does not go on growing
            let mut grown = vec![];
            for round in 0..4 {
                let (b, y) = (BLOCKS.load(Relaxed), BYTES.load(Relaxed));
                (0..n).for_each(|i| op.run((WARM + round * n + i) * 37));
                grown.push((BLOCKS.load(Relaxed) - b, BYTES.load(Relaxed) - y));
                let last = grown[round];
                if last.0 < n as i64 / 2 && last.1 < n as i64 * 4 {
                    break;
                }
            }
            COUNTING.store(false, Relaxed);
            if grown.len() == 4 {
                found.push(format!("operation {i}: blocks of memory and bytes more in use after each {n} more times: {grown:?}"));
            }
        }
        // a thread or a child may need a moment to end
        let mut left = None;
        for wait in 0..40 {
            left = changes(&before, &state());
            if left.is_none() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(wait));
        }
        found.extend(left);
        let n = PANICS.load(Relaxed);
        let _ = std::panic::catch_unwind(|| panic!("for the hook"));
        if PANICS.load(Relaxed) != n + 1 {
            found.push("the panic hook is another one".into());
        }
        found
    };
    let found = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, run).unwrap().join());
    let found = found.unwrap_or_else(|_| vec!["the thread ended".into()]);
    std::fs::write(report, format!("{}\nEND", found.join("\n"))).unwrap();
}

// ------------------------------------------------------------------------------------------ C21

/// Everything below a directory, with contents.
fn listing(dir: &Path, o: &mut Vec<(String, String)>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        let m = std::fs::symlink_metadata(&p).map(|m| format!("{} {} {}.{} {}", m.mode(), m.len(), m.mtime(), m.mtime_nsec(), m.ino())).unwrap_or_default();
        let content = if p.is_file() { std::fs::read(&p).map(|b| hash64(&b)).unwrap_or(0) } else { 0 };
        o.push((format!("file {}", p.display()), format!("{m} {content:x}")));
        if p.is_dir() && !p.is_symlink() {
            listing(&p, o);
        }
    }
    o.sort();
}

const STRAYS: &[&str] = &["#", "$", "!", "?", "\\", "'", "é", "漢", "\0", "(* never closed", "\"never closed", "\u{feff}", "<", "\""];

/// Puts a number that differs between repetitions somewhere into a text.
fn vary(s: &mut Src, text: String, spans: &[(tok::Pos, tok::Pos)], toks: &[Tok]) -> (String, String) {
    let fit = |t: &Tok| ["<ID>", "<CID>", "<SPID>", "<TID>", "<NUM>", "<STR>"].contains(&kind_name(t.kind));
    let able: Vec<usize> = (0..toks.len().min(spans.len())).filter(|i| fit(&toks[*i])).collect();
    match s.weighted(&[3, 4, 1]) {
        1 if !able.is_empty() => {
            let i = able[s.usize(able.len())];
            let at = spans[i].1.offset - (kind_name(toks[i].kind) == "<STR>") as usize;
            let after = text[at..].to_string();
            (text[..at].to_string(), if after.is_empty() { " ".into() } else { after })
        }
        2 if !spans.is_empty() => {
            let at = spans[s.usize(spans.len())].0.offset;
            (format!("{} (*", &text[..at]), format!("*) {}", &text[at..]))
        }
        _ => (text, String::new()),
    }
}

fn gen_text(s: &mut Src) -> (Option<usize>, Vec<Tok>, tok::Laid) {
    let style = tok::gen_style(s);
    let mut cat = None;
    let mut toks = match s.weighted(&[12, 12, 1, 2]) {
        0 => {
            let (mut m, _) = iface::gen_contract(s, Shape { small: true, depth: 4 });
            if s.chance(15) && !m.params.is_empty() {
                let at = s.usize(m.params.len());
                let (t, _) = iface::gen_offending(s, 3);
                m.params[at].ty = iface::ty_toks(s, &t);
            }
            m.toks()
        }
        1 => {
            let c = s.usize(CATS.len());
            let g = grammar::get();
            let mut toks = vec![];
            let max_tokens = [6, 20, 60][s.usize(3)];
            let max_depth = 2 + s.usize(8);
            g.sample(s, g.cat(CATS[c]), &mut toks, &SampleCfg { max_tokens, max_depth });
            cat = Some(c);
            toks
        }
        2 => {
            let c = iface::corpus();
            tok::lex_to_toks(&c[s.usize(c.len())].1)
        }
        _ => (0..s.len(30)).map(|_| iface::random_tok(s, &[])).collect(),
    };
    toks.truncate(400);
    if s.chance(35) {
        iface::damage(s, &mut toks);
    }
    let mut l = tok::layout(s, &toks, style);
    if s.chance(8) {
        l.text.push_str(STRAYS[s.usize(STRAYS.len())]);
    }
    (cat, toks, l)
}

fn c21(s: &mut Src, _: usize) -> CaseResult {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::temp_dir().join(format!("vh-side-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
    let sub = |n: &str| base.join(n);
    let dirs: Vec<PathBuf> = ["work", "home", "tmp"].iter().map(|n| sub(n)).collect();
    let r = (|| {
        for d in &dirs {
            std::fs::create_dir_all(d).map_err(|e| format!("harness: {e}"))?;
        }
        Ok::<(), String>(())
    })();
    r.unwrap_or_else(|e| panic!("{e}"));
    let out = c21_in(s, &base, &dirs);
    let _ = std::fs::remove_dir_all(&base);
    out
}

fn c21_in(s: &mut Src, base: &Path, dirs: &[PathBuf]) -> CaseResult {
    let mut ops: Vec<Op> = vec![];
    let mut classes = vec![];
    for i in 0..1 + s.usize(4) {
        let (cat, toks, l) = gen_text(s);
        let times = (6_000 / l.text.len().max(1)).clamp(10, 60);
        let how = match (s.weighted(&[5, 3, 1, 2, 1]), cat) {
            (1, _) => "f".to_string(),
            (2, _) => "l".to_string(),
            (3, None) => "s".to_string(),
            (_, Some(c)) => format!("t{c}"),
            (4, None) => "t0".to_string(),
            _ => "c".to_string(),
        };
        classes.push(match how.as_bytes()[0] {
            b'c' => "contract",
            b'f' => "file",
            b'l' => "tokens",
            b's' => "summary",
            _ => "tree",
        });
        if how == "f" {
            let stem = ["f", ".f", "a b", "é", "f.scilla", "F.SCILLA", "-"][s.usize(7)];
            let name = format!("{stem}{i}");
            let file = dirs[0].join(&name);
            let mut bytes = l.text.into_bytes();
            match s.weighted(&[12, 2, 2, 2, 1]) {
                0 => std::fs::write(&file, &bytes).unwrap(),
                1 => {
                    let at = s.usize(bytes.len() + 1);
                    bytes.insert(at, 0xff);
                    std::fs::write(&file, &bytes).unwrap();
                    classes.push("not UTF-8");
                }
                2 => classes.push("no such file"),
                3 => {
                    std::fs::create_dir_all(&file).unwrap();
                    classes.push("a directory");
                }
                _ => {
                    std::fs::write(dirs[0].join("target"), &bytes).unwrap();
                    std::os::unix::fs::symlink("target", &file).unwrap();
                    classes.push("a link");
                }
            }
            let before = if s.chance(50) { name } else { file.to_string_lossy().into_owned() };
            ops.push(Op { how, before, after: String::new(), times });
            continue;
        }
        let (before, after) = vary(s, l.text, &l.spans, &toks);
        if !after.is_empty() {
            classes.push("a text that varies");
        }
        ops.push(Op { how, before, after, times });
    }
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    let report = base.join("report");
    c.env_clear().env("VH_SIDE", &report).current_dir(&dirs[0]);
    for n in ["HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"] {
        c.env(n, &dirs[1]);
    }
    c.env("TMPDIR", &dirs[2]);
    let mut how = String::new();
    for _ in 0..s.weighted(&[6, 1, 1]) {
        let name = dict::fresh_string(s, 60).filter(|w| !w.is_empty() && !w.contains(['=', '\0'])).unwrap_or(["LANG", "TZ", "PATH", "USER", "TERM"][s.usize(5)]);
        let v = ["", "1", "C", "trace", "/nonexistent"][s.usize(5)];
        c.env(name, v);
        how += &format!("{name}={v} ");
    }
    c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let input = || {
        let mut o = format!("{how}\n");
        for (i, op) in ops.iter().enumerate() {
            o += &format!("operation {i}, {}: {:?}\n", op.how, if op.after.is_empty() { op.before.clone() } else { format!("{}⟦number⟧{}", op.before, op.after) });
        }
        o
    };
    let mut before = vec![];
    dirs.iter().for_each(|d| listing(d, &mut before));
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot start: {e}"));
    let job: String = ops.iter().map(|o| format!("{}|{}|{}|{}\n", o.how, hex(&o.before), hex(&o.after), o.times)).collect();
    let mut inp = child.stdin.take().unwrap();
    let out = std::thread::scope(|sc| {
        sc.spawn(move || inp.write_all(job.as_bytes()).ok());
        child.wait_with_output()
    })
    .unwrap_or_else(|e| panic!("cannot wait: {e}"));
    let mut after = vec![];
    dirs.iter().for_each(|d| listing(d, &mut after));
    let said = std::fs::read_to_string(&report).unwrap_or_default();
    for (name, text) in [("standard output", &out.stdout), ("standard error", &out.stderr)] {
        if !text.is_empty() {
            let t = String::from_utf8_lossy(text);
            return fail(format!("written to {name}: {:?}", t.chars().take(200).collect::<String>()), input());
        }
    }
    if !said.ends_with("END") {
        return fail(format!("the process ended: {}", out.status), input());
    }
    if let Some(l) = said.lines().find(|l| !l.is_empty() && *l != "END") {
        return fail(l.replace(&base.display().to_string(), "…"), input());
    }
    if let Some(l) = changes(&before, &after) {
        return fail(l.replace(&base.display().to_string(), "…"), input());
    }
    let evals = ops.iter().map(|o| o.times as u64 + 4).sum();
    let sample = input();
    let nontrivial = ops.iter().any(|o| o.before.len() > 10);
    Ok(Info { nontrivial, classes, key: hash64(sample.as_bytes()), sample, evals })
}

fn main() {
    if let Some(report) = std::env::var_os("VH_SIDE") {
        return reader(Path::new(&report));
    }
    runner::main(&[
        Check {
            id: "C21",
            quick: 2_000,
            thorough: 160_000,
            rule: "a history with an operation on a text or path of more than ten bytes; distinct by history",
            assumptions: &[
                "effects looked for: output, files in the working, home and temporary directories, file descriptors, threads, child processes, signal handling, umask, limits, working directory, environment, panic hook, memory in use",
            ],
            fixed: 0,
            f: c21,
            known: None,
            guided: 0,
        },
    ])
}
