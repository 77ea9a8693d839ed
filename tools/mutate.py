#!/usr/bin/env python3
"""tools/mutate.py OUT WORKER WORKERS [FILE...]: small mechanical changes to the sources of /repo, one at a time, in a
scratch copy; which checks notice them. Writes a line per mutant to OUT. Not a registered check: it shows where the
checks are weak. Mutants that no check notices are printed as SURVIVED, to be judged by hand."""
import os, re, subprocess, sys, random

out, worker, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = f"/tmp/sw/m{worker}"
R, V = W + "/repo", W + "/verif"

ORDER = {
    "emitter.rs": "C01 C02 C16 C19 C15",
    "primitives.rs": "C16 C02 C19",
    "type.rs": "C10 C02 C17 C16",
    "lexer.rs": "C06 C07 C04 C03 C09 C05 C08",
    "visitor.rs": "C12 C13 C02 C19",
    "nodes.rs": "C08 C18 C12 C02",
    "parser.lalrpop": "C08 C04 C07 C09 C02 C12",
    "contract.rs": "C11 C14 C01",
    "error.rs": "C09 C11",
    "field.rs": "C17", "transition.rs": "C17",
}
ALL = "C01 C02 C08 C12 C04 C06 C07 C09 C16 C19 C10 C13 C15 C17 C18 C05 C03 C11 C14".split()
CASES = {"C01": 6000, "C02": 4000, "C14": 600, "C03": 3000, "C04": 8000, "C09": 15000, "C05": 5000, "C07": 8000}

def sh(c, t=900, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -9 -f {V}/.build/release/", shell=True)
        return subprocess.CompletedProcess(c, 99, "", "timeout")

SWAPS = [
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", " + 2"), (r" \+ 1\b", ""), (r" - 2\b", " - 1"), (r"\b2 \*", "3 *"),
    (r"\bSome\((\w+)\)$", r"None"), (r"Continue\b", "SkipChildren"), (r"SkipChildren\b", "Continue"),
    (r"\bEnter\b", "Exit"), (r"\bExit\b", "Enter"), (r"\.rev\(\)", ""), (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"!(\w[\w.]*\.is_empty\(\))", r"\1"), (r"\bnext_is_numeric\b", "false"), (r"is_alphanumeric", "is_ascii_alphanumeric"),
    (r"is_numeric\b", "is_ascii_digit"), (r"is_whitespace", "is_ascii_whitespace"), (r"\bstart\b", "end"), (r"\bend\b", "start"),
    (r"\bkey\b", "value"), (r"\bvalue\b", "key"), (r"(\w+), (\w+)\)", r"\2, \1)"), (r"\.pop\(\)", ".first().cloned()"),
    (r"\bself\.(line|line_start)\b", r"source_position.\1"), (r"vec!\[\]", "Default::default()"), (r"\.iter\(\)", ".iter().skip(1)"),
    (r"\.iter\(\)", ".iter().take(3)"), (r"\.unwrap_or\(false\)", ".unwrap_or(true)"), (r"\[a-zA-Z0-9_\]\*", "[a-zA-Z0-9]*"),
    (r"\[a-zA-Z0-9_\]\*", "[a-zA-Z0-9_]+"), (r"\[0-9\]\+", "[0-9]"), (r"\?\]", "]"), (r"\\b", ""), (r"\(x\|X\)", "x"),
]

def mutants(path):
    name = os.path.basename(path)
    lines = open(path).read().split("\n")
    res = []
    stop = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    def put(i, new, what):
        if new != lines[i]:
            l = list(lines)
            l[i] = new
            res.append((name, i + 1, what, "\n".join(l)))
    for i in range(stop):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#", "///", "pub fn", "fn ", "impl", "pub struct", "pub enum", "pub trait", "mod ", "pub mod")):
            continue
        # statement removed
        if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("let ", "return", "type ", "const ", "pub ")) and "=>" not in s:
            put(i, "", "removed: " + s)
        if s.startswith("let _ =") and s.endswith(";") and s.count("(") == s.count(")"):
            put(i, "", "removed: " + s)
        if name == "parser.lalrpop":
            m = re.match(r"^(\s*)<start:@L>(.*)<end:\s*@R>\s*=>", l)
            body = l.split("=>")[0] if "=>" in l else ""
            if body:
                for q in re.finditer(r"(?<=[\w>)\"])([?*+])(?=[>\s])", body):
                    for r in "?*+":
                        if r != q.group(1):
                            put(i, l[:q.start()] + r + l[q.end():], f"{q.group(1)} -> {r}: " + s)
                    put(i, l[:q.start()] + l[q.end():], f"{q.group(1)} removed: " + s)
                for q in re.finditer(r"\"[^\"]+\" ?", body) if "<" in body else []:
                    put(i, l[:q.start()] + l[q.end():], "token dropped: " + s)
        if name == "parser.lalrpop" and s.rstrip(",") in ("start", "end"):
            put(i, l.replace("start", "start: end") if "start" in s else l.replace("end", "end: start"), "other end: " + s)
            continue
        for a, b in SWAPS:
            if a in (r"\bstart\b", r"\bend\b") and name == "parser.lalrpop" and "@" in l:
                continue
            for m in list(re.finditer(a, l))[:3]:
                put(i, l[:m.start()] + m.expand(b) + l[m.end():], f"{m.group(0)} -> {m.expand(b)}: " + s)
        # two neighbouring statements exchanged
        if i + 1 < stop and s.endswith(";") and lines[i + 1].strip().endswith(";") and s.count("(") == s.count(")") and not s.startswith(("let ", "return", "use")):
            n = lines[i + 1]
            if n.count("(") == n.count(")") and not n.strip().startswith(("return", "use")):
                k = list(lines)
                k[i], k[i + 1] = k[i + 1], k[i]
                res.append((name, i + 1, "exchanged with the next: " + s, "\n".join(k)))
        # a string constant
        for m in re.finditer(r"\"(\w+)\"(?= *(=>|\||$))", l):
            put(i, l[:m.start()] + '"' + m.group(1) + 'x"' + l[m.end():], "string changed: " + s)
    return res

def main():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh(f"git clone -q /repo {R}")
    sh(f"cd {R} && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)")
    os.makedirs(V, exist_ok=True)
    if not os.path.isdir(V + "/.build"):
        sh(f"cp -a {here}/.build {V}/.build")
    sh(f"mkdir -p {V}/tools; cp -a {here}/tools/instrument.sh {V}/tools/; cp -a {here}/harness {here}/vendor {here}/corpus {here}/run.sh {here}/known_findings.txt {V}/")
    sh(f"sed -i 's|path = \"/repo\"|path = \"{R}\"|' {V}/harness/Cargo.toml {V}/harness/plain/Cargo.toml")
    todo = []
    for root, _, fs in os.walk(R + "/src"):
        for f in sorted(fs):
            if f in ORDER and (not only or f in only):
                ms = mutants(os.path.join(root, f))
                for m in ms:
                    todo.append((os.path.join(root, f), m))
    random.Random(7).shuffle(todo)
    todo = todo[worker::workers]
    done = set()
    if os.path.exists(out):
        done = {l.split("\t")[0] for l in open(out)}
    env = dict(os.environ, VERIF_REPO=R, VH_NO_SHRINK="1")
    for path, (name, line, what, text) in todo:
        key = f"{name}:{line}:{what}"
        if key in done:
            continue
        orig = open(path).read()
        open(path, "w").write(text)
        try:
            b = sh(f"{V}/run.sh build", env=env)
            if b.returncode:
                res = "stillborn" if "scilla-parser" in b.stderr else "harness does not build"
            else:
                res = "SURVIVED"
                order = ORDER[name].split()
                for c in order + [c for c in ALL if c not in order]:
                    a = f" --cases {CASES[c]}" if c in CASES else ""
                    o = sh(f"{V}/run.sh {c} --tier quick --seed 1{a}", env=env)
                    if o.returncode:
                        k = "killed" if o.returncode == 1 else f"exit {o.returncode}"
                        res = f"{k} by {c}: " + (o.stdout + o.stderr).split("\n")[0][:160]
                        break
        finally:
            open(path, "w").write(orig)
        with open(out, "a") as f:
            f.write(f"{key}\t{res}\n")

main()
