#!/usr/bin/env python3
"""Mutation testing of the checks (a development aid, not a check).

mutate.py list            writes the mutants of /repo/src to /tmp/mut/mutants.json
mutate.py run N [-j J] [--seed S] [--skip K] [--only REGEX]
                          tries N of them: builds the harness against the mutant and
                          replays the cases which the quick checks left in out/;
                          a mutant that no replay notices and that the repository's
                          tests let pass is written to /tmp/mut/survivors.log.
The judged suites (sink, soup, numbers) are not run here."""
import concurrent.futures, json, os, queue, random, re, resource, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0")
RULES = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif (?!let)([^{]+) \{", ["if true || (\\1) {", "if false && (\\1) {"]),
    (r"!self\.", ["self."]), (r"if !", ["if "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+= 1\b", [" += 0", " += 2"]), (r" -= 1\b", [" -= 0"]),
    (r"\bbreak\b", ["continue"]), (r"\bSome\(([a-z_]+)\)$", ["None"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b128\b", ["127", "129"]), (r"\b100\b", ["99", "101"]),
    (r" \| [A-Z][A-Za-z:]+(\([^)]*\))?(?= (=>|\|))", [""]), (r"b'([^'])'", ["b'#'"]), (r"'([^'\\])'", ["'#'"]), (r"\"([A-Za-z.!~+<\-:]{1,6})\"", ["\"@\\1\""]),
    (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]), (r"\bis_empty\(\)", ["is_empty() == false"]), (r"\bis_ok\(\)", ["is_err()"]),
    (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"\.rev\(\)", [""]), (r"\bfirst\b", ["last"]), (r"\bnext_back\b", ["next"]), (r"\bstarts_with\b", ["ends_with"]),
    (r"\bu8::", ["i8::"]), (r"\bu64::", ["i64::"]), (r"\bi64::", ["i32::"]), (r"\bu128::", ["u64::"]), (r"\bi128::", ["i64::"]), (r" as f64", [" as f32 as f64"]),
    (r"visit_u64", ["visit_u32"]), (r"visit_some", ["visit_newtype_struct"]), (r"visit_none", ["visit_unit"]), (r"visit_unit\(\)", ["visit_none()"]), (r"visit_borrowed_str", ["visit_str"]),
    (r"swap_remove", ["shift_remove"]), (r"shift_remove", ["swap_remove"]), (r"\.to_owned\(\)", [".to_lowercase()"]),
]
STMT = re.compile(r"^\s+(?!let |return|use |pub |type |const |fn |mod |//|#|\}|break|continue|extern|unsafe impl|static )[^;{}]*;\s*$")

def mutants():
    out = []
    for root, _, files in os.walk("/repo/src"):
        for f in sorted(files):
            if not f.endswith(".rs"): continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, "/repo")
            doc = False
            lines = open(p).read().split("\n")
            for n, l in enumerate(lines):
                s = l.strip()
                if s.startswith("//") or s.startswith("#") or not s or s.startswith("use ") or "expecting" in s or "write_str" in s or s.startswith("pub use"): continue
                code = l.split(" // ")[0]
                for rx, reps in RULES:
                    for m in re.finditer(rx, code):
                        for r in reps:
                            new = code[:m.start()] + m.expand(r) + code[m.end():]
                            if new != code: out.append((rel, n, l, new))
                if STMT.match(l) and (n == 0 or lines[n - 1].rstrip().endswith((";", "{", "}"))):
                    out.append((rel, n, l, re.match(r"\s*", l).group(0) + ";"))
                m = re.match(r"^(\s+)(.* => )(.*),$", l)
                if m and "Err(" not in m.group(3) and not m.group(2).strip().startswith("_"):
                    # an arm that is no longer taken
                    out.append((rel, n, l, m.group(1) + m.group(2)[:-4] + " if false => " + m.group(3) + ",")) if " if " not in m.group(2) else None
    seen, uniq = set(), []
    for x in out:
        if (x[0], x[1], x[3]) not in seen:
            seen.add((x[0], x[1], x[3])); uniq.append(x)
    return uniq

def replays():
    """(property, cases, part) of the last quick runs, the broad and cheap ones first."""
    out = []
    for i in range(1, 24):
        p = "C%02d" % i
        e = json.load(open(os.path.join(VERIF, "evidence", p + ".json")))
        for r in (e["coverage"].get("runs") or e.get("runs") or []):
            if "replay" in r:
                out.append((r.get("seconds", 0), p, os.path.join(VERIF, "out", p, r["replay"]), r["part"]))
    out.sort()
    return out

def setup(n):
    d = "%s/%d" % (BASE, n)
    os.makedirs(d, exist_ok=True)
    subprocess.run("rsync -a --delete --exclude target /repo/ %s/repo/ 2>/dev/null || { rm -rf %s/repo; cp -a /repo %s/repo; }" % (d, d, d), shell=True, check=True)
    os.makedirs(d + "/harness", exist_ok=True)
    shutil.rmtree(d + "/harness/src", ignore_errors=True)
    shutil.copytree(VERIF + "/harness/src", d + "/harness/src")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy2(VERIF + "/harness/" + f, d + "/harness/" + f)
    subprocess.run("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/harness/Cargo.toml" % (d, d), shell=True, check=True)
    return d

def build(d):
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d + "/harness", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0

def replay(d, rs):
    """A sixth of everything first, then the rest."""
    return replay_some(d, rs, lambda f: ".s0." in f) or replay_some(d, rs, lambda f: ".s0." not in f)

def replay_some(d, rs, which, shards=4):
    for _, prop, cases, part in rs:
        procs = []
        parts = sorted(f for f in os.listdir(os.path.dirname(cases)) if f.startswith(os.path.basename(cases) + ".s") and f.endswith(".in") and which(f) and "FanJudge" not in f)
        env = dict(ENV)
        if os.path.exists(os.path.join(os.path.dirname(cases), "schemas.jsonl")):
            env["SCHEMAS"] = os.path.join(os.path.dirname(cases), "schemas.jsonl")
        def one(f):
            out = "%s/%s.out" % (d, f)
            try:
                p = subprocess.run([d + "/harness/target/debug/conf", "run", os.path.join(os.path.dirname(cases), f), out, out + ".prog", part], env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200, preexec_fn=limit)
                if p.returncode != 0: return "crash %s" % p.returncode
            except subprocess.TimeoutExpired:
                return "timeout"
            last = open(out).read().strip().split("\n")
            for l in last:
                j = json.loads(l)
                if "summary" not in j: return j["what"] + " | " + j["input"][:80].replace("\n", "\\n")
            return None
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            for r in ex.map(one, parts):
                if r: return prop, r
    return None

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def tests(d):
    try:
        p = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=d + "/repo", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0

def main():
    ms = mutants()
    if sys.argv[1] == "list":
        os.makedirs(BASE, exist_ok=True)
        json.dump(ms, open(BASE + "/mutants.json", "w"), indent=0)
        print(len(ms)); return
    n = int(sys.argv[2]); a = sys.argv[3:]
    jobs = int(a[a.index("-j") + 1]) if "-j" in a else 3
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else 1
    if "--only" in a:
        rx = re.compile(a[a.index("--only") + 1]); ms = [m for m in ms if rx.search(m[0])]
    random.Random(seed).shuffle(ms)
    os.makedirs(BASE, exist_ok=True)
    # the case files are linked so that checks may run meanwhile
    subprocess.run("rm -rf %s/cases && mkdir -p %s/cases && cd %s/out && for p in C??; do mkdir %s/cases/$p && cp -al $p/*.in %s/cases/$p/ 2>/dev/null; cp $p/schemas.jsonl %s/cases/$p/ 2>/dev/null; done; true" % (BASE, BASE, VERIF, BASE, BASE, BASE), shell=True, check=True)
    rs = [(t, p, c.replace(VERIF + "/out", BASE + "/cases"), x) for t, p, c, x in replays()]
    skip = int(a[a.index("--skip") + 1]) if "--skip" in a else 0
    slots = queue.Queue()
    for i in range(jobs):
        slots.put(setup(i))
    d = slots.get()
    assert build(d)
    r = replay(d, rs)
    slots.put(d)
    if r: sys.exit("the unchanged tree fails: %s %s" % r)
    log = open(BASE + "/log.%d" % seed, "a", buffering=1)
    surv = open(BASE + "/survivors.log", "a", buffering=1)
    def one(m):
        rel, at, old, new = m
        d = slots.get()
        try:
            p = os.path.join(d, "repo", rel)
            src = open(p).read()
            lines = src.split("\n")
            if lines[at] != old: return
            lines[at] = new
            open(p, "w").write("\n".join(lines))
            try:
                t = time.time()
                if not build(d):
                    log.write("nobuild %s:%d\n" % (rel, at + 1)); return
                r = replay(d, rs)
                if r:
                    log.write("killed %s %s:%d %.0fs %s -> %s [%s]\n" % (r[0], rel, at + 1, time.time() - t, old.strip(), new.strip(), r[1])); return
                if not tests(d):
                    log.write("tests %s:%d %s -> %s\n" % (rel, at + 1, old.strip(), new.strip())); return
                s = "%s:%d\n    %s\n    %s\n" % (rel, at + 1, old.strip(), new.strip())
                surv.write(s); log.write("SURVIVED " + s)
            finally:
                open(p, "w").write(src)
        finally:
            slots.put(d)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ms[skip:skip + n]))
main()
