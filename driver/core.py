"""Machinery shared by all checks: building the harness against /repo, running
TLC, replaying cases, recording evidence and reporting."""
import json, os, re, subprocess, sys, time, hashlib, shutil, threading, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "1.88.0-x86_64-unknown-linux-gnu"

class ToolError(Exception):
    pass

def log(msg):
    print("[%7.1f] %s" % (time.time() - T0, msg), flush=True)
T0 = time.time()

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = self.checks = 0
        self.runs = []          # what was explored, for the evidence file
        self.samples = []
        self.mismatches = []
        self.known = load_known(pid)
        self.known_seen = {}
        self.assumptions = []
        self.n = 0
        self.binary = None
        self.env = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self):
        env = dict(os.environ)
        env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   HOME=env.get("HOME", "/root"), RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        target = os.path.join(HARNESS, "target")
        # cargo compares mtimes: forget what was built from /repo
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("serde_yaml-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            blocks = re.split(r"\n(?=error|warning)", p.stdout)
            errs = "\n".join(b for b in blocks if b.startswith("error"))
            raise ToolError("building the harness failed:\n" + (errs or p.stdout[-3000:])[:6000])
        self.binary = os.path.join(target, "debug", "conf")
        log("harness built")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, constants=None, invariants=(), properties=(), inputs=None, name=None,
            workers=6, emit=True, timeout=800, spec="Spec", heap="6g", extra_cfg="", env=None,
            simulate=None, constraint=None, view=None):
        """Runs TLC. Returns the path of a file with the emitted cases, one JSON per line."""
        self.n += 1
        name = "%02d-%s" % (self.n, name or module)
        cfg = os.path.join(self.out, name + ".cfg")
        # A configuration file cannot hold tuples: define the constants in a module.
        root = "MC_%02d" % self.n
        with open(os.path.join(self.out, root + ".tla"), "w", encoding="utf-8") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (root, module))
            for k, v in (constants or {}).items():
                f.write("MC_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
            for k, v in (constants or {}).items():
                f.write("CONSTANT %s <- MC_%s\n" % (k, k))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            if view:
                f.write("VIEW %s\n" % view)
            f.write(extra_cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if inputs:
            e["INPUTS"] = inputs
        e.update(env or {})
        meta = os.path.join(self.out, name + ".meta")
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss256m", "-Xmx" + heap,
               "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [root + ".tla"]
        cases = os.path.join(self.out, name + ".cases")
        t = time.time()
        tail = []
        with open(cases, "w", encoding="utf-8") as cf:
            p = subprocess.Popen(cmd, cwd=self.out, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            timer = threading.Timer(timeout, p.kill)
            timer.start()
            ncases = 0
            try:
                for raw in p.stdout:
                    if raw.startswith(b'"@C'):
                        s = raw.decode("utf-8").rstrip("\n")
                        cf.write(untla(s)[2:])
                        cf.write("\n")
                        ncases += 1
                    else:
                        line = raw.decode("utf-8", "replace").rstrip("\n")
                        if not re.match(r"(Parsing|Semantic|Linting|Progress)", line):
                            tail.append(line)
                            if len(tail) > 400:
                                del tail[100:200]
                rc = p.wait()
            finally:
                timer.cancel()
        shutil.rmtree(meta, ignore_errors=True)
        text = "\n".join(tail)
        with open(os.path.join(self.out, name + ".log"), "w") as f:
            f.write(text)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", ""))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text) or None
        if simulate:
            m2 = re.search(r"The number of states generated: ([\d,]+)", text)
            gen = int(m2.group(1).replace(",", "")) if m2 else 0
            dist = gen
        else:
            gen, dist = (int(m.group(i).replace(",", "")) for i in (1, 2)) if m else (0, 0)
        if rc != 0 or "Error:" in text or (not simulate and not m):
            i = text.find("Error:")
            raise ToolError("TLC on %s ended with %s: %s" % (module, rc, text[max(0, i):][:3000]))
        self.states += dist
        self.transitions += gen
        self.runs.append({"tlc": module, "name": name, "constants": {k: str(v)[:300] for k, v in (constants or {}).items()},
                          "invariants": list(invariants) + list(properties), "states_generated": gen,
                          "distinct_states": dist, "cases_emitted": ncases, "seconds": round(time.time() - t, 1)})
        log("TLC %s: %d distinct states, %d cases, %.1fs" % (name, dist, ncases, time.time() - t))
        if emit and ncases == 0:
            raise ToolError("TLC on %s emitted no case" % module)
        return cases

    # -------------------------------------------------------------- harness
    def harness(self, args, timeout=700):
        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            return subprocess.run([self.binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, errors="replace", timeout=timeout, preexec_fn=limit,
                                  env=dict(os.environ, **self.env))
        except subprocess.TimeoutExpired:
            return None

    def gen(self, what, n, extra=()):
        """Lets the harness draw inputs; returns their file."""
        self.n += 1
        path = os.path.join(self.out, "%02d-%s.inputs" % (self.n, what))
        p = self.harness(["gen", what, str(self.seed), str(n), path] + list(extra))
        if p is None or p.returncode != 0:
            raise ToolError("generator %s failed: %s" % (what, p and p.stderr[-2000:]))
        return path

    def record(self, cases, pool, shards=6):
        """Runs environments made by TLC against the real code and records traces."""
        t = time.time()
        path = cases + ".traces"
        pp = cases + ".pool"
        with open(pp, "w", encoding="utf-8") as f:
            json.dump(pool, f)
        lines = list(dict.fromkeys(l for l in open(cases, encoding="utf-8").read().split("\n") if l))
        shards = max(1, min(shards, len(lines) // 50 + 1))
        errors = [None] * shards
        def one(i):
            base = "%s.r%d" % (cases, i)
            mine = lines[i::shards]
            start = 0
            with open(base + ".all", "wb") as out:
                for _ in range(4):
                    with open(base + ".in", "w", encoding="utf-8") as f:
                        f.write("\n".join(mine[start:]) + "\n")
                    p = self.harness(["record", base + ".in", base + ".out", pp, base + ".prog"])
                    rc = "timeout" if p is None else p.returncode
                    if rc in (2, 101):
                        errors[i] = ToolError("recording failed: " + p.stderr[-2000:])
                        return
                    done = open(base + ".out", "rb").read()
                    out.write(done[:done.rfind(b"\n") + 1])
                    if rc == 0:
                        return
                    # the code under test took the process down (or hung)
                    at = int.from_bytes(open(base + ".prog", "rb").read(8), "little")
                    if start + at >= len(mine):
                        errors[i] = ToolError("recorder died without progress: %s" % rc)
                        return
                    self.mismatch({"what": "hang" if rc in (97, "timeout") else "process killed (%s)" % rc,
                                   "input": mine[start + at][:2000], "exp": None, "obs": {"k": "crash"}, "case": mine[start + at][:4000]})
                    start += at + 1
                    if start >= len(mine):
                        return
        ths = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
        [th.start() for th in ths]
        [th.join() for th in ths]
        for e in errors:
            if e:
                raise e
        n = 0
        with open(path, "wb") as f:
            for i in range(shards):
                d = open("%s.r%d.all" % (cases, i), "rb").read()
                n += d.count(b"\n")
                f.write(d)
                os.remove("%s.r%d.all" % (cases, i))
        log("recorded %s: %d traces, %.1fs" % (os.path.basename(cases), n, time.time() - t))
        return path

    def verdicts(self, cases, traces):
        """TLC's verdicts on recorded traces; a trace that is no behaviour is a violation."""
        recs = open(traces, encoding="utf-8").read().split("\n")
        n = bad = 0
        for l in open(cases, encoding="utf-8"):
            v = json.loads(l)
            n += 1
            if not v["ok"]:
                bad += 1
                t = json.loads(recs[v["id"] - 1])
                if "input" in t:
                    self.mismatch({"what": "the observation breaks the contract: %s" % v["at"], "input": t["input"],
                                   "exp": None, "obs": {k: t[k] for k in t if k != "input"}, "case": t})
                    continue
                self.mismatch({"what": "the recorded trace is no behaviour of the specification (event %s)" % v["at"],
                               "input": json.dumps(t.get("hist")) + " " + json.dumps(t.get("answers")),
                               "exp": None, "obs": t.get("trace"), "case": t})
        if n != len([l for l in recs if l]):
            raise ToolError("%d verdicts on %d traces" % (n, len(recs)))
        self.traces += n
        self.checks += n
        self.runs.append({"judged": os.path.basename(traces), "traces": n, "rejected": bad})
        for i in (0, n // 2):
            if len(self.samples) < 12:
                self.samples.append(recs[i][:3000])
        log("judged %s: %d traces, %d rejected" % (os.path.basename(traces), n, bad))

    def replay(self, cases, part="", shards=6, name=None):
        """Runs cases against the real code; mismatches are violations (or known)."""
        lines = open(cases, encoding="utf-8").read().split("\n")
        lines = [l for l in lines if l]
        if not lines:
            raise ToolError("no cases in %s" % cases)
        t = time.time()
        shards = max(1, min(shards, len(lines) // 50 + 1))
        results = [None] * shards
        def one(i):
            mine = lines[i::shards]
            start = 0
            found, ncases, nchecks = [], 0, 0
            crashes = 0
            while start < len(mine):
                base = "%s.s%d" % (cases, i)
                with open(base + ".in", "w", encoding="utf-8") as f:
                    f.write("\n".join(mine[start:]) + "\n")
                p = self.harness(["run", base + ".in", base + ".out", base + ".prog", part])
                rc = "timeout" if p is None else p.returncode
                if rc == 101 or rc == 2:
                    results[i] = ToolError("harness failed: " + p.stderr[-2000:])
                    return
                if rc == 0:
                    for l in open(base + ".out", encoding="utf-8").read().split("\n"):
                        if not l:
                            continue
                        d = json.loads(l)
                        if "summary" in d:
                            ncases += d["summary"]["cases"]
                            nchecks += d["summary"]["checks"]
                        else:
                            found.append(d)
                    break
                # the code under test took the process down (or hung)
                at = int.from_bytes(open(base + ".prog", "rb").read(8), "little")
                try:
                    case = json.loads(mine[start + at])
                except Exception:
                    results[i] = ToolError("harness died without progress: %s" % rc)
                    return
                found.append({"what": "hang" if rc in (97, "timeout") else "process killed (%s)" % rc,
                              "input": json.dumps(case)[:2000], "exp": None, "obs": {"k": "crash"}, "case": case})
                start += at + 1
                crashes += 1
                if crashes >= 3:
                    break
            results[i] = (found, ncases, nchecks)
        ths = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
        [th.start() for th in ths]
        [th.join() for th in ths]
        nm = 0
        nc = nk = 0
        for r in results:
            if isinstance(r, Exception):
                raise r
            if r is None:
                raise ToolError("harness shard gave no result")
            for d in r[0]:
                self.mismatch(d)
                nm += 1
            nc += r[1]
            nk += r[2]
        self.traces += nc
        self.checks += nk
        for l in (lines[0], lines[len(lines) // 2], lines[-1]):
            if len(self.samples) < 12:
                self.samples.append(json.loads(l) if len(l) < 3000 else l[:3000])
        self.runs.append({"replay": os.path.basename(cases), "part": part, "cases": nc, "comparisons": nk, "mismatches": nm,
                          "seconds": round(time.time() - t, 1)})
        log("replayed %s: %d cases, %d comparisons, %d mismatches, %.1fs" % (os.path.basename(cases), nc, nk, nm, time.time() - t))

    # -------------------------------------------------------------- verdict
    def mismatch(self, d):
        for k in self.known:
            if k["input"] == d.get("input") and k["what"] == d.get("what"):
                self.known_seen[k["text"]] = True
                return
        self.mismatches.append(d)

    def finish(self):
        for k in self.known:
            if k["text"] in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]), flush=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "comparisons_with_impl": self.checks,
                           "samples": self.samples or ["none"], "runs": self.runs},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 1), "violations": len(self.mismatches)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)
        if self.mismatches:
            d = os.path.join(VERIF, "out", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.pid + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "count": len(self.mismatches), "mismatches": self.mismatches[:50]}, f, indent=1, ensure_ascii=False)
            for m in self.mismatches[:5]:
                print("mismatch: %s\n  input: %s\n  expected: %s\n  observed: %s" % (
                    m.get("what"), str(m.get("input"))[:600], json.dumps(m.get("exp"))[:600], json.dumps(m.get("obs"))[:600]), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        log("%s holds: %d states, %d traces, %d comparisons" % (self.pid, self.states, self.traces, self.checks))
        return 0

def untla(s):
    """The text of a TLA+ string literal as TLC prints it."""
    assert s[0] == '"' and s[-1] == '"', s[:80]
    body = s[1:-1]
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), body)

def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if line.startswith("known: "):
            d = json.loads(line[len("known: "):])
            if d["property"] == pid:
                out.append(d)
    return out
