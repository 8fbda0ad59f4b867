#!/usr/bin/env python3
"""Runs the quick check of its property against each planted bug, in scratch copies
of /verif and /repo: catch.py [-j N] [-p PROPERTY] [ID...]"""
import json, os, shutil, subprocess, sys, time, concurrent.futures, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/catch"
args = sys.argv[1:]
jobs, prop = 1, None
while args and args[0][0] == "-":
    if args[0] == "-j": jobs = int(args[1])
    if args[0] == "-p": prop = args[1]
    args = args[2:]
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
def sh(cmd): subprocess.run(cmd, shell=True, check=True)
slots = queue.Queue()
for n in range(jobs):
    d = "%s/%d" % (BASE, n)
    os.makedirs(d, exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ %s/repo/ 2>/dev/null || { rm -rf %s/repo; cp -a /repo %s/repo; }" % (d, d, d))
    os.makedirs(d + "/verif", exist_ok=True)
    for x in ("driver", "harness", "spec", "tools", "run.py", "properties.jsonl", "known_findings.txt", "MANIFEST.json"):
        src, dst = os.path.join(VERIF, x), os.path.join(d, "verif", x)
        if os.path.isdir(src):
            for sub in ("src",) if x == "harness" else ("",):
                shutil.rmtree(os.path.join(dst, sub) if sub else dst, ignore_errors=True)
            shutil.copytree(src, dst, dirs_exist_ok=True)
        else:
            shutil.copy2(src, dst)
    sh("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/harness/Cargo.toml" % (d, d))
    slots.put(d)
def one(i):
    m = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))
    p = prop or m["property"]
    d = slots.get()
    try:
        sh("git -C %s/repo checkout -q -- . && git -C %s/repo apply %s && find %s/repo/src -name '*.rs' | xargs touch" % (d, d, os.path.join(VERIF, "seeded", i, "patch.diff"), d))
        t = time.time()
        r = subprocess.run([sys.executable, "run.py", p], cwd=d + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sh("git -C %s/repo checkout -q -- ." % d)
    finally:
        slots.put(d)
    hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
    print("%-28s %s %s rc=%d %.0fs" % (i, p, "caught" if hit else "MISSED", r.returncode, time.time() - t), flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:])
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
