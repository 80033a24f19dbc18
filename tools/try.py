#!/usr/bin/env python3
"""try.py [ID[@PROPERTY]...]: applies each planted bug to a copy of /repo and runs its property's quick check, from a copy of
this directory, against that; appends to /tmp/try.tsv. -j N: N at a time (each in copies of its own)."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/tryw"
def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def prepare(w):
    for c in ("mkdir -p %s/repo %s/verif" % (w, w), "rsync -a --delete --exclude target /repo/ %s/repo/" % w, "git -C %s/repo checkout -q -- ." % w,
              "rsync -a --delete --exclude target --exclude .git --exclude seeded %s/ %s/verif/" % (V, w),
              "sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/mc/Cargo.toml" % (w, w),
              "sed -i 's#/repo/src/lib.rs#%s/repo/src/lib.rs#' %s/verif/memory/palmtree/Cargo.toml" % (w, w)):
        r = sh(c)
        assert r.returncode == 0, (c, r.stdout)
def one(i, w):
    i, _, p = i.partition("@")
    d = os.path.join(V, "seeded", i)
    p = p or json.load(open(d + "/meta.json"))["property"]
    r = sh("git -C %s/repo apply %s/patch.diff" % (w, d))
    if r.returncode:
        return print(i, "does not apply", r.stdout)
    t = time.time()
    try:
        r = sh("cd %s/verif && mkdir -p target evidence && VERIF_SEED=1 timeout 900 python3 check.py %s quick" % (w, p))
    finally:
        sh("git -C %s/repo checkout -- ." % w)
    lines = r.stdout.strip().splitlines()
    caught = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % p) for l in lines)
    s = "%s\t%s\t%s\t%d\t%.0f s\t%s" % (i, p, "caught" if caught else "MISSED", r.returncode, time.time() - t, " | ".join(lines[:3])[:160])
    print(s, flush=True)
    open("/tmp/try.tsv", "a").write(s + "\n")
def main():
    a = sys.argv[1:]
    n = 1
    if a[:1] == ["-j"]:
        n, a = int(a[1]), a[2:]
    ids = a or sorted(os.listdir(os.path.join(V, "seeded")))
    q = Queue()
    for k in range(n):
        prepare("%s/%d" % (W, k))
        q.put("%s/%d" % (W, k))
    def go(i):
        w = q.get()
        try:
            one(i, w)
        finally:
            q.put(w)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, ids))
main()
