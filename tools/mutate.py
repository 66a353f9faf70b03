"""mutate.py MUTANTS.jsonl OUT.jsonl [workers]: which small changes of the code do the checks miss?

A development tool, no check uses it.  Every mutant (gomut) is built in a copy of the library and runs the quick scenarios
of all properties.  If nothing observed differs it has survived; otherwise some of the scenarios that differ are judged.
"""
import base64
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import scenarios
import vf

SRC = "/repo"


def build(d, exe):
    m = open(os.path.join(vf.VERIF, "harness", "go.mod")).read().replace("/repo", os.path.join(d, "repo"))
    open(os.path.join(d, "alt.mod"), "w").write(m)
    shutil.copy(os.path.join(vf.VERIF, "harness", "go.sum"), os.path.join(d, "alt.sum"))
    return subprocess.run(["go", "build", "-modfile", os.path.join(d, "alt.mod"), "-o", exe, "."],
                          cwd=os.path.join(vf.VERIF, "harness"), env=dict(vf.goenv(), GOMAXPROCS="2"),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def main():
    muts = [json.loads(x) for x in open(sys.argv[1])]
    out = open(sys.argv[2], "a")
    done = {(x["file"], x["line"], x["what"], x["k"]) for x in map(json.loads, open(sys.argv[2]))}
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    blobs = vf.Blobs()
    scns, owner = [], []
    for pid, gen in scenarios.GENERATORS.items():
        if pid in ("C19", "C21"):
            continue
        g = scenarios.Gen(blobs, 1, "quick", pid)
        gen(g)
        scns += g.out
        owner += [pid] * len(g.out)
    work = tempfile.mkdtemp(prefix="mut-")
    dirs = []
    for k in range(workers):
        d = os.path.join(work, str(k))
        os.makedirs(d)
        shutil.copytree(SRC, os.path.join(d, "repo"), ignore=shutil.ignore_patterns(".git"))
        dirs.append(d)
    bdir = os.path.join(work, "blobs")
    os.makedirs(bdir)
    for i in range(len(blobs.data)):
        open(os.path.join(bdir, "%d.bin" % (i + 1)), "wb").write(blobs.data[i])

    def lines(ids):
        return "".join(json.dumps({"id": i, "steps": [{k: v for k, v in s.items() if k not in ("own", "ref", "light")}
                                                      for s in scns[i].steps]}) + "\n" for i in ids).encode()

    def run(exe, d, ids, tmo=60, limit="8s", full=False):
        sd = os.path.join(d, "scratch")
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        try:
            p = subprocess.run("ulimit -v 12000000; exec %s -blobs %s -scratch %s -timeout %s %s" % (exe, bdir, sd, limit, "" if full else "-digest"), shell=True,
                               input=inputs[tuple(ids)] if tuple(ids) in inputs else lines(ids), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=tmo, env=dict(os.environ, GOMAXPROCS="2"))
        except subprocess.TimeoutExpired:
            return None
        got = {}
        for ln in p.stdout.decode().splitlines():
            try:
                r = json.loads(ln)
            except ValueError:
                break
            got[r["id"]] = r["res"] if full else r["h"]
        return got

    inputs = {}
    everything = list(range(len(scns)))
    exe = os.path.join(dirs[0], "exe")
    assert build(dirs[0], exe).returncode == 0
    # leave out the slow ones and those whose results are not the same twice
    import time
    fast = []
    t = time.time()
    a, b = run(exe, dirs[0], everything, 900, "90s"), run(exe, dirs[0], everything, 900, "90s")
    print("baseline", time.time() - t, len(everything))
    stable = [i for i in everything if a[i] == b[i]]
    slow = set()
    for i in stable:
        if owner[i] == "C11":
            t = time.time()
            run(exe, dirs[0], [i], 200, "90s")
            if time.time() - t > 0.3:
                slow.add(i)
    ids = [i for i in stable if i not in slow]
    inputs[tuple(ids)] = lines(ids)
    t = time.time()
    a = run(exe, dirs[0], ids, 900)
    print("unstable", len(everything) - len(stable), "slow", len(slow), "run", time.time() - t, flush=True)
    base = {i: a[i] for i in ids}
    pool = list(range(workers))

    def one(arg):
        k, m = arg
        if (m["file"], m["line"], m["what"], k) in done:
            return
        w = pool.pop()
        d = dirs[w]
        target = os.path.join(d, "repo", m["file"])
        orig = open(target).read()
        try:
            open(target, "w").write(m["content"])
            exe = os.path.join(d, "exe")
            if build(d, exe).returncode:
                verdict = {"v": "nobuild"}
            else:
                got = run(exe, d, ids)
                if got is None:
                    verdict = {"v": "killed", "by": ["hang"]}
                else:
                    diff = [i for i in ids if i not in got or got[i] != base[i]]
                    if not diff:
                        verdict = {"v": "same"}
                    elif any(i not in got for i in diff):
                        verdict = {"v": "killed", "by": ["crash"]}
                    else:
                        rng = random.Random(1)
                        by = {}
                        for i in diff:
                            by.setdefault(owner[i], []).append(i)
                        pick = []
                        for p in by:
                            pick += sorted(rng.sample(by[p], min(len(by[p]), 3)))
                        got = run(exe, d, pick, full=True)
                        bl = vf.Blobs()
                        bl.data, bl.index = list(blobs.data), dict(blobs.index)
                        bl.parse, bl.written = [False] * len(bl.data), [False] * len(bl.data)
                        ss = [scns[i] for i in pick]
                        ask, ans = vf.Interner(), vf.Interner()
                        tr = {j: vf.trace_of(scns[i], got[i], bl, ask, ans) for j, i in enumerate(pick)}
                        wd = tempfile.mkdtemp(prefix="tlc", dir=d)
                        try:
                            res, _ = vf.validate(ss, tr, bl, wd, shards=1, timeout=300)
                            props, clauses = set(), set()
                            for (j, step), (bad, _) in res.items():
                                hit = bad & check.CLAUSES[owner[pick[j]]]
                                if hit:
                                    props.add(owner[pick[j]])
                                    clauses |= hit
                            verdict = {"v": "killed" if props else "quiet", "by": sorted(props),
                                       "clauses": sorted(clauses), "diff": sorted(by)}
                        except vf.Infra as e:
                            verdict = {"v": "infra", "msg": str(e)[:200]}
                        finally:
                            shutil.rmtree(wd, ignore_errors=True)
        finally:
            open(target, "w").write(orig)
            pool.append(w)
        verdict.update(file=m["file"], line=m["line"], what=m["what"], k=k)
        out.write(json.dumps(verdict) + "\n")
        out.flush()

    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, enumerate(muts)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
