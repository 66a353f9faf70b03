"""Running scenarios against the library and judging them with TLC."""
import base64
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
BIG = 1000000000


class Infra(Exception):
    """The machinery itself failed; nothing is known about the code."""


def sat(v):
    return max(-BIG, min(BIG, v))


# --------------------------------------------------------------------------
# building

def goenv():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE,
                             check=True).stdout.decode("utf-8", "replace")
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    except Exception:
        pass
    env.setdefault("GOFLAGS", "-mod=mod")
    env["GOPROXY"] = "off"
    return env


def build(work, race=False, cli=False):
    """The harness (or the command-line tool) built from /repo's working tree."""
    env = goenv()
    env["GOCACHE"] = env.get("GOCACHE") or "/root/.cache/go-build"
    if cli:
        src = os.path.join(work, "clisrc")
        exe = os.path.join(work, "truecli")
        p = subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(REPO, "truecli"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    else:
        exe = os.path.join(work, "harness-race" if race else "harness")
        args = ["go", "build"]
        mod = []
        if REPO != "/repo":
            m = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("/repo", REPO)
            mp = os.path.join(work, "alt.mod")
            open(mp, "w").write(m)
            shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(work, "alt.sum"))
            mod = ["-modfile", mp]
        if race:
            env["CGO_ENABLED"] = "1"
            args.append("-race")
        p = subprocess.run(args + mod + ["-o", exe, "."], cwd=os.path.join(VERIF, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Infra("build failed:\n" + p.stdout.decode("utf-8", "replace")[-3000:])
    return exe


# --------------------------------------------------------------------------
# byte strings

class Blobs:
    def __init__(self):
        self.data, self.index, self.parse, self.written = [], {}, [], []

    def add(self, b, parse=True, written=False):
        i = self.index.get(b)
        if i is None:
            self.data.append(b)
            self.parse.append(False)
            self.written.append(False)
            i = self.index[b] = len(self.data)
        self.parse[i - 1] |= parse
        self.written[i - 1] |= written
        return i

    def get(self, i):
        return self.data[i - 1]


class Interner:
    def __init__(self):
        self.ids = {}

    def __call__(self, x):
        x = json.dumps(x, sort_keys=True)
        return self.ids.setdefault(x, len(self.ids) + 1)


class Scn:
    """A scenario: calls in order, with fresh handles for their results."""

    def __init__(self, label=""):
        self.steps, self.label, self.handles = [], label, 0

    def add(self, op, **kw):
        kw["op"] = op
        self.steps.append(kw)
        return len(self.steps)

    def dst(self):
        self.handles += 1
        return self.handles

    def parse(self, blob, **kw):
        d = self.dst()
        self.add("parse", blob=blob, dst=d, **kw)
        return d

    def reparse(self, step, **kw):
        d = self.dst()
        kw.setdefault("own", True)
        self.add("parse", **{"from": step}, dst=d, **kw)
        return d

    def first(self, h, n):
        d = self.dst()
        self.add("first", h=h, dst=d, n=n)
        return d

    def keep(self, h, gids, **kw):
        d = self.dst()
        self.add("keep", h=h, dst=d, gids=list(gids), **kw)
        return d

    def keepr(self, h, runes):
        d = self.dst()
        self.add("keepr", h=h, dst=d, runes=list(runes))
        return d

    def write(self, h):
        return self.add("write", h=h)

    def query(self, h, notes, rng=None, runes=None, full=True):
        import fontgen
        pairs = fontgen.arg_pairs(rng, notes)
        n = notes["n"]
        codes = notes.get("codes") or [65]
        if runes is None:
            runes = fontgen.arg_runes(rng, notes, 12)
        ids = list(dict.fromkeys((notes.get("ids") or []) + [4]))[:14]
        locs = list(range(n)) if n <= 60 else sorted(rng.sample(range(n), 40))
        locs += sorted({n, min(n + 1, 65535), 65535})
        return self.add("query", h=h, pairs=pairs, runes=list(runes), ids=ids, recs=True, locs=locs)

    def info(self, h):
        return self.add("info", h=h)


# --------------------------------------------------------------------------
# running the library

def limit():
    """No scenario has more than a few MB of fonts: a crash for lack of memory is the library's."""
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_harness(exe, scns, blobs, work, timeout=20, par=0, budget=800):
    """-> ({index: [result per step]}, race reports)"""
    bdir = tempfile.mkdtemp(prefix="blobs", dir=work)
    sdir = tempfile.mkdtemp(prefix="scratch", dir=work)
    used = {s["blob"] for sc in scns for s in sc.steps if s.get("blob")}
    for i in used:
        open(os.path.join(bdir, "%d.bin" % i), "wb").write(blobs.get(i))
    results, races = {}, ""
    todo = list(range(len(scns)))
    suspects = []
    deadline = time.time() + budget

    def batch(ids, tmo, par=0):
        inp = "".join(json.dumps({"id": i, "steps": [{k: v for k, v in s.items() if k not in ("own", "ref", "light")}
                                                     for s in scns[i].steps]}) + "\n" for i in ids)
        cmd = [exe, "-blobs", bdir, "-scratch", sdir, "-timeout", "%ds" % tmo]
        if par:
            cmd += ["-par", str(par)]
        env = dict(os.environ, GOTRACEBACK="all", GOMEMLIMIT="6GiB")
        try:
            p = subprocess.run(cmd, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                               timeout=max(5, deadline - time.time()), preexec_fn=None if par or "race" in exe else limit)
        except subprocess.TimeoutExpired:
            raise Infra("harness out of time")
        got = {}
        for line in p.stdout.decode("utf-8").splitlines():
            try:
                r = json.loads(line)
            except ValueError:
                break           # cut off when the process died
            got[r["id"]] = r["res"]
        return p.returncode, got, p.stderr.decode("utf-8", "replace")

    while todo:
        rc, got, err = batch(todo, timeout, par)
        results.update(got)
        if par and "DATA RACE" in err:
            races += err
        if rc == 70:
            raise Infra("harness: " + err[-2000:])
        left = [i for i in todo if i not in got]
        if rc in (0, 66) and not left:
            break
        if not left:
            break
        # The first one without a result stopped the process: look at it alone.
        bad = left[0]
        if par:
            # which one it was is not known; run the rest one at a time
            par = 0
            todo = left
            continue
        rc, got, err2 = batch([bad], 3 * timeout)
        if bad in got:
            results[bad] = got[bad]
        elif rc == 70:
            raise Infra("harness: " + err2[-2000:])
        else:
            how = "hang" if rc == 71 else "crash"
            if how == "crash" and rc in (-9, 137):
                raise Infra("the harness was killed (out of memory?)")
            suspects.append((bad, how, err2[-3000:]))
            results[bad] = [{"out": how, "msg": err2[-1500:]}] + [{"out": "skip"}] * (len(scns[bad].steps) - 1)
        todo = [i for i in left if i != bad]
        if len(suspects) >= 3:
            for i in todo:
                results[i] = None
            break
    shutil.rmtree(bdir, ignore_errors=True)
    shutil.rmtree(sdir, ignore_errors=True)
    return results, races


# --------------------------------------------------------------------------
# traces

PTR = re.compile(r"(?<=\)\()0x[0-9a-fA-F]+(?=\))")


def trace_of(sc, res, blobs, ask, ans):
    """The scenario and what happened, as the specification reads it."""
    out = []
    for k, (s, r) in enumerate(zip(sc.steps, res)):
        if s["op"] == "go" or s.get("gates"):
            out.append({"op": "begin", "out": "ok" if r.get("out") == "begun" else r.get("out", "ok")})
            continue
        if s["op"] == "end":        # the call that began at an earlier step
            s = sc.steps[s["of"] - 1]
        op = s["op"]
        t = {"op": op, "out": r.get("out", "ok")}
        if "h" in s:
            t["h"] = s["h"]
        if "dst" in s:
            t["dst"] = s["dst"]
        if op in ("parse", "validate"):
            t["mut"] = bool(r.get("mut"))
            flipped = bool(s.get("flip")) and r.get("src") != res[s.get("from", 1) - 1].get("data")
            t["own"] = bool(s.get("own")) and not flipped
            t["flip"] = flipped and bool(s.get("own"))
            t["light"] = bool(s.get("light")) and flipped
            t["via"] = s.get("via", "bytes")
            t["fired"] = bool(r.get("fired"))
            t["ref"] = s.get("ref", "")
            if isinstance(t["ref"], int):       # the outcome of an earlier step
                t["ref"] = res[t["ref"] - 1].get("out", "")
            if "src" in r:
                t["blob"] = blobs.add(base64.b64decode(r["src"]), parse=not s.get("light"))
            elif s.get("via") == "nofile":
                t["blob"] = 0
            elif "blob" in s:
                t["blob"] = blobs.add(blobs.get(s["blob"]), parse=True)
            else:
                t["blob"] = 0
                t["out"] = r.get("out", "skip")
        elif op in ("fput", "fparse", "fvalidate", "fwrite"):
            t["path"] = s["path"]
            t["open"] = r.get("open", 0)
            t["disk"] = [[n, blobs.add(base64.b64decode(b), parse=False)] for n, b in r.get("disk", [])]
            t["blob"] = 0
            if op == "fput" and "from" in s:
                b = res[s["from"] - 1].get("data")
                if b is None:
                    t["out"] = "skip"
                else:
                    t["blob"] = blobs.add(base64.b64decode(b), parse=True)
            elif op == "fput" and s.get("blob"):
                t["blob"] = blobs.add(blobs.get(s["blob"]), parse=True)
            elif op == "fwrite" and "data" in r:
                t["blob"] = blobs.add(base64.b64decode(r["data"]), parse=r["out"] == "ok", written=r["out"] == "ok")
        elif op == "first":
            t["n"] = sat(s["n"])
            t["same"] = bool(r.get("same"))
        elif op in ("keep", "keepr"):
            t["same"], t["mut"] = bool(r.get("same")), bool(r.get("mut"))
            if op == "keep":
                t["gids"] = s["gids"]
            else:
                t["runes"] = s["runes"]
                t["looked"] = r.get("looked", [])
        elif op == "prune":
            t["tables"] = s["tables"]
            t["mut"] = bool(r.get("mut"))
        elif op in ("write", "writef", "writefile"):
            t["blob"] = 0
            t["fired"] = bool(r.get("fired"))
            t["exists"] = bool(r.get("exists"))
            t["pre"] = s.get("pre", "")
            full = t["out"] == "ok" and not t["fired"]
            if "data" in r:
                t["blob"] = blobs.add(base64.b64decode(r["data"]), parse=full, written=full)
        elif op == "query" and t["out"] == "ok":
            t["mut"] = bool(r.get("mut"))
            for f in ("cmaps", "looked", "names", "recs", "locs"):
                t[f] = r[f]
            t["runes"] = s["runes"]
            t["hasrecs"] = bool(r["hasrecs"])
            qs = []
            for f in ("cmaps", "names"):
                for q in r[f]:
                    key = [f, q.get("pid"), q.get("eid"), q.get("id")]
                    qs.append([ask(key), ans(q)])
            for u, g in zip(s["runes"], r["looked"]):
                qs.append([ask(["rune", u]), ans(g)])
            if t["hasrecs"]:
                qs.append([ask("recs"), ans(r["recs"])])
            for q in r["locs"]:
                qs.append([ask(["loc", q["gid"]]), ans(q)])
            t["qs"] = qs
            for f in ("cmaps", "names"):
                t[f] = [{k2: sat(v) if k2 in ("pid", "eid", "id") else v for k2, v in q.items()} for q in t[f]]
            for q in t["locs"]:
                for f in ("hi", "lo", "lhi", "llo"):
                    q[f] = sat(q[f])
        elif op == "info" and t["out"] == "ok":
            for f, v in r.items():
                if f in ("texts", "out", "msg", "unsupported"):
                    continue
                t[f] = sat(v) if isinstance(v, int) and not isinstance(v, bool) else v
            for q in t["trec"]:
                q["v"] = sat(q["v"])
            t["qs"] = [[ask(["info", f]), ans(PTR.sub("PTR", v))] for f, v in sorted(r["texts"].items())]
        elif op == "strutils":
            for f, v in r.items():
                if f not in ("out", "msg"):
                    t[f] = v
            t["bytes"], t["runes"] = s["bytes"], s["runes"]
        elif op == "cli":
            t.update({k2: v for k2, v in r.items() if k2 not in ("msg",)})
        out.append(t)
    return out


def tlc(module, cfg, work, env=None, heap="4g", timeout=600, args=()):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-cp", CP,
           "-DTLA-Library=" + os.path.join(VERIF, "spec"), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + \
        list(args) + ["-config", cfg, module]
    return subprocess.Popen(cmd, stdout=open(os.path.join(meta, "log"), "wb"), stderr=subprocess.STDOUT, env=e,
                            cwd=os.path.join(VERIF, "spec")), os.path.join(meta, "log")


LINE = re.compile(r'<<\s*"S",\s*(\d+),\s*(\d+),\s*\{([^}]*)\},\s*\{([^}]*)\}\s*>>')
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def names(s):
    return set(x.strip().strip('"') for x in s.replace("\n", " ").split(",") if x.strip())


def validate(scns, traces, blobs, work, shards=6, timeout=700):
    """Judge every trace.  -> ({(i, step): (bad, evaluated)}, stats)"""
    idx = [i for i in range(len(scns)) if traces.get(i)]
    if not idx:
        return {}, {"states": 0, "transitions": 0}
    # balance by the bytes to be read
    def weight(i):
        return 2000 + sum(len(blobs.get(b)) for b in {t["blob"] for t in traces[i] if t.get("blob")})
    shards = max(1, min(shards, (len(idx) + 9) // 10 if max(map(weight, idx)) < 200000 else len(idx)))
    groups, load = [[] for _ in range(shards)], [0] * shards
    for i in sorted(idx, key=weight, reverse=True):
        k = load.index(min(load))
        groups[k].append(i)
        load[k] += weight(i)
    procs = []
    for k, g in enumerate(groups):
        if not g:
            continue
        g.sort()
        loc, recs = {}, []

        def local(b):
            if b and b not in loc:
                recs.append(b)
                loc[b] = len(recs)
            return loc.get(b, 0)
        tl = []
        for i in g:
            st = []
            for t in traces[i]:
                t = dict(t)
                for f in ("blob", "want", "got"):
                    if f in t:
                        t[f] = local(t[f])
                if "disk" in t:
                    t["disk"] = [[n, local(b)] for n, b in t["disk"]]
                st.append(t)
            tl.append(json.dumps({"steps": st}))
        bf, tf = os.path.join(work, "b%d.ndjson" % k), os.path.join(work, "t%d.ndjson" % k)
        with open(bf, "w") as fh:
            for b in recs:
                fh.write(json.dumps({"b": list(blobs.get(b)), "p": blobs.parse[b - 1], "w": blobs.written[b - 1]}) + "\n")
            if not recs:
                fh.write('{"b": [], "p": false, "w": false}\n')
        open(tf, "w").write("\n".join(tl) + "\n")
        p, log = tlc("TraceFont.tla", "TraceFont.cfg", work, {"VERIF_BLOBS": bf, "VERIF_TRACES": tf},
                     args=["-workers", "1"])
        procs.append((p, log, g))
    verdict, states = {}, 0
    deadline = time.time() + timeout
    try:
        for p, log, g in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                raise Infra("TLC out of time")
            text = open(log, "rb").read().decode("utf-8", "replace")
            if "Model checking completed. No error has been found." not in text:
                raise Infra("TLC: " + "\n".join([x for x in text.splitlines() if not x.startswith(" ")][:60])[:4000] if os.environ.get("VERIF_DEBUG") else "TLC: " + text[text.find("Error:"):][:1500])
            for mt in LINE.finditer(text):
                verdict[(g[int(mt[1]) - 1], int(mt[2]))] = (names(mt[3]), names(mt[4]))
            states += int(STATES.findall(text)[-1][1])
            for i in g:
                for s in range(len(traces[i])):
                    if (i, s + 1) not in verdict:
                        raise Infra("no verdict for scenario %d step %d" % (i, s + 1))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
    return verdict, {"states": states, "transitions": sum(len(traces[i]) for i in idx)}
