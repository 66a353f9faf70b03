"""Histories that TLC finds by exploring spec/MCFont.tla, as scenarios for the real library."""
import json
import os
import random
import re

import fontgen as G
import vf
from fontkit import *

ALL = ["first", "keep", "prune", "opt", "write", "writef", "look", "reparse", "again"]

# property -> (calls, depth of all histories, depth of random ones)
PLAN = {
    "C01": (["first", "keep", "prune", "opt", "write", "reparse"], 2, 4),
    "C02": (["first", "keep", "write", "look", "reparse", "again"], 2, 5),
    "C03": (["write", "writef", "look", "keep", "first"], 2, 6),
    "C05": (["keep", "first", "reparse", "write"], 2, 4),
    "C06": (["first", "keep", "reparse", "write"], 2, 4),
    "C07": (["keep", "first", "reparse"], 2, 3),
    "C08": (ALL, 2, 6),
    "C09": (["opt", "first", "keep", "write", "reparse"], 3, 5),
    "C12": (["first", "keep", "opt", "prune", "write", "reparse"], 2, 5),
    "C13": (["prune", "look", "write", "first", "keep"], 2, 5),
    "C15": (["writef", "write", "look", "reparse", "keep"], 2, 5),
    "C16": (["keep", "first", "reparse"], 2, 3),
    "C17": (["keep", "first", "look", "write"], 2, 4),
    "C20": (["look", "first", "keep", "opt", "prune"], 2, 4),
}


def small(rng, kind, n=None):
    """a font of about 500 bytes; kind: full, long, noglyf, bare, tiny"""
    same = n is not None        # all advances the same, one full metric
    if n is None:
        n = rng.choice([1, 2]) if kind == "tiny" else rng.choice([3, 4, 5])
    f = G.Font(n)
    f.short = kind != "long" and (kind == "full" or rng.random() < 0.5)
    gl = [b"", G.simple_glyph(rng, 12)] + [G.simple_glyph(rng, 12 + 2 * rng.randint(0, 2)) for _ in range(n)]
    gl = gl[:n]
    if n > 2:
        k = rng.randrange(2, n)
        gl[k] = G.composite_glyph(rng, [rng.choice([0, 1])] + ([2] if k > 2 and rng.random() < 0.5 else []))
        if n > 3 and k < n - 1 and rng.random() < 0.6:
            gl[n - 1] = G.composite_glyph(rng, [k])
    f.glyphs = gl
    f.metrics = [(rng.choice([500, 600, 600]) if not same else 500, rng.randint(-5, 5)) for _ in range(n)]
    f.nhm = n
    while f.nhm > 1 and (same or rng.random() < 0.5) and f.metrics[f.nhm - 1][0] == f.metrics[f.nhm - 2][0]:
        f.nhm -= 1
    codes = {65 + i: rng.randrange(n) for i in range(3)}
    subs = [(3, 1, cmap4(rng, codes)), (1, 0, cmap6(65, [rng.randrange(n) for _ in range(3)]))]
    if rng.random() < 0.5:
        subs.append((3, 10, cmap12(groups12(rng, codes))))
    f.cmap = cmap_table(subs)
    f.name = name_table([(3, 1, 0x409, 1, G.utf16([65, 66])), (1, 0, 0, 4, b"xy")])
    f.post = post_table(0x20000, bytes(28), n, index=[0, 258, 259, 5, 7, 1, 2][:n], names=[b"a", b"bc"][:max(0, n - 1)]) \
        if rng.random() < 0.7 else post_table(0x30000, bytes(28), n)
    f.prep, f.cvt, f.os2 = b"abc", b"\0\1", None
    if kind == "noglyf":
        f.glyf, f.cmap = False, None
    if kind == "bare":
        f.hmtx, f.post, f.prep, f.name = False, None, None, None
    return f.build(), n, kind != "noglyf"


def explore(work, fonts, ops, depth, laws=False, simulate=0, seed=1, flip=29, timeout=300, workers=4):
    """-> (histories, distinct states)"""
    mf = os.path.join(work, "model-%d-%d-%d.json" % (depth, laws, simulate))
    json.dump({"fonts": [list(b) for b in fonts], "ops": ops, "depth": depth, "laws": laws, "flip": flip}, open(mf, "w"))
    args = ["-workers", str(workers)]
    if simulate:
        args = ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(seed)]
    p, log = vf.tlc("MCFont.tla", "MCLaws.cfg" if laws else "MCFont.cfg", work, {"VERIF_MODEL": mf}, args=args)
    try:
        p.wait(timeout)
    except Exception:
        p.kill()
        p.wait()
        raise vf.Infra("the exploration ran out of time")
    text = open(log, "rb").read().decode("utf-8", "replace")
    if p.returncode or "Error:" in text:
        raise vf.Infra("the model is wrong: " + text[text.find("Error:"):][:1500])
    hs = sorted({m for m in re.findall(r'^"H(<<.*>>)"$', text, re.M)})
    out = [json.loads(h.replace("\\", "").replace("<<", "[").replace(">>", "]")) for h in hs]
    m = vf.STATES.findall(text)
    if m:
        states = int(m[-1][1])
    else:
        states = int(re.findall(r"([\d]+) states checked", text.replace(",", ""))[-1])
    return out, states


def scenario(g, blob, n, glyf, hist):
    s = g.scn("history")
    hs = {1: s.parse(blob)}

    def new(x):
        hs[len(hs) + 1] = x

    def ask(h):
        s.add("query", h=h, pairs=[(3, 1), (1, 0), (3, 10), (0, 3)], runes=[64, 65, 66, 67, 68], ids=[1, 4, 0], recs=True,
              locs=list(range(n + 2)))
    for e in hist:
        op, h = e[0], hs[e[1]]
        if op == "first":
            new(s.first(h, e[2]))
        elif op == "keep":
            d = s.keep(h, e[2])
            if glyf:
                new(d)
        elif op == "prune":
            s.add("prune", h=h, tables=e[2])
        elif op == "opt":
            s.add("opt", h=h)
        elif op == "write":
            s.write(h)
        elif op == "writef":
            s.add("writef", h=h, limit=e[2])
        elif op == "look":
            ask(h)
            s.info(h)
        elif op == "reparse":
            new(s.reparse(s.write(h)))
        elif op == "again":
            new(s.parse(blob))
    for k in sorted(hs):
        ask(hs[k])
        if g.pid in ("C08", "C13", "C20", "C06", "C16"):
            s.info(hs[k])
        s.write(hs[k])


def generate(g, work):
    """the histories of the property, as scenarios"""
    ops, depth, deep = PLAN[g.pid]
    rng = random.Random("model-%s-%d-%s" % (g.pid, g.seed, g.tier))
    kinds = ["full", "long", "noglyf", "bare", "tiny"]
    if not g.thorough:
        kinds = ["full", "long"] + rng.sample(kinds[2:], 1)
    if g.pid in ("C05", "C17", "C16"):
        kinds = [k for k in kinds if k != "noglyf"]
    fonts = [small(rng, k) for k in kinds]
    blobs = [g.blobs.add(b) for b, _, _ in fonts]
    want = 300 if not g.thorough else 6000
    hists, states = explore(work, [b for b, _, _ in fonts], ops, depth + (1 if g.thorough else 0),
                            timeout=300 if not g.thorough else 1500)
    total = len(hists)
    if len(hists) > want:
        hists = rng.sample(hists, want)
    more, st = explore(work, [b for b, _, _ in fonts], ops, deep, simulate=60 if not g.thorough else 1500,
                       seed=g.seed, timeout=300 if not g.thorough else 1500)
    if len(more) > want // 3:
        more = rng.sample(more, want // 3)
    _, laws = explore(work, [b for b, _, _ in fonts], ops, 2 if not g.thorough else 4, laws=True,
                      flip=29 if not g.thorough else 7, timeout=300 if not g.thorough else 2500)
    for h in hists + more:
        b, n, glyf = fonts[h[0] - 1]
        scenario(g, blobs[h[0] - 1], n, glyf, h[1])
    return {"model_states": states + st + laws, "histories_in_the_model": total, "histories_replayed": len(hists),
            "random_histories_replayed": len(more)}


# --------------------------------------------------------------------------
# programs running at the same time (MCConc)

def schedules(work, fonts, procs, shared=False, simulate=0, seed=1, timeout=300):
    """-> (schedules, distinct states).  shared: a library MCConc has to find fault with."""
    mf = os.path.join(work, "conc-%d-%d.json" % (len(os.listdir(work)), simulate))
    json.dump({"fonts": [list(b) for b in fonts], "shared": shared,
               "procs": [{"font": f, "calls": [{"op": o, "args": a, "cuts": c} for o, a, c in calls]} for f, calls in procs]},
              open(mf, "w"))
    args = ["-workers", "4"]
    if simulate:
        args = ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", "60", "-seed", str(seed)]
    p, log = vf.tlc("MCConc.tla", "MCConc.cfg", work, {"VERIF_MODEL": mf}, args=args)
    try:
        p.wait(timeout)
    except Exception:
        p.kill()
        p.wait()
        raise vf.Infra("the exploration ran out of time")
    text = open(log, "rb").read().decode("utf-8", "replace")
    if shared:
        if "Invariant Alone is violated" not in text:
            raise vf.Infra("MCConc does not notice a shared place: " + text[-1500:])
        return [], 0
    if p.returncode or "Error:" in text:
        raise vf.Infra("the model is wrong: " + text[text.find("Error:"):][:1500])
    hs = sorted({h for h in re.findall(r'^"H<<(.*)>>"$', text, re.M)})
    m = vf.STATES.findall(text)
    states = int(m[-1][1]) if m else int(re.findall(r"([\d]+) states checked", text.replace(",", ""))[-1])
    return [[int(x) for x in h.split(",")] for h in hs], states


# where calls are held: a parse of these fonts reads 14 times or more; a write may be a single one
CUTS = {"parse": list(range(1, 15)), "write": [1]}


def programs(rng, n, cuts):
    """n programs of different shapes"""
    out = []
    for _ in range(n):
        calls = [("parse", [], rng.choice(cuts))]
        for op in rng.sample(["first", "keep", "prune", "opt", "look"], rng.choice([0, 1, 1])):
            calls.append((op, {"first": [2], "keep": [1], "prune": ["name"], "opt": [], "look": []}[op], 0))
        calls.append(("write", [], 1))
        out.append(calls)
    return out


def concurrent(g, work):
    """the schedules of a few programs, as scenarios"""
    rng = random.Random("conc-%s-%d-%s" % (g.pid, g.seed, g.tier))
    done, states, total = 0, 0, 0
    # number of programs, times a parse is held, all schedules or random ones
    plans = [(2, [1, 1, 2], True), (2, [5], False), (2, [8], False), (3, [2, 3], False)]
    if g.thorough:
        plans = plans[:1] * 8 + [(2, [3], True)] * 3 + plans[1:] * 5
    schedules(work, [small(rng, "full")[0], small(rng, "long")[0]],
              [(1, [("parse", [], 1)]), (2, [("parse", [], 1)])], shared=True)
    for np, cuts, every in plans:
        fonts = [small(rng, rng.choice(["full", "long", "full", "bare"]), n) for n in rng.sample([3, 4, 5, 6, 7], np)]
        if rng.random() < 0.3:
            fonts[1] = fonts[0]
        progs = programs(rng, np, cuts)
        scheds, st = schedules(work, [f[0] for f in fonts], [(i + 1, pr) for i, pr in enumerate(progs)],
                               simulate=0 if every else 150 if not g.thorough else 1500, seed=g.seed)
        states += st
        total += len(scheds)
        want = 120 if not g.thorough else 1000
        if len(scheds) > want:
            scheds = rng.sample(scheds, want)
        blobs = [g.blobs.add(f[0]) for f in fonts]
        for sched in scheds:
            one_schedule(g, rng, fonts, blobs, progs, sched)
            done += 1
    return {"model_states": states, "schedules_in_the_model": total, "schedules_replayed": done}


def one_schedule(g, rng, fonts, blobs, progs, sched):
    s = g.scn("gated")
    n = len(progs)
    at, cut, cur, began, last = [0] * n, [0] * n, [None] * n, [None] * n, [None] * n

    def begin(p, op, cuts):
        gates = sorted(rng.sample(CUTS[op], cuts))
        if op == "parse":
            cur[p] = s.dst()
            return s.add("parse", blob=blobs[p], dst=cur[p], gates=gates)
        return s.add("write", h=cur[p], gates=gates)

    for p in (x - 1 for x in sched):
        op, args, cuts = progs[p][at[p]]
        if cut[p] < cuts:
            if cut[p] == 0:
                began[p] = begin(p, op, cuts)
            else:
                s.add("go", of=began[p])
            cut[p] += 1
            continue
        if cuts:
            last[p] = s.add("end", of=began[p])
        elif op == "parse":
            cur[p] = s.parse(blobs[p])
        elif op == "first":
            cur[p] = s.first(cur[p], args[0])
        elif op == "keep":
            cur[p] = s.keep(cur[p], args)
        elif op == "prune":
            s.add("prune", h=cur[p], tables=args)
        elif op == "opt":
            s.add("opt", h=cur[p])
        elif op == "write":
            last[p] = s.write(cur[p])
        elif op == "look":
            look(s, cur[p], fonts[p][1])
        at[p], cut[p] = at[p] + 1, 0
    for p in range(n):
        look(s, cur[p], fonts[p][1])
        s.reparse(last[p])


def look(s, h, n):
    s.add("query", h=h, pairs=[(3, 1), (1, 0), (3, 10), (0, 3)], runes=[64, 65, 66, 67, 68], ids=[1, 4, 0], recs=True,
          locs=list(range(n + 2)))


# --------------------------------------------------------------------------
# sources that answer as planned (MCSource)

def source_plans(work, depth, sloppy=""):
    """-> (plans, distinct states)"""
    mf = os.path.join(work, "source-%s.json" % sloppy)
    json.dump({"depth": depth, "size": 7, "want": 7, "window": 3, "sloppy": sloppy}, open(mf, "w"))
    p, log = vf.tlc("MCSource.tla", "MCSource.cfg", work, {"VERIF_MODEL": mf}, args=["-workers", "1"])
    try:
        p.wait(300)
    except Exception:
        p.kill()
        p.wait()
        raise vf.Infra("the exploration ran out of time")
    text = open(log, "rb").read().decode("utf-8", "replace")
    if sloppy:
        if not re.search("Invariant (Faithful|Surfaces|Content) is violated", text):
            raise vf.Infra("MCSource does not notice a mistake: " + sloppy)
        return [], 0
    if p.returncode or "Error:" in text:
        raise vf.Infra("the model is wrong: " + text[text.find("Error:"):][:1500])
    plans = sorted({m for m in re.findall(r'^"P<<(.*)>>"$', text, re.M)})
    out = [[(int(n), e) for n, e in re.findall(r'<<(\d+), \\"(\w*)\\">>', x)] for x in plans]
    return out, int(vf.STATES.findall(text)[-1][1])


def sources(g, work):
    """every plan, starting at some or every read of a parse"""
    rng = random.Random("source-%s-%d-%s" % (g.pid, g.seed, g.tier))
    plans, states = source_plans(work, 4)
    for bad in ("short", "swallow", "drop"):
        source_plans(work, 4, bad)
    plans = [x for x in plans if x]
    todo = [(x, k) for x in plans for k in range(1, 22)]
    total = len(todo)
    if not g.thorough:
        todo = rng.sample(todo, 900)
    fonts = [small(rng, k)[0] for k in ("full", "long", "full", "noglyf", "bare")]
    fonts.append(fonts[0][:-3])
    blobs = [g.blobs.add(b) for b in fonts]
    code = {"": 0, "once": 1, "dead": 2, "eof": 3}
    done = 0
    while todo:
        b = rng.choice(blobs)
        s = g.scn("planned source")
        s.write(s.parse(b))
        for x, k in todo[:9]:
            plan = [[0 if n == 0 else rng.choice([1, 1, 3]) if n == 1 else -1, code[e]] for n, e in x]
            s.write(s.parse(b, via="fault", ref=1, fault={"plan": plan, "start": k, "soft": rng.random() < 0.2}))
            done += 1
        todo = todo[9:]
    return {"model_states": states, "source_plans_in_the_model": total, "source_plans_replayed": done}


# --------------------------------------------------------------------------
# files (MCFiles)

def file_histories(work, fonts, depth, simulate=0, seed=1, timeout=300):
    mf = os.path.join(work, "files-%d-%d.json" % (depth, simulate))
    json.dump({"fonts": [list(b) for b in fonts], "depth": depth}, open(mf, "w"))
    args = ["-workers", "4"]
    if simulate:
        args = ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(seed)]
    p, log = vf.tlc("MCFiles.tla", "MCFiles.cfg", work, {"VERIF_MODEL": mf}, args=args)
    try:
        p.wait(timeout)
    except Exception:
        p.kill()
        p.wait()
        raise vf.Infra("the exploration ran out of time")
    text = open(log, "rb").read().decode("utf-8", "replace")
    if p.returncode or "Error:" in text:
        raise vf.Infra("the model is wrong: " + text[text.find("Error:"):][:1500])
    hs = sorted({m for m in re.findall(r'^"H(<<.*>>)"$', text, re.M)})
    out = [json.loads(h.replace("\\", "").replace("<<", "[").replace(">>", "]")) for h in hs]
    m = vf.STATES.findall(text)
    states = int(m[-1][1]) if m else int(re.findall(r"([\d]+) states checked", text.replace(",", ""))[-1])
    return out, states


def files(g, work):
    rng = random.Random("files-%s-%d-%s" % (g.pid, g.seed, g.tier))
    fonts = [small(rng, "full"), small(rng, "bare"), (b"no font at all", 0, False)]
    blobs = [g.blobs.add(b) for b, _, _ in fonts]
    hists, states = file_histories(work, [b for b, _, _ in fonts], 3 if not g.thorough else 4,
                                   timeout=300 if not g.thorough else 2000)
    total = len(hists)
    hists = rng.sample(hists, min(len(hists), 400 if not g.thorough else 6000))
    more, st = file_histories(work, [b for b, _, _ in fonts], 7, simulate=150 if not g.thorough else 3000, seed=g.seed,
                              timeout=300 if not g.thorough else 2000)
    for h in hists + more:
        s = g.scn("files")
        s.add("fput", path="a", blob=blobs[0])
        hs = {}
        for e in h:
            if e[0] == "put":
                s.add("fput", path=e[1], blob=blobs[e[2] - 1])
            elif e[0] == "remove":
                s.add("fput", path=e[1])
            elif e[0] == "validate":
                s.add("fvalidate", path=e[1])
            elif e[0] == "parse":
                d = s.dst()
                s.add("fparse", path=e[1], dst=d)
                hs[e[2]] = d
            elif e[0] == "write":
                s.add("fwrite", h=hs[e[1]], path=e[2])
            elif e[0] == "prune":
                s.add("prune", h=hs[e[1]], tables=["name"])
            elif e[0] == "first":
                hs[e[2]] = s.first(hs[e[1]], 2)
        for d in hs.values():
            look(s, d, 4)
            s.write(d)
    return {"model_states": states + st, "histories_in_the_model": total, "histories_replayed": len(hists),
            "random_histories_replayed": len(more)}


# --------------------------------------------------------------------------
# character maps (MCMaps)

PLACES = {0: [0, 30, 124, 252], 4: [0, 253, 32766, 55294, 65531], 6: [0, 253, 32766, 65531],
          12: [0, 253, 65532, 55294, 1114106]}
MAPS_OF = {0: [(1, 0), (3, 1), (0, 3)], 4: [(3, 1), (0, 3), (0, 1), (3, 0), (0, 0)], 6: [(3, 1), (0, 3), (0, 1), (3, 0), (0, 0)],
           12: [(3, 10), (0, 4), (0, 6)]}


def run_model(work, module, config, simulate=0, depth=0, seed=1, timeout=300):
    """-> (what the model printed, distinct states)"""
    mf = os.path.join(work, "%s-%d.json" % (module, len(os.listdir(work))))
    json.dump(config, open(mf, "w"))
    args = ["-workers", "4"]
    if simulate:
        args = ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
    p, log = vf.tlc(module + ".tla", module + ".cfg", work, {"VERIF_MODEL": mf}, args=args)
    try:
        p.wait(timeout)
    except Exception:
        p.kill()
        p.wait()
        raise vf.Infra("the exploration ran out of time")
    text = open(log, "rb").read().decode("utf-8", "replace")
    if p.returncode or "Error:" in text:
        raise vf.Infra("the model is wrong: " + text[text.find("Error:"):][:1500])
    m = vf.STATES.findall(text)
    states = int(m[-1][1]) if m else int(re.findall(r"([\d]+) states checked", text.replace(",", ""))[-1])
    lines = sorted(set(re.findall(r'^"[A-Z](<<.*>>)"$', text, re.M)))
    return [json.loads(x.replace("\\", "").replace("<<", "[").replace(">>", "]")) for x in lines], states


def subtables(work, fmt, base, width, n, vals, deltas, simulate=0, seed=1, timeout=300):
    """-> ([(verdict, bytes)], distinct states)"""
    out, states = run_model(work, "MCMaps", {"fmt": fmt, "base": base, "width": width, "n": n, "vals": vals, "deltas": deltas,
                                             "longest": 3 if simulate else width},
                            simulate, width + 3, seed, timeout)
    return [(v, bytes(b)) for v, b in out], states


def maps(g, work):
    """the subtables of the model, in fonts"""
    rng = random.Random("maps-%s-%d-%s" % (g.pid, g.seed, g.tier))
    plans = []
    for fmt in (4, 12, 6, 0):
        for base in PLACES[fmt] if g.thorough else [rng.choice(PLACES[fmt])]:
            n = 3 if fmt == 4 else 4
            vals = {4: [0, 1, rng.choice([2, 65535])], 6: [0, 1, 2, n], 0: [0, 1, 2, n]}.get(fmt, [0])
            plans.append((fmt, base, 3 if fmt == 4 else 4, n, vals, [0, 1, 65535] if fmt == 4 else [0], 0))
        if fmt in (4, 12):
            plans.append((fmt, rng.choice(PLACES[fmt]) - 4 if fmt == 12 else 65524, 10, 6, [0, 1, 3, 5], [0, 1, 65535],
                          80 if not g.thorough else 2000))
    states, total, done = 0, 0, 0
    for fmt, base, width, n, vals, deltas, sim in plans:
        base = max(base, 0)
        found, st = subtables(work, fmt, base, width, n, vals, deltas, sim, g.seed, timeout=300 if not g.thorough else 2000)
        states += st
        total += len(found)
        want = {4: 400, 12: 150, 6: 80, 0: 40}[fmt] * (1 if not g.thorough else 12) // (1 if g.pid == "C04" else 2)
        ok = [b for v, b in found if v == "ok"]
        rej = [b for v, b in found if v != "ok"]
        runes = list(range(max(0, base - 1), base + width + 1))
        if fmt == 0:
            runes += [ord(bytes([c]).decode("mac_roman")) for c in runes if c < 256]
        if g.pid == "C11":
            for b in rng.sample(rej, min(len(rej), want)) + rng.sample(ok, min(len(ok), want // 8)):
                s = g.scn("modelled maps")
                s.parse(g.blobs.add(maps_font(n, [(MAPS_OF[fmt][0], b)])))
                done += 1
            continue
        ok = rng.sample(ok, min(len(ok), want))
        k = len(MAPS_OF[fmt])
        for i in range(0, len(ok), k):
            part = ok[i:i + k]
            places = MAPS_OF[fmt][:]
            rng.shuffle(places)
            s = g.scn("modelled maps")
            hs = [s.parse(g.blobs.add(maps_font(n, list(zip(places, part)))))]
            if g.pid == "C07":
                for c in rng.sample(range(n + 1), 2):
                    hs.append(s.first(hs[0], c) if rng.random() < 0.7 else s.keep(hs[0], [c - 1] if c else []))
                    hs.append(s.reparse(s.write(hs[-1])))
            elif rng.random() < 0.2:
                s.info(hs[0])
            for h in hs:
                s.add("query", h=h, pairs=places, runes=runes, ids=[], recs=False, locs=[])
            done += len(part)
    return {"model_states": states, "subtables_in_the_model": total, "subtables_replayed": done}


def maps_font(n, subs):
    f = G.Font(n)
    f.glyphs = [b""] * n
    f.metrics = [(500, 0)] * n
    f.nhm = 1
    f.cmap = cmap_table([(p, e, b) for (p, e), b in sorted(subs)])
    return f.build()


# --------------------------------------------------------------------------
# glyphs that refer to one another (MCGlyphs)

SHAPES = [{"flags": f | (1 if a == 4 else 0), "args": a, "scale": sc}
          for f, sc in ((0, 0), (8, 2), (64, 4), (128, 8), (256, 0), (512 | 4 | 2, 0)) for a in (2, 4)]


def glyphs(g, work):
    rng = random.Random("glyphs-%s-%d-%s" % (g.pid, g.seed, g.tier))
    simple = list(G.simple_glyph(rng, 12))
    found, states = [], 0
    plans = [(3, 1, 2, 0)] + ([(4, 1, 2, 2000), (6, 3, 1, 2000)] if g.thorough else [(6, 2, 1, 60), (5, 1, 2, 60)])
    for n, k, most, sim in plans:
        out, st = run_model(work, "MCGlyphs", {"n": n, "simple": simple, "shapes": rng.sample(SHAPES, k), "most": most,
                                             "sets": n + 1 if not sim else 1},
                            sim, n + 2, g.seed, 300 if not g.thorough else 2500)
        want = (110 if g.pid == "C05" else 50) * (20 if g.thorough else 1)
        states += st
        found.append((n, rng.sample(out, min(len(out), want if not sim else want // 2)), len(out)))
    done = 0
    for n, graphs, _ in found:
        for raw in graphs:
            raw = [bytes(x) for x in raw]
            f = G.Font(n)
            f.short = rng.random() < 0.5
            f.glyphs = raw
            f.metrics = [(500 + i, i) for i in range(n)]
            f.nhm = n
            f.cmap = cmap_table([(3, 1, cmap4(rng, {65 + i: i for i in range(1, n)}))])
            s = g.scn("glyph graph")
            h = s.parse(g.blobs.add(f.build()))
            sets = [[i for i in range(n + 1) if k >> i & 1] for k in range(2 ** (n + 1))]
            for gids in rng.sample(sets, 6):
                rng.shuffle(gids)
                if g.pid == "C17":
                    d = s.keepr(h, [64 + i if i in (0, n) else 65 + i for i in gids])
                else:
                    d = s.keep(h, gids)
                if rng.random() < 0.4:
                    s.write(d)
            done += 1
    return {"model_states": states, "graphs_in_the_model": sum(k for _, _, k in found), "graphs_replayed": done}


# --------------------------------------------------------------------------
# metric arrays (MCMetrics)

def metrics(g, work):
    rng = random.Random("metrics-%s-%d-%s" % (g.pid, g.seed, g.tier))
    adv = rng.sample([0, 1, 255, 256, 500, 32767, 32768, 65535], 2 if not g.thorough else 3)
    lsb = rng.sample([-32768, -1, 0, 1, 256, 32767], 2 if not g.thorough else 1)
    found, states = run_model(work, "MCMetrics", {"most": 4 if not g.thorough else 6, "advances": adv, "bearings": lsb},
                              timeout=300 if not g.thorough else 2500)
    some = rng.sample(found, min(len(found), 150 if not g.thorough else 2500))
    for full, rest in some:
        n = len(full) + len(rest)
        f = G.Font(n)
        f.glyphs = [G.simple_glyph(rng, 12) for _ in range(n)]
        f.nhm = len(full)
        f.metrics = [tuple(m) for m in full] + [(full[-1][0], l) for l in rest]
        s = g.scn("modelled metrics")
        h = s.parse(g.blobs.add(f.build()))
        for k in rng.sample(range(n + 1), min(2, n + 1)):
            d = s.first(h, k) if rng.random() < 0.6 else s.keep(h, [k])
            if rng.random() < 0.5:
                s.add("opt", h=d)
            s.info(d)
            s.reparse(s.write(d))
        s.add("opt", h=h)
        s.info(h)
        s.write(s.reparse(s.write(h)))
    return {"model_states": states, "metric_arrays_in_the_model": len(found), "metric_arrays_replayed": len(some)}


# --------------------------------------------------------------------------
# name tables (MCNames)

def names(g, work):
    rng = random.Random("names-%s-%d-%s" % (g.pid, g.seed, g.tier))
    states, total, done = 0, 0, 0
    plans = [(2, 4, 6, True, 0)] + ([(3, 4, 4, False, 0), (6, 8, 12, True, 2000)] if g.thorough else [(5, 8, 10, True, 60)])
    for most, nk, nsp, tags, sim in plans:
        store = list(rng.choice([b"\0A\xC4\x80\0", b"\0A\0B\0C", b"\x20\xAC\0a\x20\x14", b"\xD8\x3D\xDE\0\0\x7F", b"A\0\x80\0B\0"]))
        kinds = [[p, e, lang, i] for p, e in ((3, 1), (1, 0), (0, 3), (3, 10)) for lang in (0, 0x409, 0x8000) for i in (1, 2, 258)]
        spans = [[o, l] for o in range(len(store) + 1) for l in range(len(store) + 2 - o)]
        want = sorted(rng.sample(kinds, nk)), sorted(rng.sample(spans, nsp))
        found, st = run_model(work, "MCNames", {"store": store, "kinds": want[0], "spans": want[1], "most": most, "tags": tags},
                              sim, most + 4, g.seed, 300 if not g.thorough else 2500)
        states += st
        total += len(found)
        some = [bytes(b) for v, b in found if (v == "rej") == (g.pid == "C11")]
        some = rng.sample(some, min(len(some), (150 if not sim else 50) * (15 if g.thorough else 1)))
        for k in range(0, len(some), 3):
            s = g.scn("modelled names")
            for b in some[k:k + 3]:
                f = G.Font(1)
                f.name = b
                h = s.parse(g.blobs.add(f.build()))
                if g.pid != "C11":
                    ids = [1, 2, 258, 77, 0]
                    s.add("query", h=h, pairs=[], runes=[], ids=ids, recs=True, locs=[])
                    if rng.random() < 0.4:
                        s.add("query", h=s.reparse(s.write(h)), pairs=[], runes=[], ids=ids, recs=True, locs=[])
                done += 1
    return {"model_states": states, "name_tables_in_the_model": total, "name_tables_replayed": done}


# --------------------------------------------------------------------------
# glyph names (MCPost)

def posts(g, work):
    rng = random.Random("posts-%s-%d-%s" % (g.pid, g.seed, g.tier))
    n = 3 if not g.thorough else 4
    index = [258, 259, 260, rng.choice([0, 1, 257]), rng.choice([32767, 32768, 65535, 261, 514])]
    strings = [list(x) for x in rng.sample([b"a", b"A.b", b"\0", b"\xff\x7f", b"f_f_i.alt"], 2)] + [[]]
    shifts = [0, -1, rng.choice([1, 127, -128, 5])]
    found, states = run_model(work, "MCPost", {"n": n, "index": index, "strings": strings, "most": n, "shifts": shifts},
                              timeout=300 if not g.thorough else 2500)
    want = {"C11": ("rej",), "C20": ("ok",)}[g.pid]
    some = [bytes(b) for v, b in found if v in want]
    some = rng.sample(some, min(len(some), 200 if not g.thorough else 3000))
    for k in range(0, len(some), 4):
        s = g.scn("modelled glyph names")
        for b in some[k:k + 4]:
            f = G.Font(n)
            f.glyphs = [G.simple_glyph(rng, 12) for _ in range(n)]
            f.metrics = [(500, i) for i in range(n)]
            f.nhm = n
            f.post = b
            h = s.parse(g.blobs.add(f.build()))
            if g.pid == "C20":
                s.info(h)
                d = s.first(h, rng.randint(0, n)) if rng.random() < 0.5 else s.keep(h, [rng.randrange(n)])
                s.info(d)
                s.info(s.reparse(s.write(rng.choice([h, d]))))
    return {"model_states": states, "glyph_name_tables_in_the_model": len(found), "glyph_name_tables_replayed": len(some)}
