"""check.py Cxx: decide one property on /repo's working tree."""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import model
import scenarios

W = {"w.sfnt", "w.n", "w.head", "w.maxp", "w.hhea", "w.nhm", "w.hmtx", "w.loc", "w.glyf", "w.prep", "w.cvt", "w.fpgm",
     "w.name", "w.os2", "w.post", "w.cmap", "w.form", "w.tables", "w.len", "w.parse", "write.out", "parse.own"}
SFNT = {"sfnt.dir", "sfnt.search", "sfnt.sorted", "sfnt.unique", "sfnt.bounds", "sfnt.align", "sfnt.overlap",
        "sfnt.padding", "sfnt.tabsum", "sfnt.adjust"}
Q = {"q.cmap", "q.lookup", "q.pure", "q.name", "q.recs", "q.loc"}
SAME = {"write.same", "write.again", "ask.stable"}
INFO = {"info.missing", "info.trec", "info.string", "info.hhea", "info.hmtx", "info.loca", "info.glyf", "info.cmap",
        "info.cmapsubs", "info.postcount", "info.postnames"}
INMEM = {"info.hhea", "info.hmtx", "info.loca", "info.glyf", "info.cmap", "info.cmapsubs", "info.postcount",
         "info.postnames", "info.missing"}
OUTS = {"safe", "skip", "first.out", "keep.out", "prune.out", "opt.out", "write.out", "parse.own"}
WF = {"wfault.out", "wfault.prefix", "writefile.out"}

CLAUSES = {
    "C01": SFNT | {"safe", "skip", "write.out", "writefile.out", "w.parse", "w.tables", "w.len"},
    "C02": W | {"safe", "skip", "parse.accept"} | Q | {"info.hhea", "info.hmtx", "info.loca", "info.glyf"},
    "C03": W | SAME | WF | Q | {"write.fixpoint", "safe", "skip", "first.out", "keep.out"} | INMEM,
    "C04": {"q.cmap", "q.lookup", "q.pure", "info.cmap", "info.cmapsubs", "parse.accept", "safe", "skip", "w.cmap", "write.out"},
    "C05": W | Q | {"keep.out", "keep.alias", "keep.pure", "safe", "skip", "parse.accept"} | INMEM,
    "C06": W | Q | {"first.out", "first.alias", "safe", "skip", "parse.accept"} | INMEM,
    "C07": {"q.cmap", "q.lookup", "w.cmap", "w.form", "w.parse", "write.out", "parse.own", "info.cmap", "info.cmapsubs", "safe",
            "skip", "parse.accept", "first.out", "keep.out", "w.n"},
    "C08": W | Q | SAME | INFO | {"first.alias", "keep.alias", "keep.pure", "safe", "skip", "keep.out", "first.out"},
    "C09": {"w.hmtx", "w.nhm", "w.hhea", "opt.out", "info.hhea", "info.hmtx", "safe", "skip", "write.out", "w.parse",
            "parse.own", "write.same", "parse.accept", "first.out", "keep.out"},
    "C10": {"validate.accept", "validate.reject", "validate.pure", "validate.flip", "safe", "skip", "write.out",
            "sfnt.tabsum", "sfnt.adjust"},
    "C11": {"safe", "parse.accept", "parse.reject", "parse.pure", "validate.accept", "validate.reject", "validate.pure"},
    "C12": OUTS | {"keep.pure", "prune.pure", "q.pure"},
    "C13": W | Q | INFO | SAME | {"prune.out", "prune.pure", "safe", "skip"},
    "C14": {"q.name", "q.recs", "w.name", "safe", "skip", "parse.accept", "write.out", "parse.own"},
    "C15": W | Q | WF | {"parse.chunk", "fault.parse", "parse.nofile", "parse.pure", "write.same", "write.again", "safe",
                         "skip"},
    "C16": {"q.loc", "w.loc", "w.glyf", "w.parse", "w.n", "safe", "skip", "parse.accept", "write.out", "parse.own",
            "info.loca", "info.glyf"},
    "C17": W | Q | SAME | {"keep.out", "keep.alias", "keep.pure", "safe", "skip", "parse.accept"},
    "C18": {"safe", "text.pure", "text.u16", "text.u16s", "text.pdf", "text.pdfs", "text.u16enc", "text.u16bytes",
            "text.pdfenc", "text.pdfdet"},
    "C19": {"cli.safe", "cli.validate", "cli.validate.accept", "cli.validate.reject", "cli.out", "cli.file", "cli.input",
            "cli.litter", "cli.refuse", "cli.info", "cli.chars", "cli.parse.accept", "cli.parse.reject", "safe", "skip"} | W,
    "C20": INFO | {"safe", "skip", "ask.stable", "parse.accept"},
}
CLAUSES["C22"] = {"file.disk", "file.closed", "file.missing", "file.write", "file.there", "parse.accept", "parse.reject",
                  "validate.accept", "validate.reject", "safe", "skip"} | (W - {"parse.own"}) | Q | SAME
CLAUSES["C21"] = set().union(*CLAUSES.values())


def load_known():
    p = os.path.join(vf.VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def scenario_file(sc, res, blobs, bad, pid, d):
    os.makedirs(d, exist_ok=True)
    steps = []
    for s in sc.steps:
        s = dict(s)
        if s.get("blob"):
            f = "%d.bin" % s["blob"]
            open(os.path.join(d, f), "wb").write(blobs.get(s["blob"]))
        steps.append(s)
    json.dump({"property": pid, "label": sc.label, "steps": steps, "violated": bad,
               "observed": [{k: (v if len(str(v)) < 2000 else str(v)[:2000]) for k, v in r.items()} for r in (res or [])]},
              open(os.path.join(d, "scenario.json"), "w"), indent=1)


def short(sc, tr):
    """a scenario in a line"""
    out = []
    for t in tr[:14]:
        a = {k: t[k] for k in ("h", "dst", "n", "gids", "runes", "tables", "blob", "pre", "flip", "kind", "args") if k in t}
        a = {k: v for k, v in a.items() if len(str(v)) < 60}
        out.append("%s%s=%s" % (t["op"], json.dumps(a, sort_keys=True), t["out"]))
    return sc.label + ": " + "; ".join(out)


def run(pid, tier, seed, work, only=None):
    t0 = time.time()
    blobs = vf.Blobs()
    races, found = "", {}
    if only is None:
        if pid == "C19":
            import cli
            scns, results = cli.scenarios_c19(blobs, seed, tier, work)
        else:
            g = scenarios.Gen(blobs, seed, tier, pid)
            scenarios.GENERATORS[pid](g)
            if pid in model.PLAN:
                found = model.generate(g, work)
            if pid == "C21":
                found = model.concurrent(g, work)
            if pid == "C22":
                found = model.files(g, work)
            for pids, more in ((("C15",), model.sources), (("C04", "C07", "C11"), model.maps),
                               (("C05", "C17"), model.glyphs), (("C09",), model.metrics), (("C14", "C11"), model.names),
                               (("C20", "C11"), model.posts)):
                if pid in pids:
                    new = more(g, work)
                    new["model_states"] += found.get("model_states", 0)
                    found = dict(found, **new)
            scns = g.out
    else:
        scns = only(blobs)
    if pid != "C19":
        budget = 400 if tier == "quick" else 3000
        # calls held at chosen points: one scenario at a time
        free = [i for i, sc in enumerate(scns) if sc.label != "gated"]
        held = [i for i, sc in enumerate(scns) if sc.label == "gated"]
        results = {}
        for ids, race in ((free, pid == "C21"), (held, False)):
            if ids:
                exe = vf.build(work, race=race)
                res, rep = vf.run_harness(exe, [scns[i] for i in ids], blobs, work, par=8 if race else 0, timeout=20, budget=budget)
                results.update({ids[k]: v for k, v in res.items()})
                races += rep
    t2 = time.time()
    ask, ans = vf.Interner(), vf.Interner()
    traces = {}
    for i, sc in enumerate(scns):
        if results.get(i):
            traces[i] = vf.trace_of(sc, results[i], blobs, ask, ans)
    verdict, stats = vf.validate(scns, traces, blobs, work, shards=7,
                                 timeout=600 if tier == "quick" else 10000)
    stats["model_states"] = found.pop("model_states", 0)
    t3 = time.time()
    return dict(extra=found, scns=scns, results=results, traces=traces, verdict=verdict, stats=stats, blobs=blobs, races=races,
                times=(t2 - t0, t3 - t2))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evidence = os.path.join(vf.VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        r = run(pid, tier, seed, work)
        code = report(pid, tier, seed, r, evidence, t0, work)
    except vf.Infra as e:
        print("ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def report(pid, tier, seed, r, evidence, t0, work):
    mine = CLAUSES[pid]
    out = os.path.join(vf.OUT, pid)
    shutil.rmtree(out, ignore_errors=True)
    fired, evaluated = {}, {}
    bad_scn = {}
    for (i, k), (bad, ev) in r["verdict"].items():
        for c in ev & mine:
            evaluated[c] = evaluated.get(c, 0) + 1
        for c in bad & mine:
            fired[c] = fired.get(c, 0) + 1
            bad_scn.setdefault(i, []).append([k, c])
    other = sum(1 for _, (bad, _) in r["verdict"].items() if bad - mine)
    known = load_known()
    code, shown, violations = 0, 0, 0
    reported_known = set()
    for i in sorted(bad_scn):
        left = []
        for k, c in sorted(bad_scn[i]):
            f = match_known(known, pid, c, r["scns"][i], k, r["blobs"])
            if f:
                reported_known.add(f)
            else:
                left.append([k, c])
        if not left:
            continue
        violations += 1
        code = 1
        if shown < 5:
            d = os.path.join(out, "%d" % i)
            scenario_file(r["scns"][i], r["results"][i], r["blobs"], left, pid, d)
            print("VIOLATION property=%s replay=%s" % (pid, d))
            for k, c in left[:6]:
                res = r["results"][i][k - 1]
                print("  step %d (%s): %s %s" % (k, r["scns"][i].steps[k - 1]["op"], c, str(res.get("msg", ""))[:200]))
            shown += 1
    if r["races"]:
        code = 1
        violations += 1
        d = os.path.join(out, "race")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "race.txt"), "w").write(r["races"])
        print("VIOLATION property=%s replay=%s" % (pid, d))
        print("\n".join(r["races"].splitlines()[:30]))
    for f in known["findings"]:
        if f["property"] == pid and f["what"] in reported_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    missing = sorted(c for c in mine if c not in evaluated and c not in OPTIONAL.get(pid, set()) and pid != "C21")
    good = [i for i in r["traces"]]
    cover = {"states": r["stats"]["states"] + r["stats"].get("model_states", 0), "transitions": r["stats"]["transitions"],
             "traces_validated_against_impl": len(good),
             "samples": [short(r["scns"][i], r["traces"][i]) for i in good[:: max(1, len(good) // 5)][:5]],
             "clauses_evaluated": evaluated, "clauses_never_evaluated": missing,
             "byte_strings_read_by_the_specification": sum(r["blobs"].parse),
             "scenarios_with_verdict": len({i for i, _ in r["verdict"]})}
    cover.update(r.get("extra", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cover,
          "assumptions": ["TLC evaluates the specification correctly",
                          "spec/FontTables.tla states the OpenType meaning of the bytes",
                          "nothing is claimed about inputs the specification calls open"],
          "wall_s": round(time.time() - t0, 1), "violations": violations}
    json.dump(ev, open(evidence, "w"), indent=1)
    print("%s %s: %d scenarios, %d steps, %d clause evaluations, %d violating scenarios (%d steps with clauses of other "
          "properties), %.1f s (run %.1f, judge %.1f)"
          % (pid, tier, len(good), r["stats"]["transitions"], sum(evaluated.values()), violations, other,
             time.time() - t0, r["times"][0], r["times"][1]))
    if missing:
        print("  never evaluated: " + ", ".join(missing))
    return code


# "skip": only in scenarios that go on after a failed call
OPTIONAL = {p: {"skip"} for p in CLAUSES}
OPTIONAL["C19"] |= {"parse.own"}


def finding_key(sc, blobs):
    """identifies a scenario by its calls and inputs"""
    h = hashlib.sha256()
    for s in sc.steps:
        s = dict(s)
        if s.get("blob"):
            s["blob"] = hashlib.sha256(blobs.get(s["blob"])).hexdigest()
        h.update(json.dumps(s, sort_keys=True).encode() + b"\n")
    return h.hexdigest()


def match_known(known, pid, clause, sc, step, blobs):
    """the listed finding this is, if any: the same calls on the same input, failing at the same step and clause"""
    for f in known["findings"]:
        if f["property"] == pid and [step, clause] in f["fails"] and f["key"] == finding_key(sc, blobs):
            return f["what"]
    return None


if __name__ == "__main__":
    main()
