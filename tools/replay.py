"""replay.py DIR: run a recorded scenario again and judge it."""
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    d = sys.argv[1]
    rec = json.load(open(os.path.join(d, "scenario.json")))
    blobs = vf.Blobs()
    sc = vf.Scn(rec["label"])
    for s in rec["steps"]:
        if s["op"] == "cli":
            print("scenarios of the command-line tool are replayed by bin/check C19")
            return 2
        if s.get("blob"):
            s["blob"] = blobs.add(open(os.path.join(d, "%d.bin" % s["blob"]), "rb").read())
        sc.steps.append(s)
    work = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        res, _ = vf.run_harness(vf.build(work), [sc], blobs, work, timeout=30)
        tr = vf.trace_of(sc, res[0], blobs, vf.Interner(), vf.Interner())
        verdict, _ = vf.validate([sc], {0: tr}, blobs, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = False
    for k, s in enumerate(sc.steps):
        b, ev = verdict[(0, k + 1)]
        bad |= bool(b)
        a = {x: y for x, y in s.items() if x not in ("op",) and len(str(y)) < 100}
        print("%2d %-9s %s -> %s%s" % (k + 1, s["op"], json.dumps(a), res[0][k].get("out"),
                                      "   BROKEN: " + ", ".join(sorted(b)) if b else ""))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
