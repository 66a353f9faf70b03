"""Scenarios that run the command-line tool next to the library (C19)."""
import base64
import os
import re
import shutil
import subprocess
import tempfile

import fontgen as G
import scenarios
import vf

FLAGS = ["trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name"]


def lib(s, h, kind, args):
    """the library calls that the request means; -> index of the write step"""
    if kind == "readwrite":
        return s.write(h)
    if kind == "gids":
        return s.write(s.keep(h, args))
    if kind == "runes":
        return s.write(s.keepr(h, args))
    return s.write(s.first(h, 256))


def scenarios_c19(blobs, seed, tier, work):
    g = scenarios.Gen(blobs, seed, tier, "C19")
    rng = g.rng
    plans = []                       # per scenario: [(cli request, library step or None)]

    def spaced():
        """a font in which blanks have glyphs of their own"""
        f = G.Font(8)
        f.short = False
        f.glyphs = [G.simple_glyph(rng, 12) for _ in range(8)]
        codes = [32, 65, 0xA0, 66, 0x3000, 67, 0x2003]
        f.cmap = G.cmap_table([(3, 1, G.cmap4(rng, {c: 1 + i for i, c in enumerate(sorted(codes))}))])
        return g.blobs.add(f.build()), G.Notes(n=8, codes=codes, pairs=[(3, 1)])

    def unwritable():
        """names whose strings overlap in the file, too long side by side"""
        f = G.Font(2)
        f.glyphs = [b"", G.simple_glyph(rng, 12)]
        store = bytes(rng.randrange(65, 90) for _ in range(30000))
        k = rng.randint(60, 200)
        offs = [rng.randrange(10000) for _ in range(k)]
        f.name = G.U16(0) + G.U16(k) + G.U16(6 + 12 * k)
        for i, o in enumerate(offs):
            f.name += G.U16(1) + G.U16(0) + G.U16(0) + G.U16(i) + G.U16(15000) + G.U16(o)
        f.name += store
        f.cmap = G.cmap_table([(3, 1, G.cmap4(rng, {65: 1}))])
        return g.blobs.add(f.build()), G.Notes(n=2, codes=[65])

    def inputs():
        for i in range(g.n(2, 6)):
            yield unwritable() + ("unwritable",)
        for i in range(g.n(4, 20)):
            yield spaced() + ("blanks",)
        for i in range(g.n(34, 500)):
            b, notes = g.font(profile=rng.choice(["small", "small", "mid", "tiny", "chain", "bad", "many"]))
            yield b, notes, "font"
        for i in range(g.n(8, 120)):
            b, notes, _ = G.random_font(rng, "small")
            yield g.blobs.add(G.mutate(rng, b)), notes, "damaged"
        for b, notes in g.specials():
            yield b, notes, "special"
        for b, notes in g.reals()[:g.n(1, 4)]:
            yield b, notes, "real"
        yield g.blobs.add(b""), G.Notes(n=0), "empty file"

    for b, notes, label in inputs():
        s = g.scn("cli " + label)
        plan = []
        h = s.parse(b)
        s.add("validate", blob=b, via="file")
        s.info(h)
        plan.append(("validate", [], None))
        plan.append(("info", rng.sample(FLAGS, rng.randint(1, 4)), 3))
        plan.append(("chars", [], None))
        kinds = ["readwrite", "gids", "runes", "simple"]
        if label == "font" and rng.random() < 0.5:
            kinds = rng.sample(kinds, 2)
        for k in kinds:
            if k == "gids":
                a = G.arg_gids(rng, notes, rng.choice([1, 2, 4]))
            elif k == "runes":
                a = [r for r in G.arg_runes(rng, notes) if 32 <= r <= 0x10FFFF and not 0xD800 <= r < 0xE000]
                if rng.random() < 0.3:
                    sp = [c for c in (32, 0xA0, 0x3000, 0x2003) if c in (notes.get("codes") or [32])] or [32]
                    a = rng.choice([[], sp[:1]]) + a + rng.choice([[], [rng.choice(sp)]])
                if a and a[0] == 45:
                    a = a[1:]
            else:
                a = []
            plan.append((k, a, lib(s, h, k, a)))
        for _ in range(rng.choice([0, 1, 2])):
            plan.append(rng.choice([("badgid", ["65536"], None), ("badgid", ["abc"], None), ("badgid", ["1", "1.5"], None),
                                    ("badgid", ["4294967296"], None), ("badgid", ["1", "", "2"], None),
                                    ("badgid", ["99999999999999999999"], None), ("nogid", [], None),
                                    ("nofile", ["readwrite"], None), ("nofile", ["subset", "simple"], None),
                                    ("nofile", ["validate"], None), ("noargs", ["readwrite"], None),
                                    ("noargs", ["validate"], None), ("noargs", ["info"], None),
                                    ("nofile", ["info"], None), ("nofile", ["info", "--cmappings"], None),
                                    ("noargs", ["subset", "runes"], None),
                                    ("norunes", [], None)]))
        plans.append(plan)

    exe = vf.build(work)
    tool = vf.build(work, cli=True)
    results, _ = vf.run_harness(exe, g.out, blobs, work, timeout=30)
    for i, (s, plan) in enumerate(zip(g.out, plans)):
        if not results.get(i):
            continue
        res = results[i]
        blob = s.steps[0]["blob"]
        for kind, args, at in plan:
            r = request(tool, kind, args, blobs, blob, work, rng)
            want = 0
            if at and kind != "info" and res[at - 1].get("out") == "ok":
                want = blobs.add(base64.b64decode(res[at - 1]["data"]), written=True)
            r.update(blob=blob, want=want, valid=res[1].get("out"))
            text = ""
            if kind == "info" and res[2].get("out") == "ok":
                text = "".join(info_text(res[2], f) for f in FLAGS if f in args)
            r["text"] = kind != "info" or res[0].get("out") != "ok" or vf.PTR.sub("PTR", text) == vf.PTR.sub("PTR", r.pop("stdout"))
            if kind == "chars":
                r["list"] = chars(r["stdout"])
            r.pop("stdout", None)
            s.add("cli", kind=kind)
            res.append(r)
    return g.out, results


def info_text(r, f):
    return r["texts"][f]


def chars(text):
    """the lines of info --cmappings"""
    at, out = 0, []
    while at < len(text):
        m = re.compile(r"([0-9]+)/([0-9]+,[0-9]+): ([0-9]+) - (.)\n", re.S).match(text, at)
        if not m:
            return [{"at": 0, "gid": 0, "rune": 0}]
        k = {"0,3": 1, "1,0": 2, "3,1": 3}.get(m.group(2), 0)
        out.append({"at": k if int(m.group(1)) == k - 1 else 0, "gid": int(m.group(3)), "rune": ord(m.group(4))})
        at = m.end()
    return out


def request(tool, kind, args, blobs, blob, work, rng):
    d = tempfile.mkdtemp(prefix="cli", dir=work)
    try:
        open(os.path.join(d, "in.ttf"), "wb").write(blobs.get(blob))
        outfile, bad = None, False
        if kind == "readwrite":
            cmd, outfile = ["readwrite", "in.ttf"], "readwrite.ttf"
        elif kind == "gids":
            cmd, outfile = ["subset", "gids", "in.ttf"] + [str(x) for x in args], "subset_gids.ttf"
        elif kind == "runes":
            cmd, outfile = ["subset", "runes", "in.ttf", "".join(map(chr, args))], "subset_runes.ttf"
            if rng.random() < 0.4:
                outfile = rng.choice(["x.ttf", "a b.ttf"])
                cmd += [rng.choice(["-o", "--outfile"]), outfile]
        elif kind == "simple":
            cmd, outfile = ["subset", "simple", "in.ttf"], "subset.ttf"
        elif kind == "validate":
            cmd = ["validate", "in.ttf"]
        elif kind == "chars":
            cmd = ["info", "in.ttf", "--cmappings"]
        elif kind == "info":
            cmd = ["info", "in.ttf"] + ["--" + f for f in args]
        else:
            bad = True
            if kind == "badgid":
                cmd = ["subset", "gids", "in.ttf"] + args
            elif kind == "nogid":
                cmd = ["subset", "gids", "in.ttf"]
            elif kind == "norunes":
                cmd = ["subset", "runes", "in.ttf"]
            elif kind == "nofile":
                cmd = args + ["missing.ttf"]
            else:
                cmd = args
        stale = outfile is not None and rng.random() < 0.25
        if stale:
            open(os.path.join(d, outfile), "wb").write(b"stale" * 20000)
        before = set(os.listdir(d))
        try:
            p = subprocess.run([tool] + cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            out = "ok" if p.returncode == 0 else "err" if p.returncode in (1, 2) else "crash"
            stdout = p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            out, stdout = "hang", ""
        got = 0
        if outfile and os.path.exists(os.path.join(d, outfile)):
            data = open(os.path.join(d, outfile), "rb").read()
            if not (stale and data == b"stale" * 20000):
                got = blobs.add(data, parse=False)
        after = set(os.listdir(d))
        litter = bool(after - before - ({outfile} if outfile else set()))
        intact = open(os.path.join(d, "in.ttf"), "rb").read() == blobs.get(blob)
        return {"kind": "bad" if bad else kind, "args": "bad" if bad else "good", "out": out, "got": got,
                "intact": intact, "litter": litter, "stdout": stdout, "cmd": " ".join(cmd)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
