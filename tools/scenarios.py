"""Scenarios per property.  Each generator returns a list of vf.Scn."""
import glob
import os
import random

import fontgen as G
from fontkit import *
from vf import Scn, REPO

TABLES = ["cmap", "post", "name", "head", "glyf", "hmtx", "nonsense", "", "CMAP", "OS/2", "os2", "trec", "cvt "]
PROFILES = ["small"] * 6 + ["tiny", "mid", "chain"]


def real_fonts(thorough, seed):
    out = [os.path.join(REPO, "testdata", "FreeSans.ttf")]
    robo = sorted(glob.glob(os.path.join(REPO, "testdata", "roboto", "*.ttf")))
    out += robo if thorough else robo[seed % len(robo):][:1]
    return [p for p in out if os.path.exists(p)]


def real_notes(b):
    d = directory(b)
    n = struct_u16(b, d[b"maxp"][1] + 4)
    return G.Notes(n=n, kind="real", pairs=[(0, 3), (1, 0), (3, 1), (3, 10)],
                   codes=[32, 65, 66, 97, 196, 233, 0x3A9, 0x20AC, 0x1E9E, 0xFB01], ids=list(range(0, 20)))


def struct_u16(b, o):
    return b[o] * 256 + b[o + 1]


class Gen:
    def __init__(self, blobs, seed, tier, pid):
        self.blobs, self.seed, self.tier, self.pid = blobs, seed, tier, pid
        self.rng = random.Random("%s-%s-%s" % (pid, seed, tier))
        self.thorough = tier == "thorough"
        self.out = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def scn(self, label):
        s = Scn(label)
        self.out.append(s)
        return s

    def font(self, want=(), profile=None):
        b, notes, _ = G.random_font(self.rng, profile or self.rng.choice(PROFILES), want)
        return self.blobs.add(b), notes

    def specials(self):
        return [(self.blobs.add(b), nt) for b, nt in G.special_fonts(self.rng)]

    def huge(self, label, *derive):
        """the biggest fonts: written, and derived from"""
        for b, notes in G.huge_fonts(self.rng):
            s = self.scn("%s %s" % (label, notes["kind"]))
            h = s.parse(self.blobs.add(b))
            n = notes["n"]
            for what in derive:
                if what == "info":
                    s.info(h)
                elif what == "write":
                    h2 = s.reparse(s.write(h))
                    s.query(h2, notes, self.rng)
                elif what == "first":
                    s.write(s.first(h, n - 1))
                elif what == "keep":
                    s.write(s.keep(h, [n - 1]))
                    s.write(s.keep(h, [n - 2, 1]))
                elif what == "keepr":
                    s.write(s.keepr(h, [66]))
                elif what == "prune":
                    s.add("prune", h=h, tables=["cmap", "post", "name"])
                    s.info(h)
                    s.write(h)
                elif what == "opt":
                    s.add("opt", h=h)
                    s.write(h)
                else:
                    s.query(h, notes, self.rng)

    def spread(self, *derive, k=4):
        """fonts with everything at round distances"""
        self.counts(*derive, fonts=G.spread_fonts(self.rng, k))

    def counts(self, *derive, big=False, fonts=None):
        """fonts with counts that need more than one byte"""
        for b, notes in fonts or G.count_fonts(self.rng, big):
            s = self.scn("counts %s" % notes["kind"])
            h = s.parse(self.blobs.add(b), via=self.rng.choice(["bytes", "file"]))
            n = notes["n"]
            for what in derive:
                if what == "write":
                    s.query(s.reparse(s.write(h)), notes, self.rng, notes.get("codes"))
                elif what == "first":
                    s.write(s.first(h, n - 1))
                    s.query(s.first(h, min(n // 2, 258)), notes, self.rng, notes.get("codes"))
                elif what == "keep":
                    for gids in notes.get("kept", [[n // 2, 1]]):
                        s.write(s.keep(h, gids))
                elif what == "validate":
                    s.add("validate", blob=s.steps[0]["blob"])
                elif what == "info":
                    s.info(h)
                elif what == "opt":
                    s.add("opt", h=h)
                    s.write(h)
                else:
                    s.query(h, notes, self.rng, notes.get("codes"))

    def reals(self):
        out = []
        for p in real_fonts(self.thorough, self.seed):
            b = open(p, "rb").read()
            out.append((self.blobs.add(b), real_notes(b)))
        return out

    # -- building blocks ---------------------------------------------------
    def battery(self, s, h, notes, info=True, again=False):
        """query, write, read again, compare the answers"""
        rng = self.rng
        runes = G.arg_runes(rng, notes, 10)
        s.query(h, notes, rng, runes)
        if info:
            s.info(h)
        w = s.write(h)
        h2 = s.reparse(w)
        s.query(h2, notes, rng, runes)
        if info and rng.random() < 0.5:
            s.info(h2)
        if again:
            s.write(h2)
        return h2

    def derive(self, s, h, notes, kinds=("first", "keep", "keepr")):
        rng = self.rng
        k = rng.choice(kinds)
        if k == "first":
            return s.first(h, G.arg_first(rng, notes))
        if k == "keep":
            return s.keep(h, G.arg_gids(rng, notes))
        return s.keepr(h, G.arg_runes(rng, notes))

    def anyop(self, s, hs, notes):
        rng = self.rng
        h = rng.choice(hs)
        op = rng.choice(["first", "first", "keep", "keep", "keepr", "prune", "opt", "write", "query", "writef", "info"])
        if op in ("first", "keep", "keepr"):
            hs.append(self.derive(s, h, notes, (op,)))
        elif op == "prune":
            s.add("prune", h=h, tables=rng.sample(TABLES[:4], rng.choice([0, 1, 1, 2])))
        elif op == "opt":
            s.add("opt", h=h)
        elif op == "write":
            w = s.write(h)
            if rng.random() < 0.4:
                hs.append(s.reparse(w))
        elif op == "writef":
            s.add("writef", h=h, limit=rng.choice([0, 1, 12, 100, 400, 1 << 29]), via=rng.choice(["", "", "late"]))
        elif op == "query":
            s.query(h, notes, rng)
        else:
            s.info(h)

    def life(self, label, ops, want=(), font=None, info=True):
        s = self.scn(label)
        b, notes = font or self.font(want)
        hs = [s.parse(b)]
        if self.rng.random() < 0.3:
            hs.append(s.parse(b))
        for _ in range(ops):
            self.anyop(s, hs, notes)
        for h in list(hs):
            s.query(h, notes, self.rng)
            if info and self.rng.random() < 0.4:
                s.info(h)
            w = s.write(h)
            if self.rng.random() < 0.5:
                h2 = s.reparse(w)
                s.query(h2, notes, self.rng)
        return s


# --------------------------------------------------------------------------

def c01(g):
    g.huge("huge", "write", "first")
    for i in range(g.n(70, 1200)):
        g.life("life", g.rng.choice([0, 1, 2, 4]), info=False)
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        s.write(h)
        d = s.first(h, max(0, notes["n"] - 1))
        s.write(d)
        d = s.keep(h, [notes["n"] // 2])
        s.write(d)
        s.add("prune", h=d, tables=["cmap", "name", "post"])
        s.add("writefile", h=d)
    # every combination of optional tables, so every number of tables
    for mask in range(0, 512, g.n(7, 1)):
        f = G.Font(3)
        f.glyphs = [G.simple_glyph(g.rng, 12 + 2 * (mask % 3)) for _ in range(3)]
        f.short = mask % 2 == 0
        opt = [("hmtx", None), ("glyf", None), ("prep", b"\1\2\3"), ("cvt", b"\0\1"), ("fpgm", b"\7"),
               ("name", G.random_names(g.rng)[0]), ("os2", G.random_os2(g.rng)), ("post", G.random_post(g.rng, 3, "3")),
               ("cmap", G.cmap_table([(3, 1, G.cmap4(g.rng, {65: 1}))]))]
        for k, (a, v) in enumerate(opt):
            on = mask >> k & 1
            setattr(f, a, bool(on) if v is None else (v if on else None))
        s = g.scn("tables %03x" % mask)
        h = s.parse(g.blobs.add(f.build()))
        s.write(h)
        s.add("prune", h=h, tables=["post"])
        s.write(h)
    for b, notes in g.reals():
        s = g.scn("real")
        h = s.parse(b)
        s.write(h)
        d = s.keepr(h, [65, 66, 0x3A9])
        s.write(d)


def c02(g):
    rng = g.rng
    g.counts("query", "write", big=True)
    g.spread("query", "write")
    g.counts("write", "first")
    g.huge("huge", "query", "write")
    for i in range(g.n(120, 2500)):
        b, notes = g.font()
        s = g.scn("round trip")
        h = s.parse(b)
        h2 = g.battery(s, h, notes, again=True)
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        g.battery(s, h, notes, again=True)
    for i in range(g.n(20, 400)):
        g.life("life", g.rng.choice([2, 4]))
    for tag in PARSED:
        s = g.scn("renamed")
        h = s.parse(g.blobs.add(renamed(rng, tag)))
        s.add("info", h=h)
        w = s.write(h)
        s.reparse(w)
    post_landmarks(g, info=False)
    # large tables
    for p in ["many"] * g.n(3, 30):
        b, notes = g.font(profile=p)
        s = g.scn("many glyphs")
        h = s.parse(b)
        g.battery(s, h, notes, info=False, again=True)
    for b, notes in g.reals():
        s = g.scn("real")
        h = s.parse(b)
        w = s.write(h)
        h2 = s.reparse(w)
        s.write(h2)


def c03(g):
    rng = g.rng
    for i in range(g.n(90, 1500)):
        b, notes = g.font(want=("two",) if rng.random() < 0.5 else ())
        s = g.scn("repeat writes")
        h = s.parse(b)
        for _ in range(rng.choice([1, 2])):
            hs = [h]
            s.query(h, notes, rng)
            s.info(h)
            s.write(h)
            for _ in range(rng.choice([0, 1, 2])):
                k = rng.choice(["query", "writef", "writefile", "derive", "info", "first"])
                if k == "query":
                    s.query(h, notes, rng)
                elif k == "writef":
                    s.add("writef", h=h, limit=rng.choice([0, 1, 11, 12, 13, 100, 300, 1000, 1 << 29]))
                elif k == "writefile":
                    s.add("writefile", h=h, pre=rng.choice(["", "longer", "shorter", "nodir"]))
                elif k == "derive":
                    d = g.derive(s, h, notes)
                    s.write(d)
                elif k == "info":
                    s.info(h)
                else:
                    s.first(h, notes["n"] + 3)
            s.query(h, notes, rng)
            s.info(h)
            w = s.write(h)
            h = s.reparse(w)
        s.write(h)
    for i in range(g.n(30, 500)):
        # the same derivation before and after a write
        b, notes = g.font()
        s = g.scn("derive before and after writing")
        h = s.parse(b)
        gids, n = G.arg_gids(rng, notes), rng.randint(0, notes["n"])
        d1, e1 = s.keep(h, gids), s.first(h, n)
        if rng.random() < 0.5:
            s.write(d1)
            s.write(e1)
        if rng.random() < 0.5:
            s.add("writef", h=h, limit=rng.choice([0, 5, 200]))
        s.write(h)
        d2, e2 = s.keep(h, gids), s.first(h, n)
        for x in (d2, e2, d1, e1, h):
            s.query(x, notes, rng)
            s.write(x)
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        s.info(h)
        w = s.write(h)
        s.info(h)
        s.write(h)
        h2 = s.reparse(w)
        s.write(h2)
    for b, notes in g.reals()[:g.n(1, 99)]:
        s = g.scn("real")
        h = s.parse(b)
        w = s.write(h)
        s.write(h)
        h2 = s.reparse(w)
        s.write(h2)


def cmap_only_font(rng, subs, n):
    f = G.Font(n)
    f.glyphs = [b""] * n
    f.metrics = [(500, 0)] * n
    f.nhm = min(n, 1)
    f.cmap = subs
    return f


def landmarks(g, derive=False):
    """the landmarks of the code space, for every platform and encoding with a meaning and every format"""
    rng = g.rng
    bmp = [0, 1, 31, 32, 65, 126, 127, 128, 129, 159, 160, 173, 255, 256, 0x17F, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x3000,
           0x7FFF, 0x8000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xEFFF, 0xF000, 0xF001, 0xF020, 0xF041, 0xF07F,
           0xF0FE, 0xF0FF, 0xF100, 0xF8FF, 0xF900, 0xFDD0, 0xFEFE, 0xFEFF, 0xFF00, 0xFFEF, 0xFFFC, 0xFFFD, 0xFFFE]
    full = bmp + [0xFFFF] + [x for k in range(1, 17) for x in (k << 16, (k << 16) + 1, (k << 16) + 65, (k << 16) + 0xFEFF,
                                                               (k << 16) + 0xFFFE, (k << 16) + 0xFFFF)]
    odd = [0x110000, 0x120041, 0x7FFFFFFF, 0xFFFFFFFE]
    encs = [(0, e) for e in range(7)] + [(1, 0), (3, 0), (3, 1), (3, 10)]
    if derive:
        encs = rng.sample(encs, g.n(4, 11))
    for pid, eid in encs:
        for fmt in (0, 4, 6, 12):
            space = list(range(256)) if pid == 1 or fmt == 0 else bmp if (pid, eid) not in [(0, 4), (0, 6), (3, 10)] or fmt != 12 \
                else full + (rng.sample(odd, 2) if rng.random() < 0.3 else [])
            if fmt == 12 and pid == 0 and eid < 4:
                space = bmp
            codes = sorted(rng.sample(space, min(len(space), 40 if fmt == 12 and len(space) > 60 else 256)))
            n = 260
            gids = list(range(1, n))
            rng.shuffle(gids)
            if fmt == 6:
                lo = rng.choice([0, 0x80, 0xD7F0, 0xEFF0, 0xF000, 0xFEF0, 0xFFF0 - 0x20] if pid != 1 else [0, 1, 100])
                arr = gids[:(256 - lo if pid == 1 else rng.choice([16, 40]))]
                codes, bb = list(range(lo, lo + len(arr))), cmap6(lo, arr)
            else:
                m = {c: gids[k] for k, c in enumerate(codes)}
                if fmt == 0:
                    m = {c: v for c, v in m.items() if v < 256}
                bb = cmap0(m) if fmt == 0 else cmap12(groups12(rng, m)) if fmt == 12 else \
                    cmap4(rng, m, style=rng.choice(["mixed", "delta", "delta"]))
            b = g.blobs.add(cmap_only_font(rng, cmap_table([(pid, eid, bb)]), n).build())
            s = g.scn("landmarks %d %d %d" % (pid, eid, fmt))
            h = s.parse(b)
            runes = sorted(set(c for c in codes + [c + 1 for c in codes] + bmp[-22:] if c <= 0x7FFFFFFF))
            if pid == 1:
                runes += [0xC4, 0xE4, 0x2020, 0x3A9, 0x20AC, 0xF8FF, 0xFB01, 0x2C7, 0x131]
            s.add("query", h=h, pairs=[(pid, eid), (3, 1)], runes=runes[:400], ids=[], recs=False, locs=[])
            if not derive:
                s.info(h)
                continue
            d = s.keepr(h, rng.sample(runes, min(len(runes), 6)))
            e = s.first(h, rng.choice([2, 20, 100, n - 1]))
            for x in (d, e):
                s.add("query", h=x, pairs=[(pid, eid)], runes=runes[:200], ids=[], recs=False, locs=[])
                y = s.reparse(s.write(x))
                s.add("query", h=y, pairs=[(pid, eid)], runes=runes[:200], ids=[], recs=False, locs=[])


def c04(g):
    rng = g.rng
    g.counts("query", big=True)
    g.spread("query", k=2)
    for i in range(g.n(160, 3500)):
        p = rng.choice(["small", "small", "mid", "mid", "many"])
        n = {"small": rng.randint(1, 10), "mid": rng.randint(20, 80), "many": 400}[p]
        notes = G.Notes(n=n)
        cm = G.random_cmap(rng, n, notes, big=rng.random() < 0.1 and n > 20)
        b = g.blobs.add(cmap_only_font(rng, cm, n).build())
        s = g.scn("maps")
        h = s.parse(b)
        runes = list(notes["codes"])[:150] + G.arg_runes(rng, notes, 12)
        rng.shuffle(runes)
        runes += runes[:3]
        s.query(h, notes, rng, runes)
        s.info(h)
        if rng.random() < 0.3:
            w = s.write(h)
            h2 = s.reparse(w)
            s.query(h2, notes, rng, runes)
    landmarks(g)
    shared_maps(g)
    # every subset of the pairs that lookups consult, each mapping A, B, C differently
    order = [(3, 1), (1, 0), (0, 3), (3, 10)]
    for mask in range(16):
        for fmts in range(g.n(2, 8)):
            subs, codes = [], set()
            for k, (p, e) in enumerate(order):
                if mask >> k & 1:
                    m = {65 + j: 1 + (k * 3 + j) for j in range(4) if rng.random() < 0.6}
                    codes |= set(m)
                    mk = rng.choice([0, 4, 6, 12]) if p == 1 else rng.choice([4, 12, 6])
                    bb = (cmap0(m) if mk == 0 else cmap4(rng, m) if mk == 4 else cmap12(groups12(rng, m)) if mk == 12
                          else cmap6(65, [m.get(65 + j, 0) for j in range(4)]))
                    subs.append((p, e, bb))
            rng.shuffle(subs)
            b = g.blobs.add(cmap_only_font(rng, cmap_table(subs), 14).build())
            s = g.scn("lookup order %d" % mask)
            h = s.parse(b)
            runes = [64, 65, 66, 67, 68, 69, 65, 0, -5, 0x10000]
            s.add("query", h=h, pairs=order + [(0, 0)], runes=runes, ids=[], recs=False, locs=[])
            s.info(h)
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        s.query(h, notes, rng, (notes.get("codes") or [])[:60] + [0, 0xFFFF, 0x10FFFF])
        s.info(h)
    for b, notes in g.reals():
        s = g.scn("real")
        h = s.parse(b)
        s.query(h, notes, rng, list(range(32, 600, 3)))


def shared_maps(g, derive=False):
    """encoding records of different platforms that refer to one subtable"""
    rng = g.rng
    m = {65: 1, 0x80: 2, 0xC4: 3, 0xDE: 4, 0xFF: 5, 0x20: 6}
    ends = {65: 1, 66: 2, 0xFF: 3, 0xF0: 3}
    subs = [cmap0(m), cmap4(rng, m, style="delta"), cmap4(rng, ends, style="array"), cmap6(0x7E, [0, 1, 2, 3, 4, 5]),
            cmap12(groups12(None, m))]
    pairs = [(0, 3), (1, 0), (3, 1), (3, 10), (0, 4), (3, 0), (2, 1)]
    for b in subs:
        s = g.scn("shared maps")
        for rep in range(g.n(3, 12)):
            ps = rng.sample(pairs, 4)
            if rep == 0:
                ps = rng.sample([(1, 0), (3, 1), (0, 3)], 3)
            share = {i: rng.choice([0, 0, i - 1]) for i in range(1, len(ps)) if i == 1 or rng.random() < 0.7}
            other = cmap4(rng, {65: 6, 0xC5: 5})
            t = cmap_table([(p, e, b if i == 0 else other) for i, (p, e) in enumerate(ps)], share=share)
            h = s.parse(g.blobs.add(cmap_only_font(rng, t, 8).build()))
            runes = sorted(m) + [66, 0xC4, 0xC5, 0x192, 0xA9, 0x2C7, 0xFB01]
            ask = lambda x: s.add("query", h=x, pairs=ps, runes=runes, ids=[], recs=False, locs=[])
            ask(h)
            if derive:
                d = s.first(h, rng.choice([3, 4, 7]))
                ask(d)
                ask(s.reparse(s.write(d)))
                ask(h)
            else:
                ask(s.reparse(s.write(h)))
                s.info(h)


def comps_font(g, want=("glyf",), bad=False):
    p = g.rng.choice(["small", "small", "chain", "mid"]) if not bad else "bad"
    return g.font(want=("glyf", "two"), profile=p)


def post_landmarks(g, info=True):
    """the ends of the ranges of indices, offsets and lengths in post tables"""
    rng = g.rng
    fonts = []
    for off in range(g.n(2, 6)):
        offs = []
        for i in range(390):
            can = [t - i for t in (257, 0, 1, 256, 258, -1, 127, 128, 255) if -128 <= t - i <= 127] + [-128, 127, -1]
            offs.append(can[(i + off * 5) % len(can)])
        fonts.append((390, post_table(0x25000, bytes(28), 390, offsets=offs)))
    # a glyph of each kind first, last, alone
    kinds = [0, 1, 256, 257, "own0", "own1", "own63", "own127", "own128", "own255"]
    for a in kinds:
        for tail in ([], [0], ["own3"]):
            for front in (False, True):
                ks = tail + [a] if front else [a] + tail
                index, own = [], []
                for k in ks:
                    if isinstance(k, str):
                        index.append(258 + len(own))
                        own.append(bytes(rng.choice(b"abcdefgh") for _ in range(int(k[3:]))))
                    else:
                        index.append(k)
                fonts.append((len(ks), post_table(0x20000, bytes(28), len(ks), index=index, names=own)))
    fonts.append((258, post_table(0x10000, bytes(28), 258)))
    for lot in range(0, len(fonts), 12):
        s = g.scn("post landmarks")
        for n, t in fonts[lot:lot + 12]:
            f = G.Font(n)
            f.glyphs = [b""] * n
            f.post = t
            h = s.parse(g.blobs.add(f.build()))
            if info:
                s.info(h)
            else:
                s.info(s.reparse(s.write(h)))


def unreadable(g, label="unreadable"):
    """a composite glyph that ends too early, at every place, asked for again and again"""
    rng = g.rng
    for kind in range(4):
        for words in (0, 1):
            nargs = (4 if words else 2) + {0: 0, 1: 2, 2: 4, 3: 8}[kind]
            fl = words | {0: 0, 1: 8, 2: 0x40, 3: 0x80}[kind]
            one = lambda more, gid: U16(fl | more) + U16(gid) + bytes(rng.randrange(256) for _ in range(nargs))
            whole = b"\xff\xff" + bytes(8) + one(0x20, 1) + one(0x120, 2) + one(0x100, 1) + U16(2) + b"\1\2"
            cuts = list(range(1, len(whole) + 1))
            for lot in range(0, len(cuts), 9):
                part = cuts[lot:lot + 9]
                f = G.Font(4 + 2 * len(part))
                f.short = False
                f.glyphs = [simple_glyph(rng, 12) for _ in range(4)]
                for c in part:
                    f.glyphs += [whole[:c], composite_glyph(rng, [3, len(f.glyphs)])]
                f.cmap = cmap_table([(3, 1, G.cmap4(rng, {65 + i: 4 + i for i in range(2 * len(part))}))])
                s = g.scn(label)
                h = s.parse(g.blobs.add(f.build()))
                order = list(range(4, f.n))
                rng.shuffle(order)
                for gid in order[:g.n(8, 18)]:
                    s.keep(h, [gid])
                    s.keep(h, [gid])
                    s.keepr(h, [65 + gid - 4])
                s.write(s.keep(h, [2, 3]))
                s.write(h)


def c05(g):
    rng = g.rng
    unreadable(g)
    g.counts("keep")
    g.huge("huge", "keep")
    for i in range(g.n(120, 2500)):
        b, notes = comps_font(g, bad=rng.random() < 0.25)
        s = g.scn("keep")
        h = s.parse(b)
        gids = G.arg_gids(rng, notes)
        d = s.keep(h, gids)
        for again in range(rng.choice([0, 0, 0, 1, 2])):
            # the same once more, or one glyph less, or something else
            d = s.keep(h, rng.choice([gids, gids, gids[1:], G.arg_gids(rng, notes)]))
        if rng.random() < 0.25:
            d = s.keep(d, G.arg_gids(rng, notes))
        g.battery(s, d, notes, info=rng.random() < 0.3)
        if rng.random() < 0.3:
            g.battery(s, h, notes, info=False)
    # component records with every combination of the flags that do not decide the record's size
    for i in range(g.n(6, 60)):
        k = g.n(12, 30)
        n = 3 * k + 1
        f = G.Font(n)
        f.short = False
        f.metrics = [(500, i) for i in range(n)]
        f.glyphs = [G.simple_glyph(rng, 12) for _ in range(n)]
        for c in range(k):
            m = rng.choice([2, 2, 3, 4])
            out = S16(rng.choice([-1, -1, -2, -32768])) + bytes(8)
            instr = False
            for x in range(m):
                fl = rng.randrange(65536) & 0xFF16 | rng.choice([0, 1]) | rng.choice([0, 8, 0x40, 0x80])
                fl &= ~0x20 if rng.random() < 0.5 else ~0x120
                fl |= 0x20 if x + 1 < m else 0
                instr = instr or bool(fl & 0x100)
                size = (4 if fl & 1 else 2) + (2 if fl & 8 else 4 if fl & 0x40 else 8 if fl & 0x80 else 0)
                out += U16(fl) + U16(k + 2 * c + x if x < 2 else rng.randrange(n))
                out += bytes(rng.randrange(256) for _ in range(size))
            if instr:
                out += U16(3) + b"\x01\x02\x03"
            f.glyphs[c] = out + (b"\0" * (len(out) % 2) if instr else b"")
        s = g.scn("component flags")
        h = s.parse(g.blobs.add(f.build()))
        for c in range(0, k, 3):
            d = s.keep(h, list(range(c, min(c + 3, k))))
            s.reparse(s.write(d))
    # all graphs of composites over three glyphs
    graphs = list(range(512))
    rng.shuffle(graphs)
    for code in graphs[:g.n(16, 512)]:
        f = G.Font(5)
        f.glyphs = [G.simple_glyph(rng, 12) for _ in range(5)]
        for v in range(3):
            comps = [w for w in range(3) if code >> (3 * v + w) & 1]
            rng.shuffle(comps)
            if comps:
                f.glyphs[v] = G.composite_glyph(rng, comps)
            elif rng.random() < 0.2:
                f.glyphs[v] = b""
        f.glyphs = [x + b"\0" * (len(x) % 2) for x in f.glyphs]
        s = g.scn("graph %d" % code)
        h = s.parse(g.blobs.add(f.build()))
        for v in range(3):
            s.write(s.keep(h, [v]))
        s.write(s.keep(h, [4, rng.randrange(3)]))
    # nested composites, many levels deep: in order, backwards, shuffled; with a branch at every level
    for depth in [15, 16, 17, 18, 31, 33, 40, 65] + g.n([], [128, 129, 256, 257, 700]):
        n = 2 * depth + 2
        order = list(range(depth + 1))
        k = rng.choice(["up", "down", "shuffle"])
        if k == "down":
            order.reverse()
        elif k == "shuffle":
            rng.shuffle(order)
        f = G.Font(n)
        f.short = False
        f.metrics = [(500, i) for i in range(n)]
        f.glyphs = [G.simple_glyph(rng, 12) for _ in range(n)]
        for i in range(depth):
            comps = [order[i + 1]] + ([depth + 1 + i] if rng.random() < 0.7 else [])
            rng.shuffle(comps)
            f.glyphs[order[i]] = G.composite_glyph(rng, comps)
        notes = G.Notes(n=n)
        s = g.scn("depth %d" % depth)
        h = s.parse(g.blobs.add(f.build()))
        for top in (order[0], order[1], order[depth // 2]):
            d = s.keep(h, [top])
            s.reparse(s.write(d))
    for b, notes in g.specials():
        if notes["n"] == 0:
            continue
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        d = s.keep(h, [notes["n"] - 1])
        g.battery(s, d, notes)
        d = s.keep(h, [1, 0])
        g.battery(s, d, notes)
        d = s.keep(h, [])
        g.battery(s, d, notes)
        d = s.keep(h, [65535])
        g.battery(s, d, notes, info=False)
    for b, notes in g.reals():
        s = g.scn("real")
        h = s.parse(b)
        d = s.keep(h, sorted(rng.sample(range(notes["n"]), 30))[:rng.choice([5, 20])])
        w = s.write(d)
        s.reparse(w)
        d = s.keep(h, rng.sample(range(min(200, notes["n"])), 12))
        w = s.write(d)
        s.reparse(w)


def c06(g):
    rng = g.rng
    g.counts("first")
    g.huge("huge", "first", "write")
    for i in range(g.n(110, 2500)):
        b, notes = g.font()
        s = g.scn("first")
        h = s.parse(b)
        d = s.first(h, G.arg_first(rng, notes))
        if rng.random() < 0.3:
            d = s.first(d, G.arg_first(rng, notes))
        g.battery(s, d, notes, info=rng.random() < 0.6)
        if rng.random() < 0.3:
            g.battery(s, h, notes, info=False)
    # names by offsets around the ends of the standard list
    f = G.Font(300)
    f.metrics = [(500, 0)] * 300
    f.post = post_table(0x25000, bytes(28), 300, offsets=[max(-128, min(127, rng.choice([0, 1, 256, 257, 258, -1]) - i))
                                                          for i in range(300)])
    s = g.scn("post ends")
    h = s.parse(g.blobs.add(f.build()))
    for k in (300, 259, 258, 257, 131):
        s.info(s.first(h, k))
    # every kind of post table
    for kind in ("1", "2", "25", "3", "4") * g.n(2, 20):
        n = rng.choice([2, 5, 13, 40, 270])
        f = G.Font(n)
        f.glyphs = [b""] * n
        f.metrics = [(500, i) for i in range(n)]
        f.post = G.random_post(rng, n, kind)
        s = g.scn("post " + kind)
        h = s.parse(g.blobs.add(f.build()))
        s.info(h)
        for k in (n - 1, n // 2, 0):
            h = s.first(h, k)
            s.info(h)
            s.reparse(s.write(h))
    # every n of a few fonts
    for i in range(g.n(3, 30)):
        b, notes = g.font(profile=rng.choice(["small", "chain"]))
        for n in range(0, notes["n"] + 2):
            s = g.scn("every n")
            h = s.parse(b)
            d = s.first(h, n)
            g.battery(s, d, notes)
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        for n in {0, 1, 2, notes["n"] - 1, notes["n"], 1 << 40}:
            d = s.first(h, n)
            g.battery(s, d, notes)
    for b, notes in g.reals():
        s = g.scn("real")
        h = s.parse(b)
        d = s.first(h, rng.choice([20, 258, 259, 300]))
        w = s.write(d)
        s.reparse(w)


def many_segments(rng, kind):
    """code -> gid; next to no two codes map to consecutive glyphs"""
    if kind > 1000:     # that many segments
        gids = list(range(1, kind + 1))
        gids = gids[::2][::-1] + gids[1::2][::-1]
        return dict(zip(range(0x4E00, 0x4E00 + kind), gids))
    if kind in (3, 4):  # codes and runs of codes far from others, before, within and after a dense part
        m, g = {}, iter(range(1, 60000))
        def run(c, k):
            for i in range(k):
                m[c + i] = next(g)
        run(5, 1 if kind == 3 else 30)
        run(0x60, 20)
        for c in range(0x100, 0x100 + 9400 * 2, 2):
            if c % 2000 == 0:
                next(g)
            if c // 500 % 9:
                run(c, 1)
                if c % 3 == 0:
                    next(g)
        for c in (0x8000, 0x8040, 0x9000):
            run(c, rng.choice([1, 3, 12, 50]))
        run(0xF000, 1 if kind == 3 else 40)
        return m
    if kind == 0:       # ideographs in another order
        k = rng.randint(8300, 9500)
        codes = range(0x4E00, 0x4E00 + k)
    elif kind == 1:     # blocks with gaps, short and long
        codes, c = [], 0x100
        while len(codes) < 9000:
            codes += range(c, c + rng.choice([1, 2, 3, 40, 400]))
            c = codes[-1] + rng.choice([2, 2, 3, 4, 5, 6, 7])
        k = len(codes)
    else:               # partly runs
        k = 20000
        codes = range(0x3000, 0x3000 + k)
    gids = list(range(1, k + 1))
    if kind == 2:
        blocks = [gids[i:i + 2] for i in range(0, k, 2)]
        rng.shuffle(blocks)
        gids = [x for bl in blocks for x in bl]
    else:
        rng.shuffle(gids)
    return dict(zip(codes, gids))


def c07(g):
    rng = g.rng
    g.counts("first", big=True)
    for i in range(g.n(130, 3000)):
        n = rng.choice([2, 4, 8, 30, 60, 300])
        notes = G.Notes(n=n)
        cm = G.random_cmap(rng, n, notes, big=rng.random() < 0.1 and n > 20)
        f = cmap_only_font(rng, cm, n)
        if rng.random() < 0.5:
            f.short = False
            f.glyphs = [G.simple_glyph(rng, 12) for _ in range(n)]
        s = g.scn("restrict maps")
        h = s.parse(g.blobs.add(f.build()))
        hs = [h]
        for _ in range(rng.choice([1, 1, 2])):
            hs.append(g.derive(s, hs[-1], notes, ("first", "first", "keep", "keepr")))
        runes = list(notes["codes"])[:120]
        for x in hs[1:]:
            s.query(x, notes, rng, runes)
            if rng.random() < 0.3:
                s.info(x)
            w = s.write(x)
            y = s.reparse(w)
            s.query(y, notes, rng, runes)
        s.query(h, notes, rng, runes)
    for b, notes in g.specials():
        for n in sorted({0, 1, 2, notes["n"] - 1, notes["n"] // 2}):
            if n < 0:
                continue
            s = g.scn("special " + notes["kind"])
            h = s.parse(b)
            d = s.first(h, n)
            s.query(d, notes, rng, (notes.get("codes") or [])[:80])
            w = s.write(d)
            y = s.reparse(w)
            s.query(y, notes, rng, (notes.get("codes") or [])[:80])
    landmarks(g, derive=True)
    shared_maps(g, derive=True)
    # everything cut at every point
    for i in range(g.n(2, 20)):
        n = 9
        notes = G.Notes(n=n)
        cm = G.random_cmap(rng, n, notes)
        b = g.blobs.add(cmap_only_font(rng, cm, n).build())
        for k in range(n):
            s = g.scn("every n")
            h = s.parse(b)
            d = s.first(h, k)
            w = s.write(d)
            y = s.reparse(w)
            s.query(y, notes, rng, notes["codes"][:60])
            s.query(d, notes, rng, notes["codes"][:60])
    # maps that take more than 8190 segments when written by deltas
    for kind in [0, 1, 2, 3, 4, 8188, 8189, 8190] + g.n([], [8187, 8191, 8192]):
        m = many_segments(rng, kind)
        n = max(m.values()) + 2
        f = cmap_only_font(rng, cmap_table([(3, 1, cmap4(rng, m, style="array", cont=0.995))]), n)
        f.hmtx = f.glyf = False
        notes = G.Notes(n=n, pairs=[(3, 1)])
        s = g.scn("many segments %d" % kind)
        h = s.parse(g.blobs.add(f.build()))
        codes = rng.sample(sorted(m), 12)
        for k in (n - 1, rng.randint(n - 200, n - 2)) if kind < 3 else (n - 1, n - 2)[:2 if kind < 5 else 1]:
            d = s.first(h, k)
            w = s.write(d)
            y = s.reparse(w)
            s.add("query", h=y, pairs=[(3, 1)], runes=codes, ids=[], recs=False, locs=[])
        s.add("query", h=d, pairs=[(3, 1)], runes=codes, ids=[], recs=False, locs=[])
    # many pairs of codes, far from each other, whose glyphs are not consecutive
    for k in (400, 4500):
        n = 3 * k + 2
        segs, ga, m = [], [], {}
        for i in range(k):
            c = 0x100 + 9 * i
            m[c], m[c + 1] = 3 * i + 2, 3 * i + 1
            segs.append((c, c + 1, 0, 2 * (k + 1 - i) + 4 * i))
            ga += [m[c], m[c + 1]]
        f = cmap_only_font(rng, cmap_table([(3, 1, cmap4raw(segs + [(0xFFFF, 0xFFFF, 1, 0)], ga))]), n)
        f.hmtx = f.glyf = False
        notes = G.Notes(n=n, pairs=[(3, 1)])
        s = g.scn("many pairs %d" % k)
        h = s.parse(g.blobs.add(f.build()))
        codes = sorted(rng.sample(sorted(m), 12)) + sorted(m)[-3:]
        d = s.first(h, n - 1)
        y = s.reparse(s.write(d))
        for x in (h, d, y):
            s.add("query", h=x, pairs=[(3, 1)], runes=codes, ids=[], recs=False, locs=[])
    for b, notes in g.reals()[-1:]:
        s = g.scn("real")
        h = s.parse(b)
        d = s.first(h, rng.choice([10, 100, 500]))
        s.query(d, notes, rng, list(range(32, 500, 2)))
        w = s.write(d)
        y = s.reparse(w)
        s.query(y, notes, rng, list(range(32, 500, 2)))


def twins(g, label):
    """files that only differ in content, not in lengths or checksums, and the same calls on each"""
    rng = g.rng
    b, notes, _ = G.good_font(rng, rng.choice(["small", "mid"]), ("glyf", "cmap", "name", "post", "hmtx"))
    files = [b] + [G.twin(rng, b) for _ in range(rng.choice([1, 2]))]
    s = g.scn(label)
    hs = [s.parse(g.blobs.add(x)) for x in files]
    gids, n, runes = G.arg_gids(rng, notes, 2), rng.randint(0, notes["n"]), G.arg_runes(rng, notes, 3)
    for k in rng.sample(["keep", "first", "keepr", "ask", "write", "opt"], 4):
        for h in list(hs)[:len(files)]:
            if k == "keep":
                hs.append(s.keep(h, gids))
            elif k == "first":
                hs.append(s.first(h, n))
            elif k == "keepr":
                hs.append(s.keepr(h, runes))
            elif k == "ask":
                s.query(h, notes, rng, runes)
                s.info(h)
            elif k == "opt":
                s.add("opt", h=h)
            else:
                s.write(h)
    for x in hs:
        s.query(x, notes, rng, runes)
        s.write(x)
    for x in rng.sample(files, len(files)):
        s.add("validate", blob=g.blobs.add(x))
    return s


def c08(g):
    rng = g.rng
    for i in range(g.n(110, 2500)):
        b, notes = g.font(want=("glyf", "cmap", "post"))
        s = g.scn("siblings")
        h = s.parse(b)
        hs = [h]
        if rng.random() < 0.4:
            s.query(h, notes, rng)
            s.info(h)
            s.write(h)
        gids, n = G.arg_gids(rng, notes), rng.randint(0, max(0, notes["n"] - 1))
        first = [s.keep(h, gids), s.first(h, n)]
        rng.shuffle(first)
        hs += first
        if rng.random() < 0.4:
            x = rng.choice(hs)
            s.query(x, notes, rng)
            s.info(x)
        for _ in range(rng.choice([1, 2, 3])):
            g.anyop(s, hs, notes)
        hs += [s.keep(h, gids), s.first(h, n)]
        order = hs[:]
        rng.shuffle(order)
        for x in order:
            s.query(x, notes, rng)
            if rng.random() < 0.5:
                s.info(x)
            s.write(x)
    for i in range(g.n(30, 600)):
        # two fonts read from one file, one of them changed; chains of derivations
        b, notes = g.font(want=("glyf", "cmap"))
        s = g.scn("chain")
        h = s.parse(b)
        chain = [h]
        for _ in range(rng.choice([2, 3])):
            chain.append(g.derive(s, chain[-1], notes))
        for x in rng.sample(chain, len(chain)):
            k = rng.choice(["opt", "prune", "write", "none"])
            if k == "opt":
                s.add("opt", h=x)
            elif k == "prune":
                s.add("prune", h=x, tables=[rng.choice(["cmap", "post", "name"])])
            elif k == "write":
                s.write(x)
        y = s.parse(b)
        for x in chain + [y]:
            s.query(x, notes, rng)
            s.info(x)
            s.write(x)
    for i in range(g.n(40, 800)):
        twins(g, "twins")
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        h = s.parse(b)
        d, e = s.first(h, notes["n"] // 2), s.keep(h, [0])
        s.add("opt", h=d)
        s.add("prune", h=e, tables=["cmap", "post", "name"])
        s.add("opt", h=e)
        for x in (h, d, e):
            s.query(x, notes, rng)
            s.info(x)
            s.write(x)


def c09(g):
    rng = g.rng
    g.counts("query", "opt")
    g.spread("query", "opt", k=2)
    g.huge("huge", "opt", "first")
    # all shapes of small metric arrays
    shapes = []
    for n in range(0, g.n(4, 6)):
        for code in range(3 ** n):
            for k in range(1 if n else 0, n + 1):
                shapes.append((n, code, k))
    rng.shuffle(shapes)
    for n, code, k in shapes[:g.n(110, 1500)]:
        f = G.Font(n)
        f.glyphs = [G.simple_glyph(rng, 12) for _ in range(n)]
        aw = [500 + (code // 3 ** i) % 3 for i in range(n)]
        m = [(a, rng.randint(-9, 9)) for a in aw]
        f.nhm = k
        f.metrics = m[:k] + [(m[k - 1][0], l) for _, l in m[k:]]
        s = g.scn("metric shape")
        h = s.parse(g.blobs.add(f.build()))
        if rng.random() < 0.5:
            h = s.first(h, rng.randint(0, n)) if rng.random() < 0.5 else s.keep(h, [rng.randint(0, n)])
        s.info(h)
        w = s.write(h)
        s.add("opt", h=h)
        s.info(h)
        w = s.write(h)
        s.add("opt", h=h)
        s.write(h)
        h2 = s.reparse(w)
        s.add("opt", h=h2)
        s.info(h2)
        s.write(h2)
    for i in range(g.n(90, 2000)):
        b, notes = g.font(profile=rng.choice(["small", "mid", "chain", "tiny"]))
        s = g.scn("metrics")
        h = s.parse(b)
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(["opt", "opt", "derive", "write", "prune"])
            if k == "opt":
                s.add("opt", h=h)
            elif k == "derive":
                h = g.derive(s, h, notes)
            elif k == "write":
                h = s.reparse(s.write(h))
            else:
                s.add("prune", h=h, tables=["post"])
        s.info(h)
        w = s.write(h)
        h2 = s.reparse(w)
        s.info(h2)
        s.add("opt", h=h2)
        s.write(h2)
    for b, notes in g.specials() + g.reals():
        s = g.scn("special " + str(notes.get("kind")))
        h = s.parse(b)
        s.add("opt", h=h)
        s.write(h)
        s.add("opt", h=h)
        s.write(h)
        d = s.first(h, notes["n"] // 2)
        s.add("opt", h=d)
        s.write(d)


def c10(g):
    rng = g.rng
    g.counts("validate")
    g.spread("validate", k=3)
    for i in range(g.n(40, 800)):
        b, notes, _ = G.good_font(rng, rng.choice(["small", "tiny", "small", "mid"]))
        s = g.scn("validate")
        bl = g.blobs.add(b)
        s.add("validate", blob=bl)
        s.add("validate", blob=bl, via="file")
        h = s.parse(bl)
        if rng.random() < 0.5:
            h = g.derive(s, h, notes)
        if rng.random() < 0.3:
            s.add("opt", h=h)
        w = s.write(h)
        s.add("validate", **{"from": w}, own=True)
        # single damaged bytes of a written file
        for _ in range(g.n(8, 12)):
            pos = rng.choice([rng.randint(0, 27), rng.randrange(400), -1 - rng.randrange(60), rng.randrange(1200)])
            s.add("validate", **{"from": w}, own=True, flip=[[pos, rng.choice([1, 128, 255, rng.randint(1, 255)])]])
    for i in range(g.n(60, 1500)):
        b, notes, f = G.random_font(rng, rng.choice(["small", "tiny"]))
        s = g.scn("layouts")
        s.add("validate", blob=g.blobs.add(b), via=rng.choice(["bytes", "file"]))
        for _ in range(3):
            s.add("validate", blob=g.blobs.add(G.mutate(rng, b)), via=rng.choice(["bytes", "file"]))
        # compensated damage: two changes that keep the sum of the file or of the table
        c = bytearray(b)
        d = directory(b)
        t = rng.choice(sorted(d))
        r, o, l = d[t]
        if l >= 8:
            i = o + 4 * rng.randrange(l // 4 - 1)
            j = i + 4
            if j + 4 <= len(c):
                x, y = c[i + 3], c[j + 3]
                c[i + 3], c[j + 3] = y, x
                s.add("validate", blob=g.blobs.add(bytes(c)))
        # a record whose checksum field is wrong
        c = bytearray(b)
        c[r + 4 + rng.randrange(4)] ^= rng.randint(1, 255)
        s.add("validate", blob=g.blobs.add(bytes(c)))
        # adjustment field
        if b"head" in d:
            c = bytearray(b)
            c[d[b"head"][1] + 8 + rng.randrange(4)] ^= rng.randint(1, 255)
            s.add("validate", blob=g.blobs.add(bytes(c)))
    # a record checksum of 0 (or all ones) that is wrong, with the rest of the file consistent
    for i in range(g.n(16, 200)):
        b, notes, f = G.good_font(rng, "small")
        d = directory(b)
        s = g.scn("constant record checksum")
        for t in rng.sample(sorted(d), min(4, len(d))):
            c = bytearray(b)
            c[d[t][0] + 4:d[t][0] + 8] = rng.choice([bytes(4), bytes(4), b"\xff" * 4, b"\0\0\0\1"])
            s.add("validate", blob=g.blobs.add(readjust(bytes(c))), via=rng.choice(["bytes", "file"]))
    # tables without data have a checksum, too
    for i in range(g.n(4, 40)):
        b, notes, f = G.good_font(rng, rng.choice(["small", "tiny"]))
        f.extra += [(b"kern", b""), (b"zzzy", b"")]
        f.fpgm = rng.choice([b"", f.fpgm])
        b = f.build()
        d = directory(b)
        s = g.scn("empty tables")
        s.add("validate", blob=g.blobs.add(b))
        for t in (b"kern", b"zzzy", b"fpgm"):
            if t in d and d[t][2] == 0:
                for v in (1, 0xFFFFFFFF, rng.getrandbits(32) or 1):
                    c = bytearray(b)
                    c[d[t][0] + 4:d[t][0] + 8] = U32(v)
                    s.add("validate", blob=g.blobs.add(readjust(bytes(c))), via=rng.choice(["bytes", "file"]))
    # fields with the values an implementation might take for something else
    for i in range(g.n(14, 160)):
        b, notes, f = G.good_font(rng, rng.choice(["small", "tiny"]))
        if rng.random() < 0.3:
            f.asm["adjust"] = False          # adjustment 0 to begin with
            b = f.build()
        d = directory(b)
        adj = d[b"head"][1] + 8
        word = lambda c, o: int.from_bytes(c[o:o + 4], "big")
        zeroed = b[:adj] + bytes(4) + b[adj + 4:]
        tot = checksum(zeroed)

        def guesses(v, own=()):
            out = {0, 1, 0xFFFFFFFF, v ^ 1, ~v & 0xFFFFFFFF, -v & 0xFFFFFFFF, 0xB1B0AFBA, tot,
                   (0xB1B0AFBA + tot) & 0xFFFFFFFF, (v + tot) & 0xFFFFFFFF, 0x5F0F3CF5,
                   int.from_bytes(v.to_bytes(4, "big")[::-1], "big"), v & 0xFFFF, v & 0xFFFF0000,
                   (v + 0x80000000) & 0xFFFFFFFF} | set(own)
            out.discard(v)
            return sorted(out)
        s = g.scn("field values")
        via = lambda: rng.choice(["bytes", "file"])
        gs = guesses(word(b, adj), [(0xB1B0AFBA - checksum(b)) & 0xFFFFFFFF])
        for v in [0] + rng.sample(gs, min(g.n(4, 15), len(gs))):
            c = bytearray(b)
            c[adj:adj + 4] = U32(v)
            s.add("validate", blob=g.blobs.add(bytes(c)), via=via())
        for t in [b"head"] + rng.sample(sorted(d), min(g.n(2, 5), len(d))):
            r, o, l = d[t]
            gs = guesses(word(b, r + 4), [checksum(b[o:o + l - l % 4]), checksum(b[o:o + l + 4]), l,
                                          checksum(b[o:o + l])])
            for v in rng.sample(gs, min(g.n(3, 15), len(gs))):
                c = bytearray(b)
                c[r + 4:r + 8] = U32(v)
                c = bytes(c)
                s.add("validate", blob=g.blobs.add(readjust(c) if rng.random() < 0.7 else c), via=via())
        # checksums of two records exchanged: the sum over the file stays the same
        t, u = rng.sample(sorted(d), 2)
        c = bytearray(b)
        x, y = d[t][0] + 4, d[u][0] + 4
        c[x:x + 4], c[y:y + 4] = c[y:y + 4], c[x:x + 4]
        s.add("validate", blob=g.blobs.add(bytes(c)))
        # the bytes of the last word of a table, and the padding after it; then the file's own end
        for t in rng.sample(sorted(d), min(g.n(3, 6), len(d))):
            r, o, l = d[t]
            for k in {o + l - 1, o + l - 1 - (l - 1) % 4, o + l}:
                if 0 <= k < len(b):
                    c = bytearray(b)
                    c[k] ^= rng.choice([1, 0x80, 0xFF])
                    s.add("validate", blob=g.blobs.add(readjust(bytes(c)) if rng.random() < 0.6 else bytes(c)))
        for k in (1, 2, 3, 4, 5):
            tail = bytes(rng.choice([0, 0, 1, 0x80, 255]) for _ in range(k))
            c = b + tail
            s.add("validate", blob=g.blobs.add(readjust(c) if rng.random() < 0.5 else c), via=via())
        # a change in one table taken back in another, and in the padding
        for _ in range(2):
            c = bytearray(b)
            k = rng.randint(1, 255)
            words = [w for w in range(12, len(b) - 3, 4) if w not in (adj,)]
            w1, w2 = rng.sample(words, 2)
            c[w1:w1 + 4] = U32((word(c, w1) + k) & 0xFFFFFFFF)
            c[w2:w2 + 4] = U32((word(c, w2) - k) & 0xFFFFFFFF)
            s.add("validate", blob=g.blobs.add(bytes(c)), via=via())
    # long tables: the file as it is, and with a byte changed far into it
    for b, notes in G.huge_fonts(rng):
        if notes["kind"] == "allglyphs" and not g.thorough:
            continue
        s = g.scn("huge " + notes["kind"])
        s.add("validate", blob=g.blobs.add(b))
        for _ in range(g.n(1, 4)):
            c = bytearray(b)
            c[rng.randrange(len(c) * 3 // 4, len(c))] ^= rng.randint(1, 255)
            s.add("validate", blob=g.blobs.add(readjust(bytes(c)) if rng.random() < 0.7 else bytes(c)))
    # every single byte of one written file
    b, notes, _ = G.good_font(rng, "tiny", want=())
    bl = g.blobs.add(b)
    size = len(b)
    step = g.n(7, 1)
    for k0 in range(rng.randrange(step) if step > 1 else 0, size + 200, step * 12):
        s = g.scn("every byte")
        h = s.parse(bl)
        w = s.write(h)
        for k in range(k0, min(k0 + step * 12, size + 200), step):
            s.add("validate", **{"from": w}, own=True, flip=[[k, rng.randint(1, 255)]], light=True)
    for b, notes in g.specials():
        s = g.scn("special " + notes["kind"])
        s.add("validate", blob=b)
        h = s.parse(b)
        w = s.write(h)
        s.add("validate", **{"from": w}, own=True)
        s.add("validate", **{"from": w}, own=True, flip=[[rng.randrange(200), 1]], via="file")
    for b, notes in g.reals():
        s = g.scn("real")
        s.add("validate", blob=b)
        h = s.parse(b)
        w = s.write(h)
        s.add("validate", **{"from": w}, own=True)


def c11(g):
    rng = g.rng
    g.counts("validate", big=True)
    g.spread("validate", "write")
    # well-formed fonts are accepted
    for i in range(g.n(60, 1000)):
        b, notes = g.font(profile=rng.choice(["small", "tiny", "mid", "bad", "chain"]))
        s = g.scn("well formed")
        s.parse(b)
        s.add("validate", blob=b)
    for b, notes in g.specials() + g.reals():
        s = g.scn("special")
        s.parse(b)
        s.add("validate", blob=b)
    # damage
    for i in range(g.n(220, 6000)):
        b, notes, _ = G.random_font(rng, rng.choice(["small", "tiny", "small"]))
        s = g.scn("damaged")
        for _ in range(3):
            m = b
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if len(m) > 12:
                    try:
                        m = G.mutate(rng, m)
                    except Exception:
                        break
            bl = g.blobs.add(m)
            s.parse(bl)
            if rng.random() < 0.3:
                s.add("validate", blob=bl)
    for i in range(g.n(60, 1500)):
        s = g.scn("targeted damage")
        for b in targeted(g):
            s.parse(g.blobs.add(b))
    for i in range(g.n(20, 300)):
        s = g.scn("noise")
        k = rng.choice([0, 1, 4, 11, 12, 13, 27, 28, 60, 300])
        b = bytes(rng.randrange(256) for _ in range(k))
        if rng.random() < 0.5 and k >= 12:
            b = U32(0x00010000) + U16(rng.choice([0, 1, 2, 65535])) + b[6:]
        bl = g.blobs.add(b)
        s.parse(bl)
        s.add("validate", blob=bl)
    # truncation of one font at every length, each of the tables being the last one in turn
    while True:
        b, notes, f = G.random_font(rng, "tiny", ("cmap", "name", "post", "glyf", "hmtx"))
        if f.n and f.os2 and f.prep and f.fpgm and f.cvt and len(b) < 2000:
            f.post = post_table(0x20000, bytes(28), f.n, index=[258 + i for i in range(f.n)], names=[b"abc"] * f.n)
            break
    t = f.tables()
    for last in range(len(t)):
        b = assemble(t, physical=[i for i in range(len(t)) if i != last] + [last])
        o = directory(b)[t[last][0]][1]
        s = g.scn("truncated table")
        cuts = list(range(o, len(b) - 1))
        for j in cuts if len(cuts) <= g.n(110, 2000) else sorted(rng.sample(cuts, g.n(110, 2000))):
            s.parse(g.blobs.add(b[:j]))
    # groups of any size
    for i in range(g.n(3, 30)):
        n = rng.choice([1, 3, 9])
        s = g.scn("large groups")
        for gr in ([(0, 0xFFFFFFFF, 0)], [(65, 0xFFFFFFFF, n - 1)], [(0xFFFFFFFF, 0xFFFFFFFF, 0)], [(66, 65, 0)],
                   [(0x80000000, 0xFFFFFFFE, 0), (0xFFFFFFFF, 0xFFFFFFFF, 0)], [(0xFFFFFFF0, 5, 0)],
                   [(0, 0x7FFFFFFF, n)], [(0, 0xFFFFFFFF, 0)] * 5):
            s.parse(g.blobs.add(cmap_only_font(rng, cmap_table([(3, 10, cmap12(gr))]), n).build()))
    # locations that go backwards late
    for n in g.n([40, 400, 6000], [40, 255, 257, 400, 6000, 33000, 65535]):
        for short, glyf in ((True, True), (False, True), (True, False), (False, False)):
            f = G.Font(n)
            f.short, f.glyf, f.hmtx = short, glyf, False
            f.glyphs = [b"\1\2\3\4" if i % 9 == 0 else b"" for i in range(n)]
            good = f.build()
            s = g.scn("late location")
            s.parse(g.blobs.add(good))
            w, o = (2 if short else 4), directory(good)[b"loca"][1]
            for i in sorted({1, n // 2, n - 1, n, min(n, 256), min(n, 257)}):
                b = bytearray(good)
                prev = int.from_bytes(b[o + w * (i - 1):o + w * i], "big")
                if prev == 0:
                    continue
                b[o + w * i:o + w * i + w] = (prev - 1).to_bytes(w, "big")
                s.parse(g.blobs.add(bytes(b)))
    # strings far behind the end of the table (and still in the file), or just at its end
    for i in range(g.n(6, 60)):
        s = g.scn("far strings")
        for so, o, l in ((32768, 32768, 5), (65535, 1, 5), (65000, 65000, 65000), (20, 65535, 65535), (65535, 65535, 0), (40, 65534, 2),
                         (18 + 20000, 0, 20001), (18, 20000, 1), (18 + 20000, 0, 20000), (18, 20000, 0)):
            f = G.Font(2)
            f.metrics = [(500, 0)] * 2
            tags = rng.random() < 0.5
            if tags:
                f.name = U16(1) + U16(0) + U16(so - 6 * (so < 30000)) + U16(1) + U16(l) + U16(o)
                f.name += b"\0ab" * 7000
                f.name = f.name[:12 + 20000 + 20000 * (so >= 20018 and so < 32768)]
            else:
                f.name = U16(0) + U16(1) + U16(so) + U16(1) + U16(0) + U16(0) + U16(1) + U16(l) + U16(o)
                f.name += b"abc" * 14000
                f.name = f.name[:18 + 20000 + 20000 * (so >= 20018 and so < 32768)]
            f.extra = [(b"zzzz", bytes(200000))]
            t = f.tables()
            names = [x[0] for x in t]
            b = assemble(t, physical=[x for x in range(len(t)) if names[x] not in (b"name", b"zzzz")] +
                         [names.index(b"name"), names.index(b"zzzz")])
            bl = g.blobs.add(b)
            s.query(s.parse(bl), dict(n=2, ids=[1]), rng)
    # glyph indices, and indices of names, that agree with possible ones in the last byte, or the last two
    for n in (3, 5, 310):
        s = g.scn("glyphs modulo")
        for gid in (256, 257, 512 + n - 1, 0x100 * (n // 256 + 1), 0xFF00, 0xFF01, 32768, 32769):
            for cm in (cmap4(rng, {65: gid}, style="delta"), cmap4(rng, {65: 1, 66: gid}, style="array"), cmap6(65, [1, gid]),
                       cmap12([(65, 65, gid)]), cmap12([(65, 65, gid + 65536)]), cmap12([(65, 66, 65535)]),
                       cmap12([(65, 65 + n + 256, 0)]), cmap12([(65, 65 + 65536, 0)]), cmap12([(66, 80, n - 1), (90, 90, gid)])):
                s.parse(g.blobs.add(cmap_only_font(rng, cmap_table([(3, 10, cm)]), n).build()))
        for k in (0, 255, 256, 257, n, n + 1, 255 + n, 256 + n, 257 + n, 512, 32767 - 258, 32768 - 258, 65535 - 258):
            f = G.Font(n)
            f.metrics = [(500, 0)] * n
            f.post = post_table(0x20000, bytes(28), n, index=[258 + x for x in range(n - 1)] + [258 + k], names=[b"ab"] * n)
            s.info(s.parse(g.blobs.add(f.build())))
    # counts and lengths as large as they can be declared, with next to no data
    big = [0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 0x15555555, 0x15555556, 0x10000000, 0x00FFFFFF]
    for v in big:
        s = g.scn("declared")
        f = G.Font(3)
        f.cmap = cmap_table([(3, 10, U16(12) + U16(0) + U32(16) + U32(0) + U32(v) + U32(65) + U32(66) + U32(1))])
        s.parse(g.blobs.add(f.build()))
        f = G.Font(3)
        f.cmap = cmap_table([(3, 10, U16(12) + U16(0) + U32(v) + U32(0) + U32(1) + U32(65) + U32(66) + U32(1))])
        s.parse(g.blobs.add(f.build()))
        f = G.Font(3)
        f.extra = [(b"kern", b"\1\2\3")]
        for t in (b"head", b"maxp", b"hmtx", b"loca", b"glyf", b"prep", b"cvt ", b"fpgm", b"name", b"OS/2", b"post", b"cmap", b"kern"):
            f.prep, f.cvt, f.fpgm, f.os2 = b"\1\2\3\4", b"\1\2\3\4", b"\1\2\3\4", f.os2 or G.random_os2(rng)
            f.name = name_table([(3, 1, 0x409, 1, b"\0A")])
            f.post = post_table(0x20000, bytes(28), 3, index=[0, 258, 259], names=[b"a", b"b"])
            f.cmap = cmap_table([(3, 1, cmap4(rng, {65: 1}))])
            for fld in (8, 12):
                c = bytearray(f.build())
                r = directory(bytes(c))[t][0]
                c[r + fld:r + fld + 4] = U32(v)
                bl = g.blobs.add(bytes(c))
                s.parse(bl)
                s.add("validate", blob=bl)
    # post names by offsets around the ends of the standard list
    n = 300
    f = G.Font(n)
    f.metrics = [(500, 0)] * n
    for k in range(3):
        f.post = post_table(0x25000, bytes(28), n, offsets=[max(-128, min(127, rng.choice([0, 255, 256, 257, 258, 259, -1]) - i))
                                                            for i in range(n)])
        s = g.scn("post ends")
        s.info(s.parse(g.blobs.add(f.build())))
    # as many names as glyphs that need one, and yet a name is missing
    for i in range(g.n(4, 40)):
        n = rng.randint(1, 5)
        f = G.Font(n)
        f.metrics = [(500, 0)] * n
        s = g.scn("post names")
        for big in (n, n + 1, 32767 - 258, rng.randint(0, 300)):
            index = [258 + k for k in range(n)]
            index[rng.randrange(n)] = 258 + big
            f.post = post_table(0x20000, bytes(28), n, index=index, names=[b"ab"] * n)
            s.parse(g.blobs.add(f.build()))
    # versions of the profile
    for v in (0, 1, 0x5000, 0xFFFF, 0x10000, 0x10001, 0x20000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
        f = G.Font(2)
        f.metrics = [(500, 0)] * 2
        f.maxp_ver = v
        s = g.scn("maxp version")
        s.parse(g.blobs.add(f.build()))
    # truncation of one font at every length
    b, notes, _ = G.random_font(rng, "small", want=("glyf", "cmap", "name", "post"))
    step = max(1, len(b) // g.n(120, 2000))
    for k in range(0, len(b), step * 8):
        s = g.scn("truncated")
        for j in range(k, min(len(b), k + step * 8), step):
            s.parse(g.blobs.add(b[:j]))


PARSED = [b"head", b"maxp", b"hhea", b"hmtx", b"loca", b"glyf", b"prep", b"name", b"OS/2", b"post", b"cmap", b"cvt ", b"fpgm"]


def renamed(rng, tag):
    """a font with all tables in the order they are read in, one of them called something else"""
    b, notes, f = G.random_font(rng, "small", want=("two", "glyf", "hmtx", "name", "post", "cmap"))
    f.os2, f.prep, f.fpgm, f.cvt = f.os2 or G.random_os2(rng), f.prep or b"\1\2\3\4", f.fpgm or b"\5\6", f.cvt or b"\0\1\0\2"
    f.order, f.asm, f.extra = None, {"align": 1}, []
    b = bytearray(assemble(sorted(f.tables(), key=lambda t: PARSED.index(t[0])), align=1))
    r = directory(b)[tag][0]
    b[r:r + 4] = b"zz" + tag[2:] if rng.random() < 0.5 else tag[:3] + b"~"
    return bytes(b)


def targeted(g):
    """Well-formed fonts with exactly one table contradicting the rest."""
    rng = g.rng
    out = []

    def mk(**kw):
        b, notes, f = G.random_font(rng, "small", want=("two", "glyf", "hmtx"))
        f.cmap = f.cmap or cmap_table([(3, 1, cmap4(rng, {65: 1}))])
        return f
    f = mk()
    f.drop = {rng.choice([b"head", b"maxp", b"hhea", b"loca"])}
    out.append(f.build())
    # under another name, but just where a reader would be that goes on reading
    out += [renamed(rng, t) for t in (b"head", b"maxp", b"hhea", b"loca")]
    f = mk()
    f.head["magic"] = 0x5F0F3CF5 ^ (1 << rng.randrange(32))
    out.append(f.build())
    f = mk()
    f.head["locfmt"] = rng.choice([2, 3, 65535, 256])
    out.append(f.build())
    # locations that go backwards
    f = mk()
    b = bytearray(f.build())
    r, o, l = directory(b)[b"loca"]
    w = 2 if f.short else 4
    i = rng.randrange(1, f.n + 1)
    cur = int.from_bytes(b[o + w * i:o + w * i + w], "big")
    prev = int.from_bytes(b[o + w * (i - 1):o + w * i], "big")
    v = rng.choice([0, max(0, prev - 1), (1 << (8 * w)) - 1, cur + 1, prev])
    b[o + w * i:o + w * i + w] = min(v, (1 << (8 * w)) - 1).to_bytes(w, "big")
    out.append(bytes(b))
    # maps to glyphs outside, the map growing one past the end
    f = mk()
    n = f.n
    k = rng.choice(["4d", "4a", "12", "12big"])
    gid = rng.choice([n, n + 1, 65535, n - 1, 60000])
    if k == "4d":
        f.cmap = cmap_table([(3, 1, cmap4(rng, {65: gid}, style="delta"))])
    elif k == "4a":
        f.cmap = cmap_table([(3, 1, cmap4(rng, {65: 1, 66: gid}, style="array"))])
    elif k == "12":
        f.cmap = cmap_table([(3, 10, cmap12([(65, 65, gid)]))])
    else:
        f.cmap = cmap_table([(3, 10, cmap12([(65, 65, 65536 + rng.randrange(n)), (0x10000, 0x10001, rng.choice([0, 70000]))]))])
    out.append(f.build())
    # a segment whose array runs up to, onto or past the end of the glyph array, or starts before it
    f = mk()
    k, L = rng.randint(1, 4), rng.randint(1, 6)
    more = [(70 + 3 * i, 71 + 3 * i, rng.choice([0, 65535 - 60]), 0) for i in range(rng.choice([0, 0, 1, 2]))]
    sc = 2 + len(more)
    last = L + rng.choice([-1, 0, 0, 0, 1, 2, 100, -L, -L - 1])     # index of the last code of the segment
    ro = 2 * sc + 2 * (last - k + 1)
    seg = (65 - k, 64, 0, max(0, ro) % 65536)
    f.cmap = cmap_table([(3, 1, cmap4raw([seg] + more + [(0xFFFF, 0xFFFF, 1, 0)],
                                         [rng.choice([0, 1, f.n - 1]) for _ in range(L)]))])
    out.append(f.build())
    # counts that the table cannot hold; the table last in the file or not
    f = mk()
    t = f.tables()
    names = [x[0] for x in t]
    pick = rng.choice([x for x in names if len(dict(t)[x]) > 0])
    cut = rng.choice([1, 2, 4, 10])
    data = dict(t)[pick]
    cut = min(cut, len(data))
    order = [x for x in range(len(names)) if names[x] != pick] + [names.index(pick)]
    t = [(a, d[:len(d) - cut] if a == pick else d) for a, d in t]
    out.append(assemble(t, physical=order)[:None])
    b = assemble(t, physical=order)
    o = directory(b)[pick][1]
    out.append(b[:o + len(data) - cut])
    # glyph counts
    f = mk()
    b = bytearray(f.build())
    o = directory(b)[b"maxp"][1]
    b[o + 4:o + 6] = U16(rng.choice([0, f.n - 1, f.n + 1, 65535, 1]))
    out.append(bytes(b))
    f = mk()
    b = bytearray(f.build())
    o = directory(b)[b"hhea"][1]
    b[o + 34:o + 36] = U16(rng.choice([0, f.n + 1, 65535, 1]))
    out.append(bytes(b))
    # names: offset/length past the storage
    f = mk()
    f.name, _ = G.random_names(rng)
    b = bytearray(f.build())
    r, o, l = directory(b)[b"name"]
    i = rng.choice([0, 2, 4, 14, 16])
    if i + 2 <= l:
        b[o + i:o + i + 2] = U16(rng.choice([65535, 0, l, l - 1, rng.getrandbits(16), 1, 2]))
    out.append(bytes(b))
    # post
    f = mk()
    hdr = bytes(28)
    kind = rng.choice([0, 1, 2, 3])
    if kind == 0:
        f.post = post_table(0x20000, hdr, f.n, index=[0] * f.n, num=rng.choice([f.n + 1, f.n - 1, 0, 65535]))
    elif kind == 1:
        f.post = post_table(0x20000, hdr, f.n, index=[258 + rng.choice([0, 5, f.n])] * f.n, names=[b"ab"])
    elif kind == 2:
        f.post = post_table(0x20000, hdr, f.n, index=[258 + i for i in range(f.n)], names=[b"abc"] * (f.n - 1))
    else:
        f.post = post_table(0x25000, hdr, f.n, offsets=[0] * (f.n - 1))
    out.append(f.build())
    # OS/2 version and length
    f = mk()
    f.os2 = U16(rng.choice([0, 1, 4, 5, 6, 10, 11, 65535])) + bytes(rng.choice([76, 84, 94, 98, 0, 50]))
    f.asm["physical"] = None
    out.append(f.build())
    # cmap: offsets and lengths
    f = mk()
    b = bytearray(f.build())
    r, o, l = directory(b)[b"cmap"]
    i = rng.choice([2, 4, 8, 12, 14, 18, 20, 26, 28, 24])
    if i + 2 <= l:
        b[o + i:o + i + 2] = U16(rng.choice([0, 1, 2, 4, 0xFFFF, 0xFFFE, rng.getrandbits(16), l]))
    out.append(bytes(b))
    return out


HUGE = [1 << 40, (1 << 63) - 1, -(1 << 63), -1, 1 << 31, (1 << 31) - 1, 1 << 16, 65535]


def c12(g):
    rng = g.rng
    g.counts("first", "keep", "opt", "query")
    opts = ["hmtx", "glyf", "prep", "cvt", "fpgm", "name", "os2", "post", "cmap"]
    for i in range(g.n(170, 3500)):
        b, notes, f = G.random_font(rng, rng.choice(["small", "tiny", "bad", "chain", "small"]))
        for a in opts:
            if rng.random() < 0.3:
                setattr(f, a, False if a in ("hmtx", "glyf") else None)
        b = f.build()
        k = rng.random()
        if k < 0.35:
            b = G.mutate(rng, b)
        s = g.scn("any call")
        h = s.parse(g.blobs.add(b))
        hs = [h]
        for _ in range(rng.choice([2, 4, 6])):
            h = rng.choice(hs)
            k = rng.choice(["first", "keep", "keepr", "prune", "opt", "write", "query", "info", "reparse", "subset"])
            if k == "first":
                hs.append(s.first(h, rng.choice([rng.choice(HUGE), G.arg_first(rng, notes)])))
            elif k == "keep":
                gids = rng.choice([[], G.arg_gids(rng, notes), [65535], list(range(min(3000, notes["n"] * 3))), [0] * 50])
                kw = {"via": "nil"} if not gids and rng.random() < 0.5 else {}
                hs.append(s.keep(h, gids, **kw))
            elif k == "keepr":
                hs.append(s.keepr(h, rng.choice([[], G.arg_runes(rng, notes), [-1, 0x7FFFFFFF, -2147483648], [0xD800]])))
            elif k == "prune":
                s.add("prune", h=h, tables=rng.choice([[], [rng.choice(TABLES)], TABLES, ["cmap", "cmap"], ["post", "name"]]))
            elif k == "opt":
                s.add("opt", h=h)
            elif k == "write":
                s.add(rng.choice(["write", "writefile"]), h=h)
            elif k == "reparse":
                hs.append(s.reparse(s.write(h)))
            elif k == "query":
                s.add("query", h=h, pairs=G.arg_pairs(rng, notes) + [(-1, -1), (1 << 40, 0)],
                      runes=G.arg_runes(rng, notes, 4) + [-2147483648, 2147483647],
                      ids=[0, 4, -1, 65536, 1 << 40], recs=True, locs=[0, notes["n"], 65535])
            elif k == "info":
                s.info(h)
            else:
                s.add("subset", h=h, dst=s.dst(), gids=G.arg_gids(rng, notes))
        for h in hs:
            s.query(h, notes, rng)
            w = s.write(h)
            s.reparse(w)
    # everything that can be asked of a font with some of the prunable tables gone, on the font itself, on a subset of
    # it and on a font that never had them
    three = ["cmap", "post", "name"]
    for i, sel in enumerate([["cmap"], ["post"], ["name"], ["cmap", "post"], ["cmap", "name"], ["post", "name"], three]):
        for how in range(4):
            b, notes, f = G.random_font(rng, rng.choice(["small", "tiny"]))
            if how == 3:
                for a in sel:
                    setattr(f, a, None)
            s = g.scn("pruned " + ",".join(sel))
            h = s.parse(g.blobs.add(f.build()))
            if how == 1:
                h = s.first(h, max(1, notes["n"] - 1))
            elif how == 2:
                h = s.keep(h, G.arg_gids(rng, notes))
            if how != 3:
                s.add("prune", h=h, tables=sel)
            s.info(h)
            s.query(h, notes, rng)
            hs = [h, s.first(h, 1), s.keep(h, [0, 1]), s.keepr(h, [65, 66])]
            s.add("opt", h=h)
            s.reparse(s.write(h))
            for x in hs[1:]:
                s.info(x)
                s.query(x, notes, rng)
                s.write(x)
    for b, notes in g.specials():
        s = g.scn("special")
        hs = [s.parse(b)]
        for n in [-1, 0, 1, notes["n"], 1 << 62, -(1 << 63)]:
            hs.append(s.first(hs[0], n))
        hs.append(s.keep(hs[0], []))
        hs.append(s.keep(hs[0], [65535, 0, 65535]))
        hs.append(s.keepr(hs[0], [-1, 65]))
        for h in hs:
            s.add("opt", h=h)
            s.add("prune", h=h, tables=["cmap"])
            s.info(h)
            s.query(h, notes, rng)
            s.reparse(s.write(h))


def c13(g):
    rng = g.rng
    g.huge("huge", "prune")
    three = ["cmap", "post", "name"]
    lists = [[]] + [[a] for a in three] + [[a, b] for a in three for b in three] + \
            [["cmap", "post", "name"], ["name", "post", "cmap"]]
    odd = [["head"], ["glyf", "loca"], ["CMAP"], ["cmap "], [""], ["OS/2", "cmap"], ["nonsense", "post", "x"], ["hmtx"],
           ["name", "cvt ", "name"], ["kern"], ["trec"],
           ["x"] * 9 + ["post"], ["cmap", "x", "cmap", "y", "cmap", "name"], ["head", "hhea", "maxp", "OS/2", "prep", "fpgm", "name", "cmap"],
           ["post"] * 5 + ["name"], ["t%d" % k for k in range(300)] + ["cmap"], ["", "", "", "post", "", "", "", "cmap"]]
    for i in range(g.n(110, 2000)):
        b, notes, f = G.random_font(rng, rng.choice(["small", "mid", "tiny"]))
        for a in three:
            if rng.random() < 0.15:
                setattr(f, a, None)
        b = g.blobs.add(f.build())
        s = g.scn("prune")
        h = s.parse(b)
        if rng.random() < 0.3:
            h = g.derive(s, h, notes)
        if rng.random() < 0.3:
            s.query(h, notes, rng)
            s.write(h)
        for _ in range(rng.choice([1, 1, 2, 3])):
            l = lists[i % len(lists)] if rng.random() < 0.6 else odd[i % len(odd)] if rng.random() < 0.7 else rng.choice(odd)
            s.add("prune", h=h, tables=l)
            s.query(h, notes, rng)
            s.info(h)
            w = s.write(h)
        h2 = s.reparse(w)
        s.query(h2, notes, rng)
        s.info(h2)
        if rng.random() < 0.3:
            d = g.derive(s, h, notes)
            g.battery(s, d, notes)
    for b, notes in g.specials() + g.reals()[:1]:
        for l in (["cmap"], ["post"], ["name"], ["name", "cmap", "post"]):
            s = g.scn("special")
            h = s.parse(b)
            s.add("prune", h=h, tables=l)
            s.query(h, notes, rng)
            w = s.write(h)
            s.add("prune", h=h, tables=l)
            s.write(h)


def c14(g):
    rng = g.rng
    g.counts("query", "write")
    g.spread("query", "write", k=2)
    g.huge("huge", "query", "write")
    for i in range(g.n(150, 3000)):
        f = G.Font(1)
        f.name, ids = G.random_names(rng)
        notes = G.Notes(n=1, ids=ids)
        s = g.scn("names")
        h = s.parse(g.blobs.add(f.build()))
        ask = sorted(set(ids)) + [0, 4, 65535, -1, 70000, 65536 + (ids[0] if ids else 0)]
        s.add("query", h=h, pairs=[], runes=[], ids=ask, recs=True, locs=[])
        w = s.write(h)
        h2 = s.reparse(w)
        s.add("query", h=h2, pairs=[], runes=[], ids=ask, recs=True, locs=[])
        if rng.random() < 0.3:
            d = rng.choice([s.first, s.keep])(h, rng.choice([0, 1])) if False else s.first(h, rng.choice([0, 1]))
            s.add("query", h=d, pairs=[], runes=[], ids=ask, recs=True, locs=[])
    # every Mac Roman byte; every block of the Basic Multilingual Plane that is judged
    def ask(recs, label):
        f = G.Font(1)
        f.name = name_table(recs)
        s = g.scn(label)
        h = s.parse(g.blobs.add(f.build()))
        s.add("query", h=h, pairs=[], runes=[], ids=sorted({r[3] for r in recs}), recs=True, locs=[])
    ask([(1, 0, 0, i, bytes(range(16 * i, 16 * i + 16))) for i in range(16)], "mac roman")
    ask([(3, 1, 0x409, i, bytes([0, i])) for i in range(256)], "latin")
    ask([(0, 3, 0, i, bytes([0, i])) for i in range(256)], "latin unicode")
    ask([(1, 0, 0, i, bytes([i])) for i in range(256)], "mac bytes")
    bl = [c for c in G.JUDGED_BMP + G.WEIRD]
    for k in range(0, len(bl), g.n(200, 50)):
        ask([(3, 1, 0x409, c % 65536, G.utf16([c])) for c in bl[k:k + g.n(60, 50)]], "block")
    for hi in (0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDFFF):
        ask([(3, 10, 1, 1, U16(hi)), (3, 10, 1, 2, U16(hi) + U16(65)), (3, 10, 1, 3, U16(hi) + U16(0xDE00)),
             (3, 10, 1, 4, U16(hi) + U16(hi) + U16(0xDE00)), (0, 4, 1, 5, U16(65) + U16(hi))], "surrogates")
    # the same bytes for records of different platforms, and for language tags; parts of others' strings
    for i in range(g.n(8, 60)):
        s = g.scn("shared strings")
        data = rng.choice([b"\0A\0B", b"\0A\0\xC4\1\x7F\0z", b"\0\x80\0\xFF", b"ABCDEF", b"\x20\xAC\0a\x20\x14"])
        store = b"\0x" + data + data[:2]
        where = [(2, len(data)), (2, len(data)), (2, len(data)), (2, 2), (2 + len(data), 2), (0, 2 + len(data)), (4, len(data) - 2)]
        recs = []
        for k in range(rng.choice([3, 6, 9])):
            pid, eid = rng.choice([(1, 0), (3, 1), (0, 3), (3, 10), (1, 0), (3, 1)])
            recs.append((pid, eid, rng.choice([0, 0x409, 0x407, 0x8000]), rng.choice([1, 1, 2, 4])) + rng.choice(where))
        if i % 2:
            recs = [(1, 0, 0, 1, 2, len(data)), (3, 1, 0x409, 1, 2, len(data)), (0, 3, 1, 1, 2, len(data))] + recs
            rng.shuffle(recs)
        tags = [rng.choice(where) for _ in range(rng.choice([0, 0, 2]))]
        size = 6 + 12 * len(recs) + (2 + 4 * len(tags) if tags else 0)
        f = G.Font(1)
        f.name = U16(1 if tags else 0) + U16(len(recs)) + U16(size) + \
            b"".join(b"".join(map(U16, r[:4])) + U16(r[5]) + U16(r[4]) for r in recs) + \
            ((U16(len(tags)) + b"".join(U16(l) + U16(o) for o, l in tags)) if tags else b"") + store
        h = s.parse(g.blobs.add(f.build()))
        for x in (h, s.reparse(s.write(h))):
            s.add("query", h=x, pairs=[], runes=[], ids=[1, 2, 4], recs=True, locs=[])
    # the first record wins a lookup, the last one a listing
    for i in range(g.n(10, 60)):
        recs = [(rng.choice([0, 1, 3]), rng.choice([0, 1]), rng.choice([0, 0x409]), rng.choice([1, 2]),
                 G.utf16([65 + k, 66])) for k in range(6)]
        ask(recs, "repeats")
    for b, notes in g.specials() + g.reals():
        s = g.scn("special")
        h = s.parse(b)
        s.add("query", h=h, pairs=[], runes=[], ids=list(range(25)), recs=True, locs=[])


def c15(g):
    rng = g.rng
    for i in range(g.n(70, 1200)):
        b, notes = g.font(profile=rng.choice(["small", "small", "tiny", "bad"]))
        raw = g.blobs.get(b)
        if rng.random() < 0.25:
            raw = G.mutate(rng, raw)
            b = g.blobs.add(raw)
        s = g.scn("chunks")
        h = s.parse(b)
        s.write(h)
        for _ in range(2):
            fl = {"chunk": rng.choice([1, 2, 3, 7, 64, 1000]), "eof": rng.random() < 0.5} if rng.random() < 0.7 else \
                 {"chunks": [rng.choice([0, 1, 2, 5, 4096]) for _ in range(3)] + [1]}
            d = s.parse(b, via="fault", fault=fl, ref=1)
            s.query(d, notes, rng)
            w = s.write(d)
            if rng.random() < 0.2:
                s.query(s.reparse(w), notes, rng)
    for raw, notes in G.spread_fonts(rng, g.n(3, 14)):
        b = g.blobs.add(raw)
        s = g.scn("spread")
        h = s.parse(b)
        s.query(h, notes, rng)
        s.write(h)
        for fl in [{"chunk": c} for c in (512, 1000, 4096)] + [{"chunks": [4096, 0, 1]}] + \
                  [{k: rng.randint(1, 40)} for k in ("read", "seek", "read", "seek")] + [{"at": rng.randint(1, len(raw))}]:
            d = s.parse(b, via="fault", fault=fl, ref=1)
            s.query(d, notes, rng)
            s.write(d)
    for i in range(g.n(60, 1500)):
        b, notes = g.font(profile=rng.choice(["small", "tiny", "small", "bad"]))
        size = len(g.blobs.get(b))
        s = g.scn("read faults")
        h = s.parse(b)
        s.write(h)
        for _ in range(g.n(6, 10)):
            fl = rng.choice([{"read": rng.randint(1, 60)}, {"at": rng.randint(1, size)}, {"seek": rng.randint(1, 60)},
                             {"at": rng.randint(1, size), "data": True}, {"read": rng.randint(1, 40), "once": True},
                             {"seek": rng.randint(1, 40), "once": True}, {"at": rng.randint(1, size), "once": True}])
            fl["soft"] = rng.random() < 0.3
            fl["chunk"] = rng.choice([0, 0, 0, 5])
            d = s.parse(b, via="fault", fault=fl, ref=1)
            s.query(d, notes, rng)
            s.write(d)
    # every read and every seek of one parse fails in turn, for once or for good
    for rep in range(g.n(2, 12)):
        b, notes = g.font(profile="small", want=("cmap", "name", "post", "glyf", "hmtx"))
        for kind in ("read", "seek"):
            for once in (True, False):
                for k in range(1, g.n(28, 60), 7):
                    s = g.scn("every " + kind)
                    h = s.parse(b)
                    s.write(h)
                    for j in range(k, k + 7):
                        d = s.parse(b, via="fault", fault={kind: j, "once": once, "soft": rng.random() < 0.3}, ref=1)
                        s.write(d)
        # every place in a font with all tables; a field has two bytes
        while rep == 0 or g.thorough:
            b, notes, f = G.random_font(rng, "tiny", ("cmap", "name", "post", "glyf", "hmtx"))
            if f.n > 1 and f.os2 and f.prep and f.fpgm and f.cvt and len(b) < 1400:
                f.post = post_table(0x20000, bytes(28), f.n, index=[258 + i for i in range(f.n)], names=[b"abc"] * f.n)
                f.os2 = U16(5) + bytes(range(2, 100))
                m = {65: 1, 67: 2, 70: 1} if f.n > 2 else {65: 1, 67: 1, 70: 1}
                f.cmap = cmap_table([(3, 1, G.cmap4(rng, m, style="array")), (1, 0, cmap6(65, sorted(m.values()))),
                                     (3, 10, cmap12(G.groups12(None, m)))])
                f.name = name_table([(3, 1, 0x409, 1, b"\0A\0B"), (1, 0, 0, 2, b"xyz"), (3, 1, 0x8000, 3, b"\0C")],
                                    [b"\0e\0n"], share=False)
                b = f.build()
                break
        if rep == 0 or g.thorough:
            b = g.blobs.add(b)
            for k in range(2, len(g.blobs.get(b)), 40):
                s = g.scn("every place")
                h = s.parse(b)
                s.write(h)
                for j in range(k, k + 40, 2):
                    d = s.parse(b, via="fault", fault={"at": j, "once": True}, ref=1)
                    s.write(d)
        top = len(g.blobs.get(b))
        step = max(1, top // g.n(45, 400))
        for k in range(1, top + 1, step * 15):
            s = g.scn("every place")
            h = s.parse(b)
            s.write(h)
            for j in range(k, min(top + 1, k + step * 15), step):
                d = s.parse(b, via="fault", fault={"at": j, "once": rng.random() < 0.5, "data": rng.random() < 0.3}, ref=1)
                s.write(d)
    # sinks
    for i in range(g.n(50, 1000)):
        b, notes = g.font(profile=rng.choice(["small", "tiny"]))
        s = g.scn("sinks")
        h = s.parse(b)
        if rng.random() < 0.4:
            h = g.derive(s, h, notes)
        lims = [rng.choice([0, 1, 3, 4, 11, 12, 13, 28, 27, 100, rng.randint(0, 1500), 1 << 29]) for _ in range(4)]
        if rng.random() < 0.5:
            s.write(h)
        for l in lims:
            s.add("writef", h=h, limit=l, via=rng.choice(["", "late", "once", "lateonce"]))
        s.query(h, notes, rng)
        s.write(h)
        s.add("writefile", h=h, pre=rng.choice(["", "longer", "shorter"]))
        if rng.random() < 0.3:
            s.add("writefile", h=h, pre="nodir")
    # every sink limit of one font
    for rep in range(g.n(1, 6)):
        b, notes = g.font(profile="tiny")
        size = len(g.blobs.get(b)) + 60
        step = max(1, size // g.n(80, 1500))
        for k in range(0, size, step * 20):
            s = g.scn("every limit")
            h = s.parse(b)
            for j in range(k, k + step * 20, step):
                s.add("writef", h=h, limit=j, via=["", "late"][(j // step + rep) % 2])
            s.write(h)
    for b, notes in g.specials():
        s = g.scn("special")
        h = s.parse(b, via="file")
        s.add("writefile", h=h, pre="longer")
        d = s.parse(b, via="fault", fault={"chunk": 3000, "eof": True}, ref=1)
        s.write(d)
        s.add("writef", h=h, limit=70000)
        s.write(h)
    s = g.scn("no file")
    s.add("parse", via="nofile", dst=s.dst())
    for b, notes in g.reals()[:1]:
        s = g.scn("real")
        h = s.parse(b, via="file")
        w = s.write(h)
        d = s.parse(b, via="fault", fault={"chunk": 1000, "eof": True}, ref=1)
        s.write(d)


def c16(g):
    rng = g.rng
    g.counts("query", "write")
    g.spread("query", "write", k=3)
    g.huge("huge", "query", "first", "keep")
    for i in range(g.n(130, 2500)):
        b, notes = g.font(want=("glyf",) if rng.random() < 0.9 else ())
        s = g.scn("locations")
        h = s.parse(b)
        locs = list(range(notes["n"] + 2)) + [65535, rng.randrange(65536)]
        ask = lambda x: s.add("query", h=x, pairs=[], runes=[], ids=[], recs=False, locs=locs)
        ask(h)
        hs = [h]
        for _ in range(rng.choice([0, 1, 2])):
            hs.append(g.derive(s, hs[-1], notes))
            ask(hs[-1])
        x = hs[-1]
        if rng.random() < 0.3:
            s.add("opt", h=x)
        w = s.write(x)
        y = s.reparse(w)
        ask(y)
        ask(x)
        if rng.random() < 0.4:
            for z in (h, x, y):
                s.info(z)
    for b, notes in g.specials():
        for mk in ("none", "first", "keep", "keep0"):
            s = g.scn("special " + mk)
            h = s.parse(b)
            if mk == "first":
                h = s.first(h, max(0, notes["n"] - 1))
            elif mk == "keep":
                h = s.keep(h, [max(0, notes["n"] - 1), 1])
            elif mk == "keep0":
                h = s.keep(h, [0])
            locs = list(range(min(notes["n"], 80) + 2)) + [65535]
            s.add("query", h=h, pairs=[], runes=[], ids=[], recs=False, locs=locs)
            y = s.reparse(s.write(h))
            s.add("query", h=y, pairs=[], runes=[], ids=[], recs=False, locs=locs)
    for b, notes in g.reals():
        s = g.scn("real")
        h = s.parse(b)
        d = s.keep(h, [36, 37, 100, notes["n"] // 3])
        locs = sorted(rng.sample(range(notes["n"]), 300)) + [notes["n"], 65535]
        s.add("query", h=h, pairs=[], runes=[], ids=[], recs=False, locs=locs)
        s.add("query", h=d, pairs=[], runes=[], ids=[], recs=False, locs=locs)
        s.write(d)


def c17(g):
    rng = g.rng
    g.huge("huge", "keepr")
    for i in range(g.n(120, 2500)):
        b, notes = g.font(want=("glyf", "cmap", "two"))
        runes = G.arg_runes(rng, notes)
        s = g.scn("by characters")
        h = s.parse(b)
        d = s.keepr(h, runes)
        s.query(d, notes, rng, runes)
        w = s.write(d)
        y = s.reparse(w)
        s.query(y, notes, rng, runes)
        perm = runes * rng.choice([1, 2])
        rng.shuffle(perm)
        e = s.keepr(h, perm)
        s.write(e)
        if rng.random() < 0.3:
            s.write(e)
            s.write(h)
            s.write(h)
        # by the glyphs themselves: generated from what the reference map of the notes says is unknown here, so the
        # specification ties both to the same set of glyphs; see TraceFont (lin)
        s.query(h, notes, rng, runes)
    for i in range(g.n(30, 400)):
        # fonts whose map is simple enough to know the glyphs beforehand
        n = rng.randint(3, 12)
        m = {65 + k: rng.randint(1, n - 1) for k in range(rng.randint(1, 10))}
        b, notes, f = G.random_font(rng, "small", want=("glyf", "two"))
        m = {c: 1 + (v % (f.n - 1)) for c, v in m.items()}
        f.cmap = cmap_table([(3, 1, cmap4(rng, m))] if rng.random() < 0.5 else
                            [(3, 10, cmap12(groups12(rng, m)))])
        s = g.scn("characters and glyphs")
        h = s.parse(g.blobs.add(f.build()))
        runes = [rng.choice(list(m) + [64, 0x263A]) for _ in range(rng.randint(0, 6))]
        gids = [m.get(r, 0) for r in runes]
        order = rng.random() < 0.5
        d = s.keepr(h, runes) if order else s.keep(h, gids)
        e = s.keep(h, gids) if order else s.keepr(h, runes)
        notes2 = G.Notes(n=f.n, codes=sorted(m), pairs=[(3, 1), (3, 10)])
        for x in (d, e):
            s.query(x, notes2, rng, runes)
            s.write(x)
    for b, notes in g.specials() + g.reals():
        s = g.scn("special")
        h = s.parse(b)
        runes = (notes.get("codes") or [65])[:8]
        d = s.keepr(h, runes)
        s.query(d, notes, rng, runes)
        s.write(d)
        e = s.keepr(h, runes[::-1] + runes)
        s.write(e)


def c18(g):
    rng = g.rng

    def step(s, b, r):
        s.add("strutils", bytes=list(b), runes=list(r))
    # every byte and every pair of bytes' worth of PDFDocEncoding and UTF-16 units
    s = g.scn("all bytes")
    for k in range(0, 256, 16):
        step(s, bytes(range(k, k + 16)), [])
    for k in range(256):
        step(s, bytes([k]), [k] if k else [])
    valid = [c for c in range(1, 0x110000) if not 0xD800 <= c < 0xE000]
    if g.thorough:
        pick = valid
    else:
        pick = list(range(1, 0x250)) + list(range(0x2000, 0x2300)) + list(range(0xFB00, 0xFB10)) + \
            [c for c in (0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0xFFFFF,
                         0x100000, 0x10FFFF, 0x10FC00)] + rng.sample(valid, 1500)
    for k in range(0, len(pick), 512):
        c = pick[k:k + 512]
        s = g.scn("code points")
        step(s, "".join(map(chr, c)).encode("utf-16-be"), c)
    # every 16-bit unit, alone and before and after others
    for k in range(0, 65536, g.n(4096 * 4, 512)):
        s = g.scn("units")
        us = [u for u in range(k, k + 256)]
        step(s, b"".join(U16(u) for u in us), [])
    for i in range(g.n(60, 1500)):
        s = g.scn("mixes")
        us = [rng.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, 65, 0xFFFF, 0xFEFF, 0xFFFE, 0, rng.getrandbits(16)])
              for _ in range(rng.randint(0, 9))]
        b = b"".join(U16(u) for u in us)
        if rng.random() < 0.25:
            b = b[:-1]
        step(s, b, [rng.choice(valid) for _ in range(rng.randint(0, 12))])
        step(s, bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 12))),
             [rng.choice(G.JUDGED_BMP + [0x20AC, 0x2022, 0x2D8, 0x152, 0x0A, 0xAD, 0x7F, 0x9F, 0xA0]) for _ in range(6)])


def c20(g):
    rng = g.rng
    g.counts("info")
    g.huge("huge", "info", "first")
    for i in range(g.n(110, 2500)):
        b, notes = g.font(profile=rng.choice(["small", "mid", "tiny", "chain"]))
        s = g.scn("reports")
        h = s.parse(b)
        s.info(h)
        if rng.random() < 0.6:
            k = rng.choice(["prune", "first", "keep", "opt", "write"])
            if k == "prune":
                s.add("prune", h=h, tables=rng.sample(["cmap", "post", "name"], rng.choice([1, 2])))
            elif k == "opt":
                s.add("opt", h=h)
            elif k == "write":
                h = s.reparse(s.write(h))
            else:
                h = g.derive(s, h, notes, (k,))
            s.info(h)
    for kind in ("1", "2", "25", "3", "4") * g.n(2, 20):
        n = rng.choice([1, 3, 11, 12, 30, 258, 259, 300])
        f = G.Font(n)
        f.glyphs = [b""] * n
        f.post = G.random_post(rng, n, kind)
        s = g.scn("post " + kind)
        h = s.parse(g.blobs.add(f.build()))
        s.info(h)
        s.info(s.first(h, n // 2))
    post_landmarks(g)
    # all standard names
    n = 258
    f = G.Font(n)
    f.glyphs = [b""] * n
    f.post = post_table(0x20000, bytes(28), n, index=[(7 * i + 3) % 258 for i in range(n)])
    s = g.scn("standard names")
    h = s.parse(g.blobs.add(f.build()))
    s.info(h)
    for k in range(0, 258, 11):
        f = G.Font(11)
        f.glyphs = [b""] * 11
        f.post = post_table(0x20000, bytes(28), 11, index=[min(257, k + i) for i in range(11)])
        s = g.scn("standard names")
        s.info(s.parse(g.blobs.add(f.build())))
    for i in range(g.n(50, 800)):
        n = rng.choice([2, 8, 30, 300])
        notes = G.Notes(n=n)
        cm = G.random_cmap(rng, n, notes)
        s = g.scn("maps")
        h = s.parse(g.blobs.add(cmap_only_font(rng, cm, n).build()))
        s.info(h)
    # table sizes around the units
    for k in (0, 1, 1023, 1024, 1025, 1029, 10000, 1169057, 1048575, 1048576, 1048577)[:g.n(8, 11)]:
        f = G.Font(1)
        f.extra = [(b"kern", bytes(k)), (b"GPOS", bytes(rng.randint(0, 5000)))]
        s = g.scn("sizes")
        s.info(s.parse(g.blobs.add(f.build())))
    for b, notes in g.specials() + g.reals()[:g.n(1, 3)]:
        s = g.scn("special")
        h = s.parse(b)
        s.info(h)
        d = s.first(h, notes["n"] // 2)
        s.info(d)


def c21(g):
    """run concurrently, on fonts loaded separately (from the same bytes)"""
    rng = g.rng
    shared = [g.font(want=("cmap", "name", "post", "glyf")) for _ in range(g.n(4, 12))]
    for i in range(g.n(160, 2000)):
        g.life("concurrent", rng.choice([2, 3, 5]), font=rng.choice(shared) if rng.random() < 0.7 else None)
    for i in range(g.n(40, 500)):
        twins(g, "twins")
    for b, notes in (g.specials() + g.reals()[:1]) * 2:
        s = g.scn("special")
        h = s.parse(b)
        d = s.keepr(h, (notes.get("codes") or [65])[:5])
        s.query(h, notes, rng)
        s.write(d)
        s.info(d)
        s.add("validate", blob=b)


def c22(g):
    """calls that are given the name of a file"""
    rng = g.rng
    names = ["a", "b", "c"]
    for i in range(g.n(90, 1500)):
        fonts = [g.font(profile=rng.choice(["tiny", "small", "bad"])) for _ in range(2)]
        raws = [b for b, _ in fonts]
        raws.append(g.blobs.add(G.mutate(rng, g.blobs.get(raws[0]))))
        raws.append(g.blobs.add(g.blobs.get(raws[0]) + bytes(rng.randrange(256) for _ in range(rng.randint(1, 3)))))
        raws.append(g.blobs.add(b""))
        s = g.scn("files")
        hs = []
        s.add("fput", path="a", blob=raws[0])
        for _ in range(g.n(9, 14)):
            k = rng.random()
            if k < 0.2:
                s.add("fput", path=rng.choice(names), blob=rng.choice(raws))
            elif k < 0.26:
                s.add("fput", path=rng.choice(names))
            elif k < 0.5:
                d = s.dst()
                s.add("fparse", path=rng.choice(names + ["a", "link", "sub", "no/x", "gone"]), dst=d)
                hs.append(d)
            elif k < 0.6:
                s.add("fvalidate", path=rng.choice(names + ["a", "link", "sub", "no/x"]))
            elif hs and k < 0.85:
                s.add("fwrite", h=rng.choice(hs), path=rng.choice(names + names + ["sub", "no/x", "full"]))
            elif hs:
                d = g.derive(s, rng.choice(hs), fonts[0][1])
                if d:
                    hs.append(d)
        for d in hs[-4:]:
            s.query(d, fonts[0][1], rng)
            s.write(d)
    big = [(g.blobs.add(b), notes) for b, notes in G.huge_fonts(rng) if notes["kind"] in ("longtables", "megaglyph")]
    for b, notes in g.specials() + g.reals()[:1] + big:
        s = g.scn("special")
        s.add("fput", path="a", blob=b)
        d = s.dst()
        s.add("fparse", path="a", dst=d)
        s.add("fvalidate", path="a")
        s.add("fwrite", h=d, path="a")
        s.add("fput", path="a")
        s.add("fwrite", h=d, path="b")
        s.add("fvalidate", path="b")
        s.add("fwrite", h=d, path="full")


GENERATORS = {"C%02d" % k: f for k, f in [(1, c01), (2, c02), (3, c03), (4, c04), (5, c05), (6, c06), (7, c07), (8, c08),
                                         (9, c09), (10, c10), (11, c11), (12, c12), (13, c13), (14, c14), (15, c15),
                                         (16, c16), (17, c17), (18, c18), (20, c20), (21, c21), (22, c22)]}
