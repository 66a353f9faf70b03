"""Random fonts.  A generated font comes with notes (what it contains) that are
used only to choose interesting arguments, never to judge results."""
import struct
from fontkit import *

WIN_PAIRS = [(3, 0), (3, 1)]
JUDGED_BMP = (list(range(32, 127)) + list(range(161, 173)) + list(range(174, 592)) + list(range(913, 930)) +
              list(range(931, 975)) + list(range(1040, 1104)) + list(range(0x4E00, 0x4E40)))
WEIRD = list(range(0, 32)) + [127, 128, 0x9F, 0xA0, 0xAD, 0x200B, 0x2028, 0xFEFF, 0xE000, 0xF8FF]
ASTRAL = list(range(0x1F600, 0x1F650))


class Notes(dict):
    __getattr__ = dict.get


def rtext(rng, kinds="bwax", maxlen=12):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, rng.randint(0, maxlen)])):
        k = rng.choice(kinds)
        out.append(rng.choice({"b": JUDGED_BMP, "w": WEIRD, "a": ASTRAL, "x": list(range(65, 91))}[k]))
    return out


def utf16(cps):
    return "".join(chr(c) for c in cps).encode("utf-16-be", "surrogatepass")


def random_names(rng, big=False):
    recs = []
    ids = [0, 1, 2, 3, 4, 5, 6, rng.randint(7, 25), 256, rng.randint(0, 65535), 65535]
    n = rng.choice([0, 1, 2, 4, 8, rng.randint(0, 30)])
    if big:
        n = 400
    for _ in range(n):
        pid, eid = rng.choice([(0, 0), (0, 3), (0, 4), (1, 0), (3, 0), (3, 1), (3, 10), (3, 1), (1, 0),
                               (2, 1), (4, 0), (3, 3), (1, 1), (0, rng.randint(0, 6)), (7, 7)])
        lang = rng.choice([0, 0x409, 0x409, 0x407, 1, rng.randint(0, 65535), 0x8000])
        nid = rng.choice(ids)
        if pid == 1:
            b = bytes(rng.choice([rng.randrange(256), rng.randint(32, 126)]) for _ in range(rng.randint(0, 12)))
        else:
            b = utf16(rtext(rng))
            if rng.random() < 0.1:
                b += bytes([rng.choice([0xD8, 0xDB, 0xDC, 0xDF]), rng.randrange(256)])   # lone surrogate
            if rng.random() < 0.05:
                b = b[:-1]
        if big:
            b = utf16([rng.choice(JUDGED_BMP) for _ in range(60)])
        recs.append((pid, eid, lang, nid, b))
    if rng.random() < 0.7:
        recs.sort(key=lambda r: r[:4])
    tags = None
    if rng.random() < 0.4:
        tags = [utf16(rtext(rng, "x")) for _ in range(rng.choice([0, 1, 2, 3]))]
    order = None
    if rng.random() < 0.4:
        def order(k):
            p = list(range(k))
            rng.shuffle(p)
            return p
    t = name_table(recs, tags, gap=rng.choice([0, 0, 0, 2, 5]), order=order, share=rng.random() < 0.6)
    return t, [r[3] for r in recs]


def random_post(rng, n, kind=None):
    hdr = struct.pack(">IhhIIIII", rng.choice([0, 0xFFF40000, 0x00018000]), -100, 50, rng.choice([0, 1]),
                      rng.choice([0, 1000]), rng.choice([0, 70000]), 3, 0xFFFFFFFF)
    kind = kind or rng.choice(["1", "2", "2", "2", "25", "3", "3", "4"])
    if kind == "1":
        return post_table(0x00010000, hdr, n)
    if kind == "3":
        return post_table(0x00030000, hdr, n)
    if kind == "4":
        return post_table(rng.choice([0x00040000, 0x00020001, 0]), hdr, n)
    if kind == "25":
        offs = []
        for i in range(n):
            if rng.random() < 0.1:
                offs.append(rng.choice([-128, 127, -1]))
            else:
                k = rng.randrange(258)
                offs.append(max(-128, min(127, k - i)))
        return post_table(0x00025000, hdr, n, offsets=offs)
    own, index = [], []
    for i in range(n):
        if rng.random() < 0.5:
            index.append(rng.choice([0, rng.randrange(258), 257]))
        else:
            index.append(258 + len(own))
            ln = rng.choice([1, 3, 8, 8, 31, 63, 127, 128, 200, 255]) if rng.random() < 0.3 else rng.randint(1, 10)
            own.append(bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABC._0123456789") for _ in range(ln)))
    if rng.random() < 0.3 and own:        # names stored in another order
        p = list(range(len(own)))
        rng.shuffle(p)
        inv = {a: k for k, a in enumerate(p)}
        own2 = [own[a] for a in p]
        index = [x if x < 258 else 258 + inv[x - 258] for x in index]
        own = own2
    if rng.random() < 0.15 and n:
        index[rng.randrange(n)] = rng.choice([32768, 65535, 40000])
        # the name of that glyph may have been an own one: leave it unused only if the table stays consistent
        used = [x for x in index if 258 <= x <= 32767]
        if len(used) != len(own):
            keep = sorted(used)
            re = {a: 258 + k for k, a in enumerate(keep)}
            own = [own[a - 258] for a in keep]
            index = [re.get(x, x) for x in index]
    return post_table(0x00020000, hdr, n, index=index, names=own)


def random_map(rng, n, lo, hi, size):
    """code -> gid in 1..n-1, clustered"""
    m = {}
    if n <= 1 or size <= 0:
        return m
    while len(m) < size:
        c = rng.randint(lo, hi)
        run = rng.choice([1, 1, 2, 4, 9])
        g = rng.randint(1, n - 1)
        step = rng.choice([1, 1, 1, 0, 2])
        for k in range(run):
            if c + k > hi or len(m) >= size:
                break
            if 0 < g < n:
                m[c + k] = g
            g += step
            if g >= n:
                g = rng.randint(1, n - 1)
        if rng.random() < 0.02:
            break
    return m


def random_cmap(rng, n, notes, big=False):
    subs, pairs, codes = [], [], set()
    count = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
    if big:
        count = 3
    for _ in range(count):
        fmt = rng.choice([0, 4, 4, 4, 6, 12, 12, 2, 13, 14])
        pid, eid = {0: (1, 0), 4: (3, 1), 6: (1, 0), 12: (3, 10), 2: (3, 2), 13: (3, 10), 14: (0, 5)}[fmt]
        if rng.random() < 0.4:
            pid, eid = rng.choice([(0, rng.randint(0, 6)), (1, 0), (3, 0), (3, 1), (3, 10), (0, 3), (0, 4), (3, 2),
                                   (3, 3), (1, 1), (2, 1), (9, 9), (3, 1)])
        lang = rng.choice([0, 0, 0, 1, 65535])
        ucs4 = (pid, eid) in ((3, 10), (0, 4), (0, 6))
        wide = pid in (0, 3)
        top = 255 if not wide else 0xFFFF
        size = rng.choice([0, 1, 3, 10, 30]) if not big else 800
        try:
            if fmt == 0:
                m = random_map(rng, min(n, 256), 0, 255, min(size, 200))
                b = cmap0(m, lang)
            elif fmt == 6:
                first = rng.choice([0, 1, 32, 65, rng.randint(0, top)])
                cnt = rng.choice([0, 1, 5, 40])
                cnt = max(0, min(cnt, top - first + 1))
                gl = [rng.choice([0, rng.randint(0, max(0, n - 1))]) if rng.random() < 0.3 else rng.randint(0, max(0, n - 1))
                      for _ in range(cnt)]
                m = {first + i: g for i, g in enumerate(gl) if g}
                b = cmap6(first, gl, lang)
            elif fmt == 4:
                lo, hi = rng.choice([(32, 126), (0x20, 0x17F), (0, top), (0xFF00, 0xFFFE), (0xF000, 0xF0FF)])
                hi = min(hi, 0xFFFE)
                if not wide:
                    lo, hi = 0, 255
                m = random_map(rng, n, lo, hi, min(size, hi - lo))
                if rng.random() < 0.1 and not big:
                    m = {}
                if rng.random() < 0.12 and wide and n > 1:
                    m[0xFFFF] = rng.randint(1, n - 1)
                    if rng.random() < 0.5:
                        m[0xFFFE] = rng.randint(1, n - 1)
                b = cmap4(rng, m, lang, rng.choice(["mixed", "delta", "array"]), last_delta=rng.choice([1, 1, 0]))
            elif fmt == 12:
                lo, hi = rng.choice([(32, 126), (0, 0xFFFF), (0x10000, 0x10FFFF), (0x1F600, 0x1F64F)])
                if not ucs4:
                    lo, hi = (32, 126) if wide else (0, 255)
                m = random_map(rng, n, lo, hi, min(size, hi - lo))
                g = groups12(rng, m)
                if rng.random() < 0.15 and n:
                    used = set(m)
                    c = next((c for c in range(lo, hi) if c not in used), None)
                    if c is not None:
                        g = sorted(g + [(c, c, 0)])
                b = cmap12(g, rng.choice([0, 0, 1, 65536, 0xFFFFFFFF]))
            else:
                m = {}
                b = U16(fmt) + (U16(20) + bytes(16) if fmt == 2 else U16(0) + U32(20) + bytes(12))
        except ValueError:
            continue
        subs.append((pid, eid, b))
        pairs.append((pid, eid))
        codes |= set(m)
    if rng.random() < 0.5:
        z = sorted(range(len(subs)), key=lambda i: (subs[i][0], subs[i][1]))
        subs = [subs[i] for i in z]
    share = [i for i in range(1, len(subs)) if rng.random() < 0.1]
    notes["pairs"] = pairs
    notes["codes"] = sorted(codes)
    return cmap_table(subs, version=rng.choice([0, 0, 0, 1]), share=share, prefix=bytes(rng.choice([0, 0, 4])),
                      pad=rng.random() < 0.5)


def random_os2(rng):
    v = rng.choice([0, 1, 2, 3, 4, 5])
    ln = {0: 78, 1: 86, 2: 96, 3: 96, 4: 96, 5: 100}[v]
    return U16(v) + bytes(rng.randrange(256) for _ in range(ln - 2)) + bytes(rng.choice([0, 0, 0, 4]))


def random_glyphs(rng, n, short, big=False, bad=0.0):
    out = []
    for i in range(n):
        r = rng.random()
        if r < 0.15:
            g = b""
        elif r < 0.6 or n < 2:
            g = simple_glyph(rng, rng.choice([10, 12, 14, 26, 30 + rng.randint(0, 30)]))
        else:
            k = rng.choice([1, 1, 2, 2, 3, 5])
            lo = rng.random() < 0.8
            comps = [rng.randrange(n) for _ in range(k)]
            if rng.random() < 0.04:
                comps[rng.randrange(k)] = rng.choice([n, n + 1, 65535])
            instr = rng.choice([None, None, b"", bytes(rng.randrange(256) for _ in range(rng.randint(1, 6)))])
            if instr == b"":
                instr = None if rng.random() < 0.9 else b""
            nc = -1 if lo else rng.choice([-1, -2, -32768])
            g = composite_glyph(rng, comps, instr, nc)
            if rng.random() < bad:
                g = g[:rng.randint(1, len(g) - 1)]
        if short and len(g) % 2:
            g += b"\0"
        elif rng.random() < 0.2:
            g += b"\0" * rng.choice([2, 4])
        out.append(g)
    return out


def chain_glyphs(rng, n, short):
    """deep and cyclic composite references"""
    out = [simple_glyph(rng, 12)]
    for i in range(1, n):
        r = rng.random()
        if r < 0.75:
            comps = [i - 1]
        elif r < 0.9:
            comps = [min(n - 1, i + 1), rng.randrange(n)]
        else:
            comps = [i]
        g = composite_glyph(rng, comps)
        out.append(g + b"\0" * (len(g) % 2))
    return out


def random_metrics(rng, n):
    style = rng.choice(["mono", "tail", "rand", "two", "last"])
    m = []
    for i in range(n):
        aw = {"mono": 600, "tail": 600 if i >= n // 2 else 300 + i, "rand": rng.randint(0, 65535),
              "two": rng.choice([500, 501]), "last": 700 if i == n - 1 else 500}[style]
        m.append((aw, rng.randint(-32768, 32767) if rng.random() < 0.3 else rng.randint(-50, 50)))
    return m


def settle_nhm(rng, f):
    """choose the number of full metrics and make the rest consistent"""
    n = f.n
    if n == 0:
        f.nhm = 0
        return
    m = f.metrics
    k = n
    if rng.random() < 0.6:
        k = rng.randint(1, n)
        if rng.random() < 0.5:
            # the shortest that says the same
            k = n
            while k > 1 and m[k - 2][0] == m[n - 1][0]:
                k -= 1
            k = rng.randint(k, n)
    f.nhm = k
    f.metrics = m[:k] + [(m[k - 1][0], l) for _, l in m[k:]]


def random_head(rng, f):
    h = f.head
    h["rev"] = rng.choice([0x10000, 0x00018000, 0xFFFF0000, rng.getrandbits(32)])
    h["flags"] = rng.getrandbits(16)
    h["upem"] = rng.choice([16, 1000, 2048, 16384, rng.getrandbits(16)])
    h["created"] = bytes(rng.randrange(256) for _ in range(8))
    h["modified"] = bytes(rng.randrange(256) for _ in range(8))
    h["bbox"] = tuple(rng.randint(-32768, 32767) for _ in range(4))
    h["mac"], h["ppem"] = rng.getrandbits(16), rng.getrandbits(16)
    h["hint"] = rng.randint(-32768, 32767)
    h["fmt"] = rng.choice([0, 0, 1, -1])
    h["major"], h["minor"] = rng.choice([(1, 0), (1, 0), (rng.getrandbits(16), rng.getrandbits(16))])
    f.maxp_rest = bytes(rng.randrange(256) for _ in range(26))
    f.hhea_rest = bytes(rng.randrange(256) for _ in range(24))
    f.hhea_metricfmt = rng.choice([b"\0\0", b"\0\1"])


def random_font(rng, profile="small", want=()):
    """-> (bytes, notes).  want: names of things that have to be there."""
    notes = Notes(kind=profile)
    n = {"small": rng.choice([1, 2, 3, 5, 6, 8, 12]), "tiny": rng.choice([0, 1, 2]),
         "mid": rng.randint(20, 60), "many": rng.randint(250, 400), "chain": rng.randint(8, 30),
         "bad": rng.randint(3, 10)}[profile]
    if "two" in want and n < 2:
        n = 3
    f = Font(n)
    random_head(rng, f)
    f.short = rng.random() < 0.5
    f.sfnt = rng.choice([0x00010000, 0x00010000, 0x74727565])
    f.metrics = random_metrics(rng, n)
    settle_nhm(rng, f)
    f.hmtx = "hmtx" in want or rng.random() < 0.93
    if profile == "chain":
        f.glyphs = chain_glyphs(rng, n, f.short)
    else:
        f.glyphs = random_glyphs(rng, n, f.short, bad=0.25 if profile == "bad" else 0.0)
    f.glyf = "glyf" in want or rng.random() < 0.93
    f.loca_base = rng.choice([0, 0, 0, 0, 2, 8])
    f.glyf_tail = bytes(rng.choice([0, 0, 0, 4, 6]))
    if "cmap" in want or rng.random() < 0.85:
        f.cmap = random_cmap(rng, n, notes, big=profile == "many")
    if "name" in want or rng.random() < 0.8:
        f.name, notes["ids"] = random_names(rng)
    if "post" in want or rng.random() < 0.85:
        f.post = random_post(rng, n)
    if rng.random() < 0.8:
        f.os2 = random_os2(rng)
    for a in ("prep", "fpgm"):
        if rng.random() < 0.6:
            setattr(f, a, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 4, 17]))))
    if rng.random() < 0.6:
        f.cvt = bytes(rng.randrange(256) for _ in range(rng.choice([0, 2, 4, 18, 3])))
    for tag in (b"kern", b"GSUB", b"DSIG", b"gasp", b"zzzz", b"PCLT", b"hdmx", b"a b "):
        if rng.random() < 0.12:
            f.extra.append((tag, bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 8, 1030])))))
    f.asm["align"] = rng.choice([4, 4, 4, 2, 1])
    f.asm["gap"] = rng.choice([0, 0, 0, 4, 7])
    f.asm["sort"] = rng.random() < 0.85
    f.asm["trailer"] = bytes(rng.choice([0, 0, 0, 4, 3]))
    if rng.random() < 0.1:
        f.asm["search"] = (7, 7, 7)
    if rng.random() < 0.5:
        f.order = rng
    notes["n"] = n
    notes["short"] = f.short
    return f.build(), notes, f


def good_font(rng, profile="small", want=()):
    """a font whose checksums are right and whose tables are laid out neatly"""
    while True:
        b, notes, f = random_font(rng, profile, want)
        f.asm = {"align": 4}
        return f.build(), notes, f


def special_fonts(rng):
    """hand-picked boundary fonts -> [(bytes, notes)]"""
    out = []

    def add(f, **kw):
        out.append((f.build(), Notes(n=f.n, **kw)))
    # a glyph longer than 65535 bytes, short and long locations
    for short in (True, False):
        f = Font(4)
        f.short = short
        f.glyphs = [simple_glyph(rng, 12), simple_glyph(rng, 70000), b"", simple_glyph(rng, 20)]
        m = {65: 1, 66: 2, 67: 3}
        f.cmap = cmap_table([(3, 1, cmap4(rng, m)), (1, 0, cmap0(m))])
        add(f, kind="longglyph", pairs=[(3, 1), (1, 0)], codes=[65, 66, 67])
    # no glyphs at all
    for glyf in (True, False):
        f = Font(0)
        f.glyf = glyf
        f.post = random_post(rng, 0, "2")
        f.cmap = cmap_table([(3, 1, cmap4(rng, {}))])
        add(f, kind="empty", pairs=[(3, 1)])
    # maps ending at the last codes
    f = Font(6)
    f.glyphs = [simple_glyph(rng, 12) for _ in range(6)]
    m = {0xFFFC: 1, 0xFFFD: 2, 0xFFFE: 3, 0xFF00: 4}
    m12 = {0x10FFFF: 5, 0x10FFFE: 4, 0xFFFF: 3, 0: 2}
    f.cmap = cmap_table([(0, 3, cmap4(rng, m, style="delta")), (0, 4, cmap12(groups12(None, m12))),
                         (3, 1, cmap4(rng, m, style="array")), (3, 10, cmap12(groups12(None, m12)))])
    f.short = False
    add(f, kind="edgecodes", pairs=[(0, 3), (0, 4), (3, 1), (3, 10)], codes=sorted(set(m) | set(m12)))
    # the last code of all mapped by a segment before the last one
    f = Font(5)
    f.glyphs = [b""] * 5
    m, m2 = {0xFFFE: 3, 0xFFFF: 4}, {0xFFFD: 3, 0xFFFF: 1}
    f.cmap = cmap_table([(0, 3, cmap4(rng, m, style="delta")), (3, 1, cmap4(rng, m2, style="array"))])
    add(f, kind="lastcode", pairs=[(0, 3), (3, 1)], codes=[0xFFFD, 0xFFFE, 0xFFFF])
    # byte map with all 256 codes; trimmed maps starting high
    f = Font(300)
    f.short = False
    f.glyphs = [simple_glyph(rng, 12) if i % 7 else b"" for i in range(300)]
    f.cmap = cmap_table([(1, 0, cmap0({i: (i * 3 % 255) + 1 for i in range(256)})),
                         (3, 0, cmap6(0xF020, [(i * 7) % 300 for i in range(200)])),
                         (3, 1, cmap4(rng, {i + 32: (i * 5) % 299 + 1 for i in range(290)}, style="array"))])
    f.metrics = [(500, i) for i in range(300)]
    f.nhm = 1
    f.post = random_post(rng, 300, "2")
    add(f, kind="full", pairs=[(1, 0), (3, 0), (3, 1)], codes=list(range(32, 322)))
    # names that need more than 64K in total, all shared
    f = Font(2)
    f.glyphs = [b"", simple_glyph(rng, 12)]
    s = utf16([65 + i % 26 for i in range(2000)])
    f.name = name_table([(3, 1, l, i, s) for l in (0x409, 0x407) for i in range(20)])
    add(f, kind="longnames", ids=list(range(20)))
    # every supported subtable format for the same pair, plus duplicates
    f = Font(8)
    f.glyphs = [simple_glyph(rng, 12) for _ in range(8)]
    a, b = {65: 1, 66: 2, 67: 3}, {65: 4, 66: 5, 100: 6}
    f.cmap = cmap_table([(3, 1, cmap4(rng, a)), (3, 1, cmap4(rng, b)), (3, 1, cmap12(groups12(None, a))),
                         (1, 0, cmap0(a)), (1, 0, cmap6(65, [4, 5, 6])), (1, 0, cmap0(b)),
                         (0, 3, cmap4(rng, b)), (3, 10, cmap12(groups12(None, {65: 7, 0x1F600: 7})))])
    f.short = True
    add(f, kind="dups", pairs=[(3, 1), (1, 0), (0, 3), (3, 10)], codes=[65, 66, 67, 100, 0x1F600])
    # the smallest font there is
    f = Font(1)
    f.hmtx = False
    f.glyf = False
    add(f, kind="minimal")
    return out


def huge_fonts(rng):
    """fonts whose counts and lengths are at the ends of their ranges -> [(bytes, notes)]"""
    out = []

    def add(f, **kw):
        out.append((f.build(), Notes(n=f.n, **kw)))
    # tables longer than 65535 bytes
    f = Font(420)
    f.glyphs = [simple_glyph(rng, 12) if i % 3 else b"" for i in range(420)]
    f.short = False
    f.metrics = [(500 + i % 2, i) for i in range(420)]
    f.nhm = 420
    recs = [(3, 1, 0x409, i, utf16([65 + (i + k) % 50 for k in range(7000)])) for i in range(14)]
    f.name = name_table([(1, 0, 0, i, b"x") for i in range(0)] + recs[:5], gap=65000, share=False)
    f.prep, f.fpgm = bytes(rng.randrange(256) for _ in range(66000)), bytes(rng.randrange(256) for _ in range(65536))
    f.cvt = bytes(rng.randrange(256) for _ in range(65538))
    hdr = struct.pack(">IhhIIIII", 0, -100, 50, 0, 0, 0, 0, 0)
    own = [bytes(rng.choice(b"abcdefghij") for _ in range(200 + i % 40)) for i in range(420)]
    f.post = post_table(0x00020000, hdr, 420, index=[258 + i for i in range(420)], names=own)
    m = {0x4E00 + 2 * i: i % 419 + 1 for i in range(6000)}
    f.cmap = cmap_table([(3, 1, cmap12(groups12(None, {k: v for k, v in m.items()}))),
                         (3, 10, cmap12(groups12(None, {0x20000 + k: v for k, v in m.items()})))])
    f.extra.append((b"GPOS", bytes(1100000)))
    add(f, kind="longtables", pairs=[(3, 1), (3, 10)], codes=[0x4E00, 0x4E00 + 2 * 5999, 0x24E00], ids=list(range(5)))
    # a glyph longer than a megabyte
    f = Font(4)
    f.short = False
    f.glyphs = [simple_glyph(rng, 12), simple_glyph(rng, 12) + rng.randbytes((1 << 20) + 70002), simple_glyph(rng, 14),
                composite_glyph(rng, [0, 2], instr=bytes(rng.randrange(256) for _ in range(65535 - 36)), kinds=[0])]
    f.glyphs[3] += b"\0" * (65538 - len(f.glyphs[3]))      # its length modulo 65536 is less than what it needs
    f.cmap = cmap_table([(3, 1, cmap4(rng, {65: 1, 66: 2}))])
    add(f, kind="megaglyph", pairs=[(3, 1)], codes=[65, 66])
    # as many glyphs as there can be
    for nhm in (1, 65535):
        f = Font(65535)
        f.short = nhm == 1
        f.glyphs = [b""] * 65535
        for i in (0, 1, 32767, 32768, 65534):
            f.glyphs[i] = simple_glyph(rng, 12)
        f.glyphs[65533] = composite_glyph(rng, [65534, 1])
        f.glyphs[65533] += b"\0" * (len(f.glyphs[65533]) % 2)
        f.metrics = [(600, i % 1000) for i in range(65535)]
        f.nhm = nhm
        f.cmap = cmap_table([(3, 1, cmap4(rng, {65: 1, 66: 65534, 67: 32768, 0xFFFE: 65533}))])
        f.post = post_table(0x00010000, hdr, 65535) if nhm == 1 else \
            post_table(0x00020000, hdr, 65535, index=[i % 258 for i in range(65535)])
        add(f, kind="allglyphs", pairs=[(3, 1)], codes=[65, 66, 67, 0xFFFE])
    # a glyf table as long as short locations can address
    f = Font(4)
    f.short = True
    f.glyphs = [b"", simple_glyph(rng, 60000), simple_glyph(rng, 71000 + 60), simple_glyph(rng, 10)]
    assert sum(map(len, f.glyphs)) == 131070
    add(f, kind="shortend")
    return out


def count_fonts(rng, big=True):
    """every count that a file declares just beyond one byte, and (big) beyond two where it has more -> [(bytes, notes)]"""
    out = []

    def add(f, **kw):
        out.append((f.build(), Notes(n=f.n, **kw)))

    def plain(n=3):
        f = Font(n)
        f.glyphs = [simple_glyph(rng, 12) if i % 4 != 2 else b"" for i in range(n)]
        f.cmap = cmap_table([(3, 1, cmap4(rng, {65 + i: i % n for i in range(1, 20) if i % n}))])
        return f
    # table records
    f = plain()
    for i in range(rng.choice([250, 256, 300])):
        f.extra.append((rng.choice([b"A%03d", b"d%03d", b"i%03d", b"z%03d"]) % i, bytes(rng.randrange(256) for _ in range(i % 6))))
    add(f, kind="records")
    # name records and language tags
    for recs, tags in ((300, 3), (5, 300), (257, 256)):
        f = plain()
        rs = [(rng.choice([0, 1, 3]), 1, 0x400 + i // 200, i % 200, utf16([65 + (i // k) % 26 for k in (1, 26)])) for i in range(recs)]
        rs.sort(key=lambda r: r[:4])
        f.name = name_table(rs, [utf16([97 + i % 26, 97 + i // 26]) for i in range(tags)])
        add(f, kind="names", ids=[0, 1, 57, 99, 100, 199])
    # long strings
    f = plain()
    rs = [(3, 1, 0x409, i, utf16([65 + (k * 7 + i) % 26 for k in range(n // 2)])) for i, n in enumerate((254, 256, 258, 4096, 33000))]
    rs.append((1, 0, 0, 9, bytes(65 + k % 26 for k in range(27000))))
    f.name = name_table(sorted(rs, key=lambda r: r[:4]), share=False)
    add(f, kind="strings", ids=[0, 1, 2, 3, 4, 9])
    # character maps
    f = plain()
    subs = [(0, i, cmap6(65 + i % 7, [1 + i % 2], lang=0)) for i in range(7, 290)] + [(3, 1, cmap6(66, [1, 2, 1])), (3, 10, cmap12([(67, 67, 2)]))]
    f.cmap = cmap_table(subs)
    add(f, kind="maps", pairs=[(3, 1), (3, 10), (0, 7), (0, 255), (0, 256), (0, 262), (0, 263), (0, 289)], codes=[65, 66, 67, 68])
    # components
    f = plain(310)
    f.glyphs[304] = composite_glyph(rng, list(range(1, 300)), instr=bytes(300))
    f.glyphs[306] = composite_glyph(rng, [304, 305])
    f.glyphs[305] = composite_glyph(rng, [302, 303] * 140 + [301])
    f.glyphs = [g + b"\0" * (len(g) % 2) for g in f.glyphs]
    f.metrics = [(500 + i // 258, i) for i in range(310)]
    f.nhm = 259
    add(f, kind="components", kept=[[304], [306], [305, 0]])
    # segments, entries
    f = plain(700)
    f.cmap = cmap_table([(3, 1, cmap4(rng, {0x3000 + 2 * i: 1 + (i * 5) % 699 for i in range(600)}, style="delta")),
                         (0, 3, cmap6(0x100, [i % 700 for i in range(32700 if big else 600)])),
                         (3, 10, cmap12([(0x10000 + 2 * i, 0x10000 + 2 * i, 1 + i * 5 % 699) for i in range(66000 if big else 600)]))])
    f.metrics = [(500 + i // 520, i) for i in range(700)]
    f.nhm = 521
    f.hmtx = True
    add(f, kind="segments", pairs=[(3, 1), (0, 3), (3, 10)],
        codes=[0x3000, 0x3000 + 254 * 2, 0x3000 + 255 * 2, 0x3000 + 256 * 2, 0x3000 + 599 * 2, 0x10000 + 511 * 2,
               0x10000 + 600 * 2, 0x10000 + 65534 * 2, 0x10000 + 65535 * 2, 0x10000 + 65536 * 2, 0x10000 + 65999 * 2, 0x1FF, 0x200])
    # codes and glyphs whose distances agree in the last byte, or the last two; runs longer than one byte
    f = plain(700)
    near = {0x4000: 20, 0x4001: 277, 0x4002: 534, 0x4200: 100, 0x4301: 101, 0x4402: 102, 0x4600: 7, 0x4601: 8, 0x4602: 7}
    near.update({0x5000 + i: 30 + i for i in range(400)})
    far = dict(near)
    far.update({0x10041: 50, 0x20042: 51, 0x30043: 52, 0x12000: 60, 0x12101: 61})
    f.cmap = cmap_table([(0, 3, cmap4(rng, near, style="delta")), (1, 0, cmap6(200, [3, 260, 517, 4, 261, 5])),
                         (3, 1, cmap4(rng, near, style="mixed")), (3, 10, cmap12(groups12(None, far)))])
    own = [b"g%03d" % i for i in range(700)]
    f.post = post_table(0x00020000, struct.pack(">IhhIIIII", 0, -100, 50, 0, 0, 0, 0, 0), 700, index=[258 + i for i in range(700)], names=own)
    f.name = name_table([(3, 1, 0x400 + i // 100, i % 100, utf16([65 + i % 26, 97 + i // 26])) for i in range(700)])
    add(f, kind="runs", pairs=[(0, 3), (1, 0), (3, 1), (3, 10)], ids=[0, 1, 57, 99],
        codes=sorted(set(near) - set(range(0x5004, 0x50F0))) [:170] + sorted(set(far) - set(near)))
    # segments with arrays
    f = plain(700)
    f.cmap = cmap_table([(3, 1, cmap4(rng, {0x3000 + 5 * i + j: 1 + (i * 7 + j * 3) % 699 for i in range(600) for j in (0, 1)}, style="array"))])
    add(f, kind="arrays", pairs=[(3, 1)], codes=[0x3000 + 5 * i + j for i in list(range(0, 600, 37)) + [254, 255, 256, 257, 599] for j in (0, 1)])
    # platforms and encodings that agree with well-known ones in the last byte
    f = plain(5)
    odd = [(0, 259), (1, 256), (3, 256), (3, 257), (3, 266), (256, 3), (257, 0), (259, 1), (259, 10)]
    maps = [{65: 1 + i % 4, 200: 1 + (i + 1) % 4} for i in range(4)]
    f.cmap = cmap_table([(p, e, [cmap4(rng, m), cmap0(m), cmap6(65, [m[65], m[200]]), cmap12(groups12(None, m))][k])
                         for k, m in enumerate(maps) for p, e in odd])
    add(f, kind="platforms", pairs=[(0, 3), (1, 0), (3, 0), (3, 1), (3, 10), (0, 259), (1, 256), (3, 257), (3, 266), (256, 3), (257, 0), (259, 1)],
        codes=[65, 66, 200])
    if big:
        f = plain(6000)
        f.post = post_table(0x00020000, bytes(28), 6000, index=[258 + (i * 7) % 6000 for i in range(6000)], names=[b"n%x" % i for i in range(6000)])
        add(f, kind="manynames")
    return out


PARSE_ORDER = [b"head", b"maxp", b"hhea", b"hmtx", b"loca", b"glyf", b"prep", b"name", b"OS/2", b"post", b"cmap", b"cvt ", b"fpgm"]


def spread_fonts(rng, k=4):
    """tables, subtables, strings and glyphs at round distances, where a buffered reader may happen to be -> [(bytes, notes)]"""
    out = []
    for i in range(k):
        d = [4096, 512, 4096, 1024, 4096, 8192, 2048][i % 7]
        n = 0
        while n < 3:
            _, notes, f = random_font(rng, rng.choice(["small", "tiny"]))
            n = f.n
        f.glyphs = [simple_glyph(rng, 12 + 2 * (j % 3)) if j % 3 != 1 else b"" for j in range(f.n)]
        f.prep, f.cvt, f.fpgm = (bytes(rng.randrange(1, 256) for _ in range(rng.choice([4, 10]))) for _ in range(3))
        f.os2 = random_os2(rng)
        f.post = f.post or random_post(rng, f.n)
        fill = lambda n: bytes(0x41 + j % 23 for j in range(n))
        # strings a stride apart, the first of them a stride behind the table
        rs = [(1, 0, 0, 1, 0), (1, 0, 0, 2, d), (1, 0, 0, 4, 2 * d)]
        t = U16(0) + U16(len(rs)) + U16(d) + b"".join(U16(a) + U16(b) + U16(c) + U16(e) + U16(9) + U16(o) for a, b, c, e, o in rs)
        t += fill(d - len(t))
        for j in range(3):
            t += bytes(97 + (j * 5 + x) % 26 for x in range(9))
            t += fill(d - 9) if j < 2 else b""
        f.name = t
        if i % 5 == 3:
            f.name = name_table([(1, 0, 0, j, bytes(97 + (j * 5 + x) % 26 for x in range(9))) for j in (1, 2, 4)],
                                [utf16([101 + j, 110]) for j in range(3)])
        # character maps likewise
        subs = [(1, 0, cmap0({65 + j: j % n for j in range(9)})), (3, 1, cmap4(rng, {65 + j: (j * 3) % n for j in range(9) if j * 3 % n})),
                (3, 10, cmap12([(66, 66, n - 1)]))]
        head = U16(0) + U16(len(subs)) + b"".join(U16(a) + U16(b) + U32(d * (1 + j)) for j, (a, b, _) in enumerate(subs))
        t = head + fill(d - len(head))
        for j, (_, _, x) in enumerate(subs):
            t += x + (fill(d - len(x)) if j < 2 else b"")
        f.cmap = t
        tags = [x[0] for x in f.tables()]
        f.order = None
        f.asm = dict(physical=sorted(range(len(tags)), key=lambda j: PARSE_ORDER.index(tags[j]) if tags[j] in PARSE_ORDER else 99),
                     stride=d, first=[0, None, 0, 70000, 20][i % 5])
        out.append((f.build(), Notes(n=f.n, kind="spread %d" % d, codes=list(range(65, 74)), pairs=[(1, 0), (3, 1), (3, 10)], ids=[1, 2, 4])))
    return out


def arg_gids(rng, notes, k=None):
    n = notes["n"]
    k = rng.choice([0, 1, 1, 2, 3, 5]) if k is None else k
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.9 and n:
            out.append(rng.randrange(n))
        else:
            out.append(rng.choice([n, n + 1, 65535, 0]))
    if out and rng.random() < 0.2:
        out += [out[0]] * 2
    return [min(65535, x) for x in out]


def arg_runes(rng, notes, k=None):
    codes = notes.get("codes") or [65]
    k = rng.choice([0, 1, 2, 4, 8]) if k is None else k
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.75:
            out.append(rng.choice(codes))
        elif r < 0.9:
            out.append(rng.choice(codes) + rng.choice([-1, 1]))
        else:
            out.append(rng.choice([0, -1, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x7FFFFFFF, 233, 0x20AC, 8364]))
    return out


def arg_first(rng, notes):
    n = notes["n"]
    return rng.choice([0, 1, n - 1, n, n + 1, rng.randint(0, n), rng.randint(0, n), 65535, 65536, 1 << 33, -1,
                       n // 2, 258, 256]) if rng.random() < 0.5 else rng.randint(0, n)


ALL_PAIRS = [(0, 0), (0, 3), (0, 4), (0, 6), (1, 0), (3, 0), (3, 1), (3, 10), (3, 2)]


def arg_pairs(rng, notes):
    out = list(dict.fromkeys(notes.get("pairs") or []))
    out += [p for p in rng.sample(ALL_PAIRS, 3) if p not in out]
    if rng.random() < 0.1:
        out.append((rng.choice([-1, 70000, 65536 + 3]), rng.choice([1, 0])))
    return out


def twin(rng, b):
    """the same lengths, checksums and head, another content: aligned words of a table change places"""
    d = directory(b)
    tags = [t for t in d if t in (b"hmtx", b"glyf", b"name", b"post", b"cvt ", b"fpgm", b"OS/2", b"cmap")
            and d[t][2] >= 8 and d[t][1] + d[t][2] <= len(b)]
    b = bytearray(b)
    for t in rng.sample(tags, min(len(tags), rng.choice([1, 2, 3]))):
        r, o, l = d[t]
        lo = {b"name": 60, b"post": 4, b"OS/2": 4, b"cmap": 40, b"glyf": 8}.get(t, 0)
        ws = range(lo // 4, l // 4)
        for _ in range(3):
            if len(ws) > 1:
                i, j = (o + 4 * x for x in rng.sample(ws, 2))
                b[i:i + 4], b[j:j + 4] = b[j:j + 4], b[i:i + 4]
    return bytes(b)


def mutate(rng, b, notes=None):
    """-> a damaged copy"""
    d = directory(b)
    b = bytearray(b)
    kind = rng.choice(["cut", "flip", "flip", "field", "field", "field", "dir", "noise", "dup"])
    if kind == "cut":
        if rng.random() < 0.5 and d:
            t = rng.choice(sorted(d))
            r, o, l = d[t]
            k = o + rng.choice([0, 1, l // 2, max(0, l - 1), l, 2])
        else:
            k = rng.randint(0, len(b))
        b = b[:max(0, min(k, len(b)))]
    elif kind == "flip":
        for _ in range(rng.choice([1, 1, 2, 5])):
            i = rng.randrange(len(b))
            b[i] = rng.choice([0, 255, b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)])
    elif kind == "field" and d:
        t = rng.choice(sorted(d))
        r, o, l = d[t]
        if l >= 2:
            i = rng.choice([0, 2, 4, 6, 8, 10, 12, 14, 16, 34, 50, 32, rng.randrange(l)])
            i = min(i, l - 2)
            v = rng.choice([0, 1, 2, 0xFFFF, 0x8000, 0x7FFF, rng.getrandbits(16), 3, 258])
            b[o + i:o + i + 2] = U16(v)
    elif kind == "dir" and d:
        t = rng.choice(sorted(d))
        r, o, l = d[t]
        f = rng.choice([0, 8, 12])
        if f == 0:
            b[r:r + 4] = rng.choice([b"head", b"glyf", b"xxxx", b"loca", b"cmap", b"    "])
        else:
            b[r + f:r + f + 4] = U32(rng.choice([0, 1, len(b), len(b) - 1, 0xFFFFFFFF, 0x7FFFFFFF, rng.getrandbits(32),
                                                 (o if f == 8 else l) + rng.choice([-4, -1, 1, 2, 4, 100])]))
    elif kind == "dup":
        b[4:6] = U16(rng.choice([0, 1, len(d) - 1, len(d) + 1, 0xFFFF]))
    else:
        i = rng.randrange(len(b))
        for k in range(i, min(len(b), i + rng.randint(1, 40))):
            b[k] = rng.randrange(256)
    b = bytes(b)
    if rng.random() < 0.3:
        try:
            b = refix(b)
        except Exception:
            pass
    return b
