"""TrueType files built byte by byte, with control over every field.

Nothing here says what the library has to do with a file: that is the
specification's business (spec/*.tla), which reads the bytes itself.
"""
import struct

U16 = lambda v: struct.pack(">H", v & 0xFFFF)
S16 = lambda v: struct.pack(">h", v)
U32 = lambda v: struct.pack(">I", v & 0xFFFFFFFF)


def checksum(b):
    b = bytes(b) + b"\0" * (-len(b) % 4)
    return sum(struct.unpack(">%dI" % (len(b) // 4), b)) & 0xFFFFFFFF


# --------------------------------------------------------------------------
# glyphs

def simple_glyph(rng, size):
    """A simple glyph's bytes (size >= 10); the outline is opaque here."""
    nc = rng.choice([0, 1, 1, 2, 3, 7])
    head = S16(nc) + b"".join(S16(rng.randint(-2000, 2000)) for _ in range(4))
    return head + bytes(rng.randrange(256) for _ in range(size - 10))


def composite_glyph(rng, comps, instr=None, nc=-1, kinds=None, tail=b""):
    """comps: component glyph indices; instr: None or instruction bytes."""
    out = S16(nc) + b"".join(S16(rng.randint(-2000, 2000)) for _ in range(4))
    for k, g in enumerate(comps):
        words = rng.random() < 0.5
        scale = rng.choice([0, 0, 1, 2, 3]) if kinds is None else kinds[k % len(kinds)]
        fl = (1 if words else 0) | {0: 0, 1: 8, 2: 0x40, 3: 0x80}[scale]
        fl |= rng.choice([0, 2, 4, 0x200, 0x400, 0x800])
        if k + 1 < len(comps):
            fl |= 0x20
        if instr is not None and (k + 1 == len(comps) or rng.random() < 0.2):
            fl |= 0x100
        out += U16(fl) + U16(g)
        nargs = (4 if words else 2) + {0: 0, 1: 2, 2: 4, 3: 8}[scale]
        out += bytes(rng.randrange(256) for _ in range(nargs))
    if instr is not None:
        out += U16(len(instr)) + instr
    return out + tail


# --------------------------------------------------------------------------
# cmap subtables: each returns the subtable's bytes

def cmap0(m, lang=0, length=262):
    return U16(0) + U16(length) + U16(lang) + bytes(m.get(i, 0) for i in range(256))


def cmap6(first, gids, lang=0):
    return U16(6) + U16(10 + 2 * len(gids)) + U16(lang) + U16(first) + U16(len(gids)) + b"".join(U16(g) for g in gids)


def cmap12(groups, lang=0, length=None):
    n = 16 + 12 * len(groups)
    return U16(12) + U16(0) + U32(n if length is None else length) + U32(lang) + U32(len(groups)) + \
        b"".join(U32(a) + U32(b) + U32(c) for a, b, c in groups)


def runs(m):
    """mapping -> [(first, last, gid of first)], maximal delta runs"""
    out = []
    for c in sorted(m):
        if out and out[-1][1] + 1 == c and m[c] - out[-1][2] == c - out[-1][0]:
            out[-1][1] = c
        else:
            out.append([c, c, m[c]])
    return [tuple(x) for x in out]


def groups12(rng, m):
    """runs, some of them split"""
    out = []
    for a, b, g in runs(m):
        while b > a and rng is not None and rng.random() < 0.3:
            k = rng.randint(a, b - 1)
            out.append((a, k, g))
            g += k + 1 - a
            a = k + 1
        out.append((a, b, g))
    return out


def cmap4(rng, m, lang=0, style="mixed", last_delta=1, oddlen=False, cont=0.85):
    """m: code -> gid.  style: delta | array | mixed.  Array segments may span
    unmapped codes (entry 0) and carry an idDelta."""
    segs = []       # (start, end, delta, gids or None)
    codes = sorted(m)
    i = 0
    while i < len(codes):
        arr = style == "array" or (style == "mixed" and rng.random() < 0.5)
        if arr:
            j = i
            while j + 1 < len(codes) and codes[j + 1] - codes[j] <= 3 and rng.random() < cont and codes[j + 1] < 0xFFFF:
                j += 1
            s, e = codes[i], codes[j]
            d = rng.choice([0, 0, 1, 65535, 17, 40000])
            gl = []
            ok = True
            for c in range(s, e + 1):
                v = (m[c] - d) % 65536 if c in m else 0
                if c in m and v == 0:
                    ok = False
                gl.append(v)
            if not ok:
                d = 0
                gl = [m.get(c, 0) for c in range(s, e + 1)]
            segs.append((s, e, d, gl))
            i = j + 1
        else:
            j = i
            while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1 and m[codes[j + 1]] == m[codes[j]] + 1:
                j += 1
            if rng is not None and j > i and rng.random() < 0.2:
                j = rng.randint(i, j)
            segs.append((codes[i], codes[j], (m[codes[i]] - codes[i]) % 65536, None))
            i = j + 1
    segs.append((0xFFFF, 0xFFFF, last_delta, None))
    sc = len(segs)
    ga = b""
    ro = []
    for k, (s, e, d, gl) in enumerate(segs):
        if gl is None:
            ro.append(0)
        else:
            ro.append(2 * (sc - k) + len(ga))
            ga += b"".join(U16(g) for g in gl)
    es = sc.bit_length() - 1
    body = U16(2 * sc) + U16(2 * (1 << es)) + U16(es) + U16(2 * sc - 2 * (1 << es))
    body += b"".join(U16(x[1]) for x in segs) + U16(0)
    body += b"".join(U16(x[0]) for x in segs) + b"".join(U16(x[2]) for x in segs)
    body += b"".join(U16(x) for x in ro) + ga
    ln = 6 + len(body)
    if ln > 65535:
        raise ValueError("format 4 too long")
    return U16(4) + U16(ln) + U16(lang) + body


def cmap4raw(segs, ga, lang=0):
    """segs: [(start, end, delta, range offset)] with the last one, ga: glyph array.  Nothing is checked."""
    sc = len(segs)
    es = sc.bit_length() - 1
    body = U16(2 * sc) + U16(2 * (1 << es)) + U16(es) + U16(2 * sc - 2 * (1 << es))
    body += b"".join(U16(x[1]) for x in segs) + U16(0)
    body += b"".join(U16(x[0]) for x in segs) + b"".join(U16(x[2]) for x in segs)
    body += b"".join(U16(x[3]) for x in segs) + b"".join(U16(x) for x in ga)
    return U16(4) + U16(6 + len(body)) + U16(lang) + body


def cmap_table(subs, version=0, share=(), prefix=b"", pad=False):
    """subs: [(pid, eid, bytes)].  share: indices i whose record points at the
    subtable of record i - 1, or of record share[i]."""
    n = len(subs)
    off = 4 + 8 * n + len(prefix)
    recs, body, last = b"", prefix, off
    at = {}
    for i, (p, e, b) in enumerate(subs):
        if i in share and i:
            at[i] = at[share[i]] if isinstance(share, dict) else last
            recs += U16(p) + U16(e) + U32(at[i])
            continue
        last = at[i] = 4 + 8 * n + len(body)
        recs += U16(p) + U16(e) + U32(last)
        body += b
        if pad:
            body += b"\0" * (-len(body) % 4)
    return U16(version) + U16(n) + recs + body


# --------------------------------------------------------------------------
# the other tables

def name_table(recs, tags=None, gap=0, order=None, share=True):
    """recs: [(pid, eid, lang, id, bytes)]; tags: None (format 0) or [bytes]"""
    fmt = 0 if tags is None else 1
    hdr = 6 + 12 * len(recs) + (0 if tags is None else 2 + 4 * len(tags))
    store, pos = b"", {}

    def put(s):
        nonlocal store
        if share and s in pos:
            return pos[s]
        pos[s] = len(store)
        store += s
        return pos[s]
    strs = [r[4] for r in recs] + (tags or [])
    idx = list(range(len(strs))) if order is None else order(len(strs))
    offs = {}
    for i in idx:
        offs[i] = put(strs[i])
    out = U16(fmt) + U16(len(recs)) + U16(hdr + gap)
    for i, r in enumerate(recs):
        out += U16(r[0]) + U16(r[1]) + U16(r[2]) + U16(r[3]) + U16(len(r[4])) + U16(offs[i])
    if tags is not None:
        out += U16(len(tags))
        for k, t in enumerate(tags):
            out += U16(len(t)) + U16(offs[len(recs) + k])
    return out + b"\xAA" * gap + store


def post_table(ver, hdr, n, index=None, names=(), offsets=None, num=None):
    out = U32(ver) + hdr
    if ver == 0x00020000:
        out += U16(n if num is None else num) + b"".join(U16(x) for x in index)
        for s in names:
            out += bytes([len(s)]) + s
    elif ver == 0x00025000:
        out += U16(n if num is None else num) + b"".join(struct.pack(">b", x) for x in offsets)
    return out


# --------------------------------------------------------------------------
# the file

def assemble(tables, sfnt=0x00010000, align=4, sums=True, gap=0, physical=None,
             search=None, sort=True, adjust=True, trailer=b"", stride=0, first=0):
    """tables: [(tag, bytes)] in directory order.  physical: order in the file.  stride: each table begins a multiple of
    this behind the beginning of the one before."""
    n = len(tables)
    order = list(range(n)) if physical is None else physical
    pos, body, base = {}, b"", 12 + 16 * n
    for i in order:
        if gap and body:
            body += b"\x55" * gap
        body += b"\0" * (-(base + len(body)) % align)
        if stride:
            at = base + len(body)
            if first is None:
                first = at
            body += bytes(0x5A + k % 7 for k in range(first - at if not pos and first > at else (first - at) % stride))
        pos[i] = base + len(body)
        body += tables[i][1]
    body += b"\0" * (-len(body) % 4) + trailer
    es = max(n, 1).bit_length() - 1
    sr = (16 << es, es, (16 * n - (16 << es)) & 0xFFFF) if search is None else search
    out = U32(sfnt) + U16(n) + U16(sr[0]) + U16(sr[1]) + U16(sr[2])
    dirorder = sorted(range(n), key=lambda i: tables[i][0]) if sort else range(n)
    for i in dirorder:
        t, d = tables[i]
        if t == b"head" and len(d) >= 12:
            d = d[:8] + b"\0\0\0\0" + d[12:]
        out += t + U32(checksum(d) if sums else 0) + U32(pos[i]) + U32(len(d))
    out += body
    heads = [i for i in range(n) if tables[i][0] == b"head" and len(tables[i][1]) >= 12]
    if adjust and heads:
        h = pos[heads[0]] + 8
        out = out[:h] + b"\0\0\0\0" + out[h + 4:]
        out = out[:h] + U32(0xB1B0AFBA - checksum(out)) + out[h + 4:]
    return out


def directory(b):
    n = struct.unpack(">H", b[4:6])[0]
    out = {}
    for i in range(n):
        r = b[12 + 16 * i:28 + 16 * i]
        if len(r) == 16:
            t, s, o, l = struct.unpack(">4sIII", r)
            out[t] = (12 + 16 * i, o, l)
    return out


def refix(b):
    """Recompute record checksums and the adjustment of a (still sane) file."""
    b = bytearray(b)
    d = directory(b)
    if b"head" in d:
        h = d[b"head"][1]
        b[h + 8:h + 12] = b"\0\0\0\0"
    for t, (r, o, l) in d.items():
        b[r + 4:r + 8] = U32(checksum(b[o:o + l]))
    if b"head" in d:
        b[h + 8:h + 12] = U32(0xB1B0AFBA - checksum(b))
    return bytes(b)


def readjust(b):
    """Recompute only the adjustment of a (still sane) file."""
    b = bytearray(b)
    h = directory(b)[b"head"][1]
    b[h + 8:h + 12] = b"\0\0\0\0"
    b[h + 8:h + 12] = U32(0xB1B0AFBA - checksum(b))
    return bytes(b)


class Font:
    """A font to be built; every attribute may be set freely."""

    def __init__(self, n=5):
        self.n = n
        self.sfnt = 0x00010000
        self.short = True
        self.head = dict(major=1, minor=0, rev=0x00010000, flags=3, upem=1000,
                         created=b"\0\0\0\0\xd0\1\2\3", modified=b"\0\0\0\0\xd1\1\2\3",
                         bbox=(-100, -200, 900, 800), mac=0, ppem=8, hint=2, fmt=0)
        self.maxp_ver = 0x00010000
        self.maxp_rest = bytes(range(26))
        self.hhea_rest = U32(0x00010000) + bytes(range(4, 24))   # 24 bytes
        self.hhea_metricfmt = b"\0\0"
        self.nhm = None
        self.metrics = None      # [(aw, lsb)] * n
        self.hmtx = True
        self.glyphs = [b""] * n
        self.glyf = True
        self.loca = True
        self.loca_base = 0       # bytes before the first glyph
        self.glyf_tail = b""
        self.cmap = None         # bytes
        self.name = None
        self.post = None
        self.os2 = None
        self.prep = None
        self.cvt = None
        self.fpgm = None
        self.extra = []          # [(tag, bytes)]
        self.drop = set()        # required tables to leave out
        self.asm = {}            # options for assemble
        self.order = None        # rng for the physical order

    def tables(self):
        h = self.head
        head = U16(h["major"]) + U16(h["minor"]) + U32(h["rev"]) + U32(0) + U32(h.get("magic", 0x5F0F3CF5)) + \
            U16(h["flags"]) + U16(h["upem"]) + h["created"] + h["modified"] + \
            b"".join(S16(x) for x in h["bbox"]) + U16(h["mac"]) + U16(h["ppem"]) + S16(h["hint"]) + \
            U16(h.get("locfmt", 0 if self.short else 1)) + S16(h["fmt"])
        nhm = self.n if self.nhm is None else self.nhm
        m = self.metrics if self.metrics is not None else [(500 + i, i) for i in range(self.n)]
        hmtx = b"".join(U16(a) + S16(l) for a, l in m[:nhm]) + b"".join(S16(l) for _, l in m[nhm:])
        glyf, loc = b"\xEE" * self.loca_base, [self.loca_base]
        for g in self.glyphs:
            glyf += g
            loc.append(len(glyf))
        glyf += self.glyf_tail
        if self.short:
            assert all(x % 2 == 0 and x // 2 < 65536 for x in loc), "short loca"
            loca = b"".join(U16(x // 2) for x in loc)
        else:
            loca = b"".join(U32(x) for x in loc)
        t = [(b"head", head),
             (b"maxp", U32(self.maxp_ver) + U16(self.n) + self.maxp_rest),
             (b"hhea", self.hhea_rest + b"\0" * 8 + self.hhea_metricfmt + U16(nhm))]
        if self.hmtx:
            t.append((b"hmtx", hmtx))
        if self.loca:
            t.append((b"loca", loca))
        if self.glyf:
            t.append((b"glyf", glyf))
        for tag, v in ((b"prep", self.prep), (b"cvt ", self.cvt), (b"fpgm", self.fpgm), (b"name", self.name),
                       (b"OS/2", self.os2), (b"post", self.post), (b"cmap", self.cmap)):
            if v is not None:
                t.append((tag, v))
        t += self.extra
        return [x for x in t if x[0] not in self.drop]

    def build(self):
        t = self.tables()
        asm = dict(self.asm)
        if self.order is not None and "physical" not in asm:
            p = list(range(len(t)))
            self.order.shuffle(p)
            asm["physical"] = p
        return assemble(t, sfnt=self.sfnt, **asm)
