------------------------------ MODULE FontModel ------------------------------
(* The abstract font and the pure meaning of every operation of the library. *)
(*                                                                           *)
(* A font is a record                                                        *)
(*   known  FALSE if it was read from "open" input: nothing is claimed       *)
(*   sfnt   version bytes          n     glyph count                         *)
(*   head, maxp, hhea, os2, post, prep, cvt, fpgm, name, cmap   table values *)
(*   nhm    number of full horizontal metrics; if ~nhmx it is an upper bound *)
(*          only (subsetting may shorten the metric array)                   *)
(*   hmtx   [has, m: sequence of <<advance, lsb>> per glyph]                 *)
(*   loc    sequence of n + 1 glyph locations <<hi, lo>>                     *)
(*   glyf   [has, d: sequence of glyph data]                                 *)
EXTENDS FontTables

None == [has |-> FALSE]
Unknown == [known |-> FALSE]

-----------------------------------------------------------------------------
(* Parse                                                                     *)
Parse(b) ==
  IF ~DirFits(b) THEN [st |-> "rej", f |-> Unknown]
  ELSE
  LET dir == Dir(b)
      uniq == UniqueTags(dir)
      R(t) == RecOf(dir, t)
      H(t) == Has(dir, t)
  IN
  IF ~(H(T_head) /\ H(T_maxp) /\ H(T_hhea) /\ H(T_loca))
  THEN [st |-> IF uniq THEN "rej" ELSE "open", f |-> Unknown]
  ELSE IF ~uniq THEN [st |-> "open", f |-> Unknown]
  ELSE
  LET head == HeadOf(b, R(T_head))
      maxp == MaxpOf(b, R(T_maxp))
      hhea == HheaOf(b, R(T_hhea))
      w0   == WorstOf(<<head.st, maxp.st, hhea.st>>)
  IN
  IF w0 # "ok" THEN [st |-> w0, f |-> Unknown]
  ELSE
  LET n    == maxp.v.n
      hmtx == IF H(T_hmtx) THEN HmtxOf(b, R(T_hmtx), n, hhea.v.nhm) ELSE Absent
      loca == LocaOf(b, R(T_loca), n, head.v.short)
      glyf == IF ~H(T_glyf) THEN Absent
              ELSE IF loca.st # "ok" THEN [st |-> loca.st, v |-> None]
              ELSE GlyfOf(b, R(T_glyf), n, loca.v.loc)
      Opt(t, D(_, _)) == IF H(t) THEN D(b, R(t)) ELSE Absent
      prep == Opt(T_prep, BlobOf)
      fpgm == Opt(T_fpgm, BlobOf)
      cvt  == Opt(T_cvt, CvtOf)
      name == Opt(T_name, NameOf)
      os2  == Opt(T_OS2, OS2Of)
      post == IF H(T_post) THEN PostOf(b, R(T_post), n) ELSE Absent
      cmap == IF H(T_cmap) THEN CmapOf(b, R(T_cmap), n) ELSE Absent
      st   == WorstOf(<<hmtx.st, loca.st, glyf.st, prep.st, fpgm.st, cvt.st,
                        name.st, os2.st, post.st, cmap.st>>)
  IN
  IF st # "ok" THEN [st |-> st, f |-> Unknown]
  ELSE [st |-> "ok",
        f |-> [known |-> TRUE, sfnt |-> Slice(b, 0, 4), n |-> n,
               head |-> head.v, maxp |-> maxp.v.rest, hhea |-> hhea.v.rest,
               nhm |-> hhea.v.nhm, nhmx |-> TRUE, hmtx |-> hmtx.v, loc |-> loca.v.loc, glyf |-> glyf.v,
               prep |-> prep.v, fpgm |-> fpgm.v, cvt |-> cvt.v, name |-> name.v,
               os2 |-> os2.v, post |-> post.v, cmap |-> cmap.v]]

-----------------------------------------------------------------------------
(* Glyph components.  Components(raw) = [ok, gids].                          *)
Bit(x, k) == (x \div Pow2(k)) % 2 = 1

RECURSIVE CompScan(_, _, _, _)
CompScan(raw, o, gids, instr) ==
  IF o + 4 > Len(raw) THEN [ok |-> FALSE, gids |-> {}]
  ELSE
  LET fl == U16(raw, o)
      g  == U16(raw, o + 2)
      args == IF Bit(fl, 0) THEN 4 ELSE 2
      scale == IF Bit(fl, 3) THEN 2 ELSE IF Bit(fl, 6) THEN 4 ELSE IF Bit(fl, 7) THEN 8 ELSE 0
      e == o + 4 + args + scale
      ins == instr \/ Bit(fl, 8)
  IN  IF e > Len(raw) THEN [ok |-> FALSE, gids |-> {}]
      ELSE IF Bit(fl, 5) THEN CompScan(raw, e, gids \cup {g}, ins)
      ELSE IF ins /\ e >= Len(raw) THEN [ok |-> FALSE, gids |-> {}]
      ELSE [ok |-> TRUE, gids |-> gids \cup {g}]

Components(raw) ==
  IF Len(raw) = 0 THEN [ok |-> TRUE, gids |-> {}]
  ELSE IF Len(raw) < 10 THEN [ok |-> FALSE, gids |-> {}]
  ELSE IF S16(raw, 0) >= 0 THEN [ok |-> TRUE, gids |-> {}]
  ELSE CompScan(raw, 10, {}, FALSE)

(* Closure of a set of glyph indices (0-based) under components.  Indices    *)
(* outside the font have none.                                               *)
RECURSIVE ClosureFrom(_, _, _)
ClosureFrom(f, done, todo) ==
  IF todo = {} THEN [ok |-> TRUE, set |-> done]
  ELSE
  LET cs == TLCEval([g \in todo |-> IF g < f.n THEN Components(f.glyf.d[g + 1])
                                    ELSE [ok |-> TRUE, gids |-> {}]])
      new == (UNION {cs[g].gids : g \in todo}) \ (done \cup todo)
  IN  IF \E g \in todo : ~cs[g].ok THEN [ok |-> FALSE, set |-> {}]
      ELSE ClosureFrom(f, done \cup todo, new)
Closure(f, gids) == ClosureFrom(f, {}, gids)

-----------------------------------------------------------------------------
(* Locations of glyphs laid out one after another.                           *)
AddI(p, k) == AddP(p, <<k \div 65536, k % 65536>>)
Layout(d) ==
  FoldLeft(LAMBDA acc, x : Append(acc, AddI(acc[Len(acc)], Len(x))), <<<<0, 0>>>>, d)

CutSub(s, k) == [s EXCEPT !.pairs = SelectSeq(s.pairs, LAMBDA p : p[2] < k)]
CutCmap(c, k) == IF ~c.has THEN c
                 ELSE [c EXCEPT !.subs = [i \in 1..Len(c.subs) |-> CutSub(c.subs[i], k)]]
CutNames(p, k) == IF p.has THEN [p EXCEPT !.names = SubSeq(p.names, 1, Min2(k, Len(p.names)))] ELSE p

(* The first k glyphs (k < n).                                               *)
Cut(f, k) ==
  [f EXCEPT !.n = k,
            !.nhm = Min2(@, k),
            !.nhmx = ~f.hmtx.has,
            !.hmtx = IF f.hmtx.has THEN [has |-> TRUE, m |-> SubSeq(f.hmtx.m, 1, k)] ELSE @,
            !.glyf = IF f.glyf.has THEN [has |-> TRUE, d |-> SubSeq(f.glyf.d, 1, k)] ELSE @,
            !.loc = IF f.glyf.has THEN Layout(SubSeq(f.glyf.d, 1, k)) ELSE SubSeq(f.loc, 1, k + 1),
            !.post = CutNames(@, k),
            !.cmap = CutCmap(@, k)]

First(f, k) == IF k >= f.n THEN f ELSE Cut(f, k)

(* Keep the glyphs of a closed set.                                          *)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
KeepSet(f, set) ==
  LET d == TLCEval([i \in 1..f.n |-> IF (i - 1) \in set THEN f.glyf.d[i] ELSE <<>>])
      k == Min2(MaxOf(set) + 1, f.n)
      g == [f EXCEPT !.glyf = [has |-> TRUE, d |-> d], !.loc = Layout(d), !.nhmx = ~f.hmtx.has]
  IN  IF k >= f.n THEN g ELSE Cut(g, k)
(* Keep(f, gids) = [ok, f]: fails if there is no glyph data or a composite   *)
(* that is needed cannot be read.                                            *)
Keep(f, gids) ==
  IF ~f.glyf.has THEN [ok |-> FALSE, f |-> f]
  ELSE LET c == Closure(f, gids)
       IN  IF c.ok THEN [ok |-> TRUE, f |-> KeepSet(f, c.set)] ELSE [ok |-> FALSE, f |-> f]

-----------------------------------------------------------------------------
(* Optimise: the shortest metric array that says the same.                   *)
MinNhm(m) ==
  IF Len(m) <= 1 THEN Len(m)
  ELSE LET w == m[Len(m)][1]
           diff == {i \in 1..Len(m) : m[i][1] # w}
       IN  IF diff = {} THEN 1 ELSE MaxOf(diff) + 1
Optimize(f) == IF f.hmtx.has THEN [f EXCEPT !.nhm = Min2(@, MinNhm(f.hmtx.m)), !.nhmx = TRUE] ELSE f
NhmOk(f, k) == IF f.nhmx THEN k = f.nhm ELSE k >= MinNhm(f.hmtx.m) /\ k <= f.nhm

PruneOne(f, t) == CASE t = "cmap" -> [f EXCEPT !.cmap = None]
                    [] t = "post" -> [f EXCEPT !.post = None]
                    [] t = "name" -> [f EXCEPT !.name = None]
                    [] OTHER -> f
Prune(f, ts) == FoldLeft(PruneOne, f, ts)

-----------------------------------------------------------------------------
(* What a written file of f reads as.  Glyph names are not written (post     *)
(* becomes version 3.0 unless it is 1.0), unsupported subtables and tables   *)
(* are dropped, locations start at 0.                                        *)
Rebase(loc) == IF loc[1] = <<0, 0>> THEN loc
               ELSE LET b == loc[1]
                        Minus(p) == IF p[2] >= b[2] THEN <<p[1] - b[1], p[2] - b[2]>>
                                    ELSE <<p[1] - b[1] - 1, p[2] + 65536 - b[2]>>
                    IN  [i \in 1..Len(loc) |-> Minus(loc[i])]
WritePost(p, n) == IF ~p.has THEN p
                   ELSE IF p.ver = <<1, 0>> THEN p
                   ELSE [p EXCEPT !.ver = <<3, 0>>, !.names = <<>>]
Written(f) ==
  [f EXCEPT !.loc = Rebase(@),
            !.post = WritePost(@, f.n),
            !.cmap = IF @.has THEN [@ EXCEPT !.nrec = Len(f.cmap.subs)] ELSE @]

(* Whether the file format can express f for certain: the name records have  *)
(* 16-bit offsets into the strings, which the source may have overlapped.    *)
NamesFit(n) ==
  n.has =>
  LET strs == {n.recs[i][5] : i \in 1..Len(n.recs)} \cup {n.tags[i] : i \in 1..Len(n.tags)}
      tot  == FoldLeft(LAMBDA a, s : a + Len(s), 0, SetToSeq(strs))
  IN  tot <= 65535 /\ 8 + 12 * Len(n.recs) + 4 * Len(n.tags) <= 65535
Expressible(f) == f.known => NamesFit(f.name)

(* Subtables are compared as mappings: the zero entries and the layout do    *)
(* not count.                                                                *)
SubView(s) == <<s.fmt, s.lang, {s.pairs[i] : i \in 1..Len(s.pairs)}>>
PairOf(s) == <<s.pid, s.eid>>
(* The order counts among subtables of one (platform, encoding).             *)
ViewsOf(subs, p) == LET q == SelectSeq(subs, LAMBDA s : PairOf(s) = p)
                    IN  TLCEval([i \in 1..Len(q) |-> SubView(q[i])])
PairsOf(subs) == {PairOf(subs[i]) : i \in 1..Len(subs)}
CmapEq(c, d) == /\ c.has = d.has
                /\ c.has => /\ c.ver = d.ver
                            /\ PairsOf(c.subs) = PairsOf(d.subs)
                            /\ \A p \in PairsOf(c.subs) : ViewsOf(c.subs, p) = ViewsOf(d.subs, p)

(* Component-wise comparison of what was written (w) with what f demands.    *)
WrittenClauses(w, f0) ==
  LET f == Written(f0) IN
  <<<<"w.sfnt", w.sfnt = f.sfnt>>,
    <<"w.n", w.n = f.n>>,
    <<"w.head", w.head = f.head>>,
    <<"w.maxp", w.maxp = f.maxp>>,
    <<"w.hhea", w.hhea = f.hhea>>,
    <<"w.nhm", NhmOk(f, w.nhm)>>,
    <<"w.hmtx", w.hmtx = f.hmtx>>,
    <<"w.loc", w.loc = f.loc>>,
    <<"w.glyf", w.glyf = f.glyf>>,
    <<"w.prep", w.prep = f.prep>>,
    <<"w.cvt", w.cvt = f.cvt>>,
    <<"w.fpgm", w.fpgm = f.fpgm>>,
    <<"w.name", w.name = f.name>>,
    <<"w.os2", w.os2 = f.os2>>,
    <<"w.post", w.post = f.post>>,
    <<"w.cmap", CmapEq(w.cmap, f.cmap)>>,
    <<"w.form", /\ FormOk(f.cmap) => FormOk(w.cmap)
                /\ TermOk(f.cmap) => TermOk(w.cmap)>>>>

-----------------------------------------------------------------------------
(* Validation: "ok" must succeed, "rej" must fail, "open" either.            *)
Validity(b) ==
  LET p == Parse(b) IN
  IF p.st = "rej" THEN "rej"
  ELSE LET dir == Dir(b)
       IN  IF \E i \in 1..Len(dir) : dir[i].len > 0 /\ ~RecSumOk(b, dir[i]) THEN "rej"
           ELSE IF \E i \in 1..Len(dir) : dir[i].len = 0 /\ dir[i].sum # <<0, 0>> THEN "rej"
           ELSE IF p.st = "open" \/ \E i \in 1..Len(dir) : ~RecInFile(b, dir[i]) THEN
                IF UniqueTags(dir) /\ Has(dir, T_head) /\ RecOf(dir, T_head).len >= 12
                   /\ ~AdjustmentOk(b, RecOf(dir, T_head).off) THEN "rej" ELSE "open"
           ELSE IF AdjustmentOk(b, RecOf(dir, T_head).off) THEN "ok" ELSE "rej"

(* Which tables a written file of f contains.                                *)
TablesOf(f) ==
  {T_head, T_maxp, T_hhea, T_loca}
  \cup (IF f.hmtx.has THEN {T_hmtx} ELSE {}) \cup (IF f.glyf.has THEN {T_glyf} ELSE {})
  \cup (IF f.prep.has THEN {T_prep} ELSE {}) \cup (IF f.cvt.has THEN {T_cvt} ELSE {})
  \cup (IF f.fpgm.has THEN {T_fpgm} ELSE {}) \cup (IF f.name.has THEN {T_name} ELSE {})
  \cup (IF f.os2.has THEN {T_OS2} ELSE {}) \cup (IF f.post.has THEN {T_post} ELSE {})
  \cup (IF f.cmap.has THEN {T_cmap} ELSE {})

(* The lengths of the tables of a written file of f, with nhm long metrics.  *)
LensOk(dir, f, nhm) ==
  LET Is(t, n) == Has(dir, t) => RecOf(dir, t).len = n
  IN  /\ Is(T_head, 54) /\ Is(T_maxp, 32) /\ Is(T_hhea, 36) /\ Is(T_post, 32)
      /\ Is(T_loca, (IF f.head.short THEN 2 ELSE 4) * (f.n + 1))
      /\ f.hmtx.has => Is(T_hmtx, 2 * f.n + 2 * nhm)
      /\ f.glyf.has => Is(T_glyf, FoldLeft(LAMBDA a, d : a + Len(d), 0, f.glyf.d))
      /\ f.prep.has => Is(T_prep, Len(f.prep.bytes))
      /\ f.fpgm.has => Is(T_fpgm, Len(f.fpgm.bytes))
      /\ f.cvt.has => Is(T_cvt, Len(f.cvt.bytes))
      /\ f.os2.has => Is(T_OS2, Len(f.os2.bytes))
=============================================================================
