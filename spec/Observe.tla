------------------------------- MODULE Observe -------------------------------
(* What the queries of the library answer, given the abstract font.  Every   *)
(* operator here judges an observed answer; where the meaning of the input   *)
(* is not settled by the OpenType documents it accepts anything.             *)
EXTENDS FontModel, Text, MacNames

-----------------------------------------------------------------------------
(* Character codes to runes, by platform and encoding.                       *)
EncOf(pid, eid) ==
  CASE pid = 0 /\ eid \in {4, 6}  -> "ucs4"
    [] pid = 0                    -> "ucs2"
    [] pid = 1 /\ eid = 0         -> "mac"
    [] pid = 3 /\ eid \in {0, 1}  -> "ucs2"
    [] pid = 3 /\ eid = 10        -> "ucs4"
    [] OTHER                      -> "opaque"
(* A code with no character decodes to U+FFFD; such entries are not judged.  *)
RuneOf(enc, c) ==
  CASE enc = "mac"  -> MacRune(c)
    [] OTHER        -> IF ValidRune(c) THEN c ELSE ReplChar
CodeOk(enc, c) == CASE enc = "mac"  -> c <= 255
                    [] enc = "ucs2" -> c <= 65535
                    [] enc = "ucs4" -> TRUE
                    [] OTHER        -> FALSE
(* The mapping rune -> gid of a subtable: [known, map, zeros].               *)
RuneMap(s) ==
  LET enc == EncOf(s.pid, s.eid)
      ok == /\ enc # "opaque"
            /\ \A i \in 1..Len(s.pairs) : CodeOk(enc, s.pairs[i][1])
            /\ \A c \in s.zeros : CodeOk(enc, c)
  IN  IF ~ok THEN [known |-> FALSE, map |-> {}, zeros |-> {}]
      ELSE [known |-> TRUE,
            map   |-> {p \in {<<RuneOf(enc, s.pairs[i][1]), s.pairs[i][2]>> : i \in 1..Len(s.pairs)} :
                          p[1] # ReplChar},
            zeros |-> {RuneOf(enc, c) : c \in s.zeros}]

(* The subtable that answers for (pid, eid): the first one.                  *)
SubsFor(f, pid, eid) ==
  IF f.cmap.has THEN SelectSeq(f.cmap.subs, LAMBDA s : s.pid = pid /\ s.eid = eid) ELSE <<>>

(* answer: [pid, eid, nil, pairs]                                            *)
CmapAnswerOk(f, a) ==
  LET ss == SubsFor(f, a.pid, a.eid)
  IN  IF ss = <<>> THEN a.nil
      ELSE LET m == RuneMap(ss[1])
               got == {p \in {<<a.pairs[i][1], a.pairs[i][2]>> : i \in 1..Len(a.pairs)} : p[1] # ReplChar}
           IN  /\ ~a.nil
               /\ m.known => /\ {p \in got : p[2] # 0} = m.map
                             /\ \A p \in got : p[2] = 0 => p[1] \in m.zeros

(* The character maps as the tool lists them: [at, gid, rune], at = which of *)
(* the three subtables.  One line per character, ordered by glyph; a line    *)
(* names one of the characters of its glyph.                                 *)
ListOrder == <<<<0, 3>>, <<1, 0>>, <<3, 1>>>>
CmapListOk(f, l) ==
  /\ \A i \in 1..Len(l) : l[i].at \in 1..3
  /\ \A i \in 1..Len(l) - 1 : \/ l[i].at < l[i+1].at
                              \/ (l[i].at = l[i+1].at /\ l[i].gid <= l[i+1].gid)
  /\ \A k \in 1..3 :
       LET ss == SubsFor(f, ListOrder[k][1], ListOrder[k][2])
           e  == SelectSeq(l, LAMBDA x : x.at = k)
       IN  IF ss = <<>> THEN e = <<>>
           ELSE LET m == TLCEval(RuneMap(ss[1]))
                    ez == SelectSeq(e, LAMBDA x : x.gid # 0)
                    enc == EncOf(ss[1].pid, ss[1].eid)
                    want == {p[2] : p \in m.map}
                    got  == {ez[i].gid : i \in 1..Len(ez)}
                    (* codes that are no characters are listed as U+FFFD *)
                    exact == \A i \in 1..Len(ss[1].pairs) : RuneOf(enc, ss[1].pairs[i][1]) # ReplChar
                IN  m.known =>
                      /\ want \subseteq got
                      /\ exact => Len(ez) = Cardinality(m.map) /\ got = want
                      /\ \A i \in 1..Len(ez) : \/ <<ez[i].rune, ez[i].gid>> \in m.map
                                               \/ (~exact /\ ez[i].rune = ReplChar)

(* Rune lookup: the set of glyphs allowed as the answer, or {-1} if open.    *)
LookupOrder == <<<<3, 1>>, <<1, 0>>, <<0, 3>>, <<3, 10>>>>
LookupMaps(f) ==
  TLCEval([i \in 1..4 |->
     LET ss == SubsFor(f, LookupOrder[i][1], LookupOrder[i][2])
     IN  IF ss = <<>> THEN [known |-> TRUE, map |-> {}, zeros |-> {}] ELSE RuneMap(ss[1])])
LookupRune(maps, r) ==
  LET hit(i) == {p[2] : p \in {q \in maps[i].map : q[1] = r}}
      acc == FoldLeft(LAMBDA a, i :
               IF a.done THEN a
               ELSE IF ~maps[i].known \/ r = ReplChar THEN [done |-> TRUE, set |-> {-1}]
               ELSE IF hit(i) # {} THEN [done |-> TRUE, set |-> a.set \cup hit(i)]
               ELSE IF r \in maps[i].zeros THEN [a EXCEPT !.set = @ \cup {0}]
               ELSE a,
             [done |-> FALSE, set |-> {}], <<1, 2, 3, 4>>)
  IN  IF acc.done THEN acc.set ELSE {0}
LookupOk(f, runes, gids) ==
  /\ Len(gids) = Len(runes)
  /\ LET maps == LookupMaps(f)
     IN  \A i \in 1..Len(runes) :
            LET want == LookupRune(maps, runes[i]) IN -1 \in want \/ gids[i] \in want

-----------------------------------------------------------------------------
(* Names.  Decoded(rec) = [known, text].                                     *)
Decoded(rec) ==
  LET pid == rec[1]
      eid == rec[2]
      b   == rec[5]
      utf16 == pid = 0 \/ (pid = 3 /\ eid \in {0, 1, 10})
      raw == IF utf16 THEN (IF Len(b) % 2 = 0 THEN Utf16Decode(b) ELSE <<-1>>)
             ELSE IF pid = 1 THEN [i \in 1..Len(b) |-> MacRune(b[i])]
             ELSE <<-1>>
      ok == \A i \in 1..Len(raw) : Judged(raw[i])
  IN  IF ok THEN [known |-> TRUE, text |-> MakePrintable(raw)] ELSE [known |-> FALSE, text |-> <<>>]

NameAnswerOk(f, a) ==
  LET rs == IF f.name.has THEN SelectSeq(f.name.recs, LAMBDA r : r[4] = a.id) ELSE <<>>
  IN  IF rs = <<>> THEN a.text = <<>>
      ELSE LET d == Decoded(rs[1]) IN d.known => a.text = d.text

RecsAnswerOk(f, recs) ==
  LET all == IF f.name.has THEN f.name.recs ELSE <<>>
      keys == {<<all[i][3], all[i][4]>> : i \in 1..Len(all)}
      got  == {<<recs[i].lang, recs[i].id>> : i \in 1..Len(recs)}
  IN  /\ keys = got /\ Cardinality(got) = Len(recs)
      /\ \A i \in 1..Len(recs) :
            LET rs == SelectSeq(all, LAMBDA r : r[3] = recs[i].lang /\ r[4] = recs[i].id)
                d  == Decoded(rs[Len(rs)])
            IN  d.known => recs[i].text = d.text

-----------------------------------------------------------------------------
(* Glyph locations.  answer: [gid, ok, hi, lo, lhi, llo]                     *)
SubP(p, q) == IF p[2] >= q[2] THEN <<p[1] - q[1], p[2] - q[2]>>
              ELSE <<p[1] - q[1] - 1, p[2] + 65536 - q[2]>>
LocAnswerOk(f, a) ==
  IF a.gid < f.n
  THEN /\ a.ok
       /\ <<a.hi, a.lo>> = f.loc[a.gid + 1]
       /\ <<a.lhi, a.llo>> = SubP(f.loc[a.gid + 2], f.loc[a.gid + 1])
  ELSE ~a.ok

-----------------------------------------------------------------------------
(* Reports.                                                                  *)
Trim(tag) ==
  LET sp(c) == c \in {9, 10, 11, 12, 13, 32}
      a == {i \in 1..Len(tag) : ~sp(tag[i])}
  IN  IF a = {} THEN <<>>
      ELSE SubSeq(tag, CHOOSE x \in a : \A y \in a : x <= y, CHOOSE x \in a : \A y \in a : y <= x)
AsciiTag(t) == \A i \in 1..4 : t[i] \in 33..126 \/ (t[i] = 32 /\ i > 1)

(* v hundredths of a kB for len bytes, rounded                               *)
KbOk(v, len) == LET d == v * 1024 - len * 100 IN d <= 514 /\ d >= -514
MbOk(v, len) == v < 2000 /\ LET d == v * 1048576 - len * 100 IN d <= 524300 /\ d >= -524300
SizeOk(e, len) ==
  IF e.unit = "B" THEN len <= 1024 /\ e.v = len
  ELSE IF e.unit = "kB" THEN len > 1024 /\ len <= 1048576 /\ (len < 20000000 => KbOk(e.v, len))
  ELSE len > 1048576 /\ (len < 20000000 => MbOk(e.v, len))
(* the directory report of a font read from the bytes b                      *)
TrecOk(b, a) ==
  LET dir == Dir(b)
  IN  (\A i \in 1..Len(dir) : AsciiTag(dir[i].tag)) =>
         /\ a.ntrec = Len(dir) /\ Len(a.trec) = Len(dir)
         /\ \A i \in 1..Len(dir) : a.trec[i].tag = Trim(dir[i].tag) /\ SizeOk(a.trec[i], dir[i].len)

MissingSet(f) ==
  (IF f.hmtx.has THEN {} ELSE {"hmtx"}) \cup (IF f.glyf.has THEN {} ELSE {"glyf"})
  \cup (IF f.os2.has THEN {} ELSE {"os2"}) \cup (IF f.name.has THEN {} ELSE {"name"})
  \cup (IF f.post.has THEN {} ELSE {"post"}) \cup (IF f.cmap.has THEN {} ELSE {"cmap"})

(* A glyph name as bytes.                                                    *)
NameIs(nm, bytes) ==
  CASE nm[1] = "std" -> bytes = StdBytes(nm[2])
    [] nm[1] = "own" -> bytes = nm[2]
    [] OTHER -> bytes = <<>>

SubReportOk(f, s, a) ==
  LET n == f.n
      e == a.entries
      enc == EncOf(s.pid, s.eid)
      ok == \A i \in 1..Len(s.pairs) : CodeOk(enc, s.pairs[i][1])
      RuneEq(c, r) == ok => LET x == RuneOf(enc, c) IN x = ReplChar \/ r = x
  IN  /\ a.fmt = s.fmt /\ a.pid = s.pid /\ a.eid = s.eid
      /\ IF s.fmt \in {0, 6}
         THEN (* one entry per code of the array *)
              /\ a.runes = s.cnt /\ Len(e) = s.cnt
              /\ \A i \in 1..Len(e) : e[i][1] = i - 1 /\ e[i][2] = s.first + i - 1
              /\ (\A i \in 1..Len(e) : CodeOk(enc, e[i][2])) =>
                    \A i \in 1..Len(e) : RuneEq(e[i][2], e[i][3])
         ELSE (* one entry per glyph: a code that maps to it, 0 if none *)
              LET ps == {s.pairs[i] : i \in 1..Len(s.pairs)}
                  mapped == {p[2] : p \in ps}
              IN  /\ a.runes = n /\ Len(e) = n
                  /\ \A i \in 1..Len(e) :
                       /\ e[i][1] = i - 1
                       /\ IF (i - 1) \in mapped
                          THEN <<e[i][2], i - 1>> \in ps /\ RuneEq(e[i][2], e[i][3])
                          ELSE i = 1 \/ e[i][2] = 0

(* The reports of a font with content f; b are the bytes it was read from    *)
(* (<<>> if it was derived from another font).                               *)
ReportClauses(f, b, a) ==
  LET miss == {a.missing[i] : i \in 1..Len(a.missing)}
      short == f.head.short
      np == IF f.post.has THEN Len(f.post.names) ELSE 0
  IN
  <<<<"info.missing", miss = MissingSet(f)>>,
    <<"info.trec", b = <<>> \/ TrecOk(b, a)>>,
    <<"info.string", a.string>>,
    <<"info.hhea", IF f.hmtx.has THEN NhmOk(f, a.nhm) ELSE a.nhm = f.nhm>>,
    <<"info.hmtx", f.hmtx.has => NhmOk(f, a.hm) /\ a.hm = a.nhm /\ a.lsb = f.n - a.hm>>,
    <<"info.loca", a.locshort = (IF short THEN f.n + 1 ELSE 0) /\ a.loclong = (IF short THEN 0 ELSE f.n + 1)>>,
    <<"info.glyf", f.glyf.has => /\ a.ndesc = f.n
                                 /\ LET tot == SubP(f.loc[f.n + 1], f.loc[1])
                                    IN  tot[1] < 300 => KbOk(a.glyfkb, tot[1] * 65536 + tot[2])>>,
    <<"info.cmap", f.cmap.has => /\ a.cver = f.cmap.ver
                                 /\ a.csub = Len(f.cmap.subs)
                                 /\ b # <<>> => a.cenc = f.cmap.nrec>>,
    <<"info.cmapsubs", f.cmap.has => /\ Len(a.subs) = Len(f.cmap.subs)
                                     /\ \A i \in 1..Len(a.subs) : SubReportOk(f, f.cmap.subs[i], a.subs[i])>>,
    <<"info.postcount", f.post.has =>
         /\ a.pgn = np
         (* versions 2.0 and 2.5 have a count of their own, 2.0 an index for each glyph *)
         /\ f.post.ver \in {<<2, 0>>, <<2, 20480>>} => a.png = f.n
         /\ f.post.ver = <<2, 0>> => a.pni = f.n>>,
    <<"info.postnames", f.post.has =>
         /\ Len(a.pfirst) = Min2(np, 11)
         /\ \A i \in 1..Len(a.pfirst) : NameIs(f.post.names[i], a.pfirst[i])
         /\ (Len(a.pall) = np => \A i \in 1..np : NameIs(f.post.names[i], a.pall[i]))>>>>
=============================================================================
