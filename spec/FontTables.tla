----------------------------- MODULE FontTables -----------------------------
(* What the bytes of a TrueType file mean, written from the OpenType         *)
(* documents: one decoder per table.  Every decoder yields                   *)
(*    st = "ok"    the table is well formed: a parser has to accept it       *)
(*         "rej"   data the table requires is missing or contradicts the     *)
(*                 font: a parser has to reject it                           *)
(*         "open"  neither (sloppy but readable): a parser may do either,    *)
(*                 and nothing is claimed about what it reads                *)
(*    v   = the decoded value (meaningful for "ok")                          *)
EXTENDS Sfnt

Worst(a, b) == IF a = "rej" \/ b = "rej" THEN "rej"
               ELSE IF a = "open" \/ b = "open" THEN "open" ELSE "ok"
WorstOf(s) == FoldLeft(LAMBDA x, y : Worst(x, y), "ok", s)

Absent == [st |-> "ok", v |-> [has |-> FALSE]]
Rej    == [st |-> "rej", v |-> [has |-> TRUE]]
Open   == [st |-> "open", v |-> [has |-> TRUE]]
Ok(v)  == [st |-> "ok", v |-> v]

(* A table seen through its record: r.off, r.len.                            *)
(* Need(b, r, n): can n bytes be read from the start of the table?           *)
(* (an empty table may be anywhere: it has no data that could be missing)    *)
Need(b, r, n) == IF r.off + n > Len(b) THEN IF n = 0 THEN "open" ELSE "rej"
                 ELSE IF n > r.len THEN "open" ELSE "ok"
TableInFile(b, r) == IF r.off + r.len > Len(b) THEN "open" ELSE "ok"

-----------------------------------------------------------------------------
(* head: 54 bytes; the checksum adjustment is not part of the value.         *)
HeadOf(b, r) ==
  LET st == Need(b, r, 54)
  IN  IF st = "rej" THEN Rej
      ELSE IF U32(b, r.off + 12) # <<24335, 15605>> THEN Rej    \* 0x5F0F3CF5
      ELSE IF U16(b, r.off + 50) > 1 THEN [st |-> "rej", v |-> [has |-> TRUE]]
      ELSE [st |-> st,
            v  |-> [bytes |-> Overwrite(Slice(b, r.off, 54), 8, Zero4),
                    short |-> U16(b, r.off + 50) = 0]]

(* maxp: version 1.0 only is well formed for TrueType outlines.              *)
MaxpOf(b, r) ==
  LET st == Need(b, r, 32)
      ver == U32(b, r.off)
  IN  IF r.off + 6 > Len(b) THEN Rej
      ELSE IF ver[1] = 0 \/ ver[1] >= 32768 THEN Rej
      ELSE IF st = "rej" THEN Rej
      ELSE [st |-> IF ver = <<1, 0>> THEN st ELSE "open",
            v  |-> [n |-> U16(b, r.off + 4),
                    rest |-> Slice(b, r.off, 4) \o Slice(b, r.off + 6, 26)]]

(* hhea: 36 bytes, bytes 24..31 reserved.                                    *)
HheaOf(b, r) ==
  LET st == Need(b, r, 36)
  IN  IF st = "rej" THEN Rej
      ELSE [st |-> st,
            v  |-> [nhm  |-> U16(b, r.off + 34),
                    rest |-> Slice(b, r.off, 24) \o Slice(b, r.off + 32, 2)]]

(* hmtx: glyph i >= nhm reuses the last advance width.                       *)
HmtxOf(b, r, n, nhm) ==
  LET lsbs == Max2(0, n - nhm)
      st == Need(b, r, 4 * nhm + 2 * lsbs)
      o == r.off
  IN  IF st = "rej" THEN Rej
      ELSE IF nhm > n \/ (nhm = 0 /\ n > 0) THEN Open
      ELSE [st |-> st,
            v |-> [has |-> TRUE,
                   m |-> TLCEval([i \in 1..n |->
                      IF i <= nhm THEN <<U16(b, o + 4 * (i - 1)), S16(b, o + 4 * (i - 1) + 2)>>
                      ELSE <<U16(b, o + 4 * (nhm - 1)), S16(b, o + 4 * nhm + 2 * (i - 1 - nhm))>>])]]

(* loca: n + 1 non-decreasing offsets.  Values are <<hi, lo>>.               *)
DoubleP(x) == IF x >= 32768 THEN <<1, 2 * (x - 32768)>> ELSE <<0, 2 * x>>
LessEqP(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
LocaOf(b, r, n, short) ==
  LET st == Need(b, r, (n + 1) * (IF short THEN 2 ELSE 4))
  IN  IF st = "rej" THEN Rej
      ELSE LET loc == TLCEval([i \in 1..(n + 1) |->
                         IF short THEN DoubleP(U16(b, r.off + 2 * (i - 1)))
                         ELSE U32(b, r.off + 4 * (i - 1))])
           IN  IF \E i \in 1..n : ~LessEqP(loc[i], loc[i + 1]) THEN Rej
               ELSE [st |-> st, v |-> [has |-> TRUE, loc |-> loc]]

PInt(p) == IF p[1] >= 15000 THEN Big ELSE p[1] * 65536 + p[2]

(* glyf: the data of glyph i lies between loca entries i and i + 1.          *)
GlyfOf(b, r, n, loc) ==
  LET At(i) == PInt(loc[i])
  IN  IF n = 0 THEN [st |-> TableInFile(b, r), v |-> [has |-> TRUE, d |-> <<>>]]
      ELSE IF At(n) > r.len \/ r.off + At(n + 1) > Len(b) THEN
           (* some non-empty glyph is not in the file, or the last one       *)
           (* starts outside the table                                       *)
           IF At(n) > r.len \/ \E i \in 1..n : At(i) < At(i + 1) /\ r.off + At(i + 1) > Len(b)
           THEN Rej ELSE Open
      ELSE [st |-> IF At(n + 1) > r.len THEN "open" ELSE TableInFile(b, r),
            v  |-> [has |-> TRUE,
                    d |-> TLCEval([i \in 1..n |-> Slice(b, r.off + At(i), At(i + 1) - At(i))])]]

(* prep, fpgm: opaque bytes;  cvt: 16-bit values, a trailing odd byte means  *)
(* nothing.                                                                  *)
BlobOf(b, r) == IF r.off + r.len > Len(b) THEN IF r.len = 0 THEN Open ELSE Rej
                ELSE Ok([has |-> TRUE, bytes |-> Slice(b, r.off, r.len)])
CvtOf(b, r) == IF r.off + 2 * (r.len \div 2) > Len(b) THEN IF r.len < 2 THEN Open ELSE Rej
               ELSE [st |-> TableInFile(b, r),
                     v |-> [has |-> TRUE, bytes |-> Slice(b, r.off, 2 * (r.len \div 2))]]

(* OS/2: the version says how many bytes there are.                          *)
OS2Len(v) == CASE v = 0 -> 78 [] v = 1 -> 86 [] v \in 2..4 -> 96 [] OTHER -> 100
OS2Of(b, r) ==
  IF r.off + 2 > Len(b) THEN Rej
  ELSE LET v == U16(b, r.off)
           st == Need(b, r, OS2Len(v))
       IN  IF v > 10 \/ st = "rej" THEN Rej
           ELSE [st |-> IF v > 5 THEN "open" ELSE st,
                 v |-> [has |-> TRUE, bytes |-> Slice(b, r.off, OS2Len(v))]]

-----------------------------------------------------------------------------
(* name: records pointing into a string storage; format 1 adds language tags.*)
NameOf(b, r) ==
  LET o == r.off IN
  IF Need(b, r, 6) = "rej" THEN Rej
  ELSE
  LET fmt == U16(b, o)
      cnt == U16(b, o + 2)
      so  == U16(b, o + 4)
      recEnd == 6 + 12 * cnt
      fits1 == fmt = 1 => o + recEnd + 2 <= Len(b)
      lt  == IF fmt = 1 /\ fits1 THEN U16(b, o + recEnd) ELSE 0
      hdr == recEnd + (IF fmt = 1 THEN 2 + 4 * lt ELSE 0)
      st  == Need(b, r, hdr)
      RO(i) == o + 6 + 12 * (i - 1)
      LO(i) == o + recEnd + 2 + 4 * (i - 1)
      Str(len, off) == Slice(b, o + so + off, len)
      Spans == [i \in 1..cnt |-> <<U16(b, RO(i) + 8), U16(b, RO(i) + 10)>>]
               \o [i \in 1..lt |-> <<U16(b, LO(i)), U16(b, LO(i) + 2)>>]
      bad == \E i \in 1..(cnt + lt) :
                LET e == so + Spans[i][2] + Spans[i][1] IN e > r.len \/ o + e > Len(b)
  IN  IF fmt > 1 \/ ~fits1 \/ st = "rej" THEN Rej
      ELSE IF cnt + lt > 0 /\ bad THEN Rej
      ELSE [st |-> IF so >= hdr THEN st ELSE "open",
            v |-> [has |-> TRUE, fmt |-> fmt,
                   recs |-> TLCEval([i \in 1..cnt |->
                       <<U16(b, RO(i)), U16(b, RO(i) + 2), U16(b, RO(i) + 4), U16(b, RO(i) + 6),
                         Str(U16(b, RO(i) + 8), U16(b, RO(i) + 10))>>]),
                   tags |-> TLCEval([i \in 1..lt |-> Str(U16(b, LO(i)), U16(b, LO(i) + 2))])]]

-----------------------------------------------------------------------------
(* post: header and, depending on the version, glyph names.  A name is       *)
(* <<"std", k>> (the k-th standard Macintosh name), <<"own", bytes>> or      *)
(* <<"none">>.                                                               *)
(* the k length-prefixed strings from offset o, limit e; <<"short">> last if *)
(* they run past the limit                                                   *)
PascalStrings(b, o, e, k) ==
  FoldLeft(LAMBDA acc, i :
             IF acc.short THEN acc
             ELSE IF acc.o >= e \/ acc.o + 1 + b[acc.o + 1] > e
                  THEN [acc EXCEPT !.short = TRUE]
                  ELSE [o |-> acc.o + 1 + b[acc.o + 1], short |-> FALSE,
                        out |-> Append(acc.out, Slice(b, acc.o + 1, b[acc.o + 1]))],
           [o |-> o, short |-> FALSE, out |-> <<>>], Idx(k))

S8(x) == IF x >= 128 THEN x - 256 ELSE x

PostOf(b, r, n) ==
  LET o == r.off
      st == Need(b, r, 32)
      hdr == Slice(b, o + 4, 28)
  IN
  IF st = "rej" THEN Rej
  ELSE LET ver == U32(b, o)
           V(names) == [has |-> TRUE, ver |-> ver, hdr |-> hdr, names |-> names]
  IN CASE ver = <<1, 0>> ->
            [st |-> st, v |-> V([i \in 1..n |-> IF i <= 258 THEN <<"std", i - 1>> ELSE <<"none">>])]
       [] ver = <<2, 0>> ->
            LET st2 == Need(b, r, 34) IN
            IF st2 = "rej" THEN Rej
            ELSE IF U16(b, o + 32) # n THEN Rej
            ELSE LET st3 == Need(b, r, 34 + 2 * n) IN
            IF st3 = "rej" THEN Rej
            ELSE LET ix == TLCEval([i \in 1..n |-> U16(b, o + 34 + 2 * (i - 1))])
                     own == SelectSeq(ix, LAMBDA x : x >= 258 /\ x <= 32767)
                     k == Len(own)
                     pas == TLCEval(PascalStrings(b, o + 34 + 2 * n, Min2(o + r.len, Len(b)), k))
                     strs == pas.out
                     short == pas.short
                     distinct == Cardinality({own[i] : i \in 1..k}) = k
                     inr == \A i \in 1..k : own[i] - 258 < k
                     empty == \E i \in 1..Len(strs) : strs[i] = <<>>
                 IN  IF short THEN            \* strings run past the table
                          IF PascalStrings(b, o + 34 + 2 * n, Len(b), k).short THEN Rej ELSE Open
                     ELSE IF ~inr THEN IF empty THEN Open ELSE Rej
                     ELSE [st |-> IF distinct /\ ~empty THEN st3 ELSE "open",
                           v |-> V(TLCEval([i \in 1..n |->
                                 IF ix[i] < 258 THEN <<"std", ix[i]>>
                                 ELSE IF ix[i] <= 32767 THEN <<"own", strs[ix[i] - 258 + 1]>>
                                 ELSE <<"none">>]))]
       [] ver = <<2, 20480>> ->                       \* 2.5: signed offsets
            LET st2 == Need(b, r, 34) IN
            IF st2 = "rej" THEN Rej
            ELSE IF U16(b, o + 32) # n THEN Rej
            ELSE LET st3 == Need(b, r, 34 + n)
                     K(i) == (i - 1) + S8(b[o + 34 + i])
                 IN IF st3 = "rej" THEN Rej
                    ELSE [st |-> st3,
                          v |-> V([i \in 1..n |->
                                    IF K(i) \in 0..257 THEN <<"std", K(i)>> ELSE <<"none">>])]
       [] OTHER -> [st |-> st, v |-> V(<<>>)]

-----------------------------------------------------------------------------
(* cmap.  A subtable's value is the sequence of <<code, gid>> pairs it lists *)
(* with gid > 0 (glyph 0 means "no glyph"), and the codes it lists explicitly*)
(* with glyph 0.  form: the fields that help searching are those the number  *)
(* of segments demands.  term: the last segment, which has to be there, maps *)
(* the last code to no glyph.                                                *)
Sub(st, fmt, lang, pairs, zeros) ==
  [st |-> st, fmt |-> fmt, lang |-> lang, pairs |-> pairs, zeros |-> zeros,
   first |-> 0, cnt |-> IF fmt = 0 THEN 256 ELSE 0, form |-> TRUE, term |-> TRUE]
SubBad(st, fmt) == Sub(st, fmt, <<0, 0>>, <<>>, {})

Within(b, o, n, e) == IF o + n > Len(b) THEN "rej" ELSE IF o + n > e THEN "open" ELSE "ok"

ArrayPairs(first, cnt, G(_)) ==
  SelectSeq(TLCEval([i \in 1..cnt |-> <<first + i - 1, G(i)>>]), LAMBDA p : p[2] > 0)
ArrayZeros(first, cnt, G(_)) == {first + i - 1 : i \in {j \in 1..cnt : G(j) = 0}}

Fmt0(b, o, e, n) ==
  LET st == Within(b, o, 262, e)
      G(i) == b[o + 6 + i]
      ps == ArrayPairs(0, 256, G)
  IN  IF st = "rej" THEN SubBad("rej", 0)
      ELSE Sub(IF U16(b, o + 2) # 262 \/ \E i \in 1..Len(ps) : ps[i][2] >= n THEN "open" ELSE st,
               0, <<0, U16(b, o + 4)>>, ps, {})

Fmt6(b, o, e, n) ==
  LET s0 == Within(b, o, 10, e) IN
  IF s0 = "rej" THEN SubBad("rej", 6)
  ELSE LET first == U16(b, o + 6)
           cnt == U16(b, o + 8)
           st == Within(b, o, 10 + 2 * cnt, e)
           G(i) == U16(b, o + 10 + 2 * (i - 1))
       IN  IF st = "rej" THEN SubBad("rej", 6)
           ELSE LET ps == ArrayPairs(first, cnt, G)
                IN  [Sub(IF \/ U16(b, o + 2) # 10 + 2 * cnt
                            \/ first + cnt > 65536
                            \/ \E i \in 1..Len(ps) : ps[i][2] >= n THEN "open" ELSE st,
                         6, <<0, U16(b, o + 4)>>, ps, ArrayZeros(first, cnt, G))
                     EXCEPT !.first = first, !.cnt = cnt]

Fmt4(b, o, e, n) ==
  LET s0 == Within(b, o, 14, e) IN
  IF s0 = "rej" THEN SubBad("rej", 4)
  ELSE
  LET len == U16(b, o + 2)
      sc  == U16(b, o + 6) \div 2
      ga  == 16 + 8 * sc                       \* where the glyph array starts
  IN
  IF Within(b, o, ga, e) = "rej" THEN SubBad("rej", 4)
  ELSE IF len < ga \/ U16(b, o + 6) % 2 = 1 \/ sc = 0 THEN SubBad("open", 4)
  ELSE
  LET st == Within(b, o, 2 * (len \div 2), e)
      gc == (len - ga) \div 2
      EndC(i) == U16(b, o + 14 + 2 * (i - 1))
      StartC(i) == U16(b, o + 16 + 2 * sc + 2 * (i - 1))
      Delta(i) == U16(b, o + 16 + 4 * sc + 2 * (i - 1))
      RangeO(i) == U16(b, o + 16 + 6 * sc + 2 * (i - 1))
      (* the address arithmetic of the OpenType document, in words:          *)
      Slot(i, c) == RangeO(i) \div 2 + (c - StartC(i)) + (i - 1) - sc
      GlyphAt(k) == U16(b, o + ga + 2 * k)
      Gid(i, c) == IF RangeO(i) = 0 THEN (c + Delta(i)) % 65536
                   ELSE LET g == GlyphAt(Slot(i, c))
                        IN  IF g = 0 THEN 0 ELSE (g + Delta(i)) % 65536
      shape == /\ EndC(sc) = 65535 /\ StartC(sc) = 65535
               /\ \A i \in 1..(sc - 1) : StartC(i) <= EndC(i)
               /\ \A i \in 1..(sc - 2) : EndC(i) < StartC(i + 1)
               /\ \A i \in 1..(sc - 1) : RangeO(i) % 2 = 0
               /\ \A i \in 1..(sc - 1) : RangeO(i) # 0 => Slot(i, StartC(i)) >= 0
      over == \E i \in 1..(sc - 1) : RangeO(i) # 0 /\ Slot(i, EndC(i)) >= gc
  IN
  IF st = "rej" THEN SubBad("rej", 4)
  ELSE IF ~shape THEN SubBad("open", 4)
  ELSE IF over THEN SubBad("rej", 4)
  ELSE
  LET all == TLCEval(Concat([i \in 1..(sc - 1) |->
                 [k \in 1..(EndC(i) - StartC(i) + 1) |->
                    LET c == StartC(i) + k - 1 IN <<c, Gid(i, c)>>]]))
      ps == SelectSeq(all, LAMBDA p : p[2] > 0)
  IN  IF \E i \in 1..Len(ps) : ps[i][2] >= n THEN SubBad("rej", 4)
      ELSE LET p2 == Pow2(Log2(sc)) IN
           [Sub(IF len % 2 = 1 THEN "open" ELSE st, 4, <<0, U16(b, o + 4)>>, ps, {})
            EXCEPT !.form = /\ U16(b, o + 8) = 2 * p2 /\ U16(b, o + 10) = Log2(sc)
                            /\ U16(b, o + 12) = 2 * sc - 2 * p2
                            /\ U16(b, o + 14 + 2 * sc) = 0,
                   !.term = IF RangeO(sc) = 0 THEN Delta(sc) = 1
                            ELSE Slot(sc, 65535) \in 0..(gc - 1) /\ GlyphAt(Slot(sc, 65535)) = 0]

Fmt12(b, o, e, n) ==
  LET s0 == Within(b, o, 16, e) IN
  IF s0 = "rej" THEN SubBad("rej", 12)
  ELSE
  LET ng == U32I(b, o + 12)
      fits == ng < 100000000
      st == IF fits THEN Within(b, o, 16 + 12 * ng, e) ELSE "rej"
      GO(i) == o + 16 + 12 * (i - 1)
      S(i) == U32I(b, GO(i))
      E(i) == U32I(b, GO(i) + 4)
      G(i) == U32I(b, GO(i) + 8)
  IN
  IF st = "rej" THEN SubBad("rej", 12)
  ELSE IF \E i \in 1..ng : G(i) >= n THEN SubBad("rej", 12)
  ELSE IF \/ \E i \in 1..ng : S(i) > E(i) \/ E(i) > 1114111 \/ G(i) + (E(i) - S(i)) >= n
          \/ \E i \in 1..(ng - 1) : E(i) >= S(i + 1)
          \/ U32I(b, o + 4) # 16 + 12 * ng
       THEN SubBad("open", 12)
  ELSE
  LET all == TLCEval(Concat([i \in 1..ng |->
                [k \in 1..(E(i) - S(i) + 1) |-> <<S(i) + k - 1, G(i) + k - 1>>]]))
  IN  Sub(st, 12, U32(b, o + 8), SelectSeq(all, LAMBDA p : p[2] > 0),
          {all[i][1] : i \in {j \in 1..Len(all) : all[j][2] = 0}})

FormOk(c) == c.has => \A i \in 1..Len(c.subs) : c.subs[i].form
TermOk(c) == c.has => \A i \in 1..Len(c.subs) : c.subs[i].term

CmapOf(b, r, n) ==
  LET o == r.off
      s0 == Need(b, r, 4)
  IN
  IF s0 = "rej" THEN Rej
  ELSE
  LET k == U16(b, o + 2)
      s1 == Need(b, r, 4 + 8 * k)
      RO(i) == o + 4 + 8 * (i - 1)
      e == o + r.len
  IN
  IF s1 = "rej" THEN Rej
  ELSE
  LET One(i) ==
        LET so == o + U32I(b, RO(i) + 4)
            base == [pid |-> U16(b, RO(i)), eid |-> U16(b, RO(i) + 2)]
        IN  IF so + 2 > Len(b) THEN base @@ SubBad("rej", -1)
            ELSE LET f == U16(b, so)
                 IN base @@ CASE f = 0  -> Fmt0(b, so, e, n)
                              [] f = 4  -> Fmt4(b, so, e, n)
                              [] f = 6  -> Fmt6(b, so, e, n)
                              [] f = 12 -> Fmt12(b, so, e, n)
                              [] OTHER  -> SubBad("ok", -1)       \* not supported
      all == TLCEval([i \in 1..k |-> One(i)])
      subs == SelectSeq(all, LAMBDA s : s.fmt # -1)
  IN  [st |-> WorstOf(<<s1>> \o [i \in 1..k |-> all[i].st]),
       v |-> [has |-> TRUE, ver |-> U16(b, o), nrec |-> k, subs |-> subs]]
=============================================================================
