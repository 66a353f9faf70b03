------------------------------- MODULE Encode -------------------------------
(* A reference writer: the bytes of a file for an abstract font, written     *)
(* independently of the library (its files are compared by what they mean,   *)
(* never byte for byte).  The model checks that reading what it writes gives *)
(* the font back, so that the decoders, the meaning of a written file and    *)
(* the clauses on containers and checksums agree with one another.           *)
EXTENDS FontModel

B16(x) == <<x \div 256, x % 256>>
BS16(x) == B16(IF x < 0 THEN x + 65536 ELSE x)
B32(p) == B16(p[1]) \o B16(p[2])
I32(k) == B16(k \div 65536) \o B16(k % 65536)
ConcatMap(s, F(_)) == FoldLeft(LAMBDA acc, x : acc \o F(x), <<>>, s)
Rep(k, x) == [i \in 1..k |-> x]

EncMaxp(f) == SubSeq(f.maxp, 1, 4) \o B16(f.n) \o SubSeq(f.maxp, 5, Len(f.maxp))
EncHhea(f) == SubSeq(f.hhea, 1, 24) \o Rep(8, 0) \o SubSeq(f.hhea, 25, 26) \o B16(f.nhm)
EncHmtx(f) == ConcatMap(SubSeq(f.hmtx.m, 1, f.nhm), LAMBDA m : B16(m[1]) \o BS16(m[2]))
              \o ConcatMap(SubSeq(f.hmtx.m, f.nhm + 1, f.n), LAMBDA m : BS16(m[2]))
HalfP(p) == p[1] * 32768 + p[2] \div 2
EncLoca(f) == ConcatMap(Rebase(f.loc), LAMBDA p : IF f.head.short THEN B16(HalfP(p)) ELSE B32(p))
EncGlyf(f) == Concat(f.glyf.d)

EncName(nm) ==
  LET strs == [i \in 1..Len(nm.recs) |-> nm.recs[i][5]] \o nm.tags
      Off(k) == FoldLeft(LAMBDA a, s : a + Len(s), 0, SubSeq(strs, 1, k - 1))
      nr == Len(nm.recs)
      nt == Len(nm.tags)
      hdr == 6 + 12 * nr + (IF nm.fmt = 1 THEN 2 + 4 * nt ELSE 0)
  IN  B16(nm.fmt) \o B16(nr) \o B16(hdr)
      \o Concat([i \in 1..nr |-> LET r == nm.recs[i]
                                 IN  B16(r[1]) \o B16(r[2]) \o B16(r[3]) \o B16(r[4])
                                     \o B16(Len(r[5])) \o B16(Off(i))])
      \o (IF nm.fmt = 1
          THEN B16(nt) \o Concat([i \in 1..nt |-> B16(Len(nm.tags[i])) \o B16(Off(nr + i))])
          ELSE <<>>)
      \o Concat(strs)

EncPost(p, n) == LET q == WritePost(p, n) IN B32(q.ver) \o q.hdr

(* Maximal runs of a sorted sequence of <<code, gid>>: [s, e, g].            *)
ByCode(pairs) == SortSeq(pairs, LAMBDA p, q : p[1] < q[1])
Runs(pairs) ==
  FoldLeft(LAMBDA acc, p :
     IF acc # <<>> /\ LET r == acc[Len(acc)] IN r.e + 1 = p[1] /\ r.g + (r.e - r.s) + 1 = p[2]
     THEN [acc EXCEPT ![Len(acc)].e = p[1]]
     ELSE Append(acc, [s |-> p[1], e |-> p[1], g |-> p[2]]), <<>>, ByCode(pairs))
GidIn(pairs, c) == LET i == {k \in 1..Len(pairs) : pairs[k][1] = c}
                   IN  IF i = {} THEN 0 ELSE pairs[CHOOSE k \in i : TRUE][2]

EncSub(s) ==
  CASE s.fmt = 0 -> B16(0) \o B16(262) \o B16(s.lang[2]) \o [i \in 1..256 |-> GidIn(s.pairs, i - 1)]
    [] s.fmt = 6 -> B16(6) \o B16(10 + 2 * s.cnt) \o B16(s.lang[2]) \o B16(s.first) \o B16(s.cnt)
                    \o Concat([i \in 1..s.cnt |-> B16(GidIn(s.pairs, s.first + i - 1))])
    [] s.fmt = 4 ->
         LET rs == Append(Runs(s.pairs), [s |-> 65535, e |-> 65535, g |-> 0])
             k  == Len(rs)
             es == Log2(k)
         IN  B16(4) \o B16(16 + 8 * k) \o B16(s.lang[2]) \o B16(2 * k) \o B16(2 * Pow2(es)) \o B16(es)
             \o B16(2 * k - 2 * Pow2(es))
             \o ConcatMap(rs, LAMBDA r : B16(r.e)) \o B16(0) \o ConcatMap(rs, LAMBDA r : B16(r.s))
             \o ConcatMap(rs, LAMBDA r : B16((r.g + 65536 - r.s) % 65536)) \o Rep(2 * k, 0)
    [] s.fmt = 12 ->
         LET rs == Runs(s.pairs)
         IN  B16(12) \o B16(0) \o I32(16 + 12 * Len(rs)) \o B32(s.lang) \o I32(Len(rs))
             \o ConcatMap(rs, LAMBDA r : I32(r.s) \o I32(r.e) \o I32(r.g))

EncCmap(c) ==
  LET bs == TLCEval([i \in 1..Len(c.subs) |-> EncSub(c.subs[i])])
      k == Len(bs)
      Off(i) == FoldLeft(LAMBDA a, s : a + Len(s), 4 + 8 * k, SubSeq(bs, 1, i - 1))
  IN  B16(c.ver) \o B16(k)
      \o Concat([i \in 1..k |-> B16(c.subs[i].pid) \o B16(c.subs[i].eid) \o I32(Off(i))])
      \o Concat(bs)

Body(f, t) ==
  CASE t = T_head -> f.head.bytes [] t = T_maxp -> EncMaxp(f) [] t = T_hhea -> EncHhea(f)
    [] t = T_hmtx -> EncHmtx(f)   [] t = T_loca -> EncLoca(f) [] t = T_glyf -> EncGlyf(f)
    [] t = T_prep -> f.prep.bytes [] t = T_cvt -> f.cvt.bytes [] t = T_fpgm -> f.fpgm.bytes
    [] t = T_name -> EncName(f.name) [] t = T_OS2 -> f.os2.bytes
    [] t = T_post -> EncPost(f.post, f.n) [] t = T_cmap -> EncCmap(f.cmap)

Pad4(s) == s \o Rep((4 - (Len(s) % 4)) % 4, 0)
SubP2(p, q) == IF p[2] >= q[2] THEN <<(p[1] + 65536 - q[1]) % 65536, p[2] - q[2]>>
               ELSE <<(p[1] + 65535 - q[1]) % 65536, p[2] + 65536 - q[2]>>

Encode(f) ==
  LET tags == SortSeq(SetToSeq(TablesOf(f)), LexLess)
      n == Len(tags)
      bs == TLCEval([i \in 1..n |-> Body(f, tags[i])])
      Off(i) == FoldLeft(LAMBDA a, s : a + Len(Pad4(s)), 12 + 16 * n, SubSeq(bs, 1, i - 1))
      es == Log2(n)
      raw == TLCEval(f.sfnt \o B16(n) \o B16(16 * Pow2(es)) \o B16(es) \o B16(16 * n - 16 * Pow2(es))
             \o Concat([i \in 1..n |-> tags[i] \o B32(CheckSum(bs[i], 0, Len(bs[i]))) \o I32(Off(i)) \o I32(Len(bs[i]))])
             \o Concat([i \in 1..n |-> Pad4(bs[i])]))
      hi == CHOOSE i \in 1..n : tags[i] = T_head
  IN  Overwrite(raw, Off(hi) + 8, B32(SubP2(Magic, CheckSum(raw, 0, Len(raw)))))
=============================================================================
