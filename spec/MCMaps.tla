------------------------------- MODULE MCMaps -------------------------------
(* Every small character map of the four formats, built one segment at a     *)
(* time over a window of codes: segments that map by delta, that use the     *)
(* glyph array (which later segments may share), codes left out, all of them *)
(* at the places where arithmetic wraps around.                              *)
(*                                                                           *)
(* What the decoders of FontTables find in the bytes is compared with Find,  *)
(* which looks up one code in the segments the way the OpenType document     *)
(* describes it; with what the reference writer makes of the mapping; and    *)
(* with the restrictions of the mapping to the first glyphs.                 *)
(*                                                                           *)
(* Every subtable ends up in the output; the harness puts them into fonts,   *)
(* and TraceFont judges what the library finds in them and in subsets.       *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   fmt, base, width  the format, the first code, the number of codes       *)
(*   longest           the number of codes of a segment, at most             *)
(*   n       the number of glyphs                                            *)
(*   vals    what the glyph array may contain                                *)
(*   deltas  what may be added to it                                         *)
EXTENDS Encode, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Fmt    == Config.fmt
Base   == Config.base
Width  == Config.width
Longest == Config.longest
N      == Config.n
Vals   == {Config.vals[i] : i \in 1..Len(Config.vals)}
Deltas == {Config.deltas[i] : i \in 1..Len(Config.deltas)}

VARIABLES pos,    \* the first code that may still be used
          segs,   \* [s, e, d, at]: codes; what is added; where in arr, or -1
          arr,    \* the glyph array
          term,   \* the terminating segment of format 4: by delta or by arr
          done
vars == <<pos, segs, arr, term, done>>

M(x) == x % 65536

(* Format 4 *)
Line4(e, g) ==      \* a run that starts at glyph g; may end outside the font
  /\ g + (e - pos) <= N
  /\ segs' = Append(segs, [s |-> Base + pos, e |-> Base + e, d |-> M(65536 + g - (Base + pos)), at |-> -1])
  /\ UNCHANGED arr
Array4(e, v, d) ==
  /\ segs' = Append(segs, [s |-> Base + pos, e |-> Base + e, d |-> d, at |-> Len(arr)])
  /\ arr' = arr \o v
Shared4(e, at, d) ==
  /\ segs' = Append(segs, [s |-> Base + pos, e |-> Base + e, d |-> d, at |-> at])
  /\ UNCHANGED arr
Add4(e) == \/ \E g \in 0..(N - 1) : Line4(e, g)
           \/ \E v \in [1..(e - pos + 1) -> Vals], d \in Deltas : Array4(e, v, d)
           \/ \E at \in 0..(Len(arr) - 1), d \in Deltas : Shared4(e, at, d)
(* Format 12 *)
Add12(e) == \E g \in 0..(N - 1) : /\ g + (e - pos) < N
                                  /\ segs' = Append(segs, [s |-> Base + pos, e |-> Base + e, d |-> g, at |-> -1])
                                  /\ UNCHANGED arr
(* Formats 0 and 6: one array *)
AddArr(e) == /\ segs = <<>>
             /\ \E v \in [1..(e - pos + 1) -> Vals] : Array4(e, v, 0)

Init == pos = 0 /\ segs = <<>> /\ arr = <<>> /\ term = "" /\ done = FALSE
Skip == /\ pos < Width /\ pos' = pos + 1 /\ UNCHANGED <<segs, arr>>
Add  == \E e \in pos..(IF pos + Longest < Width THEN pos + Longest - 1 ELSE Width - 1) :
           /\ pos' = e + 1
           /\ CASE Fmt = 4 -> Add4(e) [] Fmt = 12 -> Add12(e) [] OTHER -> AddArr(e)

(* The bytes.                                                                *)
TermSegs == Append(segs, [s |-> 65535, e |-> 65535, d |-> IF term = "delta" THEN 1 ELSE 0,
                          at |-> IF term = "delta" THEN -1 ELSE Len(arr)])
Bytes4 ==
  LET k  == Len(TermSegs)
      es == Log2(k)
      ga == arr \o (IF term = "delta" THEN <<>> ELSE <<0>>)
  IN  B16(4) \o B16(16 + 8 * k + 2 * Len(ga)) \o B16(7) \o B16(2 * k) \o B16(2 * Pow2(es)) \o B16(es)
      \o B16(2 * k - 2 * Pow2(es))
      \o ConcatMap(TermSegs, LAMBDA r : B16(r.e)) \o B16(0) \o ConcatMap(TermSegs, LAMBDA r : B16(r.s))
      \o ConcatMap(TermSegs, LAMBDA r : B16(r.d))
      \o Concat([i \in 1..k |-> IF TermSegs[i].at = -1 THEN B16(0) ELSE B16(2 * (k - (i - 1) + TermSegs[i].at))])
      \o ConcatMap(ga, B16)
Bytes12 == B16(12) \o B16(0) \o I32(16 + 12 * Len(segs)) \o I32(7) \o I32(Len(segs))
           \o ConcatMap(segs, LAMBDA r : I32(r.s) \o I32(r.e) \o I32(r.d))
ArrFirst == IF segs = <<>> THEN Base ELSE segs[1].s
Bytes6 == B16(6) \o B16(10 + 2 * Len(arr)) \o B16(7) \o B16(ArrFirst) \o B16(Len(arr)) \o ConcatMap(arr, B16)
Bytes0 == B16(0) \o B16(262) \o B16(7)
          \o [c \in 1..256 |-> IF segs # <<>> /\ c - 1 \in segs[1].s..segs[1].e THEN arr[c - segs[1].s] ELSE 0]
BytesOf == CASE Fmt = 0 -> Bytes0 [] Fmt = 4 -> Bytes4 [] Fmt = 6 -> Bytes6 [] OTHER -> Bytes12
Decode1(b, n) == CASE Fmt = 0 -> Fmt0(b, 0, Len(b), n) [] Fmt = 4 -> Fmt4(b, 0, Len(b), n)
                   [] Fmt = 6 -> Fmt6(b, 0, Len(b), n) [] OTHER -> Fmt12(b, 0, Len(b), n)

Finish == /\ ~done /\ done' = TRUE
          /\ term' \in IF Fmt = 4 THEN {"delta", "array"} ELSE {"delta"}
          /\ UNCHANGED <<pos, segs, arr>>
Show == /\ done /\ UNCHANGED vars
        /\ LET b == BytesOf IN PrintT("M" \o ToString(<<Decode1(b, N).st, b>>))
Next == (~done /\ (Skip \/ Add) /\ UNCHANGED <<term, done>>) \/ Finish \/ Show
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The glyph of one code: the first segment that ends at or after it decides.*)
(* -1: the segment refers to what is not in the subtable.                    *)
Ga == arr \o (IF term = "array" THEN <<0>> ELSE <<>>)
Find(c) ==
  LET after == {i \in 1..Len(segs) : segs[i].e >= c} IN
  IF after = {} THEN 0
  ELSE LET r == segs[CHOOSE i \in after : \A j \in after : i <= j] IN
       IF r.s > c THEN 0
       ELSE IF r.at = -1 THEN (IF Fmt = 12 THEN r.d + (c - r.s) ELSE M(c + r.d))
       ELSE IF r.at + (c - r.s) >= Len(Ga) THEN -1
       ELSE LET v == Ga[r.at + (c - r.s) + 1] IN IF v = 0 THEN 0 ELSE M(v + r.d)
Around == {c \in (Base - 1)..(Base + Width) : c >= 0}

PairsAre(ps, F(_)) == /\ \A i \in 1..Len(ps) : ps[i][1] \in Around /\ ps[i][2] = F(ps[i][1]) /\ ps[i][2] > 0
                      /\ \A c \in Around : F(c) > 0 => \E i \in 1..Len(ps) : ps[i][1] = c
                      /\ Len(ps) = Cardinality({ps[i][1] : i \in 1..Len(ps)})
Cut1(k, c) == LET g == Find(c) IN IF g < k THEN g ELSE 0

MapsOk ==
  done =>
  LET s  == TLCEval(Decode1(BytesOf, N))
      bad == \E c \in Around : Find(c) = -1
      out == \E c \in Around : Find(c) >= N
  IN  /\ Fmt \in {4, 12} => (s.st = "rej") = (bad \/ out)
      /\ Fmt \in {0, 6} => (s.st = "open") = out
      /\ ~bad /\ ~out =>
           /\ s.st = "ok" /\ s.lang = <<0, 7>> /\ s.form /\ s.term
           /\ PairsAre(s.pairs, Find)
           /\ \A k \in 0..N :                         \* k = N: all of it
                LET t == TLCEval(Decode1(EncSub(CutSub(s, k)), k)) IN
                /\ t.st = "ok" /\ t.form /\ t.term /\ t.lang = s.lang
                /\ PairsAre(t.pairs, LAMBDA c : Cut1(k, c))
=============================================================================
