------------------------------ MODULE MCMetrics -----------------------------
(* Every small array of horizontal metrics: advances, side bearings, and the *)
(* number of full metrics.                                                   *)
(*                                                                           *)
(* What HmtxOf reads is compared with the rule it implements, and what       *)
(* Optimize does with a search for the smallest number of full metrics that  *)
(* says the same; subsets keep the metrics of the glyphs they keep.          *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   most      the number of glyphs, at most                                 *)
(*   advances  which there are                                               *)
(*   bearings  which there are                                               *)
EXTENDS Encode, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Adv    == {Config.advances[i] : i \in 1..Len(Config.advances)}
Lsb    == {Config.bearings[i] : i \in 1..Len(Config.bearings)}

VARIABLES full,   \* the full metrics: <<advance, bearing>>
          rest,   \* the bearings of the other glyphs
          done
vars == <<full, rest, done>>

Init == full = <<>> /\ rest = <<>> /\ done = FALSE
N == Len(full) + Len(rest)
Full == rest = <<>> /\ \E a \in Adv, l \in Lsb : full' = Append(full, <<a, l>>) /\ UNCHANGED rest
Rest == full # <<>> /\ \E l \in Lsb : rest' = Append(rest, l) /\ UNCHANGED full
Show == done /\ UNCHANGED vars /\ PrintT("X" \o ToString(<<full, rest>>))
Next == \/ ~done /\ N < Config.most /\ (Full \/ Rest) /\ UNCHANGED done
        \/ ~done /\ done' = TRUE /\ UNCHANGED <<full, rest>>
        \/ Show
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bytes == ConcatMap(full, LAMBDA m : B16(m[1]) \o BS16(m[2])) \o ConcatMap(rest, BS16)
(* The rule.                                                                 *)
AdvOf(i) == IF i <= Len(full) THEN full[i][1] ELSE full[Len(full)][1]
LsbOf(i) == IF i <= Len(full) THEN full[i][2] ELSE rest[i - Len(full)]
(* k full metrics say the same about m.                                      *)
Enough(m, k) == \A i \in 1..Len(m) : i > k => k > 0 /\ m[i][1] = m[k][1]
Least(m) == CHOOSE k \in 0..Len(m) : Enough(m, k) /\ \A j \in 0..(k - 1) : ~Enough(m, j)

FontWith(h) == [n |-> N, nhm |-> Len(full), nhmx |-> TRUE, hmtx |-> h, glyf |-> None, loc |-> Rep(N + 1, <<0, 0>>),
                post |-> None, cmap |-> None]
MetricsOk ==
  done =>
  LET h == HmtxOf(Bytes, [off |-> 0, len |-> Len(Bytes)], N, Len(full))
      f == FontWith(h.v)
      o == Optimize(f)
      Again(x) == HmtxOf(EncHmtx(x), [off |-> 0, len |-> Len(EncHmtx(x))], x.n, x.nhm)
  IN  /\ h.st = "ok"
      /\ h.v.m = [i \in 1..N |-> <<AdvOf(i), LsbOf(i)>>]
      /\ o.nhm = Least(h.v.m) /\ o.hmtx = f.hmtx /\ Optimize(o) = o
      /\ Again(f) = h /\ Again(o) = h
      /\ Len(EncHmtx(f)) = Len(Bytes)
      /\ \A k \in 0..N :
           LET c == First(f, k) IN
           /\ c.hmtx.m = SubSeq(h.v.m, 1, k)
           /\ c.nhm <= k /\ NhmOk(c, c.nhm) /\ k < N => NhmOk(c, Least(c.hmtx.m))
           /\ Again(c).st = "ok" /\ Again(c).v = c.hmtx
           /\ First(o, k).hmtx = c.hmtx
           /\ Optimize(First(o, k)).nhm = Optimize(c).nhm
=============================================================================
