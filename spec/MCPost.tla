------------------------------- MODULE MCPost -------------------------------
(* Every small post table with glyph names: standard ones, own ones in any   *)
(* order, offsets to standard ones, and tables with too few strings.         *)
(*                                                                           *)
(* The names PostOf finds are compared with those that were put in.          *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   n       the number of glyphs                                            *)
(*   index   what a glyph may have: the number of a name                     *)
(*   strings what an own name may be                                         *)
(*   most    the number of own names, at most                                *)
(*   shifts  what version 2.5 may add to the number of a glyph               *)
EXTENDS Encode, Json, IOUtils

Config  == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
N       == Config.n
Index   == {Config.index[i] : i \in 1..Len(Config.index)}
Strings == {Config.strings[i] : i \in 1..Len(Config.strings)}
Shifts  == {Config.shifts[i] : i \in 1..Len(Config.shifts)}

VARIABLES ver,    \* 2 or 25
          ix,     \* per glyph
          strs,
          done
vars == <<ver, ix, strs, done>>

Init == ver \in {2, 25} /\ ix = <<>> /\ strs = <<>> /\ done = FALSE
Glyph == /\ Len(ix) < N
         /\ \E x \in IF ver = 2 THEN Index ELSE Shifts : ix' = Append(ix, x)
         /\ UNCHANGED <<ver, strs, done>>
Str   == /\ Len(ix) = N /\ ver = 2 /\ Len(strs) < Config.most
         /\ \E s \in Strings : strs' = Append(strs, s)
         /\ UNCHANGED <<ver, ix, done>>
End   == Len(ix) = N /\ done' = TRUE /\ UNCHANGED <<ver, ix, strs>>

Bytes == B16(2) \o B16(IF ver = 2 THEN 0 ELSE 20480) \o [i \in 1..28 |-> i] \o B16(N)
         \o (IF ver = 2 THEN ConcatMap(ix, B16) \o ConcatMap(strs, LAMBDA s : <<Len(s)>> \o s)
                        ELSE [i \in 1..N |-> (ix[i] + 256) % 256])
Read == PostOf(Bytes, [off |-> 0, len |-> Len(Bytes)], N)
Show == done /\ UNCHANGED vars /\ PrintT("P" \o ToString(<<Read.st, Bytes>>))
Next == (~done /\ (Glyph \/ Str \/ End)) \/ Show
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Own == {i \in 1..N : ix[i] \in 258..32767}
Num(i) == ix[i] - 258 + 1
Name(i) ==
  IF ver = 25 THEN (IF i - 1 + ix[i] \in 0..257 THEN <<"std", i - 1 + ix[i]>> ELSE <<"none">>)
  ELSE IF ix[i] < 258 THEN <<"std", ix[i]>>
  ELSE IF i \in Own THEN <<"own", strs[Num(i)]>> ELSE <<"none">>
Permuted == {Num(i) : i \in Own} = 1..Cardinality(Own)
Enough   == Len(strs) >= Cardinality(Own)
NonEmpty == \A k \in 1..Min2(Len(strs), Cardinality(Own)) : strs[k] # <<>>

PostNamesOk ==
  done =>
  LET r == TLCEval(Read) IN
  IF ver = 25 \/ (Permuted /\ Enough /\ NonEmpty)
  THEN /\ r.st = "ok" /\ r.v.names = [i \in 1..N |-> Name(i)] /\ r.v.hdr = [i \in 1..28 |-> i]
       /\ \A k \in 0..N : CutNames(r.v, k).names = [i \in 1..k |-> Name(i)]
       /\ WritePost(r.v, N).names = <<>> /\ WritePost(r.v, N).hdr = r.v.hdr
  ELSE IF ~Enough \/ ~(\A i \in Own : Num(i) <= Cardinality(Own)) THEN r.st \in {"rej", "open"} /\ (NonEmpty => r.st = "rej")
  ELSE r.st = "open"
=============================================================================
