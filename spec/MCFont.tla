------------------------------- MODULE MCFont -------------------------------
(* Exploration of the machine of FontSystem: every history of calls on small *)
(* fonts, up to a depth.  Every history ends up in the output, and is then   *)
(* run against the real library and checked by TraceFont.                    *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   fonts  byte strings                                                     *)
(*   ops    the kinds of calls to use                                        *)
(*   depth  the number of calls                                              *)
(*   laws   FALSE: all histories (MCFont.cfg); TRUE: the laws below on every *)
(*          font that can be reached, each font once (MCLaws.cfg)            *)
(*   flip   every how many bytes FlipLaw tries                               *)
EXTENDS FontSystem, Encode, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Fonts  == TLCEval([i \in 1..Len(Config.fonts) |-> Parse(Config.fonts[i]).f])
Ops    == {Config.ops[i] : i \in 1..Len(Config.ops)}
Depth  == Config.depth
Laws   == Config.laws
Flip   == Config.flip

VARIABLES font, hist, last
vars == <<heap, objs, memo, font, hist, last>>

(* The calls that make sense on a font.                                      *)
FirstArgs(f) == {0, 1, f.n - 1, f.n} \ {-1}
KeepArgs(f)  == {<<>>, <<f.n>>} \cup (IF f.n > 0 THEN {<<f.n - 1>>} ELSE {})
                \cup (IF f.n > 2 THEN {<<1>>, <<f.n - 2, 0>>} ELSE {})
PruneArgs == {<<"cmap">>, <<"post", "name">>, <<"name">>, <<"glyf", "x">>}
WFArgs == {0, 40}

NewH == Cardinality(DOMAIN heap) + 1
Log(e) == hist' = Append(hist, e)

Call(h) ==
  LET f == FontOf(h) IN
  \/ /\ "first" \in Ops
     /\ \E k \in FirstArgs(f) : /\ FirstT(NewH, h, k, TRUE, k >= f.n)
                                /\ Log(<<"first", h, k>>) /\ last' = NewH
  \/ /\ "keep" \in Ops
     /\ \E g \in KeepArgs(f) :
          LET r == TLCEval(KeepOf(f, {g[i] : i \in 1..Len(g)}))
          IN  /\ r.ok
              /\ DeriveT(NewH, h, "keep", {g[i] : i \in 1..Len(g)}, TRUE, r.f)
              /\ Log(<<"keep", h, g>>) /\ last' = NewH
  \/ /\ "keep" \in Ops /\ ~f.glyf.has           \* has to fail and to change nothing
     /\ Stay /\ Log(<<"keep", h, <<0>>>>) /\ last' = h
  \/ /\ "prune" \in Ops
     /\ \E t \in PruneArgs : PruneT(h, t, TRUE) /\ Log(<<"prune", h, t>>) /\ last' = h
  \/ /\ "opt" \in Ops /\ OptT(h, TRUE) /\ Log(<<"opt", h>>) /\ last' = h
  \/ /\ "write" \in Ops /\ WriteT(h, TRUE, 1) /\ Log(<<"write", h>>) /\ last' = h
  \/ /\ "writef" \in Ops /\ \E k \in WFArgs : FailedWriteT(h, 2) /\ Log(<<"writef", h, k>>) /\ last' = h
  \/ /\ "look" \in Ops /\ Stay /\ Log(<<"look", h>>) /\ last' = h
  \/ /\ "reparse" \in Ops
     /\ ParseT(NewH, 1, TRUE, Parse(TLCEval(Encode(f))).f)
     /\ Log(<<"reparse", h>>) /\ last' = NewH
  \/ /\ "again" \in Ops                        \* the same file once more
     /\ ParseT(NewH, font, TRUE, Fonts[font])
     /\ Log(<<"again", h>>) /\ last' = NewH

Init == /\ font \in 1..Len(Fonts)
        /\ heap = (1 :> 1)
        /\ objs = <<Object(Fonts[font], font, <<"file", font>>)>>
        /\ memo = [l \in {} |-> 0]
        /\ hist = <<>> /\ last = 1
Step == /\ Len(hist) < Depth
        /\ \E h \in IF Laws THEN {last} ELSE DOMAIN heap : Call(h)
        /\ UNCHANGED font
Show == /\ ~Laws /\ Len(hist) = Depth
        /\ PrintT("H" \o ToString(<<font, hist>>))
        /\ UNCHANGED vars
Next == Step \/ Show
Reached == FontOf(last)                     \* the view of MCLaws.cfg
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What has to hold in every state.                                          *)
ModelOk == HeapOk /\ ObjsOk

Core(f) == [f EXCEPT !.nhm = 0, !.nhmx = TRUE]
Same(f, g) == Core(f) = Core(g)
AllOf(cl) == \A i \in 1..Len(cl) : cl[i][2]

(* Writing and reading back gives the font; the file is a sound container,   *)
(* it validates, and writing what was read gives the same file.              *)
WriteLaw(f) ==
  LET b == TLCEval(Encode(f))
      p == TLCEval(Parse(b))
  IN  /\ AllOf(ContainerClauses(b))
      /\ p.st = "ok" /\ AllOf(WrittenClauses(p.f, f)) /\ LensOk(Dir(b), f, p.f.nhm)
      /\ Validity(b) = "ok"
      /\ Encode(p.f) = b
(* Any changed byte is noticed.                                              *)
FlipLaw(f) ==
  LET b == TLCEval(Encode(f))
  IN  \A i \in {k \in 1..Len(b) : k % Flip = Len(hist) % Flip} :
         Validity([b EXCEPT ![i] = (@ + 1 + (i % 250)) % 256]) # "ok"
SubsetLaw(f) ==
  /\ \A i, j \in 0..f.n : Same(First(First(f, i), j), First(f, Min2(i, j)))
  /\ f.glyf.has =>
       \A g \in {{}, {0}, {f.n - 1}, {1, f.n}} \ {{-1}} :
          LET r == Keep(f, g) IN
          r.ok => /\ Same(Keep(r.f, g).f, r.f)
                  /\ r.f.n <= f.n
                  /\ \A i \in 1..r.f.n : r.f.glyf.d[i] \in {<<>>, f.glyf.d[i]}
                  /\ \A x \in g : x < f.n => x < r.f.n /\ r.f.glyf.d[x + 1] = f.glyf.d[x + 1]
                  /\ f.hmtx.has => r.f.hmtx.m = SubSeq(f.hmtx.m, 1, r.f.n)
PruneLaw(f) ==
  /\ Prune(f, <<"cmap", "name">>) = Prune(f, <<"name", "cmap", "name">>)
  /\ Prune(Prune(f, <<"post">>), <<"post">>) = Prune(f, <<"post">>)
  /\ Prune(f, <<"glyf", "", "head">>) = f
OptLaw(f) ==
  LET g == Optimize(f) IN
  /\ Optimize(g) = g /\ Same(f, g)
  /\ f.hmtx.has => /\ g.nhm <= f.nhm
                   /\ \A i \in (g.nhm + 1)..f.n : g.hmtx.m[i][1] = g.hmtx.m[g.nhm][1]
LawsOk == Laws => LET f == FontOf(last) IN
                  WriteLaw(f) /\ FlipLaw(f) /\ SubsetLaw(f) /\ PruneLaw(f) /\ OptLaw(f)

(* A call on one font changes no other.                                      *)
Independent ==
  [][\A h \in DOMAIN heap : h \in DOMAIN heap' /\ heap'[h] = heap[h] /\
        hist' # hist => LET acted == hist'[Len(hist')][2]
                        IN  heap[h] # heap[acted] => objs'[heap[h]] = objs[heap[h]]]_vars
=============================================================================
