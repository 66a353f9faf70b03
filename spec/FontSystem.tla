----------------------------- MODULE FontSystem -----------------------------
(* The library as a state machine: a program holds handles on font objects;  *)
(* every call of the library is one transition.                              *)
(*                                                                           *)
(*   heap  handle -> object (two handles may hold one object)                *)
(*   objs  the objects that exist.  An object is                             *)
(*         f     its abstract font (FontModel), or Unknown                   *)
(*         src   the file it was read from, 0 if it was derived              *)
(*         wr    the file its last successful write produced, 0 if it has    *)
(*               not been written since it last changed                      *)
(*         pend  prefixes handed to sinks by failed writes since then        *)
(*         ans   observed answers since then: question -> answer             *)
(*         lin   how it came to be: <<"file", src>> or <<op, args, object,   *)
(*               stamp of that object>>                                      *)
(*         at    its stamp: the number of changes it has gone through        *)
(*   memo  derivation (lin) -> file: what an object derived this way wrote   *)
(*         before anything else was done with it                             *)
(*                                                                           *)
(* The transitions are written with the observed outcome as a parameter, so  *)
(* that the same definitions serve the exploration of the model (MCFont,     *)
(* where the outcome is the one the model demands) and the validation of     *)
(* recorded executions (TraceFont, where it is whatever the code did).       *)
EXTENDS FontModel

VARIABLES heap, objs, memo
sysvars == <<heap, objs, memo>>

NoAns == [x \in {} |-> 0]
Object(f, src, lin) ==
  [f |-> f, src |-> src, wr |-> 0, pend |-> {}, ans |-> NoAns, lin |-> lin, at |-> 0]

Live(h) == h \in DOMAIN heap
ObjOf(h) == objs[heap[h]]
FontOf(h) == ObjOf(h).f
LinOf(op, args, h) == <<op, args, heap[h], ObjOf(h).at>>

SysInit == /\ heap = [h \in {} |-> 0]
           /\ objs = <<>>
           /\ memo = [l \in {} |-> 0]

Stay == UNCHANGED sysvars
NewObject(dst, o) == /\ objs' = Append(objs, o)
                     /\ heap' = (dst :> Len(objs) + 1) @@ [h \in DOMAIN heap \ {dst} |-> heap[h]]
                     /\ UNCHANGED memo
SameObject(dst, h) == /\ heap' = (dst :> heap[h]) @@ [x \in DOMAIN heap \ {dst} |-> heap[x]]
                      /\ UNCHANGED <<objs, memo>>
(* A change to the object itself; what was written or answered before only   *)
(* stands if the content is known to be the same.                            *)
ChangeTo(h, g) ==
  /\ objs' = [objs EXCEPT ![heap[h]] =
                IF g.known /\ g = @.f THEN @
                ELSE [@ EXCEPT !.f = g, !.wr = 0, !.pend = {}, !.ans = NoAns, !.at = @ + 1]]
  /\ UNCHANGED <<heap, memo>>

-----------------------------------------------------------------------------
(* The pure meaning of the calls on an object of unknown content is unknown. *)
Known(f) == f.known
FirstOf(f, k)   == IF f.known THEN First(f, k) ELSE Unknown
KeepOf(f, gids) == IF f.known THEN Keep(f, gids) ELSE [ok |-> TRUE, f |-> Unknown]
PruneOf(f, ts)  == IF f.known THEN Prune(f, ts) ELSE Unknown
OptOf(f)        == IF f.known THEN Optimize(f) ELSE Unknown

-----------------------------------------------------------------------------
(* Transitions.  ok: the call succeeded;  g: the font the call denotes.      *)
ParseT(dst, src, ok, g)  == IF ok THEN NewObject(dst, Object(g, src, <<"file", src>>)) ELSE Stay
DeriveT(dst, h, op, args, ok, g) ==
  IF ok THEN NewObject(dst, Object(g, 0, LinOf(op, args, h))) ELSE Stay
FirstT(dst, h, k, ok, same) ==
  IF ~ok THEN Stay
  ELSE IF same THEN SameObject(dst, h)
  ELSE NewObject(dst, Object(FirstOf(FontOf(h), k), 0, LinOf("first", k, h)))
PruneT(h, ts, ok) == IF ok THEN ChangeTo(h, PruneOf(FontOf(h), ts)) ELSE Stay
OptT(h, ok)       == IF ok THEN ChangeTo(h, OptOf(FontOf(h))) ELSE Stay
(* A write changes nothing observable; the machine remembers its output.     *)
WriteT(h, ok, w) ==
  IF ~ok THEN Stay
  ELSE /\ objs' = [objs EXCEPT ![heap[h]].wr = IF @ = 0 THEN w ELSE @]
       /\ memo' = IF ObjOf(h).at = 0 /\ ObjOf(h).lin \notin DOMAIN memo
                  THEN (ObjOf(h).lin :> w) @@ memo ELSE memo
       /\ UNCHANGED heap
FailedWriteT(h, p) == /\ objs' = [objs EXCEPT ![heap[h]].pend = @ \cup {p}]
                      /\ UNCHANGED <<heap, memo>>
AnswerT(h, qs) ==        \* qs: sequence of <<question, answer>>
  /\ objs' = [objs EXCEPT ![heap[h]].ans =
                FoldLeft(LAMBDA m, q : IF q[1] \in DOMAIN m THEN m ELSE (q[1] :> q[2]) @@ m, @, qs)]
  /\ UNCHANGED <<heap, memo>>

-----------------------------------------------------------------------------
(* What stands after any history.                                            *)
WellFormedFont(f) ==
  f.known =>
  /\ Len(f.loc) = f.n + 1
  /\ \A i \in 1..f.n : LessEqP(f.loc[i], f.loc[i + 1])
  /\ f.glyf.has => /\ Len(f.glyf.d) = f.n
                   /\ \A i \in 1..f.n : AddI(f.loc[i], Len(f.glyf.d[i])) = f.loc[i + 1]
  /\ f.hmtx.has => /\ Len(f.hmtx.m) = f.n
                   /\ f.nhm <= f.n /\ f.nhm >= MinNhm(f.hmtx.m)
  /\ f.post.has /\ Len(f.post.names) > 0 => Len(f.post.names) = f.n
  /\ f.cmap.has => \A i \in 1..Len(f.cmap.subs) : LET s == f.cmap.subs[i] IN
                     \A j \in 1..Len(s.pairs) : s.pairs[j][2] < f.n /\ s.pairs[j][2] > 0
HeapOk == \A h \in DOMAIN heap : heap[h] \in 1..Len(objs)
ObjsOk == \A i \in 1..Len(objs) : WellFormedFont(objs[i].f)
=============================================================================
