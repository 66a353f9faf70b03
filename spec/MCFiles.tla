------------------------------- MODULE MCFiles -------------------------------
(* Exploration of the machine of Files: every history, up to a depth, of     *)
(* calls that name files, calls on the fonts, and other programs changing    *)
(* the files.  As in MCFont the histories are run against the real library.  *)
(* Here the content of a file is its bytes.                                  *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   fonts  byte strings; the last one is no font                            *)
(*   depth  the number of steps                                              *)
EXTENDS Files, Encode, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Raw    == Config.fonts
Depth  == Config.depth
Names  == {"a", "b"}

VARIABLES hist,
          stored      \* name -> the font that was written there last, if nobody else changed the file
vars == <<heap, objs, memo, disk, hist, stored>>

Log(e) == hist' = Append(hist, e)
NewH == Cardinality(DOMAIN heap) + 1
Without(p) == [q \in DOMAIN stored \ {p} |-> stored[q]]

Other(p) ==                                            \* other programs
  \/ \E i \in 1..Len(Raw) : /\ Put(p, Raw[i]) /\ stored' = Without(p)
                            /\ Stay /\ Log(<<"put", p, i>>)
  \/ /\ p \in DOMAIN disk /\ Delete(p) /\ stored' = Without(p)
     /\ Stay /\ Log(<<"remove", p>>)
Read(p) ==
  /\ SameDisk /\ UNCHANGED stored
  /\ \/ IF Readable(p) /\ Parse(ContentOf(p)).st = "ok"
        THEN Log(<<"parse", p, NewH>>) /\ ParseT(NewH, 1, TRUE, Parse(ContentOf(p)).f)
        ELSE Log(<<"parse", p, 0>>) /\ Stay
     \/ Log(<<"validate", p>>) /\ Stay
Save(h, p) ==
  LET b == TLCEval(Encode(FontOf(h))) IN
  /\ Log(<<"write", h, p>>)
  /\ WriteFileD(p, p \notin Special, b)
  /\ WriteT(h, p \notin Special, 1)
  /\ stored' = IF p \in Special THEN stored ELSE (p :> FontOf(h)) @@ stored
Change(h) ==
  /\ SameDisk /\ UNCHANGED stored
  /\ \/ Log(<<"prune", h>>) /\ PruneT(h, <<"name">>, TRUE)
     \/ Log(<<"first", h, NewH>>) /\ FirstT(NewH, h, 2, TRUE, FontOf(h).n <= 2)

Init == /\ SysInit /\ disk = ("a" :> Raw[1]) /\ hist = <<>>
        /\ stored = [p \in {} |-> 0]
Step == /\ Len(hist) < Depth
        /\ \/ \E p \in Names : Other(p)
           \/ \E p \in Names \cup {"link", "sub", "no/x"} : Read(p)
           \/ \E h \in DOMAIN heap, p \in Names \cup {"sub", "no/x", "full"} : Save(h, p)
           \/ \E h \in DOMAIN heap : Change(h)
Show == Len(hist) = Depth /\ PrintT("H" \o ToString(hist)) /\ UNCHANGED vars
Next == Step \/ Show
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
ModelOk == HeapOk /\ ObjsOk
AllOf(cl) == \A i \in 1..Len(cl) : cl[i][2]
(* What was written to a file is there.                                      *)
Kept == \A p \in DOMAIN stored :
          /\ p \in DOMAIN disk
          /\ Parse(disk[p]).st = "ok" /\ AllOf(WrittenClauses(Parse(disk[p]).f, stored[p]))
(* Only writing changes files, and only the one it names; other programs     *)
(* change no font.                                                           *)
Frame == [][hist' # hist =>
              LET e == hist'[Len(hist')] IN
              /\ \A p \in Names : (IF p \in DOMAIN disk THEN p \in DOMAIN disk' /\ disk'[p] = disk[p]
                                                        ELSE p \notin DOMAIN disk')
                                  \/ (e[1] = "write" /\ e[3] = p) \/ (e[1] \in {"put", "remove"} /\ e[2] = p)
              /\ e[1] \in {"put", "remove", "parse", "validate"} =>
                   \A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
=============================================================================
