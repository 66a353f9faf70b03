------------------------------- MODULE MCConc -------------------------------
(* Programs that use the library at the same time, each on fonts of its own. *)
(* A call that does I/O is cut at its I/O operations: it begins, may be held *)
(* there any number of times, and ends; everything the other programs do may *)
(* come in between.  The effect of a call is that of FontSystem, when it     *)
(* ends.  Every schedule ends up in the output, is then run against the real *)
(* library (with readers and writers that hold the call where the schedule   *)
(* says) and checked by TraceFont.                                           *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   fonts   byte strings                                                    *)
(*   procs   the programs: [font, calls], a call being [op, args, cuts]      *)
(*   shared  TRUE: a library that keeps what it is reading in one place, for *)
(*           all calls.  Alone then has to fail (MCConc itself is checked).  *)
EXTENDS FontSystem, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Fonts  == TLCEval([i \in 1..Len(Config.fonts) |-> Parse(Config.fonts[i]).f])
Procs  == 1..Len(Config.procs)
Prog(p) == Config.procs[p].calls
Source(p) == Config.procs[p].font

VARIABLES at,      \* p -> number of calls that have ended
          cut,     \* p -> 0, or 1 + the number of times the call has been held
          cur,     \* p -> the handle the program works on
          scratch, \* used if shared
          sched    \* the programs, in the order in which they were let run
vars == <<heap, objs, memo, at, cut, cur, scratch, sched>>

NewH == Cardinality(DOMAIN heap) + 1
SetOf(q) == {q[i] : i \in 1..Len(q)}

(* What call c does to a font.                                               *)
Effect(c, f) ==
  CASE c.op = "first" -> FirstOf(f, c.args[1])
    [] c.op = "keep"  -> KeepOf(f, SetOf(c.args)).f
    [] c.op = "prune" -> PruneOf(f, c.args)
    [] c.op = "opt"   -> OptOf(f)
    [] OTHER          -> f

(* The font program p has after k calls if nobody else runs.                 *)
RECURSIVE AloneFont(_, _)
AloneFont(p, k) == IF k = 1 THEN Fonts[Source(p)]
                   ELSE Effect(Prog(p)[k], AloneFont(p, k - 1))

Finish(p, c) ==
  LET h == cur[p] IN
  /\ CASE c.op = "parse" -> ParseT(NewH, Source(p), TRUE, Fonts[IF Config.shared THEN scratch ELSE Source(p)])
       [] c.op = "first" -> FirstT(NewH, h, c.args[1], TRUE, c.args[1] >= FontOf(h).n)
       [] c.op = "keep"  -> DeriveT(NewH, h, "keep", SetOf(c.args), TRUE, Effect(c, FontOf(h)))
       [] c.op = "prune" -> PruneT(h, c.args, TRUE)
       [] c.op = "opt"   -> OptT(h, TRUE)
       [] c.op = "write" -> WriteT(h, TRUE, p)
       [] OTHER          -> Stay
  /\ cur' = IF c.op \in {"parse", "first", "keep"} THEN [cur EXCEPT ![p] = NewH] ELSE cur
  /\ at' = [at EXCEPT ![p] = @ + 1]
  /\ cut' = [cut EXCEPT ![p] = 0]

Run(p) ==
  /\ at[p] < Len(Prog(p))
  /\ sched' = Append(sched, p)
  /\ LET c == Prog(p)[at[p] + 1] IN
     /\ scratch' = IF c.op = "parse" /\ cut[p] = 0 THEN Source(p) ELSE scratch
     /\ IF cut[p] < c.cuts
        THEN cut' = [cut EXCEPT ![p] = @ + 1] /\ Stay /\ UNCHANGED <<at, cur>>
        ELSE Finish(p, c)

Done == \A p \in Procs : at[p] = Len(Prog(p))
Init == /\ SysInit
        /\ at = [p \in Procs |-> 0] /\ cut = [p \in Procs |-> 0]
        /\ cur = [p \in Procs |-> 0] /\ scratch = 0 /\ sched = <<>>
Show == Done /\ PrintT("H" \o ToString(sched)) /\ UNCHANGED vars
Next == Show \/ \E p \in Procs : Run(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every program has what it would have if it ran alone.                     *)
Alone == \A p \in Procs : at[p] > 0 => FontOf(cur[p]) = AloneFont(p, at[p])
(* No two programs hold one object.                                          *)
Apart == \A p, q \in Procs : p # q /\ at[p] > 0 /\ at[q] > 0 => heap[cur[p]] # heap[cur[q]]
ModelOk == HeapOk /\ ObjsOk
=============================================================================
