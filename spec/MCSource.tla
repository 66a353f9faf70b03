------------------------------ MODULE MCSource ------------------------------
(* What a source may do when it is read, and what a reader has to make of    *)
(* it.  The file is the sequence 1, 2, ..., Size; the reader wants its first *)
(* Want units and asks for Window at a time.  An answer has units (maybe     *)
(* none, and not all that were asked for), and with them an error or the end *)
(* of the file.  After an error the source may work again or be dead.        *)
(*                                                                           *)
(* Every plan (the first Depth answers) ends up in the output; the harness   *)
(* has a source that follows it, starting at any read of a parse, and        *)
(* TraceFont judges what the library made of it.                             *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   depth, size, want, window                                               *)
(*   sloppy  "" or a reader that has a mistake, which Faithful or Surfaces   *)
(*           has to notice:                                                  *)
(*             "short"    takes a short answer for all it asked for          *)
(*             "swallow"  goes on after an error                             *)
(*             "drop"     loses the units that come with an error or the end *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Depth  == Config.depth
Size   == Config.size
Want   == Config.want
Window == Config.window
Sloppy == Config.sloppy

VARIABLES pos,    \* of the source
          got,    \* what the reader has
          st,     \* of the reader: reading, ok, err
          dead, fired,
          plan
vars == <<pos, got, st, dead, fired, plan>>

Min(a, b) == IF a < b THEN a ELSE b
Asked == Min(Window, Want - Len(got))
Left == Size - pos

(* <<units, error>>; error: "", "eof", "once" or "dead".                     *)
Full  == Min(Asked, Left)
Answers ==
  IF dead THEN {<<0, "dead">>}
  ELSE {<<n, "">> : n \in {0, Min(1, Full), Full}}
       \cup {<<n, e>> : n \in {0, Min(1, Full), Full}, e \in {"once", "dead"}}
       \cup (IF Full = Left THEN {<<Full, "eof">>} ELSE {})
(* With nothing left there is the end of the file, or a failure.             *)
Legal == IF Left = 0 /\ ~dead THEN {<<0, "eof">>, <<0, "once">>, <<0, "dead">>} ELSE Answers

Units(n) == [i \in 1..n |-> pos + i]
Next1(a) ==
  LET n == a[1]
      bad == a[2] \in {"once", "dead"}
      new == IF Sloppy = "short" /\ n > 0 THEN got \o Units(n) \o [i \in 1..(Asked - n) |-> 0]
             ELSE IF Sloppy = "drop" /\ a[2] # "" THEN got
             ELSE got \o Units(n)
  IN  /\ pos' = pos + n
      /\ got' = new
      /\ dead' = (dead \/ a[2] = "dead")
      /\ fired' = (fired \/ bad)
      /\ st' = IF Len(new) >= Want THEN "ok"
               ELSE IF a[2] = "eof" THEN "err"
               ELSE IF bad /\ Sloppy # "swallow" THEN "err"
               ELSE IF bad /\ dead' THEN "err"
               ELSE "reading"

Init == pos = 0 /\ got = <<>> /\ st = "reading" /\ dead = FALSE /\ fired = FALSE /\ plan = <<>>
Read == /\ st = "reading" /\ Len(plan) < Depth
        /\ \E a \in Legal : Next1(a) /\ plan' = Append(plan, a)
(* Beyond the plan the source answers in full.                               *)
Rest == /\ st = "reading" /\ Len(plan) = Depth /\ ~dead
        /\ Next1(IF Left = 0 THEN <<0, "eof">> ELSE <<Full, "">>)
        /\ UNCHANGED plan
Give == /\ st = "reading" /\ Len(plan) = Depth /\ dead
        /\ Next1(<<0, "dead">>) /\ UNCHANGED plan
Show == /\ st # "reading" /\ PrintT("P" \o ToString(plan)) /\ UNCHANGED vars
Next == Read \/ Rest \/ Give \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Rest \/ Give)

-----------------------------------------------------------------------------
(* What the reader has is what the file starts with.                         *)
Faithful == got = [i \in 1..Len(got) |-> i]
(* It is content only with all it wants, and if it never saw a failure it is *)
(* content whenever the file has that much.                                  *)
Content == /\ st = "ok" => Len(got) = Want
           /\ st = "err" /\ ~fired => Want > Size
(* A failure that came before it had all is reported.                        *)
Surfaces == fired => st # "reading"
Ends == <>(st # "reading")
=============================================================================
