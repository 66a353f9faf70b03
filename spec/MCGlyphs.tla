------------------------------ MODULE MCGlyphs ------------------------------
(* Every way in which the glyphs of a small font can refer to one another:   *)
(* empty, simple and composite glyphs, composites of themselves, of one      *)
(* another, of glyphs that do not exist, and composites cut short.           *)
(*                                                                           *)
(* The closure FontModel finds in the bytes is compared with reachability in *)
(* the graph that was built, for every set of glyphs up to a size.          *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   n       the number of glyphs                                            *)
(*   simple  the bytes of a simple glyph                                     *)
(*   shapes  what a reference may look like: [flags, args, scale], the last  *)
(*           two being numbers of bytes                                      *)
(*   most    the number of references of a glyph, at most                    *)
(*   sets    the number of glyphs asked for, at most                         *)
EXTENDS Encode, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
N      == Config.n
Most   == Config.most
Shapes == {Config.shapes[i] : i \in 1..Len(Config.shapes)}

VARIABLES data,    \* the bytes of every glyph
          refs,    \* the glyphs it refers to
          cut      \* the glyphs that cannot be read
vars == <<data, refs, cut>>

(* A composite glyph of c, a sequence of <<glyph, shape>>.                   *)
More == 32
Instr == 256
Ref(x, more) == B16(x[2].flags + (IF more THEN More ELSE 0)) \o B16(x[1]) \o Rep(x[2].args + x[2].scale, 1)
Composite(c) == B16(65535) \o Rep(8, 0)
                \o Concat([i \in 1..Len(c) |-> Ref(c[i], i < Len(c))])
                \o (IF \E i \in 1..Len(c) : (c[i][2].flags \div Instr) % 2 = 1 THEN <<0, 1, 9>> ELSE <<>>)
Even(b) == b \o Rep(Len(b) % 2, 0)

Init == data = <<>> /\ refs = <<>> /\ cut = {}
Put(b, r) == data' = Append(data, b) /\ refs' = Append(refs, r)
Empty  == Put(<<>>, {}) /\ UNCHANGED cut
Simple == Put(Config.simple, {}) /\ UNCHANGED cut
Compo  == \E k \in 1..Most : \E c \in [1..k -> (0..N) \X Shapes] :
            Put(Even(Composite(c)), {c[i][1] : i \in 1..k}) /\ UNCHANGED cut
(* References announced that do not come.                                    *)
Short  == \E g \in 0..N, s \in Shapes :
            LET b == B16(65535) \o Rep(8, 0) \o Ref(<<g, s>>, TRUE)
            IN  Put(Even(b), {}) /\ cut' = cut \cup {Len(data)}
Show   == Len(data) = N /\ UNCHANGED vars /\ PrintT("G" \o ToString(data))
Next   == (Len(data) < N /\ (Empty \/ Simple \/ Compo \/ Short)) \/ Show
Spec   == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RefsOf(g) == IF g < N THEN refs[g + 1] ELSE {}
(* Glyphs at the end of a path of at most k references.                      *)
RECURSIVE Within1(_, _)
Within1(S, k) == IF k = 0 THEN S ELSE Within1(S \cup UNION {RefsOf(g) : g \in S}, k - 1)

GlyphsOk ==
  Len(data) = N =>
  LET f == [n |-> N, glyf |-> [has |-> TRUE, d |-> data]] IN
  \A S \in {T \in SUBSET (0..N) : Cardinality(T) <= Config.sets} :
     LET c == TLCEval(Closure(f, S))
         r == Within1(S, N + 1)
     IN  /\ c.ok = (r \cap cut = {})
         /\ c.ok => /\ c.set = r
                    /\ \A g \in r : RefsOf(g) \subseteq r      \* closed, and nothing smaller is:
                    /\ \A g \in r \ S : \E h \in r \ {g} : g \in RefsOf(h)
=============================================================================
