------------------------------- MODULE MCNames ------------------------------
(* Every small name table: records of some platforms, languages and name     *)
(* IDs, and language tags, whose strings are any parts of one storage.       *)
(*                                                                           *)
(* What NameOf reads is compared with the records that were put in, and with *)
(* what it reads when the strings are written one after another; the answers *)
(* of lookups and listings with a search for the record that has to win.     *)
(*                                                                           *)
(* VERIF_MODEL: a file with one record                                       *)
(*   store   the bytes of the strings                                        *)
(*   kinds   of records: [pid, eid, lang, id]                                *)
(*   most    the number of records, at most                                  *)
(*   spans   the parts used: [off, len]                                      *)
(*   tags    whether there are language tags                                 *)
EXTENDS Encode, Observe, Json, IOUtils

Config == ndJsonDeserialize(IOEnv.VERIF_MODEL)[1]
Store  == Config.store
Kinds  == {Config.kinds[i] : i \in 1..Len(Config.kinds)}
Parts  == {Config.spans[i] : i \in 1..Len(Config.spans)}

VARIABLES recs,    \* <<kind, span>>
          tags,    \* spans
          gap,     \* bytes between the header and the storage
          done
vars == <<recs, tags, gap, done>>

Init == recs = <<>> /\ tags = <<>> /\ gap = 0 /\ done = FALSE
Rec  == /\ tags = <<>> /\ Len(recs) < Config.most
        /\ \E k \in Kinds, p \in Parts : recs' = Append(recs, <<k, p>>) /\ UNCHANGED <<tags, gap, done>>
Tag  == /\ Config.tags /\ Len(tags) < 1
        /\ \E p \in Parts : tags' = Append(tags, p) /\ UNCHANGED <<recs, gap, done>>
End  == done' = TRUE /\ gap' \in {0, 1} /\ UNCHANGED <<recs, tags>>

Span(p) == B16(p[2]) \o B16(p[1])
Hdr == 6 + 12 * Len(recs) + (IF tags = <<>> THEN 0 ELSE 2 + 4 * Len(tags))
Bytes == B16(IF tags = <<>> THEN 0 ELSE 1) \o B16(Len(recs)) \o B16(Hdr + gap)
         \o ConcatMap(recs, LAMBDA r : B16(r[1][1]) \o B16(r[1][2]) \o B16(r[1][3]) \o B16(r[1][4]) \o Span(r[2]))
         \o (IF tags = <<>> THEN <<>> ELSE B16(Len(tags)) \o ConcatMap(tags, Span))
         \o Rep(gap, 88) \o Store
Read(b) == NameOf(b, [off |-> 0, len |-> Len(b)])

Show == done /\ UNCHANGED vars /\ PrintT("N" \o ToString(<<Read(Bytes).st, Bytes>>))
Next == (~done /\ (Rec \/ Tag \/ End)) \/ Show
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Part(p) == SubSeq(Store, p[1] + 1, p[1] + p[2])
Out(p)  == p[1] + p[2] > Len(Store)
Bad     == (\E i \in 1..Len(recs) : Out(recs[i][2])) \/ (\E i \in 1..Len(tags) : Out(tags[i]))
Ids     == {recs[i][1][4] : i \in 1..Len(recs)} \cup {77}
Texts(i) == LET d == Decoded(recs[i][1] \o <<Part(recs[i][2])>>) IN IF d.known THEN {d.text} ELSE {}

NamesOk ==
  done =>
  LET r == TLCEval(Read(Bytes)) IN
  IF Bad THEN r.st = "rej"
  ELSE /\ r.st = "ok"
       /\ r.v.fmt = (IF tags = <<>> THEN 0 ELSE 1)
       /\ r.v.recs = [i \in 1..Len(recs) |-> recs[i][1] \o <<Part(recs[i][2])>>]
       /\ r.v.tags = [i \in 1..Len(tags) |-> Part(tags[i])]
       /\ Read(EncName(r.v)).v = r.v
       /\ LET f == [name |-> r.v]
              Winner(id) == {i \in 1..Len(recs) : recs[i][1][4] = id /\ \A j \in 1..(i - 1) : recs[j][1][4] # id}
              (* later records overwrite earlier ones                        *)
              List == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![<<recs[i][1][3], recs[i][1][4]>>] = i],
                               [k \in {<<recs[i][1][3], recs[i][1][4]>> : i \in 1..Len(recs)} |-> 0],
                               [i \in 1..Len(recs) |-> i])
              Keys == SetToSeq(DOMAIN List)
              Listing(T(_)) == [k \in 1..Len(Keys) |-> [lang |-> Keys[k][1], id |-> Keys[k][2], text |-> T(List[Keys[k]])]]
              Shown(i) == IF Texts(i) = {} THEN <<1>> ELSE CHOOSE t \in Texts(i) : TRUE
          IN  /\ \A id \in Ids :
                   /\ Winner(id) = {} => NameAnswerOk(f, [id |-> id, text |-> <<>>])
                   /\ Winner(id) = {} => ~NameAnswerOk(f, [id |-> id, text |-> <<65>>])
                   /\ \A i \in Winner(id) : /\ NameAnswerOk(f, [id |-> id, text |-> Shown(i)])
                                           /\ Texts(i) # {} => ~NameAnswerOk(f, [id |-> id, text |-> Shown(i) \o <<65>>])
              /\ RecsAnswerOk(f, Listing(Shown))
              /\ Keys # <<>> => ~RecsAnswerOk(f, Tail(Listing(Shown)))
              /\ \A k \in 1..Len(Keys) : Texts(List[Keys[k]]) # {} =>
                    ~RecsAnswerOk(f, [Listing(Shown) EXCEPT ![k].text = @ \o <<65>>])
=============================================================================
