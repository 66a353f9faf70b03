------------------------------ MODULE TraceFont ------------------------------
(* Validation of recorded executions of the library against FontSystem.      *)
(*                                                                           *)
(* VERIF_TRACES: one scenario per line, [steps |-> <<step, ...>>]; a step is *)
(* a call with its arguments and everything that was observed.               *)
(* VERIF_BLOBS: one byte string per line: [b], or [base, cut, edits] derived *)
(* from an earlier line; p says whether it has to be read.  Equal contents   *)
(* have equal indices, so equality of indices is equality of bytes.          *)
(*                                                                           *)
(* Every scenario is one initial state, every call one step.  A step names   *)
(* the clauses that apply to it and whether they held; both sets are printed *)
(* and the machine goes on with what the call should have done, so that one  *)
(* divergence does not hide another.                                         *)
EXTENDS Files, Observe, Json, IOUtils

BlobRecs == ndJsonDeserialize(IOEnv.VERIF_BLOBS)
Traces   == ndJsonDeserialize(IOEnv.VERIF_TRACES)

RawOf(r) ==
  IF "b" \in DOMAIN r THEN r.b
  ELSE LET base == BlobRecs[r.base].b
           cut  == SubSeq(base, 1, Min2(r.cut, Len(base)))
       IN  [i \in 1..Len(cut) |->
              LET e == {k \in 1..Len(r.edits) : r.edits[k][1] = i - 1}
              IN  IF e = {} THEN cut[i] ELSE r.edits[MaxOf(e)][2]]
Blob(i) == RawOf(BlobRecs[i])

Skipped == [st |-> "open", f |-> Unknown]
ReadBlobs == [i \in 1..Len(BlobRecs) |->
                IF BlobRecs[i].p THEN Parse(TLCEval(Blob(i))) ELSE Skipped]
Parsed == TLCEval(ReadBlobs)

VARIABLES sid, pc
vars == <<heap, objs, memo, disk, sid, pc>>
View == <<sid, pc>>

Steps == Traces[sid].steps
Step == Steps[pc]

-----------------------------------------------------------------------------
Safe(out) == <<"safe", out \notin {"panic", "nil", "hang", "crash"}>>

(* Parsing b with outcome out.                                               *)
AcceptClauses(kind, v, out) ==
  CASE v = "ok"  -> <<<<kind \o ".accept", out = "ok">>>>
    [] v = "rej" -> <<<<kind \o ".reject", out = "err">>>>
    [] OTHER     -> <<>>

ParseClauses(s) ==
  <<Safe(s.out)>>
  \o (IF s.via = "nofile" THEN <<<<"parse.nofile", s.out = "err">>>>
      ELSE IF s.fired
           (* an I/O failure: the call may fail, but not read something else *)
           THEN <<<<"fault.parse", s.out = "ok" => s.ref = "ok" /\ Parsed[s.blob].st # "rej">>>>
      ELSE AcceptClauses("parse", Parsed[s.blob].st, s.out))
  \o <<<<"parse.pure", ~s.mut>>>>
  (* a file the library wrote itself can be read again *)
  \o (IF s.own THEN <<<<"parse.own", s.out = "ok">>>> ELSE <<>>)
  (* the same bytes give the same outcome, however they are delivered *)
  \o (IF s.ref \in {"ok", "err"} /\ ~s.fired THEN <<<<"parse.chunk", s.out = s.ref>>>> ELSE <<>>)

ValidateClauses(s) ==
  <<Safe(s.out), <<"validate.pure", ~s.mut>>>>
  \o AcceptClauses("validate", IF s.own THEN "ok"
                                ELSE IF s.light THEN "open"
                                ELSE Validity(Blob(s.blob)), s.out)
  \o (IF s.flip THEN <<<<"validate.flip", s.out # "ok">>>> ELSE <<>>)

FirstClauses(s) ==
  LET f == FontOf(s.h) IN
  <<Safe(s.out)>>
  \o (IF f.known THEN <<<<"first.out", s.out = IF s.n < 0 THEN "err" ELSE "ok">>>> ELSE <<>>)
  \o <<<<"first.alias", s.same => ~f.known \/ s.n >= f.n>>>>

KeepClauses(s, gids) ==
  LET f == FontOf(s.h) IN
  <<Safe(s.out), <<"keep.alias", ~s.same>>, <<"keep.pure", ~s.mut>>>>
  \o (IF f.known
      THEN <<<<"keep.out", s.out = IF KeepOf(f, gids).ok THEN "ok" ELSE "err">>>>
      ELSE <<>>)

GidSet(s) == {s.gids[i] : i \in 1..Len(s.gids)}
LookedSet(s) == {s.looked[i] : i \in 1..Len(s.looked)}

(* A write that reported success and produced blob w.                        *)
WroteClauses(h, w) ==
  LET o == ObjOf(h)
      f == o.f
      b == TLCEval(Blob(w))
      full == [x \in {w} |-> b]
  IN  (IF o.wr # 0 THEN <<<<"write.same", o.wr = w>>>>
       ELSE ContainerClauses(b)
            \o (IF ~f.known \/ ~DirFits(b) THEN <<>>
                ELSE <<<<"w.tables", TagsOf(Dir(b)) = TablesOf(f)>>,
                       <<"w.parse", Parsed[w].st = "ok">>>>
                     \o (IF Parsed[w].st = "ok"
                         THEN WrittenClauses(Parsed[w].f, f)
                              \o <<<<"w.len", LensOk(Dir(b), f, Parsed[w].f.nhm)>>>>
                         ELSE <<>>)))
      \o (IF o.at = 0 /\ o.lin \in DOMAIN memo
          THEN <<<<"write.again", memo[o.lin] = w>>>> ELSE <<>>)
      \o (IF o.src # 0 /\ BlobRecs[o.src].w /\ o.at = 0
          THEN <<<<"write.fixpoint", o.src = w>>>> ELSE <<>>)
      \o (IF o.pend = {} THEN <<>>
          ELSE <<<<"wfault.prefix", \A p \in o.pend : IsPrefixOf(Blob(p), b)>>>>)

WriteClauses(s) ==
  <<Safe(s.out), <<"write.out", s.out = "ok" \/ ~Expressible(FontOf(s.h))>>>>
  \o (IF s.out = "ok" THEN WroteClauses(s.h, s.blob) ELSE <<>>)

FailedWriteClauses(s) ==
  <<Safe(s.out), <<"wfault.out", s.out = (IF s.fired THEN "err" ELSE "ok") \/ ~Expressible(FontOf(s.h))>>>>
  \o (IF s.out = "ok" /\ ~s.fired THEN WroteClauses(s.h, s.blob)
      ELSE IF ObjOf(s.h).wr # 0
           THEN <<<<"wfault.prefix", IsPrefixOf(Blob(s.blob), Blob(ObjOf(s.h).wr))>>>>
           ELSE <<>>)

WriteFileClauses(s) ==
  IF s.pre = "nodir" THEN <<Safe(s.out), <<"writefile.out", s.out = "err">>>>
  ELSE <<Safe(s.out), <<"writefile.out", (s.out = "ok" /\ s.exists) \/ (s.out = "err" /\ ~Expressible(FontOf(s.h)))>>>>
       \o (IF s.out = "ok" /\ s.exists THEN WroteClauses(s.h, s.blob) ELSE <<>>)

Stable(o, s) ==
  IF s.qs = <<>> THEN <<>>
  ELSE <<<<"ask.stable", \A i \in 1..Len(s.qs) :
             s.qs[i][1] \in DOMAIN o.ans => o.ans[s.qs[i][1]] = s.qs[i][2]>>>>

QueryClauses(s) ==
  LET o == ObjOf(s.h)
      f == o.f
  IN
  <<Safe(s.out)>>
  \o (IF s.out # "ok" THEN <<>> ELSE
      (IF ~f.known THEN <<>> ELSE
       <<<<"q.cmap", \A i \in 1..Len(s.cmaps) : CmapAnswerOk(f, s.cmaps[i])>>,
         <<"q.lookup", LookupOk(f, s.runes, s.looked)>>,
         <<"q.pure", ~s.mut>>,
         <<"q.name", \A i \in 1..Len(s.names) : NameAnswerOk(f, s.names[i])>>,
         <<"q.recs", s.hasrecs => RecsAnswerOk(f, s.recs)>>,
         <<"q.loc", \A i \in 1..Len(s.locs) : LocAnswerOk(f, s.locs[i])>>>>)
      \o Stable(o, s))

InfoClauses(s) ==
  LET o == ObjOf(s.h)
      f == o.f
  IN
  <<Safe(s.out)>>
  \o (IF s.out # "ok" THEN <<>> ELSE
      (IF f.known THEN ReportClauses(f, IF o.src = 0 THEN <<>> ELSE TLCEval(Blob(o.src)), s) ELSE <<>>)
      \o Stable(o, s))

TextClauses(s) ==
  LET b == s.bytes
      u == Utf16Decode(b)
      pd == PdfDecode(b)
      IsPair == Len(b) % 2 = 0
  IN
  <<Safe(s.out)>>
  \o (IF s.out # "ok" THEN <<>> ELSE
  <<<<"text.pure", s.intact>>,
    <<"text.u16", IsPair => s.u16runes = u>>,
    <<"text.u16s", IsPair => s.u16str = u>>,
    <<"text.pdf", (\A i \in 1..Len(b) : b[i] # 0) => s.pdfrunes = pd>>,
    <<"text.pdfs", (\A i \in 1..Len(b) : b[i] # 0) => s.pdfstr = pd>>,
    <<"text.u16enc", s.encback = s.runes>>,
    <<"text.u16bytes", s.encstr = Utf16Encode(s.runes)>>,
    <<"text.pdfenc", (0 \notin {s.runes[i] : i \in 1..Len(s.runes)}) =>
                        /\ s.pdfback = SelectSeq(s.runes, LAMBDA r : r \in PdfEncodable)
                        /\ Len(s.pdfenc) = Len(s.pdfback)>>,
    <<"text.pdfdet", s.pdfenc = s.pdfenc2>>>>)

(* Calls that are given the name of a file.  disk: the regular files there   *)
(* were after the call; open: how many files the process had open.           *)
DiskOk(s, d) ==
  LET seen == {<<s.disk[i][1], s.disk[i][2]>> : i \in 1..Len(s.disk)}
  IN  /\ \A x \in seen : x[1] \in DOMAIN d /\ d[x[1]] \in {0, x[2]}
      /\ \A p \in DOMAIN d : d[p] # 0 => <<p, d[p]>> \in seen
DiskClauses(s, d) == <<<<"file.disk", DiskOk(s, d)>>, <<"file.closed", s.open = 0>>>>

FParseClauses(s) ==
  <<Safe(s.out)>>
  \o (IF ~Readable(s.path) THEN <<<<"file.missing", s.out = "err">>>>
      ELSE IF ContentOf(s.path) = 0 THEN <<>>
      ELSE AcceptClauses("parse", Parsed[ContentOf(s.path)].st, s.out))
  \o DiskClauses(s, disk)
FValidateClauses(s) ==
  <<Safe(s.out)>>
  \o (IF ~Readable(s.path) THEN <<<<"file.missing", s.out = "err">>>>
      ELSE IF ContentOf(s.path) = 0 THEN <<>>
      ELSE AcceptClauses("validate", Validity(Blob(ContentOf(s.path))), s.out))
  \o DiskClauses(s, disk)
(* s.blob: what a reader finds under the name afterwards, 0 if it is not a   *)
(* regular file.                                                             *)
FWriteClauses(s) ==
  <<Safe(s.out),
    <<"file.write", IF s.path \in Special THEN s.out = "err" \/ s.blob # 0
                    ELSE s.out = "ok" \/ ~Expressible(FontOf(s.h))>>>>
  \o (IF s.out = "ok" THEN <<<<"file.there", s.blob # 0>>>> ELSE <<>>)
  \o (IF s.out = "ok" /\ s.blob # 0 THEN WroteClauses(s.h, s.blob) ELSE <<>>)

(* The command-line tool.  kind: what the tool was asked ("bad": something   *)
(* it has to refuse); want: the file the library produced for the same       *)
(* request in an earlier step (0 if it failed); valid: whether the library   *)
(* accepts the input; got: the output file (0 if it was not created);        *)
(* text: the report printed is the one the library gives.                    *)
CliClauses(s) ==
  <<<<"cli.safe", s.out \in {"ok", "err"}>>, <<"cli.input", s.intact>>, <<"cli.litter", ~s.litter>>>>
  \o (CASE s.kind = "bad" -> <<<<"cli.refuse", s.out # "ok" /\ s.got = 0>>>>
        [] s.kind = "validate" ->
             <<<<"cli.validate", (s.out = "ok") = (s.valid = "ok")>>>>
             \o AcceptClauses("cli.validate", Validity(Blob(s.blob)), s.out)
        [] s.kind = "info" ->
             <<<<"cli.info", s.text>>>> \o AcceptClauses("cli.parse", Parsed[s.blob].st, s.out)
        [] s.kind = "chars" ->
             AcceptClauses("cli.parse", Parsed[s.blob].st, s.out)
             \o (IF s.out = "ok" /\ Parsed[s.blob].st = "ok" /\ Parsed[s.blob].f.known
                 THEN <<<<"cli.chars", CmapListOk(Parsed[s.blob].f, s.list)>>>> ELSE <<>>)
        [] OTHER -> <<<<"cli.out", (s.out = "ok") = (s.want # 0)>>,
                      <<"cli.file", s.got = s.want>>>>)

-----------------------------------------------------------------------------
Report(cl) ==
  PrintT(<<"S", sid, pc,
           {cl[i][1] : i \in {j \in 1..Len(cl) : ~cl[j][2]}},
           {cl[i][1] : i \in 1..Len(cl)}>>)

NeedsHandle == {"fwrite", "first", "keep", "keepr", "subset", "prune", "opt", "write", "writef",
                "writefile", "query", "info"}

Advance == pc' = pc + 1 /\ UNCHANGED sid
Do(cl, t) == Report(TLCEval(cl)) /\ t /\ Advance /\ SameDisk
DoD(cl, t, d) == d /\ Report(TLCEval(cl)) /\ t /\ Advance

Judge ==
  LET s == Step IN
  IF s.op \in NeedsHandle /\ ~Live(s.h)
  THEN Do(<<<<"skip", s.out \in {"skip", "hang", "crash"}>>>>, Stay)
  ELSE IF s.op \in NeedsHandle /\ s.out = "skip"
  THEN Do(<<<<"skip", FALSE>>>>, Stay)
  ELSE
  CASE s.op = "parse" ->
         IF s.out = "skip" THEN Do(<<>>, Stay)
         ELSE Do(ParseClauses(s),
                 ParseT(s.dst, s.blob, s.out = "ok",
                        IF s.blob = 0 THEN Unknown ELSE Parsed[s.blob].f))
    [] s.op = "validate" -> Do(IF s.out = "skip" THEN <<>> ELSE ValidateClauses(s), Stay)
    [] s.op = "first" -> Do(FirstClauses(s), FirstT(s.dst, s.h, Max2(s.n, 0), s.out = "ok", s.same))
    [] s.op = "keep" ->
         LET k == TLCEval(KeepOf(FontOf(s.h), GidSet(s)))
         IN  Do(KeepClauses(s, GidSet(s)),
                DeriveT(s.dst, s.h, "keep", GidSet(s), s.out = "ok", IF k.ok THEN k.f ELSE Unknown))
    [] s.op = "keepr" ->
         LET g == LookedSet(s)
             k == TLCEval(KeepOf(FontOf(s.h), g))
         IN  Do(KeepClauses(s, g)
                \o (IF FontOf(s.h).known THEN <<<<"q.lookup", LookupOk(FontOf(s.h), s.runes, s.looked)>>>> ELSE <<>>),
                DeriveT(s.dst, s.h, "keep", g, s.out = "ok", IF k.ok THEN k.f ELSE Unknown))
    [] s.op = "subset" -> Do(<<Safe(s.out)>>, DeriveT(s.dst, s.h, "subset", 0, s.out = "ok", Unknown))
    [] s.op = "prune" -> Do(<<Safe(s.out), <<"prune.out", s.out = "ok">>, <<"prune.pure", ~s.mut>>>>,
                            PruneT(s.h, s.tables, s.out = "ok"))
    [] s.op = "opt" -> Do(<<Safe(s.out), <<"opt.out", s.out = "ok">>>>, OptT(s.h, s.out = "ok"))
    [] s.op = "write" -> Do(WriteClauses(s), WriteT(s.h, s.out = "ok", s.blob))
    [] s.op = "writef" -> Do(FailedWriteClauses(s),
                             IF s.out = "ok" /\ ~s.fired THEN WriteT(s.h, TRUE, s.blob)
                             ELSE FailedWriteT(s.h, s.blob))
    [] s.op = "writefile" -> Do(WriteFileClauses(s),
                                WriteT(s.h, s.out = "ok" /\ s.exists /\ s.pre # "nodir", s.blob))
    [] s.op = "query" -> Do(QueryClauses(s), AnswerT(s.h, IF s.out = "ok" THEN s.qs ELSE <<>>))
    [] s.op = "info" -> Do(InfoClauses(s), AnswerT(s.h, IF s.out = "ok" THEN s.qs ELSE <<>>))
    [] s.op = "fput" ->
         IF s.out = "skip" THEN Do(<<>>, Stay)
         ELSE IF s.blob = 0 THEN DoD(<<>>, Stay, Delete(s.path))
         ELSE DoD(<<>>, Stay, Put(s.path, s.blob))
    [] s.op = "fparse" ->
         Do(IF s.out = "skip" THEN <<>> ELSE FParseClauses(s),
            IF Readable(s.path) /\ ContentOf(s.path) # 0
            THEN ParseT(s.dst, ContentOf(s.path), s.out = "ok", Parsed[ContentOf(s.path)].f)
            ELSE IF s.out = "ok" THEN NewObject(s.dst, Object(Unknown, 0, <<"file", 0>>)) ELSE Stay)
    [] s.op = "fvalidate" -> Do(IF s.out = "skip" THEN <<>> ELSE FValidateClauses(s), Stay)
    [] s.op = "fwrite" ->
         DoD(FWriteClauses(s)
             \o (IF s.out \in {"ok", "err"} THEN DiskClauses(s, disk') ELSE <<>>),
             WriteT(s.h, s.out = "ok" /\ s.blob # 0, s.blob),
             WriteFileD(s.path, s.out = "ok" /\ s.blob # 0, s.blob))
    (* a call that is still going on; its effect comes with its end *)
    [] s.op = "begin" -> Do(<<Safe(s.out)>>, Stay)
    [] s.op = "strutils" -> Do(TextClauses(s), Stay)
    [] s.op = "cli" -> Do(CliClauses(s), Stay)
    [] OTHER -> FALSE

TraceInit == /\ SysInit /\ disk = NoFiles /\ pc = 1
             /\ sid \in 1..Len(Traces)
TraceNext == pc <= Len(Steps) /\ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Checked along the way: whatever the code did, the machine's own objects   *)
(* stay well formed.                                                         *)
TraceInv == HeapOk /\ ObjsOk
=============================================================================
