------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255; offsets are 0-based as in the     *)
(* OpenType documents.  TLC integers are 32-bit, so unsigned 32-bit values   *)
(* are pairs <<hi, lo>> of 16-bit halves; U32I is the saturating integer     *)
(* reading used for offsets, lengths and counts.                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Big == 1000000000          \* saturation value; Big + Big still fits in TLC

U8(b, o)  == b[o + 1]
U16(b, o) == b[o + 1] * 256 + b[o + 2]
S16(b, o) == LET v == U16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v
U32(b, o) == <<U16(b, o), U16(b, o + 2)>>
U32I(b, o) == LET hi == U16(b, o)
              IN  IF hi >= 15000 THEN Big ELSE hi * 65536 + U16(b, o + 2)
Slice(b, o, n) == SubSeq(b, o + 1, o + n)

Idx(n) == TLCEval([k \in 1..n |-> k])
(* concatenation of a sequence of sequences                                  *)
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

AddP(p, q) == LET l == p[2] + q[2]
              IN  <<(p[1] + q[1] + (l \div 65536)) % 65536, l % 65536>>

(* OpenType checksum: sum of big-endian 32-bit words, zero padded.           *)
CheckSum(b, o, len) ==
  LET full == FoldLeft(LAMBDA acc, k : AddP(acc, U32(b, o + 4 * (k - 1))),
                       <<0, 0>>, Idx(len \div 4))
      r  == len % 4
      t  == o + 4 * (len \div 4)
      B(i) == IF i < r THEN b[t + i + 1] ELSE 0
  IN  IF r = 0 THEN full
      ELSE AddP(full, <<B(0) * 256 + B(1), B(2) * 256 + B(3)>>)

Zero4 == <<0, 0, 0, 0>>
Overwrite(b, o, s) == SubSeq(b, 1, o) \o s \o SubSeq(b, o + Len(s) + 1, Len(b))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
=============================================================================
