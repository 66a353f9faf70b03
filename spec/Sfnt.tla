-------------------------------- MODULE Sfnt --------------------------------
(* The sfnt container: header, table directory, checksums.                   *)
EXTENDS Bytes, FiniteSets

T_head == <<104,101,97,100>>  T_maxp == <<109,97,120,112>>
T_hhea == <<104,104,101,97>>  T_hmtx == <<104,109,116,120>>
T_loca == <<108,111,99,97>>   T_glyf == <<103,108,121,102>>
T_prep == <<112,114,101,112>> T_cvt  == <<99,118,116,32>>
T_fpgm == <<102,112,103,109>> T_name == <<110,97,109,101>>
T_OS2  == <<79,83,47,50>>     T_post == <<112,111,115,116>>
T_cmap == <<99,109,97,112>>

Supported == {T_head, T_maxp, T_hhea, T_hmtx, T_loca, T_glyf, T_prep, T_cvt,
              T_fpgm, T_name, T_OS2, T_post, T_cmap}

(* The header and the directory it announces are inside the file.            *)
DirFits(b) == Len(b) >= 12 /\ Len(b) >= 12 + 16 * U16(b, 4)

Dir(b) == TLCEval(
  [i \in 1..U16(b, 4) |->
     LET o == 12 + 16 * (i - 1)
     IN  [tag |-> Slice(b, o, 4), sum |-> U32(b, o + 4),
          off |-> U32I(b, o + 8), len |-> U32I(b, o + 12)]])

TagsOf(dir) == {dir[i].tag : i \in 1..Len(dir)}
UniqueTags(dir) == Cardinality(TagsOf(dir)) = Len(dir)
(* Tags that differ only in white space padding; such directories are never  *)
(* generated as well-formed ones.                                            *)
RecOf(dir, t) == LET i == CHOOSE j \in 1..Len(dir) : dir[j].tag = t IN dir[i]
Has(dir, t)   == \E j \in 1..Len(dir) : dir[j].tag = t

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

LexLess(s, t) == \E i \in 1..4 : s[i] < t[i] /\ \A j \in 1..(i-1) : s[j] = t[j]

(* Checksum of the bytes a directory record describes; the head table is     *)
(* summed with its checkSumAdjustment field taken as zero.                   *)
RecSum(b, r) ==
  IF r.tag = T_head /\ r.len >= 12
  THEN CheckSum(Overwrite(b, r.off + 8, Zero4), r.off, r.len)
  ELSE CheckSum(b, r.off, r.len)

RecInFile(b, r) == r.off + r.len <= Len(b)
RecSumOk(b, r)  == RecInFile(b, r) /\ RecSum(b, r) = r.sum

(* 0xB1B0AFBA *)
Magic == <<45488, 44986>>
AdjustmentOk(b, hoff) ==
  AddP(CheckSum(Overwrite(b, hoff + 8, Zero4), 0, Len(b)), U32(b, hoff + 8)) = Magic

(* The clauses a file written by the library satisfies, named for reporting. *)
ContainerClauses(b) ==
  IF ~DirFits(b) THEN <<<<"sfnt.dir", FALSE>>>>
  ELSE
  LET n   == U16(b, 4)
      dir == Dir(b)
      inb == \A i \in 1..n : RecInFile(b, dir[i])
      es  == Log2(n)
      End(i) == dir[i].off + dir[i].len
  IN  <<<<"sfnt.dir", n >= 1>>,
        <<"sfnt.search", /\ U16(b, 6) = 16 * Pow2(es)
                         /\ U16(b, 8) = es
                         /\ U16(b, 10) = 16 * n - 16 * Pow2(es)>>,
        <<"sfnt.sorted", \A i \in 1..(n-1) : LexLess(dir[i].tag, dir[i+1].tag)>>,
        <<"sfnt.unique", UniqueTags(dir)>>,
        <<"sfnt.bounds", inb /\ \A i \in 1..n : dir[i].off >= 12 + 16 * n>>,
        <<"sfnt.align", \A i \in 1..n : dir[i].off % 4 = 0>>,
        <<"sfnt.overlap", \A i, j \in 1..n :
             (i # j /\ dir[i].len > 0 /\ dir[j].len > 0)
                => (End(i) <= dir[j].off \/ End(j) <= dir[i].off)>>,
        <<"sfnt.padding", Len(b) % 4 = 0 /\ (inb =>
             \A i \in 1..n :
                LET e == End(i)
                IN  \A k \in e..(Min2(e + ((4 - (dir[i].len % 4)) % 4), Len(b)) - 1) : b[k + 1] = 0)>>,
        <<"sfnt.tabsum", inb /\ \A i \in 1..n : RecSumOk(b, dir[i])>>,
        <<"sfnt.adjust", inb /\ Has(dir, T_head) /\ RecOf(dir, T_head).len >= 12
                         /\ AdjustmentOk(b, RecOf(dir, T_head).off)>>>>
=============================================================================
