-------------------------------- MODULE Text --------------------------------
(* Text encodings: UTF-16BE, Mac Roman, PDFDocEncoding, and the printable    *)
(* form of a string.  Text is a sequence of code points.                     *)
EXTENDS Bytes, FiniteSets

ReplChar == 65533

(* Mac OS Roman, codes 128..255 (Unicode's ROMAN.TXT).                       *)
MacHigh == <<
    196, 197, 199, 201, 209, 214, 220, 225, 224, 226, 228, 227, 229, 231, 233,
    232, 234, 235, 237, 236, 238, 239, 241, 243, 242, 244, 246, 245, 250, 249,
    251, 252, 8224, 176, 162, 163, 167, 8226, 182, 223, 174, 169, 8482, 180,
    168, 8800, 198, 216, 8734, 177, 8804, 8805, 165, 181, 8706, 8721, 8719,
    960, 8747, 170, 186, 937, 230, 248, 191, 161, 172, 8730, 402, 8776, 8710,
    171, 187, 8230, 160, 192, 195, 213, 338, 339, 8211, 8212, 8220, 8221,
    8216, 8217, 247, 9674, 255, 376, 8260, 8364, 8249, 8250, 64257, 64258,
    8225, 183, 8218, 8222, 8240, 194, 202, 193, 203, 200, 205, 206, 207, 204,
    211, 212, 63743, 210, 218, 219, 217, 305, 710, 732, 175, 728, 729, 730,
    184, 733, 731, 711 >>
MacRune(c) == IF c < 128 THEN c ELSE MacHigh[c - 127]

-----------------------------------------------------------------------------
(* UTF-16BE                                                                  *)
IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u)  == u >= 56320 /\ u <= 57343
IsSurr(u) == u >= 55296 /\ u <= 57343

(* 16-bit units to code points; a surrogate without partner is U+FFFD.       *)
UnitsToRunes(us) ==
  FoldLeft(LAMBDA acc, i :
     LET u == us[i] IN
     IF acc.skip THEN [acc EXCEPT !.skip = FALSE]
     ELSE IF IsHigh(u) /\ i < Len(us) /\ IsLow(us[i + 1])
          THEN [out |-> Append(acc.out, 65536 + (u - 55296) * 1024 + (us[i + 1] - 56320)),
                skip |-> TRUE]
     ELSE [acc EXCEPT !.out = Append(@, IF IsSurr(u) THEN ReplChar ELSE u)],
     [out |-> <<>>, skip |-> FALSE], Idx(Len(us))).out

RuneToUnits(r) == IF r < 65536 THEN <<r>>
                  ELSE <<55296 + (r - 65536) \div 1024, 56320 + ((r - 65536) % 1024)>>
Utf16Encode(rs) ==
  FoldLeft(LAMBDA acc, r :
     FoldLeft(LAMBDA a, u : a \o <<u \div 256, u % 256>>, acc, RuneToUnits(r)), <<>>, rs)
(* even number of bytes                                                      *)
Utf16Decode(b) == UnitsToRunes([i \in 1..(Len(b) \div 2) |-> U16(b, 2 * (i - 1))])

ValidRune(r) == r >= 0 /\ r <= 1114111 /\ ~IsSurr(r)

-----------------------------------------------------------------------------
(* PDFDocEncoding (ISO 32000-1, annex D.2).                                  *)
Pdf18 == << 728, 711, 710, 729, 733, 731, 730, 732 >>
Pdf80 == <<
    8226, 8224, 8225, 8230, 8212, 8211, 402, 8260, 8249, 8250, 8722, 8240,
    8222, 8220, 8221, 8216, 8217, 8218, 8482, 64257, 64258, 321, 338, 352,
    376, 381, 305, 322, 339, 353, 382 >>
PdfAssigned(c) == c \in 1..126 \cup 128..158 \cup 160..172 \cup 174..255
(* nothing is claimed about byte 0                                           *)
PdfRune(c) == CASE c < 24   -> c
                [] c < 32   -> Pdf18[c - 23]
                [] c < 127  -> c
                [] c < 159  -> Pdf80[c - 127]
                [] c = 160  -> 8364
                [] OTHER    -> c
PdfDecode(b) ==
  FoldLeft(LAMBDA acc, c : IF PdfAssigned(c) THEN Append(acc, PdfRune(c)) ELSE acc, <<>>, b)
PdfCodes(r) == {c \in 1..255 : PdfAssigned(c) /\ PdfRune(c) = r}
PdfEncodable == {PdfRune(c) : c \in {x \in 1..255 : PdfAssigned(x)}}

-----------------------------------------------------------------------------
(* The printable form: unprintable code points become quoted escapes.        *)
(* Printability is stated for the blocks below only.                         *)
Printable(r) ==
  \/ r \in 32..126 \/ r \in 161..172 \/ r \in 174..591
  \/ r \in 913..929 \/ r \in 931..974 \/ r \in 1040..1103
  \/ r \in 12353..12438 \/ r \in 19968..40869 \/ r \in 44032..55203
  \/ r \in 128512..128591 \/ r = ReplChar
  \/ r \in {MacHigh[i] : i \in 1..128} \ {160, 63743}
  \/ r = 10
Unprintable(r) ==
  \/ r \in 0..9 \/ r \in 11..31 \/ r \in 127..160 \/ r = 173
  \/ r \in 57344..63743 \/ r \in 8203..8207 \/ r \in 8232..8238 \/ r = 65279
  \/ r \in 917505..917505 \/ r \in 983040..1048573
Judged(r) == Printable(r) \/ Unprintable(r)

Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Pow16(_)
Pow16(k) == IF k = 0 THEN 1 ELSE 16 * Pow16(k - 1)
HexN(r, n) == [i \in 1..n |-> Hex((r \div Pow16(n - i)) % 16)]
Quote == 39
Back  == 92
Escape(r) ==
  <<Quote, Back>> \o
  (CASE r = 7  -> <<97>>   [] r = 8  -> <<98>>  [] r = 12 -> <<102>>
     [] r = 13 -> <<114>>  [] r = 9  -> <<116>> [] r = 11 -> <<118>>
     [] r < 32 \/ r = 127 -> <<120>> \o HexN(r, 2)
     [] r < 65536 -> <<117>> \o HexN(r, 4)
     [] OTHER -> <<85, 48>> \o HexN(r, 7))
  \o <<Quote>>
MakePrintable(rs) ==
  FoldLeft(LAMBDA acc, r : IF Printable(r) THEN Append(acc, r) ELSE acc \o Escape(r), <<>>, rs)
=============================================================================
