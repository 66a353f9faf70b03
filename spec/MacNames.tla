------------------------------ MODULE MacNames ------------------------------
(* The 258 standard Macintosh glyph names (Apple, 'post' table) as bytes.    *)
EXTENDS Sequences, Integers
StdNames == <<
  <<46,110,111,116,100,101,102>>,                             \* 0 .notdef
  <<46,110,117,108,108>>,                                     \* 1 .null
  <<110,111,110,109,97,114,107,105,110,103,114,101,116,117,114,110>>, \* 2 nonmarkingreturn
  <<115,112,97,99,101>>,                                      \* 3 space
  <<101,120,99,108,97,109>>,                                  \* 4 exclam
  <<113,117,111,116,101,100,98,108>>,                         \* 5 quotedbl
  <<110,117,109,98,101,114,115,105,103,110>>,                 \* 6 numbersign
  <<100,111,108,108,97,114>>,                                 \* 7 dollar
  <<112,101,114,99,101,110,116>>,                             \* 8 percent
  <<97,109,112,101,114,115,97,110,100>>,                      \* 9 ampersand
  <<113,117,111,116,101,115,105,110,103,108,101>>,            \* 10 quotesingle
  <<112,97,114,101,110,108,101,102,116>>,                     \* 11 parenleft
  <<112,97,114,101,110,114,105,103,104,116>>,                 \* 12 parenright
  <<97,115,116,101,114,105,115,107>>,                         \* 13 asterisk
  <<112,108,117,115>>,                                        \* 14 plus
  <<99,111,109,109,97>>,                                      \* 15 comma
  <<104,121,112,104,101,110>>,                                \* 16 hyphen
  <<112,101,114,105,111,100>>,                                \* 17 period
  <<115,108,97,115,104>>,                                     \* 18 slash
  <<122,101,114,111>>,                                        \* 19 zero
  <<111,110,101>>,                                            \* 20 one
  <<116,119,111>>,                                            \* 21 two
  <<116,104,114,101,101>>,                                    \* 22 three
  <<102,111,117,114>>,                                        \* 23 four
  <<102,105,118,101>>,                                        \* 24 five
  <<115,105,120>>,                                            \* 25 six
  <<115,101,118,101,110>>,                                    \* 26 seven
  <<101,105,103,104,116>>,                                    \* 27 eight
  <<110,105,110,101>>,                                        \* 28 nine
  <<99,111,108,111,110>>,                                     \* 29 colon
  <<115,101,109,105,99,111,108,111,110>>,                     \* 30 semicolon
  <<108,101,115,115>>,                                        \* 31 less
  <<101,113,117,97,108>>,                                     \* 32 equal
  <<103,114,101,97,116,101,114>>,                             \* 33 greater
  <<113,117,101,115,116,105,111,110>>,                        \* 34 question
  <<97,116>>,                                                 \* 35 at
  <<65>>,                                                     \* 36 A
  <<66>>,                                                     \* 37 B
  <<67>>,                                                     \* 38 C
  <<68>>,                                                     \* 39 D
  <<69>>,                                                     \* 40 E
  <<70>>,                                                     \* 41 F
  <<71>>,                                                     \* 42 G
  <<72>>,                                                     \* 43 H
  <<73>>,                                                     \* 44 I
  <<74>>,                                                     \* 45 J
  <<75>>,                                                     \* 46 K
  <<76>>,                                                     \* 47 L
  <<77>>,                                                     \* 48 M
  <<78>>,                                                     \* 49 N
  <<79>>,                                                     \* 50 O
  <<80>>,                                                     \* 51 P
  <<81>>,                                                     \* 52 Q
  <<82>>,                                                     \* 53 R
  <<83>>,                                                     \* 54 S
  <<84>>,                                                     \* 55 T
  <<85>>,                                                     \* 56 U
  <<86>>,                                                     \* 57 V
  <<87>>,                                                     \* 58 W
  <<88>>,                                                     \* 59 X
  <<89>>,                                                     \* 60 Y
  <<90>>,                                                     \* 61 Z
  <<98,114,97,99,107,101,116,108,101,102,116>>,               \* 62 bracketleft
  <<98,97,99,107,115,108,97,115,104>>,                        \* 63 backslash
  <<98,114,97,99,107,101,116,114,105,103,104,116>>,           \* 64 bracketright
  <<97,115,99,105,105,99,105,114,99,117,109>>,                \* 65 asciicircum
  <<117,110,100,101,114,115,99,111,114,101>>,                 \* 66 underscore
  <<103,114,97,118,101>>,                                     \* 67 grave
  <<97>>,                                                     \* 68 a
  <<98>>,                                                     \* 69 b
  <<99>>,                                                     \* 70 c
  <<100>>,                                                    \* 71 d
  <<101>>,                                                    \* 72 e
  <<102>>,                                                    \* 73 f
  <<103>>,                                                    \* 74 g
  <<104>>,                                                    \* 75 h
  <<105>>,                                                    \* 76 i
  <<106>>,                                                    \* 77 j
  <<107>>,                                                    \* 78 k
  <<108>>,                                                    \* 79 l
  <<109>>,                                                    \* 80 m
  <<110>>,                                                    \* 81 n
  <<111>>,                                                    \* 82 o
  <<112>>,                                                    \* 83 p
  <<113>>,                                                    \* 84 q
  <<114>>,                                                    \* 85 r
  <<115>>,                                                    \* 86 s
  <<116>>,                                                    \* 87 t
  <<117>>,                                                    \* 88 u
  <<118>>,                                                    \* 89 v
  <<119>>,                                                    \* 90 w
  <<120>>,                                                    \* 91 x
  <<121>>,                                                    \* 92 y
  <<122>>,                                                    \* 93 z
  <<98,114,97,99,101,108,101,102,116>>,                       \* 94 braceleft
  <<98,97,114>>,                                              \* 95 bar
  <<98,114,97,99,101,114,105,103,104,116>>,                   \* 96 braceright
  <<97,115,99,105,105,116,105,108,100,101>>,                  \* 97 asciitilde
  <<65,100,105,101,114,101,115,105,115>>,                     \* 98 Adieresis
  <<65,114,105,110,103>>,                                     \* 99 Aring
  <<67,99,101,100,105,108,108,97>>,                           \* 100 Ccedilla
  <<69,97,99,117,116,101>>,                                   \* 101 Eacute
  <<78,116,105,108,100,101>>,                                 \* 102 Ntilde
  <<79,100,105,101,114,101,115,105,115>>,                     \* 103 Odieresis
  <<85,100,105,101,114,101,115,105,115>>,                     \* 104 Udieresis
  <<97,97,99,117,116,101>>,                                   \* 105 aacute
  <<97,103,114,97,118,101>>,                                  \* 106 agrave
  <<97,99,105,114,99,117,109,102,108,101,120>>,               \* 107 acircumflex
  <<97,100,105,101,114,101,115,105,115>>,                     \* 108 adieresis
  <<97,116,105,108,100,101>>,                                 \* 109 atilde
  <<97,114,105,110,103>>,                                     \* 110 aring
  <<99,99,101,100,105,108,108,97>>,                           \* 111 ccedilla
  <<101,97,99,117,116,101>>,                                  \* 112 eacute
  <<101,103,114,97,118,101>>,                                 \* 113 egrave
  <<101,99,105,114,99,117,109,102,108,101,120>>,              \* 114 ecircumflex
  <<101,100,105,101,114,101,115,105,115>>,                    \* 115 edieresis
  <<105,97,99,117,116,101>>,                                  \* 116 iacute
  <<105,103,114,97,118,101>>,                                 \* 117 igrave
  <<105,99,105,114,99,117,109,102,108,101,120>>,              \* 118 icircumflex
  <<105,100,105,101,114,101,115,105,115>>,                    \* 119 idieresis
  <<110,116,105,108,100,101>>,                                \* 120 ntilde
  <<111,97,99,117,116,101>>,                                  \* 121 oacute
  <<111,103,114,97,118,101>>,                                 \* 122 ograve
  <<111,99,105,114,99,117,109,102,108,101,120>>,              \* 123 ocircumflex
  <<111,100,105,101,114,101,115,105,115>>,                    \* 124 odieresis
  <<111,116,105,108,100,101>>,                                \* 125 otilde
  <<117,97,99,117,116,101>>,                                  \* 126 uacute
  <<117,103,114,97,118,101>>,                                 \* 127 ugrave
  <<117,99,105,114,99,117,109,102,108,101,120>>,              \* 128 ucircumflex
  <<117,100,105,101,114,101,115,105,115>>,                    \* 129 udieresis
  <<100,97,103,103,101,114>>,                                 \* 130 dagger
  <<100,101,103,114,101,101>>,                                \* 131 degree
  <<99,101,110,116>>,                                         \* 132 cent
  <<115,116,101,114,108,105,110,103>>,                        \* 133 sterling
  <<115,101,99,116,105,111,110>>,                             \* 134 section
  <<98,117,108,108,101,116>>,                                 \* 135 bullet
  <<112,97,114,97,103,114,97,112,104>>,                       \* 136 paragraph
  <<103,101,114,109,97,110,100,98,108,115>>,                  \* 137 germandbls
  <<114,101,103,105,115,116,101,114,101,100>>,                \* 138 registered
  <<99,111,112,121,114,105,103,104,116>>,                     \* 139 copyright
  <<116,114,97,100,101,109,97,114,107>>,                      \* 140 trademark
  <<97,99,117,116,101>>,                                      \* 141 acute
  <<100,105,101,114,101,115,105,115>>,                        \* 142 dieresis
  <<110,111,116,101,113,117,97,108>>,                         \* 143 notequal
  <<65,69>>,                                                  \* 144 AE
  <<79,115,108,97,115,104>>,                                  \* 145 Oslash
  <<105,110,102,105,110,105,116,121>>,                        \* 146 infinity
  <<112,108,117,115,109,105,110,117,115>>,                    \* 147 plusminus
  <<108,101,115,115,101,113,117,97,108>>,                     \* 148 lessequal
  <<103,114,101,97,116,101,114,101,113,117,97,108>>,          \* 149 greaterequal
  <<121,101,110>>,                                            \* 150 yen
  <<109,117>>,                                                \* 151 mu
  <<112,97,114,116,105,97,108,100,105,102,102>>,              \* 152 partialdiff
  <<115,117,109,109,97,116,105,111,110>>,                     \* 153 summation
  <<112,114,111,100,117,99,116>>,                             \* 154 product
  <<112,105>>,                                                \* 155 pi
  <<105,110,116,101,103,114,97,108>>,                         \* 156 integral
  <<111,114,100,102,101,109,105,110,105,110,101>>,            \* 157 ordfeminine
  <<111,114,100,109,97,115,99,117,108,105,110,101>>,          \* 158 ordmasculine
  <<79,109,101,103,97>>,                                      \* 159 Omega
  <<97,101>>,                                                 \* 160 ae
  <<111,115,108,97,115,104>>,                                 \* 161 oslash
  <<113,117,101,115,116,105,111,110,100,111,119,110>>,        \* 162 questiondown
  <<101,120,99,108,97,109,100,111,119,110>>,                  \* 163 exclamdown
  <<108,111,103,105,99,97,108,110,111,116>>,                  \* 164 logicalnot
  <<114,97,100,105,99,97,108>>,                               \* 165 radical
  <<102,108,111,114,105,110>>,                                \* 166 florin
  <<97,112,112,114,111,120,101,113,117,97,108>>,              \* 167 approxequal
  <<68,101,108,116,97>>,                                      \* 168 Delta
  <<103,117,105,108,108,101,109,111,116,108,101,102,116>>,    \* 169 guillemotleft
  <<103,117,105,108,108,101,109,111,116,114,105,103,104,116>>, \* 170 guillemotright
  <<101,108,108,105,112,115,105,115>>,                        \* 171 ellipsis
  <<110,111,110,98,114,101,97,107,105,110,103,115,112,97,99,101>>, \* 172 nonbreakingspace
  <<65,103,114,97,118,101>>,                                  \* 173 Agrave
  <<65,116,105,108,100,101>>,                                 \* 174 Atilde
  <<79,116,105,108,100,101>>,                                 \* 175 Otilde
  <<79,69>>,                                                  \* 176 OE
  <<111,101>>,                                                \* 177 oe
  <<101,110,100,97,115,104>>,                                 \* 178 endash
  <<101,109,100,97,115,104>>,                                 \* 179 emdash
  <<113,117,111,116,101,100,98,108,108,101,102,116>>,         \* 180 quotedblleft
  <<113,117,111,116,101,100,98,108,114,105,103,104,116>>,     \* 181 quotedblright
  <<113,117,111,116,101,108,101,102,116>>,                    \* 182 quoteleft
  <<113,117,111,116,101,114,105,103,104,116>>,                \* 183 quoteright
  <<100,105,118,105,100,101>>,                                \* 184 divide
  <<108,111,122,101,110,103,101>>,                            \* 185 lozenge
  <<121,100,105,101,114,101,115,105,115>>,                    \* 186 ydieresis
  <<89,100,105,101,114,101,115,105,115>>,                     \* 187 Ydieresis
  <<102,114,97,99,116,105,111,110>>,                          \* 188 fraction
  <<99,117,114,114,101,110,99,121>>,                          \* 189 currency
  <<103,117,105,108,115,105,110,103,108,108,101,102,116>>,    \* 190 guilsinglleft
  <<103,117,105,108,115,105,110,103,108,114,105,103,104,116>>, \* 191 guilsinglright
  <<102,105>>,                                                \* 192 fi
  <<102,108>>,                                                \* 193 fl
  <<100,97,103,103,101,114,100,98,108>>,                      \* 194 daggerdbl
  <<112,101,114,105,111,100,99,101,110,116,101,114,101,100>>, \* 195 periodcentered
  <<113,117,111,116,101,115,105,110,103,108,98,97,115,101>>,  \* 196 quotesinglbase
  <<113,117,111,116,101,100,98,108,98,97,115,101>>,           \* 197 quotedblbase
  <<112,101,114,116,104,111,117,115,97,110,100>>,             \* 198 perthousand
  <<65,99,105,114,99,117,109,102,108,101,120>>,               \* 199 Acircumflex
  <<69,99,105,114,99,117,109,102,108,101,120>>,               \* 200 Ecircumflex
  <<65,97,99,117,116,101>>,                                   \* 201 Aacute
  <<69,100,105,101,114,101,115,105,115>>,                     \* 202 Edieresis
  <<69,103,114,97,118,101>>,                                  \* 203 Egrave
  <<73,97,99,117,116,101>>,                                   \* 204 Iacute
  <<73,99,105,114,99,117,109,102,108,101,120>>,               \* 205 Icircumflex
  <<73,100,105,101,114,101,115,105,115>>,                     \* 206 Idieresis
  <<73,103,114,97,118,101>>,                                  \* 207 Igrave
  <<79,97,99,117,116,101>>,                                   \* 208 Oacute
  <<79,99,105,114,99,117,109,102,108,101,120>>,               \* 209 Ocircumflex
  <<97,112,112,108,101>>,                                     \* 210 apple
  <<79,103,114,97,118,101>>,                                  \* 211 Ograve
  <<85,97,99,117,116,101>>,                                   \* 212 Uacute
  <<85,99,105,114,99,117,109,102,108,101,120>>,               \* 213 Ucircumflex
  <<85,103,114,97,118,101>>,                                  \* 214 Ugrave
  <<100,111,116,108,101,115,115,105>>,                        \* 215 dotlessi
  <<99,105,114,99,117,109,102,108,101,120>>,                  \* 216 circumflex
  <<116,105,108,100,101>>,                                    \* 217 tilde
  <<109,97,99,114,111,110>>,                                  \* 218 macron
  <<98,114,101,118,101>>,                                     \* 219 breve
  <<100,111,116,97,99,99,101,110,116>>,                       \* 220 dotaccent
  <<114,105,110,103>>,                                        \* 221 ring
  <<99,101,100,105,108,108,97>>,                              \* 222 cedilla
  <<104,117,110,103,97,114,117,109,108,97,117,116>>,          \* 223 hungarumlaut
  <<111,103,111,110,101,107>>,                                \* 224 ogonek
  <<99,97,114,111,110>>,                                      \* 225 caron
  <<76,115,108,97,115,104>>,                                  \* 226 Lslash
  <<108,115,108,97,115,104>>,                                 \* 227 lslash
  <<83,99,97,114,111,110>>,                                   \* 228 Scaron
  <<115,99,97,114,111,110>>,                                  \* 229 scaron
  <<90,99,97,114,111,110>>,                                   \* 230 Zcaron
  <<122,99,97,114,111,110>>,                                  \* 231 zcaron
  <<98,114,111,107,101,110,98,97,114>>,                       \* 232 brokenbar
  <<69,116,104>>,                                             \* 233 Eth
  <<101,116,104>>,                                            \* 234 eth
  <<89,97,99,117,116,101>>,                                   \* 235 Yacute
  <<121,97,99,117,116,101>>,                                  \* 236 yacute
  <<84,104,111,114,110>>,                                     \* 237 Thorn
  <<116,104,111,114,110>>,                                    \* 238 thorn
  <<109,105,110,117,115>>,                                    \* 239 minus
  <<109,117,108,116,105,112,108,121>>,                        \* 240 multiply
  <<111,110,101,115,117,112,101,114,105,111,114>>,            \* 241 onesuperior
  <<116,119,111,115,117,112,101,114,105,111,114>>,            \* 242 twosuperior
  <<116,104,114,101,101,115,117,112,101,114,105,111,114>>,    \* 243 threesuperior
  <<111,110,101,104,97,108,102>>,                             \* 244 onehalf
  <<111,110,101,113,117,97,114,116,101,114>>,                 \* 245 onequarter
  <<116,104,114,101,101,113,117,97,114,116,101,114,115>>,     \* 246 threequarters
  <<102,114,97,110,99>>,                                      \* 247 franc
  <<71,98,114,101,118,101>>,                                  \* 248 Gbreve
  <<103,98,114,101,118,101>>,                                 \* 249 gbreve
  <<73,100,111,116,97,99,99,101,110,116>>,                    \* 250 Idotaccent
  <<83,99,101,100,105,108,108,97>>,                           \* 251 Scedilla
  <<115,99,101,100,105,108,108,97>>,                          \* 252 scedilla
  <<67,97,99,117,116,101>>,                                   \* 253 Cacute
  <<99,97,99,117,116,101>>,                                   \* 254 cacute
  <<67,99,97,114,111,110>>,                                   \* 255 Ccaron
  <<99,99,97,114,111,110>>,                                   \* 256 ccaron
  <<100,99,114,111,97,116>> >>                                \* 257 dcroat
StdBytes(k) == StdNames[k + 1]
=============================================================================
