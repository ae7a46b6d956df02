-------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Translation phases 1-3, 5 and 6: from the bytes of a source file to     *)
(* preprocessing tokens, and the type and value of every literal.          *)
(*                                                                         *)
(* Batch entry: [src |-> bytes, mode].  The file is cooked (byte order     *)
(* mark, line ends, splices), then one token is taken per step; in mode    *)
(* "lit" the tokens are finally converted: adjacent strings are joined and *)
(* every token gets its type and value.                                    *)
(*                                                                         *)
(* A token is <<kind, spelling, space before, first of its line, line>>    *)
(* with kind "i" identifier, "n" pp-number, "s" string, "c" character      *)
(* constant, "p" punctuator; the spelling has universal character names    *)
(* replaced by UTF-8.  The line is 0 after a splice (left open).           *)
(* Outcomes: "ok", "err" (must be rejected; eln = line), "odd" (undefined, *)
(* implementation-defined or outside this model: nothing is claimed).      *)
(***************************************************************************)
EXTENDS SoftFloat, Json, IOUtils

Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES k, B, L, p, toks, bol, sp, st, eln
vars == <<k, B, L, p, toks, bol, sp, st, eln>>
LF == 10

\* ------------------------------------------------------------- phases 1, 2
NoBom(b) == IF Len(b) >= 3 /\ b[1] = 239 /\ b[2] = 187 /\ b[3] = 191 THEN SubSeq(b, 4, Len(b)) ELSE b
Newlines(b) == FoldLeft(LAMBDA s, c : IF c = 13 THEN <<Append(s[1], LF), TRUE>>
                                      ELSE IF c = LF /\ s[2] THEN <<s[1], FALSE>>
                                      ELSE <<Append(s[1], c), FALSE>>, <<<<>>, FALSE>>, b)[1]
Ended(b) == IF b = <<>> \/ b[Len(b)] # LF THEN Append(b, LF) ELSE b
\* <<bytes, lines, line, backslash pending, spliced>>
Splice(b) ==
  LET put(s, c) == <<Append(s[1], c), Append(s[2], IF s[5] THEN 0 ELSE s[3]), IF c = LF THEN s[3] + 1 ELSE s[3], FALSE, IF c = LF THEN FALSE ELSE s[5]>>
      f(s, c) == IF s[4] THEN (IF c = LF THEN <<s[1], s[2], s[3] + 1, FALSE, TRUE>>
                               ELSE LET t == put(s, 92) IN IF c = 92 THEN <<t[1], t[2], t[3], TRUE, t[5]>> ELSE put(t, c))
                 ELSE IF c = 92 THEN <<s[1], s[2], s[3], TRUE, s[5]>> ELSE put(s, c)
      r == FoldLeft(f, <<<<>>, <<>>, 1, FALSE, FALSE>>, b)
  IN IF r[4] THEN put(r, 92) ELSE r

\* ---------------------------------------------------------------- characters
At(i) == IF i <= Len(B) THEN B[i] ELSE 0
Digit(c) == c >= 48 /\ c <= 57
Oct(c) == c >= 48 /\ c <= 55
Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Hex(c) == Digit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexV(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Space(c) == c \in {32, 9, 11, 12}
In(c, ranges) == \E i \in 1..(Len(ranges) \div 2) : ranges[2*i - 1] <= c /\ c <= ranges[2*i]
\* C11 Annex D
D1 == <<168,168, 170,170, 173,173, 175,175, 178,181, 183,186, 188,190, 192,214, 216,246, 248,255, 256,5759, 5761,6157, 6159,8191,
        8203,8205, 8234,8238, 8255,8256, 8276,8276, 8288,8303, 8304,8591, 9312,9471, 10102,10131, 11264,11775, 11904,12287,
        12292,12295, 12321,12335, 12337,12351, 12352,55295, 63744,64829, 64832,64975, 65008,65092, 65095,65533>>
D2 == <<768,879, 7616,7679, 8400,8447, 65056,65071>>
Plane(c) == c >= 65536 /\ c < 983040 /\ (c % 65536) <= 65533
Allowed(c) == In(c, D1) \/ Plane(c)
Id1(c) == Alpha(c) \/ c = 95 \/ c = 36 \/ (c >= 128 /\ Allowed(c) /\ ~In(c, D2))
Id2(c) == Alpha(c) \/ c = 95 \/ c = 36 \/ Digit(c) \/ (c >= 128 /\ Allowed(c))

\* the code point at i and the position after it; -1 = malformed
HexRun(i, n) == \A j \in 0..(n - 1) : Hex(At(i + j))
HexVal(i, n) == FoldLeft(LAMBDA a, j : IF a >= 268435456 \/ a < 0 THEN -1 ELSE 16 * a + HexV(At(i + j - 1)), 0, [j \in 1..n |-> j])
IsUcn(i) == At(i) = 92 /\ ((At(i+1) = 117 /\ HexRun(i + 2, 4)) \/ (At(i+1) = 85 /\ HexRun(i + 2, 8)))
UcnLen(i) == IF At(i+1) = 117 THEN 6 ELSE 10
UcnVal(i) == HexVal(i + 2, UcnLen(i) - 2)
UcnOk(c) == c >= 160 /\ c < 1114112 /\ ~(c >= 55296 /\ c <= 57343)
Cont(i) == At(i) >= 128 /\ At(i) <= 191
Decode(i) ==
  LET c == At(i) IN
  IF c < 128 THEN <<c, i + 1>>
  ELSE IF c < 192 THEN <<-1, i>>
  ELSE IF c < 224 THEN IF Cont(i+1) THEN <<(c % 32) * 64 + (At(i+1) % 64), i + 2>> ELSE <<-1, i>>
  ELSE IF c < 240 THEN IF Cont(i+1) /\ Cont(i+2) THEN <<(c % 16) * 4096 + (At(i+1) % 64) * 64 + (At(i+2) % 64), i + 3>> ELSE <<-1, i>>
  ELSE IF Cont(i+1) /\ Cont(i+2) /\ Cont(i+3)
       THEN <<(c % 8) * 262144 + (At(i+1) % 64) * 4096 + (At(i+2) % 64) * 64 + (At(i+3) % 64), i + 4>> ELSE <<-1, i>>
Char(i) == IF IsUcn(i) THEN <<UcnVal(i), i + UcnLen(i)>> ELSE Decode(i)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* spelling of B[i..j-1]
SpellF[x \in Any] ==
  LET i == x[1]  j == x[2]  acc == x[3] IN
  IF i >= j THEN acc
  ELSE IF IsUcn(i) THEN SpellF[<<i + UcnLen(i), j, acc \o Utf8(UcnVal(i))>>]
  ELSE IF At(i) = 92 /\ i + 1 < j THEN SpellF[<<i + 2, j, acc \o <<92, At(i + 1)>>>>]
  ELSE SpellF[<<i + 1, j, Append(acc, At(i))>>]
Spell(i, j) == SpellF[<<i, j, <<>>>>]

\* ------------------------------------------------------------------- phase 3
IdEndF[i \in Any] == LET d == Char(i) IN IF d[1] >= 0 /\ Id2(d[1]) THEN IdEndF[d[2]] ELSE i
NumEndF[i \in Any] ==
  IF At(i) \in {69, 101, 80, 112} /\ At(i+1) \in {43, 45} THEN NumEndF[i + 2]
  ELSE IF At(i) = 46 THEN NumEndF[i + 1]
  ELSE LET d == Char(i) IN IF d[1] >= 0 /\ Id2(d[1]) THEN NumEndF[d[2]] ELSE i
\* closing quote at or after i; 0 = none on this line
QuoteF[x \in Any] ==
  LET i == x[1] IN
  IF i > Len(B) \/ At(i) = LF THEN 0
  ELSE IF At(i) = x[2] THEN i
  ELSE IF At(i) = 92 /\ At(i+1) # LF THEN QuoteF[<<i + 2, x[2]>>] ELSE QuoteF[<<i + 1, x[2]>>]
CloseF[i \in Any] == IF i >= Len(B) THEN 0 ELSE IF At(i) = 42 /\ At(i+1) = 47 THEN i ELSE CloseF[i + 1]
EolF[i \in Any] == IF i > Len(B) \/ At(i) = LF THEN i ELSE EolF[i + 1]
P3 == { <<60,60,61>>, <<62,62,61>>, <<46,46,46>> }
P2c == { <<61,61>>, <<33,61>>, <<60,61>>, <<62,61>>, <<45,62>>, <<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<43,43>>, <<45,45>>,
         <<37,61>>, <<38,61>>, <<124,61>>, <<94,61>>, <<38,38>>, <<124,124>>, <<60,60>>, <<62,62>>, <<35,35>> }
\* digraphs and ::, which toycc does not have
PX == { <<60,58>>, <<58,62>>, <<60,37>>, <<37,62>>, <<37,58>>, <<58,58>> }
\* length of a string or character prefix at i: -1 = none
Prefix(i) == IF At(i) \in {34, 39} THEN 0
             ELSE IF At(i) \in {76, 85, 117} /\ At(i+1) \in {34, 39} THEN 1
             ELSE IF At(i) = 117 /\ At(i+1) = 56 /\ At(i+2) = 34 THEN 2 ELSE -1
\* the UTF-8 between i and j is well formed
GoodF[x \in Any] == LET i == x[1]  d == Decode(i) IN IF i >= x[2] THEN TRUE ELSE IF d[1] < 0 \/ (d[1] < 128 /\ d[2] > i + 1) THEN FALSE ELSE GoodF[<<d[2], x[2]>>]
\* the token at i: [kind, end] with kind "err"/"odd" for none
Scan(i) ==
  LET c == At(i)  pre == Prefix(i) IN
  IF Digit(c) \/ (c = 46 /\ Digit(At(i+1))) THEN <<"n", NumEndF[i + 1]>>
  ELSE IF pre >= 0 THEN
       LET q == At(i + pre)  e == QuoteF[<<i + pre + 1, q>>] IN
       IF e = 0 THEN <<"err", i>>
       ELSE IF q = 39 /\ e = i + pre + 1 THEN <<"err", i>>
       ELSE IF ~GoodF[<<i, e>>] THEN <<"odd", i>>
       ELSE <<IF q = 34 THEN "s" ELSE "c", e + 1>>
  ELSE LET d == Char(i) IN
       IF d[1] < 0 THEN <<"err", i>>
       ELSE IF Id1(d[1]) THEN <<"i", IdEndF[d[2]]>>
       ELSE IF d[1] >= 128 THEN <<"err", i>>
       ELSE IF <<At(i), At(i+1), At(i+2)>> \in P3 THEN <<"p", i + 3>>
       ELSE IF <<At(i), At(i+1)>> \in P2c THEN <<"p", i + 2>>
       ELSE IF <<At(i), At(i+1)>> \in PX THEN <<"odd", i>>
       ELSE IF c = 92 \/ c < 32 \/ c = 127 THEN <<IF c = 92 THEN "odd" ELSE "err", i>>
       ELSE <<"p", i + 1>>
BadUcn(t, i, j) == \E x \in i..(j - 1) : IsUcn(x) /\ ~UcnOk(UcnVal(x))

Init == /\ k \in DOMAIN Batch /\ B = <<>> /\ L = <<>> /\ p = 0 /\ toks = <<>> /\ bol = 1 /\ sp = 0 /\ st = "raw" /\ eln = 0
Cook == /\ st = "raw"
        /\ LET r == Splice(Ended(Newlines(NoBom(Batch[k].src)))) IN B' = r[1] /\ L' = r[2]
        /\ p' = 1 /\ st' = (IF Batch[k].src # <<>> /\ Last(Batch[k].src) = 92 THEN "odd" ELSE "lex") /\ UNCHANGED <<k, toks, bol, sp, eln>>
Skip == /\ st = "lex" /\ p <= Len(B)
        /\ \/ /\ At(p) = 47 /\ At(p+1) = 47 /\ p' = EolF[p] /\ sp' = 1 /\ UNCHANGED <<bol, st, eln>>
           \/ /\ At(p) = 47 /\ At(p+1) = 42
              /\ LET e == CloseF[p + 2] IN
                 IF e = 0 THEN st' = "err" /\ eln' = L[p] /\ UNCHANGED <<p, sp, bol>>
                 ELSE p' = e + 2 /\ sp' = 1 /\ UNCHANGED <<bol, st, eln>>
           \/ /\ At(p) = LF /\ p' = p + 1 /\ bol' = 1 /\ sp' = 0 /\ UNCHANGED <<st, eln>>
           \/ /\ Space(At(p)) /\ p' = p + 1 /\ sp' = 1 /\ UNCHANGED <<bol, st, eln>>
        /\ UNCHANGED <<k, B, L, toks>>
Blank == \/ (At(p) = 47 /\ At(p+1) \in {42, 47}) \/ At(p) = LF \/ Space(At(p))
Take == /\ st = "lex" /\ p <= Len(B) /\ ~Blank
        /\ LET s == Scan(p) IN
           IF s[1] \in {"err", "odd"} THEN st' = s[1] /\ eln' = L[p] /\ UNCHANGED <<p, toks, bol, sp>>
           ELSE IF BadUcn(s[1], p, s[2]) THEN st' = "odd" /\ UNCHANGED <<p, toks, bol, sp, eln>>
           ELSE /\ toks' = Append(toks, <<s[1], Spell(p, s[2]), sp, bol, L[p]>>)
                /\ p' = s[2] /\ bol' = 0 /\ sp' = 0 /\ UNCHANGED <<st, eln>>
        /\ UNCHANGED <<k, B, L>>

\* ------------------------------------------------------------- phases 5 to 7
\* spelled contents -> items <<"e", number>> (escape) or <<"c", code point>>; number as little-endian bytes
HexN(ds) == FoldLeft(LAMBDA a, d : NAdd(NShl(a, 4), Trim(<<HexV(d)>>)), <<>>, ds)
OctN(ds) == FoldLeft(LAMBDA a, d : NAdd(NShl(a, 3), Trim(<<d - 48>>)), <<>>, ds)
DecN(ds) == FoldLeft(LAMBDA a, d : NAdd(NMul(a, <<10>>), Trim(<<d - 48>>)), <<>>, ds)
RunF[x \in Any] == \* <<spelling, i, test set>>: end of the run of bytes in the set
  IF x[2] <= Len(x[1]) /\ x[1][x[2]] \in x[3] THEN RunF[<<x[1], x[2] + 1, x[3]>>] ELSE x[2]
HexSet == {c \in 48..102 : Hex(c)}
OctSet == 48..55
DecSet == 48..57
Simple(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13
               [] c = 101 -> 27 [] c \in {39, 34, 63, 92} -> c [] OTHER -> -1
Sl(s, i, j) == SubSeq(s, i, j - 1)
DecU(s, i) == \* the UTF-8 character at i of a (well-formed) spelling
  LET c == s[i] IN
  IF c < 128 THEN <<c, i + 1>>
  ELSE IF c < 224 THEN <<(c % 32) * 64 + (s[i+1] % 64), i + 2>>
  ELSE IF c < 240 THEN <<(c % 16) * 4096 + (s[i+1] % 64) * 64 + (s[i+2] % 64), i + 3>>
  ELSE <<(c % 8) * 262144 + (s[i+1] % 64) * 4096 + (s[i+2] % 64) * 64 + (s[i+3] % 64), i + 4>>
ItemsF[x \in Any] == \* <<s, i, acc>>, i up to the closing quote
  LET s == x[1]  i == x[2]  acc == x[3] IN
  IF i >= Len(s) THEN acc
  ELSE IF s[i] # 92 THEN LET d == DecU(s, i) IN ItemsF[<<s, d[2], Append(acc, <<"c", d[1]>>)>>]
  ELSE LET c == s[i+1] IN
    IF Oct(c) THEN LET e0 == RunF[<<s, i + 1, OctSet>>]  e == IF e0 > i + 4 THEN i + 4 ELSE e0
                   IN ItemsF[<<s, e, Append(acc, <<"e", OctN(Sl(s, i + 1, e))>>)>>]
    ELSE IF c = 120 THEN LET e == RunF[<<s, i + 2, HexSet>>] IN
                   IF e = i + 2 THEN Append(acc, <<"bad", <<>>>>) ELSE ItemsF[<<s, e, Append(acc, <<"e", HexN(Sl(s, i + 2, e))>>)>>]
    ELSE IF Simple(c) >= 0 THEN ItemsF[<<s, i + 2, Append(acc, <<"e", Trim(<<Simple(c)>>)>>)>>]
    ELSE Append(acc, <<"odd", <<>>>>)
PreLen(s) == IF s[1] \in {34, 39} THEN 0 ELSE IF s[2] = 56 THEN 2 ELSE 1
PreOf(s) == IF PreLen(s) = 0 THEN "" ELSE IF PreLen(s) = 2 THEN "u8" ELSE IF s[1] = 76 THEN "L" ELSE IF s[1] = 85 THEN "U" ELSE "u"
Items(s) == ItemsF[<<s, PreLen(s) + 2, <<>>>>]
NFromInt(n) == Trim(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>)
ElemSize(pre) == CASE pre \in {"", "u8"} -> 1 [] pre = "u" -> 2 [] OTHER -> 4
ElemType(pre) == CASE pre \in {"", "u8"} -> "char" [] pre = "u" -> "ushort" [] pre = "U" -> "uint" [] pre = "L" -> "int"
Units(it, pre) ==  \* bytes of the code units of an item
  LET n == ElemSize(pre) IN
  IF it[1] = "e" THEN Pad(it[2], n)
  ELSE LET c == it[2] IN
    CASE n = 1 -> Utf8(c)
      [] n = 4 -> Pad(NFromInt(c), 4)
      [] n = 2 -> (IF c < 65536 THEN Pad(NFromInt(c), 2)
                   ELSE LET d == c - 65536 IN Pad(NFromInt(55296 + d \div 1024), 2) \o Pad(NFromInt(56320 + (d % 1024)), 2))
ItemBad(it) == it[1] = "bad"
ItemOdd(it, pre) == it[1] = "odd" \/ (it[1] = "e" /\ Len(it[2]) > ElemSize(pre))
StrVal(pre, items) ==
  IF \E i \in DOMAIN items : ItemBad(items[i]) THEN <<"err">>
  ELSE IF \E i \in DOMAIN items : ItemOdd(items[i], pre) THEN <<"odd">>
  ELSE <<"str", ElemType(pre), FoldLeft(LAMBDA a, it : a \o Units(it, pre), <<>>, items) \o Zeros(ElemSize(pre))>>
ChrVal(s) ==
  LET pre == PreOf(s)  its == Items(s)  it == its[1] IN
  IF \E i \in DOMAIN its : ItemBad(its[i]) THEN <<"err">>
  ELSE IF Len(its) # 1 THEN <<"odd">>
  ELSE IF ItemOdd(it, pre) \/ (it[1] = "c" /\ (IF pre = "" THEN it[2] >= 128 ELSE pre = "u" /\ it[2] >= 65536)) THEN <<"odd">>
  ELSE LET b == Pad(IF it[1] = "e" THEN it[2] ELSE NFromInt(it[2]), 8) IN
    CASE pre = "" -> <<"num", "int", Ext(b, 1, TRUE)>>
      [] pre = "L" -> <<"num", "int", Ext(b, 4, TRUE)>>
      [] pre = "u" -> <<"num", "ushort", b>>
      [] pre = "U" -> <<"num", "uint", b>>
\* integer constants
Low(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
SufOk(s) == Low(s) \in {<<>>, <<117>>, <<108>>, <<117,108>>, <<108,117>>} \/
            \E ll \in {<<108,108>>, <<76,76>>} : s = ll \/ \E u \in {<<117>>, <<85>>} : s = u \o ll \/ s = ll \o u
SufU(s) == \E i \in DOMAIN s : s[i] \in {117, 85}
SufL(s) == \E i \in DOMAIN s : s[i] \in {108, 76}
Fits(v, ty) == CASE ty = "int" -> NBits(v) <= 31 [] ty = "uint" -> NBits(v) <= 32 [] ty = "long" -> NBits(v) <= 63 [] ty = "ulong" -> NBits(v) <= 64
IntType(v, base, u, l) ==
  LET all == IF u /\ l THEN <<"ulong">> ELSE IF u THEN <<"uint", "ulong">>
             ELSE IF l THEN (IF base = 10 THEN <<"long">> ELSE <<"long", "ulong">>)
             ELSE IF base = 10 THEN <<"int", "long">> ELSE <<"int", "uint", "long", "ulong">>
      ok == {i \in DOMAIN all : Fits(v, all[i])}
  IN IF ok = {} THEN "none" ELSE all[CHOOSE i \in ok : \A j \in ok : i <= j]
TwosF[x \in Any] == IF x[1] = <<>> \/ NBit(x[1], x[2]) = 1 THEN x[2] ELSE TwosF[<<x[1], x[2] + 1>>]
NumVal(s) ==
  LET isx == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
      isb == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {98, 66}
      n == Len(s)
      int(base, from, set, val(_)) ==
        LET e == RunF[<<s, from, set>>]  suf == Sl(s, e, n + 1)  v == val(Sl(s, from, e))  ty == IntType(v, base, SufU(suf), SufL(suf))
        IN IF base \in {8, 10} /\ suf \in {<<102>>, <<70>>} THEN <<"odd">>     \* 1f: toycc takes it for a float
           ELSE IF e = from \/ ~SufOk(suf) THEN <<"err">>
           ELSE IF ty = "none" THEN <<"odd">> ELSE <<"num", ty, Pad(v, 8)>>
      \* floating: mantissa digits from `from`, radix, exponent letters
      flt(from, set, radix, ex, val(_)) ==
        LET e1 == RunF[<<s, from, set>>]
            dot == e1 <= n /\ s[e1] = 46
            e2 == IF dot THEN RunF[<<s, e1 + 1, set>>] ELSE e1
            has == e2 <= n /\ s[e2] \in ex
            e3 == IF has THEN (IF e2 < n /\ s[e2+1] \in {43, 45} THEN e2 + 2 ELSE e2 + 1) ELSE e2
            e4 == IF has THEN RunF[<<s, e3, DecSet>>] ELSE e3
            suf == Low(Sl(s, e4, n + 1))
            digs == Sl(s, from, e1) \o (IF dot THEN Sl(s, e1 + 1, e2) ELSE <<>>)
            frac == IF dot THEN e2 - e1 - 1 ELSE 0
            exv == IF ~has THEN 0 ELSE LET a == DecN(Sl(s, e3, e4)) IN IF Len(a) > 2 THEN 99999 ELSE Ats(a, 1) + 256 * Ats(a, 2)
            x == IF has /\ s[e2+1] = 45 THEN -exv ELSE exv
            m == val(digs)
            sz == IF suf = <<102>> THEN 4 ELSE IF suf = <<108>> THEN 16 ELSE 8
            ty == IF sz = 4 THEN "float" ELSE IF sz = 16 THEN "ldouble" ELSE "double"
            e10 == x - frac
            \* m * radix^... as an exact rational m2 * 2^e2 / d
            p10(j) == FoldLeft(LAMBDA a, q : NMul(a, <<10>>), <<1>>, [q \in 1..j |-> q])
            res == IF m = <<>> THEN <<Zero(0), FALSE>>
                   ELSE IF radix = 16 THEN <<Num(0, m, x - 4 * frac), FALSE>>
                   ELSE IF e10 >= 0 THEN <<Num(0, NMul(m, p10(e10)), 0), FALSE>>
                   ELSE LET d == p10(-e10)
                            sh == Mx(0, NBits(d) - NBits(m)) + 130
                            qr == NDiv(NShl(m, sh), d)
                        IN <<Num(0, qr[1], -sh), qr[2] # <<>>>>
            r == RoundTo(sz, res[1], res[2])
        IN IF digs = <<>> \/ (~dot /\ ~has) \/ (radix = 16 /\ ~has) \/ (has /\ e4 = e3) \/ suf \notin {<<>>, <<102>>, <<108>>} THEN <<"err">>
           ELSE IF x > 400 \/ x < -400 \/ r.c = "inf" THEN <<"odd">>
           \* long double constants carry at most the 64 bits of the host's long double
           ELSE IF sz = 16 /\ (res[2] \/ NBits(res[1].m) - TwosF[<<res[1].m, 0>>] > 64) THEN <<"odd">>
           ELSE <<"num", ty, Pack(sz, r)>>
      fl == \E i \in DOMAIN s : s[i] = 46 \/ (~isx /\ s[i] \in {69, 101}) \/ (isx /\ s[i] \in {80, 112})
  IN IF fl THEN (IF isx THEN flt(3, HexSet, 16, {80, 112}, HexN) ELSE IF isb THEN <<"err">> ELSE flt(1, DecSet, 10, {69, 101}, DecN))
     ELSE IF isx THEN int(16, 3, HexSet, HexN)
     ELSE IF isb THEN int(2, 3, {48, 49}, LAMBDA ds : FoldLeft(LAMBDA a, d : NAdd(NShl(a, 1), Trim(<<d - 48>>)), <<>>, ds))
     ELSE IF s[1] = 48 /\ (\E i \in DOMAIN s : s[i] \in {56, 57}) THEN (IF s[n] \in {102, 70} THEN <<"odd">> ELSE <<"err">>)
     ELSE IF s[1] = 48 THEN int(8, 1, OctSet, OctN)
     ELSE int(10, 1, DecSet, DecN)

\* join adjacent strings: <<values, prefix so far (or "-"), items so far>>
Flush(a) == IF a[2] = "-" THEN a[1] ELSE IF a[2] = "!" THEN Append(a[1], <<"err">>) ELSE Append(a[1], StrVal(a[2], a[3]))
Merge(q, r) == IF q \in {"", "-"} THEN r ELSE IF r = "" \/ q = r THEN q ELSE "!"
Values ==
  Flush(FoldLeft(LAMBDA a, t :
     IF t[1] = "s" THEN <<a[1], Merge(a[2], PreOf(t[2])), a[3] \o Items(t[2])>>
     ELSE <<Append(Flush(a), CASE t[1] = "c" -> ChrVal(t[2]) [] t[1] = "n" -> NumVal(t[2]) [] OTHER -> <<"tok">>), "-", <<>>>>,
     <<<<>>, "-", <<>>>>, toks))

Done == /\ \/ st \in {"err", "odd"} \/ (st = "lex" /\ p > Len(B))
        /\ LET o == IF st = "lex" THEN "ok" ELSE st IN
           PrintT("RES " \o ToJson(<<k, o, eln, toks, IF Batch[k].mode = "lit" /\ o = "ok" THEN Values ELSE <<>>>>))
        /\ st' = "done" /\ UNCHANGED <<k, B, L, p, toks, bol, sp, eln>>
Next == Cook \/ Skip \/ Take \/ Done
Spec == Init /\ [][Next]_vars
\* the scanner always moves on, and tokens come out in source order
Progress == [][st = "lex" /\ st' = "lex" => p' > p]_vars
Ordered == \A i \in 1..(Len(toks) - 1) : toks[i][5] = 0 \/ toks[i+1][5] = 0 \/ toks[i][5] <= toks[i+1][5]
Deterministic == st = "lex" /\ p <= Len(B) => (Blank <=> ENABLED Skip)
=============================================================================
