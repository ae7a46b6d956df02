----------------------------- MODULE SoftFloat ------------------------------
(***************************************************************************)
(* IEEE-754 binary32, binary64 and binary128 arithmetic, round to nearest  *)
(* even, written from the definition: an operation is the exact result on  *)
(* unbounded naturals, rounded once.                                       *)
(*                                                                         *)
(* Naturals are little-endian byte sequences without leading (i.e. last)   *)
(* zero bytes; <<>> is 0.  An encoded float is a tuple of 4, 8 or 16       *)
(* bytes.  An unpacked float is                                            *)
(*   [c |-> "zero" | "num" | "inf" | "nan", s |-> 0/1, m |-> nat, e |-> int]*)
(* with value (-1)^s * m * 2^e.                                            *)
(***************************************************************************)
EXTENDS Word, SequencesExt

\* ------------------------------------------------------------- naturals
Idx(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]        \* <<a, ..., b>>
Ats(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Trim(a) == LET RECURSIVE top(_)
               top(n) == IF n = 0 \/ a[n] # 0 THEN n ELSE top(n-1)
           IN SubSeq(a, 1, top(Len(a)))
Mx(a, b) == IF a > b THEN a ELSE b
\* propagate carries of a sequence of naturals
Carry(a) == LET r == FoldLeft(LAMBDA st, x : <<Append(st[1], (x + st[2]) % 256), (x + st[2]) \div 256>>, <<<<>>, 0>>, a)
                c == r[2]
            IN Trim(r[1] \o <<c % 256, (c \div 256) % 256, (c \div 65536) % 256>>)
NAdd(a, b) == Carry([i \in 1..Mx(Len(a), Len(b)) |-> Ats(a, i) + Ats(b, i)])
NSub(a, b) ==                                             \* a >= b
  LET r == FoldLeft(LAMBDA st, i : LET d == a[i] - Ats(b, i) - st[2] IN
                       <<Append(st[1], IF d < 0 THEN d + 256 ELSE d), IF d < 0 THEN 1 ELSE 0>>,
                    <<<<>>, 0>>, Idx(1, Len(a)))
  IN Trim(r[1])
NLtF[x \in Any] == LET a == x[1]  b == x[2]  i == x[3] IN
                   IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE NLtF[<<a, b, i-1>>]
NLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE NLtF[<<a, b, Len(a)>>]
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
         FoldLeft(LAMBDA s, i : s + a[i] * b[k + 1 - i], 0,
                  Idx(Mx(1, k + 1 - Len(b)), IF k < Len(a) THEN k ELSE Len(a)))])
Zeros(n) == [i \in 1..n |-> 0]
NShl(a, n) == IF a = <<>> THEN <<>>
              ELSE Zeros(n \div 8) \o Carry([i \in 1..Len(a) |-> a[i] * Pow2(n % 8)])
NShr(a, n) ==
  LET b == n \div 8  m == Pow2(n % 8) IN
  IF b >= Len(a) THEN <<>>
  ELSE Trim([i \in 1..(Len(a) - b) |-> (a[i+b] \div m) + (IF i + b < Len(a) THEN (a[i+b+1] % m) * (256 \div m) ELSE 0)])
NBit(a, n) == IF n \div 8 >= Len(a) THEN 0 ELSE (a[(n \div 8) + 1] \div Pow2(n % 8)) % 2
ByteLen(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5
              ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE IF x >= 1 THEN 1 ELSE 0
NBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + ByteLen(a[Len(a)])
\* is any of the low n bits set?
NLow(a, n) == \/ \E i \in 1..(IF n \div 8 < Len(a) THEN n \div 8 ELSE Len(a)) : a[i] # 0
              \/ (n \div 8 < Len(a) /\ (a[(n \div 8) + 1] % Pow2(n % 8)) # 0)
NOdd(a) == a # <<>> /\ a[1] % 2 = 1
\* long division, most significant bit first: <<quotient, remainder>>
NDivF[x \in Any] ==          \* <<n, d, bit, q, r>>
  LET k == x[3] IN
  IF k < 0 THEN <<x[4], x[5]>>
  ELSE LET r0 == NShl(x[5], 1)
           r == IF NBit(x[1], k) = 1 THEN NAdd(r0, <<1>>) ELSE r0
           q0 == NShl(x[4], 1)
           ge == ~NLt(r, x[2])
       IN NDivF[<<x[1], x[2], k-1, IF ge THEN NAdd(q0, <<1>>) ELSE q0, IF ge THEN NSub(r, x[2]) ELSE r>>]
NDiv(n, d) == NDivF[<<n, d, NBits(n) - 1, <<>>, <<>>>>]

\* --------------------------------------------------------------- formats
Prec(sz) == CASE sz = 4 -> 24 [] sz = 8 -> 53 [] sz = 16 -> 113
EMax(sz) == CASE sz = 4 -> 127 [] sz = 8 -> 1023 [] sz = 16 -> 16383

Zero(s) == [c |-> "zero", s |-> s, m |-> <<>>, e |-> 0]
Inf(s) == [c |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
NaN == [c |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
Num(s, m, e) == IF m = <<>> THEN Zero(s) ELSE [c |-> "num", s |-> s, m |-> m, e |-> e]

\* decode: bytes -> unpacked
Unpack(b) ==
  LET sz == Len(b)  p == Prec(sz)
      a == Trim(b)
      s == NBit(a, 8*sz - 1)
      fr == Trim([i \in 1..Len(b) |-> IF 8*(i-1) >= p-1 THEN 0
                    ELSE IF 8*i <= p-1 THEN b[i] ELSE b[i] % Pow2((p-1) - 8*(i-1))])
      \* the exponent field occupies bits p-1 .. 8*sz-2
      ex == FoldLeft(LAMBDA acc, k : 2*acc + NBit(a, k), 0, Reverse(Idx(p-1, 8*sz - 2)))
  IN IF ex = 2*EMax(sz) + 1 THEN (IF fr = <<>> THEN Inf(s) ELSE NaN)
     ELSE IF ex = 0 THEN Num(s, fr, 1 - EMax(sz) - (p - 1))
     ELSE Num(s, NAdd(fr, NShl(<<1>>, p-1)), ex - EMax(sz) - (p - 1))

\* round an exact value (plus "something below", sticky) to format sz; result unpacked
RoundTo(sz, x, sticky) ==
  IF x.c # "num" THEN x
  ELSE LET p == Prec(sz)
           E == x.e + NBits(x.m) - 1
           emin == 1 - EMax(sz)
           qe == Mx(E, emin) - (p - 1)
           sh == qe - x.e
           m0 == IF sh <= 0 THEN NShl(x.m, -sh) ELSE NShr(x.m, sh)
           half == sh > 0 /\ NBit(x.m, sh - 1) = 1
           rest == sticky \/ (sh > 1 /\ NLow(x.m, sh - 1))
           up == half /\ (rest \/ NOdd(m0))
           m == IF up THEN NAdd(m0, <<1>>) ELSE m0
       IN IF m = <<>> THEN Zero(x.s)
          ELSE IF qe + NBits(m) - 1 > EMax(sz) THEN Inf(x.s)
          ELSE Num(x.s, m, qe)

\* encode an unpacked value already representable in the format
Pad(a, n) == [i \in 1..n |-> Ats(a, i)]
Pack(sz, x) ==
  LET p == Prec(sz)
      top(ex) == NShl(Trim(<<ex % 256, ex \div 256>>), p - 1)
      sg == IF x.s = 1 THEN NShl(<<1>>, 8*sz - 1) ELSE <<>>
  IN Pad(CASE x.c = "zero" -> sg
           [] x.c = "inf" -> NAdd(top(2*EMax(sz) + 1), sg)
           [] x.c = "nan" -> NAdd(top(2*EMax(sz) + 1), NShl(<<1>>, p - 2))
           [] OTHER ->
                LET L == NBits(x.m)
                    E == x.e + L - 1
                    emin == 1 - EMax(sz)
                    m == IF E >= emin THEN (IF L <= p THEN NShl(x.m, p - L) ELSE NShr(x.m, L - p))
                         ELSE LET q == x.e - (emin - (p-1)) IN IF q >= 0 THEN NShl(x.m, q) ELSE NShr(x.m, -q)
                    ex == IF E >= emin THEN E + EMax(sz) ELSE 0
                    fr == IF E >= emin THEN NSub(m, NShl(<<1>>, p-1)) ELSE m
                IN NAdd(NAdd(top(ex), fr), sg), sz)
Enc(sz, x) == Pack(sz, RoundTo(sz, x, FALSE))

\* ------------------------------------------------------------ operations
\* exact comparison of magnitudes of two "num"s
MagLt(a, b) ==
  LET e == IF a.e < b.e THEN a.e ELSE b.e
      Ea == a.e + NBits(a.m)  Eb == b.e + NBits(b.m)
  IN IF Ea # Eb THEN Ea < Eb ELSE NLt(NShl(a.m, a.e - e), NShl(b.m, b.e - e))
AddX(sz, a, b) ==
  CASE a.c = "nan" \/ b.c = "nan" -> NaN
    [] a.c = "inf" /\ b.c = "inf" -> IF a.s = b.s THEN a ELSE NaN
    [] a.c = "inf" -> a
    [] b.c = "inf" -> b
    [] a.c = "zero" /\ b.c = "zero" -> IF a.s = b.s THEN a ELSE Zero(0)
    [] a.c = "zero" -> b
    [] b.c = "zero" -> a
    [] OTHER ->
       LET hi == IF MagLt(a, b) THEN b ELSE a
           lo == IF MagLt(a, b) THEN a ELSE b
           gap == (hi.e + NBits(hi.m)) - (lo.e + NBits(lo.m))
       IN \* far apart: replace the small operand by a tiny one of the same sign
          LET lo2 == IF gap > 2 * Prec(sz) + 8 THEN [lo EXCEPT !.m = <<1>>, !.e = hi.e + NBits(hi.m) - 2*Prec(sz) - 8] ELSE lo
              e == IF hi.e < lo2.e THEN hi.e ELSE lo2.e
              x == NShl(hi.m, hi.e - e)  y == NShl(lo2.m, lo2.e - e)
          IN IF hi.s = lo2.s THEN RoundTo(sz, Num(hi.s, NAdd(x, y), e), FALSE)
             ELSE LET d == NSub(x, y) IN IF d = <<>> THEN Zero(0) ELSE RoundTo(sz, Num(hi.s, d, e), FALSE)
NegX(a) == IF a.c = "nan" THEN a ELSE [a EXCEPT !.s = 1 - @]
MulX(sz, a, b) ==
  LET s == (a.s + b.s) % 2 IN
  CASE a.c = "nan" \/ b.c = "nan" -> NaN
    [] a.c = "inf" \/ b.c = "inf" -> IF a.c = "zero" \/ b.c = "zero" THEN NaN ELSE Inf(s)
    [] a.c = "zero" \/ b.c = "zero" -> Zero(s)
    [] OTHER -> RoundTo(sz, Num(s, NMul(a.m, b.m), a.e + b.e), FALSE)
DivX(sz, a, b) ==
  LET s == (a.s + b.s) % 2 IN
  CASE a.c = "nan" \/ b.c = "nan" -> NaN
    [] a.c = "inf" -> IF b.c = "inf" THEN NaN ELSE Inf(s)
    [] b.c = "inf" -> Zero(s)
    [] b.c = "zero" -> IF a.c = "zero" THEN NaN ELSE Inf(s)
    [] a.c = "zero" -> Zero(s)
    [] OTHER ->
       LET k == Mx(0, Prec(sz) + 3 + NBits(b.m) - NBits(a.m))
           q == NDiv(NShl(a.m, k), b.m)
       IN \* keep the remainder as one extra low bit, so rounding sees it
          RoundTo(sz, Num(s, NAdd(NShl(q[1], 1), IF q[2] # <<>> THEN <<1>> ELSE <<>>), a.e - b.e - k - 1), FALSE)
FOp(op, sz, x, y) ==          \* encoded operands of format sz
  LET a == Unpack(x)  b == Unpack(y) IN
  Pack(sz, CASE op = "+" -> AddX(sz, a, b)
             [] op = "-" -> AddX(sz, a, NegX(b))
             [] op = "*" -> MulX(sz, a, b)
             [] op = "/" -> DivX(sz, a, b))
FNeg(x) == [x EXCEPT ![Len(x)] = (@ + 128) % 256]
IsNaN(x) == Unpack(x).c = "nan"
FIsZero(x) == Unpack(x).c = "zero"
LtX(a, b) ==
  CASE a.c = "nan" \/ b.c = "nan" -> FALSE
    [] a.c = "zero" /\ b.c = "zero" -> FALSE
    [] a.c = "zero" -> b.s = 0
    [] b.c = "zero" -> a.s = 1
    [] a.s # b.s -> a.s = 1
    [] a.c = "inf" -> a.s = 1 /\ b.c # "inf"
    [] b.c = "inf" -> a.s = 0
    [] OTHER -> IF a.s = 0 THEN MagLt(a, b) ELSE MagLt(b, a)
EqX(a, b) == /\ a.c # "nan" /\ b.c # "nan"
             /\ ~LtX(a, b) /\ ~LtX(b, a)
FCmp(op, x, y) ==
  LET a == Unpack(x)  b == Unpack(y) IN
  CASE op = "==" -> EqX(a, b) [] op = "!=" -> ~EqX(a, b)
    [] op = "<" -> LtX(a, b) [] op = ">" -> LtX(b, a)
    [] op = "<=" -> LtX(a, b) \/ EqX(a, b) [] op = ">=" -> LtX(b, a) \/ EqX(a, b)

\* ----------------------------------------------------------- conversions
FToF(x, sz) == IF Len(x) = sz THEN x ELSE Enc(sz, Unpack(x))
\* 64-bit word, read as signed or unsigned, to float
IToF(w, sgn, sz) ==
  LET s == sgn /\ Neg(w) IN Enc(sz, Num(IF s THEN 1 ELSE 0, Trim(IF s THEN Minus(w) ELSE w), 0))
\* truncation to an integer: [ok, w]; ok iff it fits `isz` bytes of that signedness
FToI(x, isz, sgn) ==
  LET a == Unpack(x) IN
  IF a.c = "zero" THEN [ok |-> TRUE, w |-> W0]
  ELSE IF a.c # "num" THEN [ok |-> FALSE, w |-> W0]
  ELSE IF a.e + NBits(a.m) > 64 THEN [ok |-> FALSE, w |-> W0]
  ELSE LET m == Pad(IF a.e >= 0 THEN NShl(a.m, a.e) ELSE NShr(a.m, -a.e), 8)
           mag == <<m[1],m[2],m[3],m[4],m[5],m[6],m[7],m[8]>>
           w == IF a.s = 1 THEN Minus(mag) ELSE mag
       IN [ok |-> \/ IsZero(mag)
                  \/ /\ (sgn \/ a.s = 0)
                     /\ Ext(w, isz, sgn) = w
                     /\ (sgn => (Neg(w) <=> a.s = 1)), w |-> w]
=============================================================================
