-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 64-bit machine words for TLC, whose integers have 32 bits.  A word is a *)
(* little-endian tuple of eight bytes.  Everything here is two's           *)
(* complement arithmetic modulo 2^64; signedness is a matter of the        *)
(* operator chosen (DivS/DivU, LtS/LtU, ...).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Byte == 0..255
IsWord(w) == Len(w) = 8 /\ \A i \in 1..8 : w[i] \in Byte

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
        131072,262144,524288,1048576,2097152,4194304,8388608,16777216,
        33554432,67108864,134217728,268435456,536870912,1073741824>>
Pow2(n) == P2[n+1]                                  \* 0 <= n <= 30

W0 == <<0,0,0,0,0,0,0,0>>
W1 == <<1,0,0,0,0,0,0,0>>
WM1 == <<255,255,255,255,255,255,255,255>>
WMin == <<0,0,0,0,0,0,0,128>>                       \* LONG_MIN

(* from a TLC integer (-2^31 .. 2^31-1), sign-extended *)
FromInt(n) ==
  LET s == IF n < 0 THEN 255 ELSE 0
      q == n \div 256  r == q \div 256  u == r \div 256
  IN <<n % 256, q % 256, r % 256, u % 256, s, s, s, s>>
B2W(b) == IF b THEN W1 ELSE W0

(* eager construction: TLC keeps [i \in S |-> e] as an unevaluated closure *)
Tup(F(_)) == <<F(1),F(2),F(3),F(4),F(5),F(6),F(7),F(8)>>

IsZero(w) == w = W0
Neg(w) == w[8] >= 128

(* the low 31 bits as a TLC natural; only meaningful when Small(w) *)
Small(w) == w[8] = 0 /\ w[7] = 0 /\ w[6] = 0 /\ w[5] = 0 /\ w[4] < 128
ToNat(w) == w[1] + 256*w[2] + 65536*w[3] + 16777216*w[4]
(* a word known to hold a value in -2^31 .. 2^31-1 *)
FitsInt(w) == \/ Small(w)
              \/ (w[8] = 255 /\ w[7] = 255 /\ w[6] = 255 /\ w[5] = 255 /\ w[4] >= 128)
ToInt(w) == IF Neg(w)
            THEN -1 - ((255-w[1]) + 256*(255-w[2]) + 65536*(255-w[3]) + 16777216*(255-w[4]))
            ELSE ToNat(w)

Add(a, b) ==
  LET s1 == a[1]+b[1]              s2 == a[2]+b[2]+(s1 \div 256)
      s3 == a[3]+b[3]+(s2 \div 256) s4 == a[4]+b[4]+(s3 \div 256)
      s5 == a[5]+b[5]+(s4 \div 256) s6 == a[6]+b[6]+(s5 \div 256)
      s7 == a[7]+b[7]+(s6 \div 256) s8 == a[8]+b[8]+(s7 \div 256)
  IN <<s1%256, s2%256, s3%256, s4%256, s5%256, s6%256, s7%256, s8%256>>

WNot(a) == <<255-a[1],255-a[2],255-a[3],255-a[4],255-a[5],255-a[6],255-a[7],255-a[8]>>
Minus(a) == Add(WNot(a), W1)
Sub(a, b) == Add(a, Minus(b))

WAnd(a, b) == Tup(LAMBDA i : a[i] & b[i])
WOr(a, b)  == Tup(LAMBDA i : a[i] | b[i])
WXor(a, b) == Tup(LAMBDA i : a[i] ^^ b[i])

(* product modulo 2^64 *)
Mul(a, b) ==
  LET p1 == a[1]*b[1]
      p2 == a[1]*b[2]+a[2]*b[1] + (p1 \div 256)
      p3 == a[1]*b[3]+a[2]*b[2]+a[3]*b[1] + (p2 \div 256)
      p4 == a[1]*b[4]+a[2]*b[3]+a[3]*b[2]+a[4]*b[1] + (p3 \div 256)
      p5 == a[1]*b[5]+a[2]*b[4]+a[3]*b[3]+a[4]*b[2]+a[5]*b[1] + (p4 \div 256)
      p6 == a[1]*b[6]+a[2]*b[5]+a[3]*b[4]+a[4]*b[3]+a[5]*b[2]+a[6]*b[1] + (p5 \div 256)
      p7 == a[1]*b[7]+a[2]*b[6]+a[3]*b[5]+a[4]*b[4]+a[5]*b[3]+a[6]*b[2]+a[7]*b[1] + (p6 \div 256)
      p8 == a[1]*b[8]+a[2]*b[7]+a[3]*b[6]+a[4]*b[5]+a[5]*b[4]+a[6]*b[3]+a[7]*b[2]+a[8]*b[1] + (p7 \div 256)
  IN <<p1%256, p2%256, p3%256, p4%256, p5%256, p6%256, p7%256, p8%256>>

LtU(a, b) ==
  IF a[8] # b[8] THEN a[8] < b[8] ELSE IF a[7] # b[7] THEN a[7] < b[7] ELSE
  IF a[6] # b[6] THEN a[6] < b[6] ELSE IF a[5] # b[5] THEN a[5] < b[5] ELSE
  IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3] ELSE
  IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
LtS(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE LtU(a, b)

(* shifts by 0..63 *)
ShlBytes(a, k) == Tup(LAMBDA i : IF i - k >= 1 THEN a[i-k] ELSE 0)
ShrBytes(a, k, fill) == Tup(LAMBDA i : IF i + k <= 8 THEN a[i+k] ELSE fill)
Shl(a, n) ==
  LET c == ShlBytes(a, n \div 8)  m == Pow2(n % 8)
  IN Tup(LAMBDA i : ((c[i]*m) % 256) + (IF i = 1 THEN 0 ELSE (c[i-1]*m) \div 256))
ShrFill(a, n, fill) ==
  LET c == ShrBytes(a, n \div 8, fill)  m == Pow2(n % 8)  h == 256 \div m
  IN Tup(LAMBDA i : c[i] \div m + ((IF i = 8 THEN fill ELSE c[i+1]) % m) * h)
ShrU(a, n) == ShrFill(a, n, 0)
ShrS(a, n) == ShrFill(a, n, IF Neg(a) THEN 255 ELSE 0)

BitAt(a, n) == (a[n \div 8 + 1] \div Pow2(n % 8)) % 2
(* shift left by one, shifting in bit b *)
Shl1Or(a, b) ==
  <<(2*a[1]+b) % 256, (2*a[2]+(a[1] \div 128)) % 256, (2*a[3]+(a[2] \div 128)) % 256,
    (2*a[4]+(a[3] \div 128)) % 256, (2*a[5]+(a[4] \div 128)) % 256, (2*a[6]+(a[5] \div 128)) % 256,
    (2*a[7]+(a[6] \div 128)) % 256, (2*a[8]+(a[7] \div 128)) % 256>>

(* Unsigned division by restoring subtraction, most significant bit first.   *)
(* Recursive *functions* over Any, not recursive operators: TLC evaluates a   *)
(* function body in the context of its definition, so lookups stay cheap.     *)
DivLoop[x \in Any] ==            \* x = <<n, d, bit, quotient, remainder>>
  LET i == x[3] IN
  IF i < 0 THEN [q |-> x[4], r |-> x[5]]
  ELSE LET r == x[5]
           r2 == Shl1Or(r, BitAt(x[1], i))
           ge == r[8] >= 128 \/ ~LtU(r2, x[2])
       IN DivLoop[<<x[1], x[2], i-1, Shl1Or(x[4], IF ge THEN 1 ELSE 0), IF ge THEN Sub(r2, x[2]) ELSE r2>>]
DivModU(n, d) ==
  IF Small(n) /\ Small(d)
  THEN [q |-> FromInt(ToNat(n) \div ToNat(d)), r |-> FromInt(ToNat(n) % ToNat(d))]
  ELSE DivLoop[<<n, d, 63, W0, W0>>]
Abs(a) == IF Neg(a) THEN Minus(a) ELSE a
(* C division: truncation towards zero, remainder has the dividend's sign *)
DivModS(n, d) ==
  LET u == DivModU(Abs(n), Abs(d))
  IN [q |-> IF Neg(n) # Neg(d) THEN Minus(u.q) ELSE u.q,
      r |-> IF Neg(n) THEN Minus(u.r) ELSE u.r]

(* keep the low `sz` bytes, then sign- or zero-extend *)
Ext(a, sz, sgn) ==
  IF sz = 8 THEN a
  ELSE LET f == IF sgn /\ a[sz] >= 128 THEN 255 ELSE 0
       IN Tup(LAMBDA i : IF i <= sz THEN a[i] ELSE f)
(* same for a bit count 1..64 *)
ExtBits(a, n, sgn) ==
  IF n = 64 THEN a
  ELSE IF sgn THEN ShrS(Shl(a, 64-n), 64-n) ELSE ShrU(Shl(a, 64-n), 64-n)
Mask(n) == IF n = 64 THEN WM1 ELSE Sub(Shl(W1, n), W1)

(* high 64 bits of products, for overflow detection: a*b overflows signed
   64 bits iff |a| > MAX/|b|; we use the exact 128-bit magnitude *)
MulMagFits(a, b) ==      \* TRUE iff a*b < 2^64 (unsigned magnitudes)
  LET top(x) == LET s == {k \in 1..8 : x[k] # 0} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : j <= k
  IN \/ top(a) + top(b) <= 8
     \/ IF IsZero(a) \/ IsZero(b) THEN TRUE
        ELSE IF top(a) + top(b) >= 10 THEN FALSE
        ELSE LET d == DivModU(WM1, b) IN ~LtU(d.q, a)
MulOvfS(a, b) ==            \* signed 64-bit overflow
  IF IsZero(a) \/ IsZero(b) THEN FALSE
  ELSE LET x == Abs(a)  y == Abs(b) IN
       \/ ~MulMagFits(x, y)
       \/ LET p == Mul(x, y) IN
          IF Neg(a) # Neg(b) THEN LtU(WMin, p) ELSE ~LtU(p, WMin)
AddOvfS(a, b) == LET s == Add(a, b) IN Neg(a) = Neg(b) /\ Neg(s) # Neg(a)
SubOvfS(a, b) == LET s == Sub(a, b) IN Neg(a) # Neg(b) /\ Neg(s) # Neg(a)
=============================================================================
