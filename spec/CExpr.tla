-------------------------------- MODULE CExpr -------------------------------
(***************************************************************************)
(* Typing and evaluation of C expressions over a byte-addressed memory.    *)
(*                                                                         *)
(* Memory is a sequence of objects, each a sequence of bytes; -1 stands    *)
(* for a byte whose value is indeterminate.  A pointer is a 64-bit word    *)
(* made of an object number and an offset, so it can itself be stored as   *)
(* eight bytes.  Evaluation yields a value, the new memory, and            *)
(*   R, W   the objects read and written                                   *)
(*   Q      the objects whose update is not yet followed by a sequence     *)
(*          point                                                          *)
(*   ub     "" or the reason why C leaves the program undefined or its     *)
(*          result unspecified; such programs are not replayed.            *)
(*                                                                         *)
(* Expressions (from JSON):                                                *)
(*   <<"n", type, bytes>>  <<"v", var>>  <<"u", op, e>>  <<"b", op, a, b>> *)
(*   <<"?", c, a, b>>  <<"c", type, e>>  <<"=", lv, e>>                    *)
(*   <<"o=", op, lv, e>>  <<"pre", op, lv>>  <<"post", op, lv>>            *)
(*   <<"*", e>>  <<"&", lv>>  <<"[]", a, i>>  <<".", lv, k>>               *)
(*   <<"->", e, k>>  <<"sz", e>>  <<"szt", type>>  <<"se", es>>            *)
(*   <<"call", f, args>>  <<"alt", type>>  <<"am", lv, n, auto>>             *)
(***************************************************************************)
EXTENDS CTypes, SoftFloat, Json, IOUtils

Batch == JsonDeserialize(IOEnv.BATCH)
Lay == [p \in 1..Len(Batch) |-> LayTags(Batch[p].tags)]

\* ---------------------------------------------------------------- pointers
Ptr(o, off) == <<off % 256, (off \div 256) % 256, (off \div 65536) % 256, (off \div 16777216) % 256,
                 o % 256, o \div 256, 1, 0>>
PObj(w) == w[5] + 256 * w[6]
POff(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
IsPtrVal(w) == w[7] = 1 /\ w[8] = 0 /\ w[4] < 64
\* w + n bytes, staying within [0, size]
PtrAdd(m, w, n) ==
  IF ~IsPtrVal(w) \/ ~FitsInt(n) THEN [v |-> w, ub |-> "pointer arithmetic"]
  ELSE LET off == POff(w) + ToInt(n) IN
       IF off < 0 \/ PObj(w) > Len(m) \/ off > Len(m[PObj(w)]) THEN [v |-> w, ub |-> "pointer out of bounds"]
       ELSE [v |-> Ptr(PObj(w), off), ub |-> ""]

\* ------------------------------------------------------------- conversions
Cv(v, f, t) ==
  CASE t[1] = "v" -> R(W0)
    [] IsInt(t) /\ IsFlt(f) ->
        IF t[4] = 0 THEN R(B2W(~FIsZero(v)))
        ELSE LET r == FToI(v, t[2], Signed(t)) IN IF r.ok THEN R(r.w) ELSE UB("float to int")
    [] IsInt(t) -> R(IConv(v, t))
    [] IsFlt(t) /\ IsFlt(f) -> R(FToF(v, t[2]))
    [] IsFlt(t) -> R(IToF(v, Signed(f), t[2]))
    [] OTHER -> R(v)
Truth(v, t) == IF IsFlt(t) THEN ~FIsZero(v) ELSE ~IsZero(v)

\* ---------------------------------------------------------------- memory
Undef(n) == [i \in 1..n |-> -1]
Bytes(b, off, n) == SubSeq(b, off + 1, off + n)
\* replace bytes [off, off+Len(s)) of b
Splice(b, off, s) == SubSeq(b, 1, off) \o s \o SubSeq(b, off + Len(s) + 1, Len(b))
Defined(s) == \A i \in 1..Len(s) : s[i] >= 0
W8(s) == <<Ats(s,1), Ats(s,2), Ats(s,3), Ats(s,4), Ats(s,5), Ats(s,6), Ats(s,7), Ats(s,8)>>

\* the bytes of a value of type t
ToBytes(v, t) == IF IsInt(t) THEN SubSeq(v, 1, t[2]) ELSE v

GetBits(b, off, bp, bw, sgn) ==
  LET lo == bp \div 8  hi == (bp + bw - 1) \div 8
      n == NShr(Trim(Bytes(b, off + lo, hi - lo + 1)), bp % 8)
  IN ExtBits(W8(n), bw, sgn)
SetBits(b, off, bp, bw, v) ==
  LET lo == bp \div 8  hi == (bp + bw - 1) \div 8
      old == Bytes(b, off + lo, hi - lo + 1)
      val == NShl(Trim(WAnd(v, Mask(bw))), bp % 8)
      msk == NShl(Trim(Mask(bw)), bp % 8)
      new == [i \in 1..(hi - lo + 1) |-> (old[i] & (255 - Ats(msk, i))) | Ats(val, i)]
  IN Splice(b, off + lo, new)

\* the bytes an lvalue reaches from its offset
Extent(sz, l) == IF l.bw >= 0 THEN (l.bp + l.bw + 7) \div 8 ELSE sz
\* an lvalue is [o, off, t, bp, bw]; load it: [v, t, ub]
Load(p, m, l) ==
  LET sz == SizeOf(Lay[p], l.t) IN
  IF l.o = 0 \/ l.o > Len(m) THEN [v |-> W0, t |-> l.t, ub |-> "dead object"]
  ELSE IF IsArr(l.t) THEN [v |-> Ptr(l.o, l.off), t |-> <<"p", l.t[2]>>, ub |-> ""]
  ELSE IF l.off < 0 \/ l.off + Extent(sz, l) > Len(m[l.o]) THEN [v |-> W0, t |-> l.t, ub |-> "out of bounds"]
  ELSE IF l.bw >= 0
  THEN LET lo == l.bp \div 8  hi == (l.bp + l.bw - 1) \div 8 IN
       IF ~Defined(Bytes(m[l.o], l.off + lo, hi - lo + 1)) THEN [v |-> W0, t |-> l.t, ub |-> "uninitialised"]
       ELSE [v |-> GetBits(m[l.o], l.off, l.bp, l.bw, Signed(l.t)), t |-> l.t, ub |-> ""]
  ELSE LET s == Bytes(m[l.o], l.off, sz) IN
       IF IsAgg(l.t) THEN [v |-> s, t |-> l.t, ub |-> ""]
       ELSE IF ~Defined(s) THEN [v |-> W0, t |-> l.t, ub |-> "uninitialised"]
       ELSE IF IsInt(l.t) /\ l.t[4] = 0 /\ s[1] > 1 THEN [v |-> W0, t |-> l.t, ub |-> "trap representation"]
       ELSE IF IsInt(l.t) THEN [v |-> Ext(W8(s), l.t[2], Signed(l.t)), t |-> l.t, ub |-> ""]
       ELSE [v |-> s, t |-> l.t, ub |-> ""]

\* store a value already converted to l.t: [m, v (value of the assignment), ub]
Store(p, m, l, v) ==
  LET sz == SizeOf(Lay[p], l.t) IN
  IF l.o = 0 \/ l.o > Len(m) THEN [m |-> m, v |-> v, ub |-> "dead object"]
  ELSE IF l.off < 0 \/ l.off + Extent(sz, l) > Len(m[l.o]) THEN [m |-> m, v |-> v, ub |-> "out of bounds"]
  ELSE IF l.bw >= 0
  THEN LET lo == l.bp \div 8  hi == (l.bp + l.bw - 1) \div 8 IN
       IF ~Defined(Bytes(m[l.o], l.off + lo, hi - lo + 1)) THEN [m |-> m, v |-> v, ub |-> "uninitialised"]
       ELSE [m |-> [m EXCEPT ![l.o] = SetBits(@, l.off, l.bp, l.bw, v)],
             v |-> ExtBits(v, l.bw, Signed(l.t)), ub |-> ""]
  ELSE IF IsAgg(l.t)
  THEN \* padding takes unspecified values
       LET val == ValueBytes(Lay[p], l.t)
           s == [i \in 1..sz |-> IF (i - 1) \in val THEN v[i] ELSE -1]
       IN [m |-> [m EXCEPT ![l.o] = Splice(@, l.off, s)], v |-> v, ub |-> ""]
  ELSE IF IsFlt(l.t) /\ IsNaN(v)      \* the payload and sign of a NaN are unspecified
  THEN [m |-> [m EXCEPT ![l.o] = Splice(@, l.off, Undef(sz))], v |-> v, ub |-> ""]
  ELSE [m |-> [m EXCEPT ![l.o] = Splice(@, l.off, ToBytes(v, l.t))], v |-> v, ub |-> ""]

\* ------------------------------------------------------------ static types
Decay(t) == IF IsArr(t) THEN <<"p", t[2]>> ELSE t
Mem(p, t, k) == Lay[p][t[2]].mem[k]
TYF[x \in Any] ==                \* x = <<p, e, en>>
  LET p == x[1]  e == x[2]  en == x[3]  k == e[1]
      ty(f) == TYF[<<p, f, en>>]
      \* promoted type of an operand, bit-fields included
      bfw(f) == IF f[1] = "." THEN Mem(p, ty(f[2]), f[3]).bw
                ELSE IF f[1] = "->" THEN Mem(p, ty(f[2])[2], f[3]).bw ELSE -1
      pt(f) == LET t == Decay(ty(f)) IN IF IsInt(t) THEN PromoteBf(t, bfw(f)) ELSE t
  IN CASE k = "n" -> e[2]
       [] k = "v" -> en[e[2]][2]
       [] k = "u" -> IF e[2] = "!" THEN TInt ELSE pt(e[3])
       [] k = "b" ->
           (IF e[2] \in CmpOps \/ e[2] \in {"&&", "||"} THEN TInt
            ELSE IF e[2] = "," THEN Decay(ty(e[4]))
            ELSE IF e[2] \in ShiftOps THEN pt(e[3])
            ELSE LET a == pt(e[3])  b == pt(e[4]) IN
                 IF IsPtr(a) /\ IsPtr(b) THEN TLong
                 ELSE IF IsPtr(a) THEN a ELSE IF IsPtr(b) THEN b ELSE UAC(a, b))
       [] k = "?" -> LET a == pt(e[3])  b == pt(e[4]) IN
                     IF IsArith(a) /\ IsArith(b) THEN UAC(a, b) ELSE IF IsInt(a) THEN b ELSE a
       [] k = "c" -> e[2]
       [] k = "=" -> ty(e[2])
       [] k = "o=" -> ty(e[3])
       [] k \in {"pre", "post"} -> ty(e[3])
       [] k = "*" -> Decay(ty(e[2]))[2]
       [] k = "&" -> <<"p", ty(e[2])>>
       [] k = "[]" -> LET a == Decay(ty(e[2])) IN IF IsPtr(a) THEN a[2] ELSE Decay(ty(e[3]))[2]
       [] k = "." -> Mem(p, ty(e[2]), e[3]).t
       [] k = "->" -> Mem(p, Decay(ty(e[2]))[2], e[3]).t
       [] k \in {"sz", "szt", "alt", "am"} -> TULong
       [] k = "se" -> Decay(ty(e[2][Len(e[2])]))
       [] k = "call" -> Batch[p].funcs[e[2]].ret
TypeOf(p, e, en) == TYF[<<p, e, en>>]

\* -------------------------------------------------------------- evaluation
LvKinds == {"v", "*", "[]", ".", "->"}
Ok(v, t, m) == [v |-> v, t |-> t, m |-> m, bw |-> -1, R |-> {}, W |-> {}, Q |-> {}, ub |-> ""]
Bad(m, s) == [v |-> W0, t |-> TInt, m |-> m, bw |-> -1, R |-> {}, W |-> {}, Q |-> {}, ub |-> s]
\* effects of two operands evaluated in either order
Clash(a, b) == (a.W \cap (b.R \cup b.W)) # {} \/ (b.W \cap a.R) # {}
PTy(r) == IF IsInt(r.t) THEN PromoteBf(r.t, r.bw) ELSE r.t

\* a op b on evaluated operands: [v, t, ub]
BinVal(p, m, op, a, b) ==
  LET ta == PTy(a)  tb == PTy(b) IN
  IF IsPtr(ta) \/ IsPtr(tb)
  THEN IF op \in {"==", "!="} THEN [v |-> B2W((a.v = b.v) = (op = "==")), t |-> TInt, ub |-> ""]
       ELSE IF op \in CmpOps
       THEN IF ~IsPtrVal(a.v) \/ ~IsPtrVal(b.v) \/ PObj(a.v) # PObj(b.v)
            THEN [v |-> W0, t |-> TInt, ub |-> "pointer comparison"]
            ELSE [v |-> B2W(IntCmp(op, TULong, a.v, b.v)), t |-> TInt, ub |-> ""]
       ELSE IF IsPtr(ta) /\ IsPtr(tb)
       THEN IF ~IsPtrVal(a.v) \/ ~IsPtrVal(b.v) \/ PObj(a.v) # PObj(b.v)
            THEN [v |-> W0, t |-> TLong, ub |-> "pointer difference"]
            ELSE LET d == POff(a.v) - POff(b.v)  sz == SizeOf(Lay[p], ta[2]) IN
                 IF d % sz # 0 THEN [v |-> W0, t |-> TLong, ub |-> "pointer difference"]
                 ELSE [v |-> FromInt(d \div sz), t |-> TLong, ub |-> ""]
       ELSE LET ptr == IF IsPtr(ta) THEN a ELSE b
                ix == IF IsPtr(ta) THEN b ELSE a
                n == Mul(IF op = "-" THEN Minus(ix.v) ELSE ix.v, FromInt(SizeOf(Lay[p], ptr.t[2])))
                r == PtrAdd(m, ptr.v, n)
            IN [v |-> r.v, t |-> ptr.t, ub |-> r.ub]
  ELSE IF op \in ShiftOps
  THEN LET r == IntShift(op, ta, a.v, b.v, tb) IN [v |-> r.v, t |-> ta, ub |-> r.ub]
  ELSE LET t == UAC(ta, tb)  x == Cv(a.v, a.t, t)  y == Cv(b.v, b.t, t) IN
       IF IsFlt(t)
       THEN IF op \in CmpOps THEN [v |-> B2W(FCmp(op, x.v, y.v)), t |-> TInt, ub |-> ""]
            ELSE [v |-> FOp(op, t[2], x.v, y.v), t |-> t, ub |-> ""]
       ELSE IF op \in CmpOps THEN [v |-> B2W(IntCmp(op, t, x.v, y.v)), t |-> TInt, ub |-> ""]
       ELSE LET r == IntOp(op, t, x.v, y.v) IN [v |-> r.v, t |-> t, ub |-> r.ub]

\* EV[<<mode, p, e, en, m>>]; mode "r": value, "l": lvalue
EV[x \in Any] ==
  LET p == x[2]  e == x[3]  en == x[4]  m == x[5]  k == e[1]
      val(f, mm) == EV[<<"r", p, f, en, mm>>]
      lv(f, mm) == EV[<<"l", p, f, en, mm>>]
  IN
  IF x[1] = "l" THEN
    \* ------------------------------------------------------------ lvalues
    CASE k = "v" -> [o |-> en[e[2]][1], off |-> 0, t |-> en[e[2]][2], bp |-> 0, bw |-> -1,
                     m |-> m, R |-> {}, W |-> {}, Q |-> {}, ub |-> ""]
      [] k \in {"*", "->"} ->
          (LET r == val(e[2], m) IN
           IF r.ub # "" THEN r
           ELSE IF ~IsPtrVal(r.v) THEN Bad(m, "bad pointer")
           ELSE LET mb == IF k = "*" THEN [bp |-> 0, bw |-> -1, t |-> r.t[2]] ELSE Mem(p, r.t[2], e[3]) IN
                [o |-> PObj(r.v), t |-> mb.t, bw |-> mb.bw,
                 off |-> POff(r.v) + (IF mb.bw >= 0 THEN 0 ELSE mb.bp \div 8),
                 bp |-> mb.bp, m |-> r.m, R |-> r.R, W |-> r.W, Q |-> r.Q, ub |-> ""])
      [] k = "[]" ->
          (LET a == val(e[2], m) IN
           IF a.ub # "" THEN a
           ELSE LET b == val(e[3], a.m) IN
                IF b.ub # "" THEN b
                ELSE IF Clash(a, b) THEN Bad(m, "unsequenced")
                ELSE LET r == BinVal(p, b.m, "+", a, b) IN
                     IF r.ub # "" THEN Bad(m, r.ub)
                     ELSE IF ~IsPtrVal(r.v) THEN Bad(m, "bad pointer")
                     ELSE [o |-> PObj(r.v), off |-> POff(r.v), t |-> r.t[2], bp |-> 0, bw |-> -1,
                           m |-> b.m, R |-> a.R \cup b.R, W |-> a.W \cup b.W, Q |-> a.Q \cup b.Q, ub |-> ""])
      [] k = "." ->
          (LET l == lv(e[2], m) IN
           IF l.ub # "" THEN l
           ELSE LET mb == Mem(p, l.t, e[3]) IN
                [l EXCEPT !.t = mb.t, !.bw = mb.bw, !.bp = mb.bp,
                          !.off = IF mb.bw >= 0 THEN @ ELSE @ + (mb.bp \div 8)])
      [] OTHER -> Bad(m, "not an lvalue")
  ELSE
    \* ------------------------------------------------------------- values
    CASE k = "n" -> Ok(e[3], e[2], m)
      [] k = "." /\ ~(e[2][1] \in LvKinds) ->
          \* member of a struct value (function result, assignment, ...)
          (LET r == val(e[2], m) IN
           IF r.ub # "" THEN r
           ELSE LET mb == Mem(p, r.t, e[3])
                    q == Load(p, <<r.v>>, [o |-> 1, off |-> IF mb.bw >= 0 THEN 0 ELSE mb.bp \div 8, t |-> mb.t, bp |-> mb.bp, bw |-> mb.bw])
                IN IF q.ub # "" THEN Bad(m, q.ub)
                   ELSE IF IsArr(mb.t) THEN Bad(m, "array in value")
                   ELSE [r EXCEPT !.v = q.v, !.t = q.t, !.bw = mb.bw])
      [] k \in LvKinds ->
          (LET l == lv(e, m) IN
           IF l.ub # "" THEN Bad(m, l.ub)
           ELSE LET r == Load(p, l.m, l) IN
                IF r.ub # "" THEN Bad(m, r.ub)
                ELSE [v |-> r.v, t |-> r.t, m |-> l.m, bw |-> l.bw,
                      R |-> IF IsArr(l.t) THEN l.R ELSE l.R \cup {l.o}, W |-> l.W, Q |-> l.Q, ub |-> ""])
      [] k = "u" ->
          (LET r == val(e[3], m) IN
           IF r.ub # "" THEN r
           ELSE IF e[2] = "!" THEN [r EXCEPT !.v = B2W(~Truth(r.v, r.t)), !.t = TInt, !.bw = -1]
           ELSE LET t == PTy(r)
                    q == IF IsFlt(t) THEN (IF e[2] = "-" THEN R(FNeg(r.v)) ELSE R(r.v))
                         ELSE IF e[2] = "-" THEN IntOp("-", t, W0, r.v)
                         ELSE IF e[2] = "~" THEN R(Ext(WNot(r.v), t[2], Signed(t)))
                         ELSE R(r.v)
                IN IF q.ub # "" THEN Bad(m, q.ub) ELSE [r EXCEPT !.v = q.v, !.t = t, !.bw = -1])
      [] k = "b" /\ e[2] \in {"&&", "||"} ->
          (LET a == val(e[3], m) IN
           IF a.ub # "" THEN a
           ELSE LET ta == Truth(a.v, a.t) IN
                IF ta = (e[2] = "||") THEN [a EXCEPT !.v = B2W(ta), !.t = TInt, !.bw = -1]
                ELSE LET b == val(e[4], a.m) IN
                     IF b.ub # "" THEN b
                     ELSE [b EXCEPT !.v = B2W(Truth(b.v, b.t)), !.t = TInt, !.bw = -1,
                                    !.R = @ \cup a.R, !.W = @ \cup a.W])
      [] k = "b" /\ e[2] = "," ->
          (LET a == val(e[3], m) IN
           IF a.ub # "" THEN a
           ELSE LET b == val(e[4], a.m) IN
                IF b.ub # "" THEN b ELSE [b EXCEPT !.R = @ \cup a.R, !.W = @ \cup a.W, !.bw = -1])
      [] k = "b" ->
          (LET a == val(e[3], m) IN
           IF a.ub # "" THEN a
           ELSE LET b == val(e[4], a.m) IN
                IF b.ub # "" THEN b
                ELSE IF Clash(a, b) THEN Bad(m, "unsequenced")
                ELSE LET r == BinVal(p, b.m, e[2], a, b) IN
                     IF r.ub # "" THEN Bad(m, r.ub)
                     ELSE [v |-> r.v, t |-> r.t, m |-> b.m, bw |-> -1, R |-> a.R \cup b.R,
                           W |-> a.W \cup b.W, Q |-> a.Q \cup b.Q, ub |-> ""])
      [] k = "?" ->
          (LET c == val(e[2], m) IN
           IF c.ub # "" THEN c
           ELSE LET b == val(IF Truth(c.v, c.t) THEN e[3] ELSE e[4], c.m) IN
                IF b.ub # "" THEN b
                ELSE LET t == TypeOf(p, e, en)  q == Cv(b.v, b.t, t) IN
                     [b EXCEPT !.v = q.v, !.t = t, !.bw = -1, !.R = @ \cup c.R, !.W = @ \cup c.W])
      [] k = "c" ->
          (LET r == val(e[3], m) IN
           IF r.ub # "" THEN r
           ELSE LET q == Cv(r.v, r.t, e[2]) IN
                IF q.ub # "" THEN Bad(m, q.ub) ELSE [r EXCEPT !.v = q.v, !.t = e[2], !.bw = -1])
      [] k = "=" ->
          (LET l == lv(e[2], m) IN
           IF l.ub # "" THEN Bad(m, l.ub)
           ELSE LET r == val(e[3], l.m) IN
                IF r.ub # "" THEN r
                ELSE IF Clash(l, r) \/ l.o \in (r.Q \cup l.Q) THEN Bad(m, "unsequenced")
                ELSE LET q == Cv(r.v, r.t, l.t) IN
                     IF q.ub # "" THEN Bad(m, q.ub)
                     ELSE LET s == Store(p, r.m, l, q.v) IN
                          IF s.ub # "" THEN Bad(m, s.ub)
                          ELSE [v |-> s.v, t |-> l.t, m |-> s.m, bw |-> l.bw, R |-> l.R \cup r.R,
                                W |-> l.W \cup r.W \cup {l.o}, Q |-> l.Q \cup r.Q \cup {l.o}, ub |-> ""])
      [] k \in {"o=", "pre", "post"} ->
          (LET l == lv(e[3], m) IN
           IF l.ub # "" THEN Bad(m, l.ub)
           ELSE LET r == IF k = "o=" THEN val(e[4], l.m) ELSE Ok(W1, TInt, l.m) IN
                IF r.ub # "" THEN r
                ELSE IF Clash(l, r) \/ l.o \in r.W \/ l.o \in l.Q THEN Bad(m, "unsequenced")
                ELSE LET old == Load(p, r.m, l) IN
                     IF old.ub # "" THEN Bad(m, old.ub)
                     ELSE LET a == [v |-> old.v, t |-> old.t, bw |-> l.bw]
                              z == BinVal(p, r.m, e[2], a, r)
                          IN IF z.ub # "" THEN Bad(m, z.ub)
                             ELSE LET q == Cv(z.v, z.t, l.t) IN
                                  IF q.ub # "" THEN Bad(m, q.ub)
                                  ELSE LET s == Store(p, r.m, l, q.v) IN
                                       IF s.ub # "" THEN Bad(m, s.ub)
                                       ELSE [v |-> IF k = "post" THEN old.v ELSE s.v, t |-> l.t, m |-> s.m, bw |-> l.bw,
                                             R |-> l.R \cup r.R \cup {l.o}, W |-> l.W \cup r.W \cup {l.o},
                                             Q |-> l.Q \cup r.Q \cup {l.o}, ub |-> ""])
      [] k = "&" ->
          (LET l == lv(e[2], m) IN
           IF l.ub # "" THEN Bad(m, l.ub)
           ELSE IF l.off > Len(m[l.o]) THEN Bad(m, "out of bounds")
           ELSE [v |-> Ptr(l.o, l.off), t |-> <<"p", l.t>>, m |-> l.m, bw |-> -1,
                 R |-> l.R, W |-> l.W, Q |-> l.Q, ub |-> ""])
      [] k = "sz" -> Ok(FromInt(SizeOf(Lay[p], TypeOf(p, e[2], en))), TULong, m)
      [] k = "alt" -> Ok(FromInt(AlignOf(Lay[p], e[2])), TULong, m)
      [] k = "am" ->         \* an object's address modulo its alignment (given as a type or a number)
          IF e[4] = 1 /\ AlignOf(Lay[p], e[3]) > 16 THEN Bad(m, "over-aligned automatic object") ELSE Ok(W0, TULong, m)
      [] k = "szt" -> Ok(FromInt(SizeOf(Lay[p], e[2])), TULong, m)
      [] k = "se" ->
          FoldLeft(LAMBDA acc, f : IF acc.ub # "" THEN acc
                                   ELSE LET r == val(f, acc.m) IN
                                        IF r.ub # "" THEN r ELSE [r EXCEPT !.R = @ \cup acc.R, !.W = @ \cup acc.W, !.bw = -1],
                   Ok(W0, TInt, m), e[2])
      [] k = "call" ->
          (LET fn == Batch[p].funcs[e[2]]
               n == Len(m)
               \* arguments, in any order
               as == FoldLeft(LAMBDA acc, i :
                        IF acc.ub # "" THEN acc
                        ELSE LET r == val(e[3][i], acc.m) IN
                             IF r.ub # "" THEN [acc EXCEPT !.ub = r.ub]
                             ELSE IF Clash(acc, r) THEN [acc EXCEPT !.ub = "unsequenced"]
                             ELSE LET q == Cv(r.v, r.t, Batch[p].vars[fn.par[i]].t) IN
                                  IF q.ub # "" THEN [acc EXCEPT !.ub = q.ub]
                                  ELSE [m |-> r.m, R |-> acc.R \cup r.R, W |-> acc.W \cup r.W, vs |-> Append(acc.vs, q.v), ub |-> ""],
                        [m |-> m, R |-> {}, W |-> {}, vs |-> <<>>, ub |-> ""], Idx(1, Len(e[3])))
           IN IF as.ub # "" THEN Bad(m, as.ub)
              ELSE LET m2 == FoldLeft(LAMBDA mm, i : Append(mm, ToBytes(as.vs[i], Batch[p].vars[fn.par[i]].t)), as.m, Idx(1, Len(fn.par)))
                       m3 == FoldLeft(LAMBDA mm, v : Append(mm, Undef(SizeOf(Lay[p], Batch[p].vars[v].t))), m2, fn.loc)
                       ids == fn.par \o fn.loc
                       en2 == FoldLeft(LAMBDA ee, i : [ee EXCEPT ![ids[i]] = <<n + i, Batch[p].vars[ids[i]].t>>], en, Idx(1, Len(ids)))
                       r == EV[<<"r", p, fn.body, en2, m3>>]
                   IN IF r.ub # "" THEN r
                      ELSE LET q == Cv(r.v, r.t, fn.ret) IN
                           IF q.ub # "" THEN Bad(m, q.ub)
                           ELSE [v |-> q.v, t |-> fn.ret, m |-> SubSeq(r.m, 1, n), bw |-> -1,
                                 R |-> {o \in as.R \cup r.R : o <= n}, W |-> {o \in as.W \cup r.W : o <= n},
                                 Q |-> {}, ub |-> ""])
Eval(p, e, en, m) == EV[<<"r", p, e, en, m>>]
LvalueOf(p, e, en, m) == EV[<<"l", p, e, en, m>>]
=============================================================================
