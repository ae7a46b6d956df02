------------------------------- MODULE CTypes -------------------------------
(***************************************************************************)
(* The C types of the subset and their LP64 RISC-V layout.                 *)
(*                                                                         *)
(*   <<"i", size, signed (0/1), rank>>    integers; rank 0 _Bool, 1 char,  *)
(*                                        2 short, 3 int/enum, 4 long,     *)
(*                                        5 long long                      *)
(*   <<"f", size>>                        float (4), double (8), long      *)
(*                                        double (16)                      *)
(*   <<"p", T>>  <<"a", T, n>>  <<"v">>   pointer, array, void             *)
(*   <<"s", tag>>                         struct or union, by index in the *)
(*                                        program's tag table              *)
(*                                                                         *)
(* A tag is [un |-> 0/1, pk |-> 0/1 packed, al |-> 0 or aligned(n),        *)
(*           mem |-> sequence of [t |-> type, bf |-> -1 or width,          *)
(*                                al |-> 0 or _Alignas value,              *)
(*                                nm |-> 1 if it has a name]]              *)
(***************************************************************************)
EXTENDS Word, SequencesExt, FiniteSets

TBool == <<"i",1,0,0>>
TI8  == <<"i",1,1,1>>   TU8  == <<"i",1,0,1>>
TI16 == <<"i",2,1,2>>   TU16 == <<"i",2,0,2>>
TInt == <<"i",4,1,3>>   TUInt == <<"i",4,0,3>>
TLong == <<"i",8,1,4>>  TULong == <<"i",8,0,4>>
TVoid == <<"v">>

IsInt(t) == t[1] = "i"
IsFlt(t) == t[1] = "f"
IsPtr(t) == t[1] = "p"
IsArr(t) == t[1] = "a"
IsAgg(t) == t[1] = "s"
IsArith(t) == IsInt(t) \/ IsFlt(t)
Signed(t) == t[3] = 1
Rank(t) == t[4]

AlignUp(n, a) == ((n + a - 1) \div a) * a
MaxI(a, b) == IF a > b THEN a ELSE b

(* Size and alignment, given the laid-out tag table L (a sequence of        *)
(* [size, align, mem]) for struct types.                                    *)
SizeOfF[x \in Any] ==            \* x = <<L, t>>
  LET t == x[2] IN
  CASE t[1] = "i" -> t[2] [] t[1] = "f" -> t[2] [] t[1] = "p" -> 8
    [] t[1] = "a" -> t[3] * SizeOfF[<<x[1], t[2]>>]
    [] t[1] = "s" -> x[1][t[2]].size
    [] OTHER -> 1
SizeOf(L, t) == SizeOfF[<<L, t>>]
AlignOfF[x \in Any] ==
  LET t == x[2] IN
  CASE t[1] = "i" -> t[2] [] t[1] = "f" -> t[2] [] t[1] = "p" -> 8
    [] t[1] = "a" -> AlignOfF[<<x[1], t[2]>>]
    [] t[1] = "s" -> x[1][t[2]].align
    [] OTHER -> 1
AlignOf(L, t) == AlignOfF[<<L, t>>]

(***************************************************************************)
(* Member placement.  The state of the fold is the number of bits used,    *)
(* the alignment so far and the members placed so far; every placed member *)
(* has its absolute bit position `bp`, and its width in bits for a         *)
(* bit-field (-1 otherwise).                                               *)
(***************************************************************************)
PlaceStruct(L, pk, st, m) ==
  LET sz == SizeOf(L, m.t)
      al == IF m.al > 0 THEN m.al ELSE IF pk THEN 1 ELSE AlignOf(L, m.t)
  IN IF m.bf = 0                 \* zero width: only closes the storage unit
     THEN [st EXCEPT !.bits = AlignUp(@, 8 * sz),
                     !.mem = Append(@, [bp |-> AlignUp(st.bits, 8*sz), bw |-> 0, t |-> m.t])]
     ELSE IF m.bf > 0
     THEN LET unit == 8 * sz
              at == IF ~pk /\ (st.bits \div unit) # ((st.bits + m.bf - 1) \div unit)
                    THEN AlignUp(st.bits, unit) ELSE st.bits
          IN [bits |-> at + m.bf,
              \* an unnamed bit-field does not contribute to the alignment
              align |-> IF m.nm = 1 THEN MaxI(st.align, al) ELSE st.align,
              mem |-> Append(st.mem, [bp |-> at, bw |-> m.bf, t |-> m.t])]
     ELSE LET at == AlignUp(st.bits, 8 * al)
          IN [bits |-> at + 8 * sz, align |-> MaxI(st.align, al),
              mem |-> Append(st.mem, [bp |-> at, bw |-> -1, t |-> m.t])]

PlaceUnion(L, pk, st, m) ==
  LET sz == SizeOf(L, m.t)
      al == IF m.al > 0 THEN m.al ELSE IF pk THEN 1 ELSE AlignOf(L, m.t)
      w == IF m.bf >= 0 THEN m.bf ELSE 8 * sz
  IN [bits |-> MaxI(st.bits, w),
      align |-> IF m.bf >= 0 /\ m.nm = 0 THEN st.align ELSE MaxI(st.align, al),
      mem |-> Append(st.mem, [bp |-> 0, bw |-> m.bf, t |-> m.t])]

LayTag(L, tag) ==
  LET st0 == [bits |-> 0, align |-> MaxI(1, tag.al), mem |-> <<>>]
      st == IF tag.un = 1
            THEN FoldLeft(LAMBDA s, m : PlaceUnion(L, tag.pk = 1, s, m), st0, tag.mem)
            ELSE FoldLeft(LAMBDA s, m : PlaceStruct(L, tag.pk = 1, s, m), st0, tag.mem)
  IN [size |-> AlignUp(AlignUp(st.bits, 8) \div 8, st.align), align |-> st.align, mem |-> st.mem, un |-> tag.un]

(* tags may only refer to earlier tags, so one pass lays out the whole table *)
LayTags(tags) == FoldLeft(LAMBDA L, tag : Append(L, LayTag(L, tag)), <<>>, tags)

(* which bytes of an object of type t carry value (not padding) *)
ValueBytesF[x \in Any] ==        \* x = <<L, t, base>>: set of byte offsets
  LET L == x[1]  t == x[2]  b == x[3] IN
  CASE IsAgg(t) ->
        LET ms == L[t[2]].mem IN
        UNION { IF ms[i].bw >= 0
                THEN { b + k : k \in (ms[i].bp \div 8) .. ((ms[i].bp + ms[i].bw - 1) \div 8) }
                ELSE ValueBytesF[<<L, ms[i].t, b + (ms[i].bp \div 8)>>] : i \in DOMAIN ms }
    [] IsArr(t) -> UNION { ValueBytesF[<<L, t[2], b + (k-1) * SizeOf(L, t[2])>>] : k \in 1..t[3] }
    [] OTHER -> b .. (b + SizeOf(L, t) - 1)
ValueBytes(L, t) == ValueBytesF[<<L, t, 0>>]

(***************************************************************************)
(* Arithmetic conversions                                                  *)
(***************************************************************************)
Promote(t) == IF IsInt(t) /\ Rank(t) < 3 THEN TInt ELSE t
(* a bit-field of width w promotes to int if int can hold its values *)
PromoteBf(t, w) == IF w < 0 THEN Promote(t)
                   ELSE IF Rank(t) <= 3 /\ (w < 32 \/ (w = 32 /\ Signed(t))) THEN TInt ELSE t
UAC(a0, b0) ==
  IF IsFlt(a0) \/ IsFlt(b0)
  THEN <<"f", MaxI(IF IsFlt(a0) THEN a0[2] ELSE 0, IF IsFlt(b0) THEN b0[2] ELSE 0)>>
  ELSE LET a == Promote(a0)  b == Promote(b0) IN
    IF a = b THEN a
    ELSE IF Signed(a) = Signed(b) THEN (IF Rank(a) >= Rank(b) THEN a ELSE b)
    ELSE LET u == IF Signed(a) THEN b ELSE a
             s == IF Signed(a) THEN a ELSE b
         IN IF Rank(u) >= Rank(s) THEN u
            ELSE IF s[2] > u[2] THEN s
            ELSE <<"i", s[2], 0, s[4]>>

(* integer to integer *)
IConv(v, t) == IF t[4] = 0 THEN B2W(~IsZero(v)) ELSE Ext(v, t[2], Signed(t))

InRange(v, t) == Ext(v, t[2], Signed(t)) = v

(***************************************************************************)
(* Integer operators on operands already converted to type t.  ub is the   *)
(* reason why C leaves the operation undefined, "" if it is defined.       *)
(***************************************************************************)
R(v) == [v |-> v, ub |-> ""]
UB(s) == [v |-> W0, ub |-> s]
Wrap(v, t) == R(Ext(v, t[2], FALSE))
Chk(v, t) == IF InRange(v, t) THEN R(v) ELSE UB("overflow")

IntOp(op, t, a, b) ==
  CASE op = "+" -> IF ~Signed(t) THEN Wrap(Add(a, b), t)
                   ELSE IF t[2] = 8 /\ AddOvfS(a, b) THEN UB("overflow") ELSE Chk(Add(a, b), t)
    [] op = "-" -> IF ~Signed(t) THEN Wrap(Sub(a, b), t)
                   ELSE IF t[2] = 8 /\ SubOvfS(a, b) THEN UB("overflow") ELSE Chk(Sub(a, b), t)
    [] op = "*" -> IF ~Signed(t) THEN Wrap(Mul(a, b), t)
                   ELSE IF t[2] = 8 /\ MulOvfS(a, b) THEN UB("overflow") ELSE Chk(Mul(a, b), t)
    [] op \in {"/", "%"} ->
         IF IsZero(b) THEN UB("division by zero")
         ELSE IF Signed(t)
         THEN IF b = WM1 /\ (a = WMin \/ ~InRange(Minus(a), t)) THEN UB("overflow")
              ELSE LET d == DivModS(a, b) IN R(IF op = "/" THEN d.q ELSE d.r)
         ELSE LET d == DivModU(a, b) IN R(IF op = "/" THEN d.q ELSE d.r)
    [] op = "&" -> R(WAnd(a, b))
    [] op = "|" -> R(WOr(a, b))
    [] op = "^" -> R(WXor(a, b))
(* comparison, on operands of a common type: 1 or 0 *)
IntCmp(op, t, a, b) ==
  LET lt(x, y) == IF Signed(t) THEN LtS(x, y) ELSE LtU(x, y) IN
  CASE op = "==" -> a = b  [] op = "!=" -> a # b
    [] op = "<" -> lt(a, b) [] op = ">" -> lt(b, a)
    [] op = "<=" -> ~lt(b, a) [] op = ">=" -> ~lt(a, b)
(* shifts: t is the promoted type of the left operand, n the count's value *)
IntShift(op, t, a, n, tn) ==
  IF (Signed(tn) /\ Neg(n)) \/ ~Small(n) \/ ToNat(n) >= 8 * t[2] THEN UB("shift count")
  ELSE LET k == ToNat(n) IN
    IF op = ">>" THEN R(IF Signed(t) THEN ShrS(a, k) ELSE ShrU(a, k))
    ELSE IF ~Signed(t) THEN Wrap(Shl(a, k), t)
    ELSE IF Neg(a) THEN UB("shift of negative")
    ELSE LET r == Shl(a, k) IN
         IF InRange(r, t) /\ ~Neg(r) /\ ShrU(r, k) = a THEN R(r) ELSE UB("overflow")

ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^"}
CmpOps == {"==", "!=", "<", ">", "<=", ">="}
ShiftOps == {"<<", ">>"}
=============================================================================
