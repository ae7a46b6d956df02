----------------------------- MODULE IntMatrix ------------------------------
(***************************************************************************)
(* Exhaustive operator x type x type x boundary-value matrix for the       *)
(* integer types.  One initial state per (form, t1, t2); its single step   *)
(* evaluates the operator on every pair of values of the two types.        *)
(*                                                                         *)
(* The value sets come from the batch file (boundaries, plus values drawn  *)
(* from the run's seed).                                                   *)
(***************************************************************************)
EXTENDS CTypes, Json, IOUtils

Batch == JsonDeserialize(IOEnv.BATCH)
Types == Batch.types                       \* sequence of integer types
Vals == Batch.vals                         \* per type, a sequence of words
Forms == Batch.forms                       \* sequence of <<kind, op>>

VARIABLES form, i, j, res
vars == <<form, i, j, res>>

ResType(f, a, b) ==
  CASE f[1] = "bin" -> IF f[2] \in CmpOps THEN TInt
                       ELSE IF f[2] \in ShiftOps THEN Promote(a) ELSE UAC(a, b)
    [] f[1] \in {"log"} -> TInt
    [] f[1] = "un" -> IF f[2] = "!" THEN TInt ELSE Promote(a)
    [] f[1] = "cast" -> b
    [] f[1] \in {"asg", "pre", "post"} -> a
    [] f[1] = "cond" -> UAC(a, b)

(* value of  x op y *)
Bin(op, a, b, x, y) ==
  IF op \in ShiftOps THEN IntShift(op, Promote(a), x, y, Promote(b))
  ELSE LET t == UAC(a, b)  u == IConv(x, t)  w == IConv(y, t)
       IN IF op \in CmpOps THEN R(B2W(IntCmp(op, t, u, w))) ELSE IntOp(op, t, u, w)
BinT(op, a, b) == IF op \in CmpOps THEN TInt
                  ELSE IF op \in ShiftOps THEN Promote(a) ELSE UAC(a, b)

Val(f, a, b, x, y) ==
  CASE f[1] = "bin" -> Bin(f[2], a, b, x, y)
    [] f[1] = "log" -> R(B2W(IF f[2] = "&&" THEN ~IsZero(x) /\ ~IsZero(y) ELSE ~IsZero(x) \/ ~IsZero(y)))
    [] f[1] = "un" ->
        LET t == Promote(a) IN
        (CASE f[2] = "+" -> R(x) [] f[2] = "!" -> R(B2W(IsZero(x)))
           [] f[2] = "-" -> IntOp("-", t, W0, x)
           [] f[2] = "~" -> R(Ext(WNot(x), t[2], Signed(t))))
    [] f[1] = "cast" -> R(IConv(x, b))
    [] f[1] = "cond" -> R(IConv(IF f[2] = "1" THEN x ELSE y, UAC(a, b)))
    [] f[1] = "asg" -> IF f[2] = "" THEN R(IConv(y, a))
                       ELSE LET r == Bin(f[2], a, b, x, y) IN
                            IF r.ub # "" THEN r ELSE R(IConv(r.v, a))
    [] f[1] \in {"pre", "post"} ->
         LET r == Bin(f[2], a, TInt, x, W1) IN
         IF r.ub # "" THEN r ELSE R(IF f[1] = "pre" THEN IConv(r.v, a) ELSE x)

(* final value of the left operand, for the forms with a side effect *)
After(f, a, b, x, y) ==
  CASE f[1] = "asg" -> Val(f, a, b, x, y)
    [] f[1] \in {"pre", "post"} -> Val(<<"pre", f[2]>>, a, b, x, y)
    [] OTHER -> R(x)

Row(f, a, b, x) == [k \in 1..Len(Vals[j]) |->
                      LET r == Val(f, a, b, x, Vals[j][k])  w == After(f, a, b, x, Vals[j][k])
                      IN IF r.ub # "" THEN <<>> ELSE <<r.v, w.v>>]
Table(f) == [k \in 1..Len(Vals[i]) |-> Row(f, Types[i], Types[j], Vals[i][k])]
Unary(f) == f[1] \in {"un", "pre", "post"}

Init == /\ form \in 1..Len(Forms)
        /\ i \in 1..Len(Types)
        /\ j \in (IF Unary(Forms[form]) THEN {1} ELSE 1..Len(Types))
        /\ res = "todo"
Next == /\ res = "todo"
        /\ res' = "done"
        /\ UNCHANGED <<form, i, j>>
        /\ PrintT("RES " \o ToJson(<<form, i, j, ResType(Forms[form], Types[i], Types[j]), Table(Forms[form])>>))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Laws the operators have to satisfy, over the same product space.        *)
(***************************************************************************)
A == Types[i]
B == Types[j]
F == Forms[form]
Pairs == {<<x, y>> : x \in ToSet(Vals[i]), y \in ToSet(Vals[j])}
\* every defined result is representable in the result type
InType == res = "done" =>
  \A p \in Pairs : LET r == Val(F, A, B, p[1], p[2]) IN
     r.ub = "" => InRange(r.v, IF F[1] = "log" THEN TInt ELSE ResType(F, A, B))
\* (a/b)*b + a%b = a
DivLaw == (res = "done" /\ F = <<"bin", "/">>) =>
  \A p \in Pairs : LET t == UAC(A, B)
                       q == Val(F, A, B, p[1], p[2])
                       m == Val(<<"bin", "%">>, A, B, p[1], p[2]) IN
     q.ub = "" => Ext(Add(Mul(q.v, IConv(p[2], t)), m.v), t[2], Signed(t)) = IConv(p[1], t)
\* < and >= are complementary, == is symmetric, < is antisymmetric
CmpLaw == (res = "done" /\ F[1] = "bin" /\ F[2] \in {"<", "=="}) =>
  \A p \in Pairs :
     IF F[2] = "<" THEN Val(F, A, B, p[1], p[2]).v # Val(<<"bin", ">=">>, A, B, p[1], p[2]).v
                     /\ Val(F, A, B, p[1], p[2]).v = Val(<<"bin", ">">>, B, A, p[2], p[1]).v
     ELSE Val(F, A, B, p[1], p[2]).v = Val(F, B, A, p[2], p[1]).v
\* a conversion through a type of the same or greater width preserves the value modulo 2^width
CastLaw == (res = "done" /\ F[1] = "cast") =>
  \A x \in ToSet(Vals[i]) :
     (B[2] >= A[2] /\ B[4] # 0 /\ A[4] # 0) => IConv(IConv(x, B), A) = x
\* + and * commute, - undoes + on unsigned types
RingLaw == (res = "done" /\ F[1] = "bin" /\ F[2] \in {"+", "*"}) =>
  \A p \in Pairs :
     /\ Val(F, A, B, p[1], p[2]) = Val(F, B, A, p[2], p[1])
     /\ (F[2] = "+" /\ ~Signed(UAC(A, B))) =>
          Val(<<"bin", "-">>, UAC(A, B), B, Val(F, A, B, p[1], p[2]).v, p[2]).v = IConv(p[1], UAC(A, B))
=============================================================================
