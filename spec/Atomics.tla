------------------------------ MODULE Atomics --------------------------------
(* Atomic operations of C (6.5.2.4, 6.5.16, 7.17) as indivisible steps of
   threads on one shared object, with the bytes around it as other shared
   objects.  Batch[k]:
     ty      type of the object (CTypes: integer, or <<"f", size>>, or <<"p", 8, size of target>>)
     x, nb   initial bytes of the object and of its neighbours
     thr     per thread the sequence of operations
     rec     per thread the recorded results, for the validation of a trace (mode "trace")
   operations (values are bytes of their type):
     <<"load">> <<"store", tb, v>> <<"xchg", tb, v>> <<"cas", e, tb, v>> <<"asg", op, tb, v>>
     <<"pre", op>> <<"post", op>> <<"fetch", op, tb, v>> <<"nb", i, v>>
   In mode "all" TLC visits every interleaving and the terminal states are the
   outcomes an implementation may show; in mode "trace" an operation is only
   possible with the result recorded for it, so that a recorded history is a
   behaviour of this specification iff a terminal state is reached. *)
EXTENDS CTypes, SoftFloat, Json, IOUtils, FiniteSets
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES k, x, nb, pc, res, fin
vars == <<k, x, nb, pc, res, fin>>
C == Batch[k]
Thr == DOMAIN C.thr

\* bytes <-> values: integers as words, floating point as their encoding
Wide(t, b) == IF IsFlt(t) THEN b ELSE Ext(b \o [i \in 1..(8 - Len(b)) |-> 0], t[2], t[1] = "i" /\ Signed(t))
Narrow(t, v) == IF IsFlt(t) THEN v ELSE SubSeq(v, 1, t[2])
Conv(v, f, t) == \* value of type f as a value of type t (no conversion here leaves the range of t)
  CASE IsFlt(f) /\ IsFlt(t) -> FToF(v, t[2])
    [] IsFlt(t) -> IToF(v, Signed(f), t[2])
    [] IsFlt(f) -> (IF t[4] = 0 THEN B2W(~FIsZero(v)) ELSE IConv(FToI(v, t[2], Signed(t)).w, t))
    [] IsPtr(t) -> v
    [] OTHER -> IConv(v, t)
Fits(v, f, t) == ~IsFlt(f) \/ ~IsInt(t) \/ t[4] = 0 \/ FToI(v, t[2], Signed(t)).ok
FT(a, b) == <<"f", MaxI(IF IsFlt(a) THEN a[2] ELSE 0, IF IsFlt(b) THEN b[2] ELSE 0)>>
\* signed arithmetic of the fetch functions wraps; there and only there
Wrapped(op, t, u, w) == Ext(CASE op = "+" -> Add(u, w) [] op = "-" -> Sub(u, w), t[2], Signed(t))
Bin(op, a, b, u, w, wrap) ==
  IF IsPtr(a) THEN R(LET d == Mul(w, FromInt(a[3])) IN IF op = "+" THEN Add(u, d) ELSE Sub(u, d))
  ELSE IF IsFlt(a) \/ IsFlt(b) THEN LET t == FT(a, b) IN R(FOp(op, t[2], Conv(u, a, t), Conv(w, b, t)))
  ELSE IF op \in ShiftOps THEN IntShift(op, Promote(a), u, w, Promote(b))
  ELSE LET t == UAC(a, b)  p == IConv(u, t)  q == IConv(w, t)  r == IntOp(op, t, p, q) IN
       IF r.ub = "overflow" /\ wrap /\ op \in {"+", "-"} THEN R(Wrapped(op, t, p, q)) ELSE r
BinT(op, a, b) == IF IsPtr(a) THEN a ELSE IF IsFlt(a) \/ IsFlt(b) THEN FT(a, b) ELSE IF op \in ShiftOps THEN Promote(a) ELSE UAC(a, b)
New(op, tb, v, wrap) == LET r == Bin(op, C.ty, tb, Wide(C.ty, x), Wide(tb, v), wrap)
                  IN IF r.ub # "" THEN [v |-> x, ub |-> r.ub]
                     ELSE IF ~Fits(r.v, BinT(op, C.ty, tb), C.ty) THEN [v |-> x, ub |-> "conversion"] ELSE R(Narrow(C.ty, Conv(r.v, BinT(op, C.ty, tb), C.ty)))
To(tb, v) == Narrow(C.ty, Conv(Wide(tb, v), tb, C.ty))
\* <<object after, neighbours after, result, undefined?>>
Do(o) ==
  CASE o[1] = "load" -> <<x, nb, <<x>>, "">>
    [] o[1] = "store" -> LET v == To(o[2], o[3]) IN <<v, nb, <<v>>, "">>
    [] o[1] = "xchg" -> <<To(o[2], o[3]), nb, <<x>>, "">>
    [] o[1] = "cas" -> IF x = o[2] THEN <<To(o[3], o[4]), nb, <<<<1>>, o[2]>>, "">> ELSE <<x, nb, <<<<0>>, x>>, "">>
    [] o[1] = "asg" -> LET r == New(o[2], o[3], o[4], FALSE) IN <<r.v, nb, <<r.v>>, r.ub>>
    [] o[1] = "fetch" -> LET r == New(o[2], o[3], o[4], TRUE) IN <<r.v, nb, <<x>>, r.ub>>
    [] o[1] = "pre" -> LET r == New(o[2], TInt, <<1, 0, 0, 0>>, FALSE) IN <<r.v, nb, <<r.v>>, r.ub>>
    [] o[1] = "post" -> LET r == New(o[2], TInt, <<1, 0, 0, 0>>, FALSE) IN <<r.v, nb, <<x>>, r.ub>>
    [] o[1] = "nb" -> <<x, [nb EXCEPT ![o[2]] = o[3]], <<>>, "">>

Init == /\ k \in DOMAIN Batch /\ x = Batch[k].x /\ nb = Batch[k].nb /\ pc = [t \in DOMAIN Batch[k].thr |-> 1]
        /\ res = [t \in DOMAIN Batch[k].thr |-> <<>>] /\ fin = FALSE
Step(t) ==
  /\ ~fin /\ pc[t] <= Len(C.thr[t])
  /\ LET d == Do(C.thr[t][pc[t]]) IN
     /\ (C.mode = "trace" /\ d[4] = "") => d[3] = C.rec[t][pc[t]]
     /\ x' = d[1] /\ nb' = d[2] /\ pc' = [pc EXCEPT ![t] = @ + 1]
     /\ res' = (IF C.mode = "trace" THEN res ELSE [res EXCEPT ![t] = Append(@, d[3])])
     /\ fin' = (d[4] # "")
     /\ (d[4] # "") => PrintT("RES " \o ToJson(<<k, "undefined", <<>>, <<>>, <<>>>>))
  /\ UNCHANGED k
End == /\ ~fin /\ \A t \in Thr : pc[t] > Len(C.thr[t])
       /\ PrintT("RES " \o ToJson(<<k, "end", x, nb, res>>))
       /\ fin' = TRUE /\ UNCHANGED <<k, x, nb, pc, res>>
Next == (\E t \in Thr : Step(t)) \/ End
Spec == Init /\ [][Next]_vars
\* indivisible: an operation changes the object or a neighbour, never both, and the sizes never change
Sizes == Len(x) = Len(Batch[k].x) /\ Len(nb) = Len(Batch[k].nb)
One == [][x' = x \/ nb' = nb]_vars
=============================================================================
