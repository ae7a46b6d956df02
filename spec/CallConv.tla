------------------------------ MODULE CallConv ------------------------------
(***************************************************************************)
(* A call: the image of the argument registers and of the stack that the   *)
(* callee must find, built argument by argument, and where the result is.  *)
(*                                                                         *)
(* Batch entry: tags, ret (type; <<"v">> for void), rv (value bytes of the *)
(* result), args: sequence of [t, v (value), var].  The value of an        *)
(* integer or pointer is a word, of anything else its bytes (padding -1).  *)
(* In an image a byte is -1 where the convention leaves it open.           *)
(***************************************************************************)
EXTENDS CTypes, PlaceArgs, Json, IOUtils, TLC
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES k, i, s, areg, freg, stk, refs
vars == <<k, i, s, areg, freg, stk, refs>>
P == Batch[k]
L == LayTags(P.tags)
Any8 == [j \in 1..8 |-> -1]
Class(t, va) == [n |-> SizeOf(L, t), al |-> AlignOf(L, t), fp |-> (t[1] = "f" /\ t[2] <= 8), var |-> va]

(* integers narrower than a register are widened by their own type to 32 bits, then sign-extended *)
Reg(t, v) == IF t[1] = "p" THEN v
             ELSE LET x == IConv(v, t) IN IF t[2] = 8 THEN x ELSE Ext(x, 4, TRUE)
(* object bytes of the value; padding is open *)
Obj(t, v) == LET vb == IF IsAgg(t) THEN ValueBytes(L, t) ELSE {} IN
             [j \in DOMAIN v |-> IF ~IsAgg(t) \/ (j - 1) \in vb THEN v[j] ELSE -1]
(* 8-byte words of a value; a float in a floating register is NaN-boxed *)
Word8(b, n) == [j \in 1..8 |-> IF 8 * (n - 1) + j <= Len(b) THEN b[8 * (n - 1) + j] ELSE -1]
Words(t, v, box) ==
  IF IsInt(t) \/ IsPtr(t) THEN << Reg(t, v) >>
  ELSE IF box /\ t[2] = 4 THEN << v \o <<255, 255, 255, 255>> >>
  ELSE LET b == Obj(t, v) IN [n \in 1..((Len(b) + 7) \div 8) |-> Word8(b, n)]

BigRet == IsAgg(P.ret) /\ SizeOf(L, P.ret) > 16
Init == /\ k \in DOMAIN Batch /\ i = 0 /\ s = St0
        /\ areg = [j \in 1..8 |-> Any8] /\ freg = [j \in 1..8 |-> Any8] /\ stk = <<>> /\ refs = <<>>

PutAt(w, at, img) ==      \* img = [a, f, s]
  CASE at[1] = "a" -> [img EXCEPT !.a[at[2] + 1] = w]
    [] at[1] = "f" -> [img EXCEPT !.f[at[2] + 1] = w]
    [] at[1] = "s" -> (LET need == at[2] + 8
                           old == img.s
                           pad == IF Len(old) >= need THEN old ELSE old \o [j \in 1..(need - Len(old)) |-> -1]
                       IN [img EXCEPT !.s = [j \in 1..Len(pad) |-> IF j > at[2] /\ j <= need THEN w[j - at[2]] ELSE pad[j]]])
Start == /\ i = 0 /\ i' = 1
         /\ s' = IF BigRet THEN [s EXCEPT !.g = 1] ELSE s      \* address of the result in a0
         /\ UNCHANGED <<k, areg, freg, stk, refs>>
Arg == /\ i > 0 /\ i <= Len(P.args)
       /\ LET a == P.args[i]
              r == Place(s, Class(a.t, a.var = 1))
              img == [a |-> areg, f |-> freg, s |-> stk]
              ws == IF r.ref THEN << Any8 >> ELSE Words(a.t, a.v, r.at[1][1] = "f")
              res == FoldLeft(LAMBDA m, j : PutAt(ws[j], r.at[j], m), img, [j \in 1..Len(r.at) |-> j])
          IN /\ Assert(Len(ws) = Len(r.at), "places and words differ")
             /\ areg' = res.a /\ freg' = res.f /\ stk' = res.s /\ s' = r.s
             /\ refs' = IF r.ref THEN Append(refs, <<i, r.at[1], Obj(a.t, a.v)>>) ELSE refs
       /\ i' = i + 1 /\ UNCHANGED k
(* result: <<"v">>, <<"a", words>>, <<"f", word>>, <<"m", bytes>> (through the pointer in a0) *)
Result ==
  CASE P.ret[1] = "v" -> << "v" >>
    [] BigRet -> << "m", Obj(P.ret, P.rv) >>
    [] P.ret[1] = "f" /\ P.ret[2] <= 8 -> << "f", Words(P.ret, P.rv, TRUE) >>
    [] OTHER -> << "a", Words(P.ret, P.rv, FALSE) >>
Finish == /\ i = Len(P.args) + 1 /\ i' = i + 1
          /\ PrintT("RES " \o ToJson(<<k, areg, freg, stk, refs, Result>>))
          /\ UNCHANGED <<k, s, areg, freg, stk, refs>>
Next == Start \/ Arg \/ Finish
Spec == Init /\ [][Next]_vars
(* what has been placed stays where it is *)
Stable == [][\A j \in 1..8 : (areg[j] # Any8 => areg'[j] = areg[j]) /\ (freg[j] # Any8 => freg'[j] = freg[j])]_vars
InUse == /\ \A j \in 1..8 : (j > s.g => areg[j] = Any8) /\ (j > s.f => freg[j] = Any8)
         /\ (Len(stk) > 0 => s.g = NREG) /\ Len(stk) % 8 = 0 /\ Len(stk) <= s.stk
=============================================================================
