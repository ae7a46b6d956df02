-------------------------------- MODULE CInit --------------------------------
(***************************************************************************)
(* Initialisers (C11 6.7.9, GNU ranges): which sub-object every item of a  *)
(* possibly nested, possibly designated initialiser list sets, and the     *)
(* value of every scalar of the object afterwards.                         *)
(*                                                                         *)
(* An item is <<designators, value>>:                                      *)
(*   designator  <<"i", lo, hi>>   [lo] or [lo ... hi]                     *)
(*               <<"m", name>>     .name (found through anonymous members) *)
(*   value  <<"i", word>> integer, <<"q", n>> the double n/4,              *)
(*          <<"p", k>> pointer to element k of an int array (-1: null),    *)
(*          <<"s", size, codes>> string literal of that element size,      *)
(*          <<"S", tag, leaves>> an expression of struct type; leaves is a *)
(*            sequence of <<path, value>>,                                 *)
(*          <<"{", items>>                                                 *)
(* A sub-object is a path: element indices from 0, member numbers from 1.  *)
(*                                                                         *)
(* One step takes one item of the innermost open brace, or closes it.      *)
(***************************************************************************)
EXTENDS CTypes, Json, IOUtils, TLC

Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES k, stack, w, stale, sx, top, st
vars == <<k, stack, w, stale, sx, top, st>>

Ids(n) == [i \in 1..n |-> i]
P == Batch[k]
TopT == P.t
NOLEN == 100000          \* array of unknown length
Mem(t, i) == P.tags[t[2]].mem[i]
IsUn(t) == IsAgg(t) /\ P.tags[t[2]].un = 1
SubT(t, i) == IF IsArr(t) THEN t[2] ELSE Mem(t, i).t
TypeAt(p) == FoldLeft(LAMBDA t, i : SubT(t, i), TopT, p)
Takes(m) == m.nm = 1 \/ m.bf < 0        \* unnamed bit-fields take no initialiser
IsStrT(t) == IsArr(t) /\ IsInt(t[2]) /\ t[2][4] # 0
NextMem(t, i) ==                        \* next member that takes an initialiser, 0 if none
  LET ms == P.tags[t[2]].mem
      c == {j \in DOMAIN ms : j > i /\ Takes(ms[j])}
  IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A l \in c : j <= l
FirstOf(t) == IF IsArr(t) THEN 0 ELSE NextMem(t, 0)
IsAggr(t) == IsArr(t) \/ IsAgg(t)

(* member name -> path below t, <<>> if there is none *)
FindF[x \in Any] ==      \* x = <<tag index, name, i>>
  LET ms == P.tags[x[1]].mem  i == x[3] IN
  IF i > Len(ms) THEN <<>>
  ELSE IF ms[i].nm = 1 /\ ms[i].name = x[2] THEN <<i>>
  ELSE LET in == IF ms[i].nm = 0 /\ IsAgg(ms[i].t) THEN FindF[<<ms[i].t[2], x[2], 1>>] ELSE <<>>
       IN IF in # <<>> THEN <<i>> \o in ELSE FindF[<<x[1], x[2], i + 1>>]
Find(t, name) == IF IsAgg(t) THEN FindF[<<t[2], name, 1>>] ELSE <<>>

(* the sub-object after p, without leaving base; "none" when the list is full *)
SuccF[x \in Any] ==      \* x = <<base, p>>
  LET b == x[1]  p == x[2] IN
  IF Len(p) <= Len(b) THEN [ok |-> FALSE, p |-> p]
  ELSE LET up == SubSeq(p, 1, Len(p) - 1)  t == TypeAt(up)  i == p[Len(p)] IN
       IF IsArr(t) /\ i + 1 < t[3] THEN [ok |-> TRUE, p |-> Append(up, i + 1)]
       ELSE IF IsAgg(t) /\ ~IsUn(t) /\ NextMem(t, i) # 0 THEN [ok |-> TRUE, p |-> Append(up, NextMem(t, i))]
       ELSE SuccF[<<b, up>>]

Under(q, p) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
(* members of the unions around p that p is not in *)
Dead(p, z) == \E n \in 0..(Len(p) - 1) :
                 /\ IsUn(TypeAt(SubSeq(p, 1, n)))
                 /\ Len(z) > n /\ SubSeq(z, 1, n) = SubSeq(p, 1, n) /\ z[n+1] # p[n+1]
Restr(f, S) == [z \in S |-> f[z]]

(* state after sub-object p has been reached by an initialiser *)
Touch(s, p) ==
  LET ex == {q \in s.sx : Under(q, p) /\ q # p}           \* inside a struct set as a whole
      lost == {z \in DOMAIN s.w : \E q \in ex : Under(q, z)}
      live == {z \in DOMAIN s.w : ~Dead(p, z)} \ lost
  IN [s EXCEPT !.w = Restr(s.w, live), !.stale = {z \in (@ \cup lost) : ~Dead(p, z)},
               !.sx = {q \in (@ \ ex) : ~Dead(p, q)},
               !.top = IF p # <<>> /\ IsArr(TopT) THEN MaxI(@, p[1] + 1) ELSE @]
(* p is initialised as a whole: what was said about it before is void *)
Clear(s0, p) ==
  LET s == Touch(s0, p)  old == {z \in DOMAIN s.w : Under(p, z)} IN
  [s EXCEPT !.w = Restr(s.w, DOMAIN s.w \ old), !.stale = @ \cup old,
            !.sx = {q \in @ : ~Under(p, q)}]
Put(s0, p, v) == LET s == Touch(s0, p) IN [s EXCEPT !.w = (p :> v) @@ @, !.stale = @ \ {p}]
PutAll(s0, ps) == FoldLeft(LAMBDA s, x : Put(s, x[1], x[2]), s0, ps)

(***************************************************************************)
(* Values as the scalar of type t, bit-field width bw (-1: none) gets them *)
(***************************************************************************)
Trunc4(n) == IF n < 0 THEN 0 - ((0 - n) \div 4) ELSE n \div 4
BfExt(v, t, bw) == IF bw < 0 \/ t[4] = 0 THEN v
                   ELSE LET s == Shl(v, 64 - bw) IN IF Signed(t) THEN ShrS(s, 64 - bw) ELSE ShrU(s, 64 - bw)
ConvLeaf(v, t, bw) ==         \* [ok, v]
  CASE IsInt(t) /\ v[1] = "i" -> [ok |-> "", v |-> <<"i", BfExt(IConv(v[2], t), t, bw)>>]
    [] IsInt(t) /\ v[1] = "q" ->
        IF t[4] = 0 THEN [ok |-> "", v |-> <<"i", B2W(v[2] # 0)>>]
        ELSE LET x == FromInt(Trunc4(v[2])) IN
             IF ~InRange(x, t) \/ BfExt(x, t, bw) # x \/ (~Signed(t) /\ Neg(x)) THEN [ok |-> "float out of range", v |-> v]
             ELSE [ok |-> "", v |-> <<"i", BfExt(x, t, bw)>>]
    [] IsFlt(t) /\ v[1] = "q" -> [ok |-> "", v |-> <<"i", FromInt(v[2])>>]      \* floats are read back times 4
    [] IsFlt(t) /\ v[1] = "i" ->
        IF Small(v[2]) /\ ToNat(v[2]) < 100000 THEN [ok |-> "", v |-> <<"i", FromInt(4 * ToNat(v[2]))>>]
        ELSE [ok |-> "large integer for a float", v |-> v]
    [] IsPtr(t) /\ v[1] = "i" -> IF IsZero(v[2]) THEN [ok |-> "", v |-> <<"p", -1>>] ELSE [ok |-> "integer for a pointer", v |-> v]
    [] IsPtr(t) /\ t[2] = TInt /\ v[1] = "p" -> [ok |-> "", v |-> v]
    [] IsPtr(t) /\ t[2] = TI8 /\ v[1] = "s" /\ v[2] = 1 -> [ok |-> "", v |-> v]
    [] OTHER -> [ok |-> "mismatch", v |-> v]

BwAt(p) == IF p = <<>> THEN -1
           ELSE LET t == TypeAt(SubSeq(p, 1, Len(p) - 1)) IN IF IsAgg(t) THEN Mem(t, p[Len(p)]).bf ELSE -1
Str(codes, n) == [i \in 1..(IF n < Len(codes) + 1 THEN n ELSE Len(codes) + 1) |->
                     IF i <= Len(codes) THEN codes[i] ELSE 0]

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Frame(base, items) == [base |-> base, items |-> items, i |-> 1,
                       cur |-> Append(base, FirstOf(TypeAt(base))), full |-> FALSE]
S0 == [w |-> w, stale |-> stale, sx |-> sx, top |-> top]
Set(s) == /\ w' = s.w /\ stale' = s.stale /\ sx' = s.sx /\ top' = s.top
Fail(why) == /\ st' = why /\ stack' = <<>> /\ UNCHANGED <<k, w, stale, sx, top>>

(* follow the designators from base; <<>> is an error *)
DesF[x \in Any] ==       \* x = <<designators, i, path>>: [ok, p]
  LET ds == x[1]  i == x[2]  p == x[3] IN
  IF i > Len(ds) THEN [ok |-> TRUE, p |-> p]
  ELSE LET t == TypeAt(p)  d == ds[i] IN
       IF d[1] = "i"
       THEN IF IsArr(t) /\ d[2] < t[3] THEN DesF[<<ds, i + 1, Append(p, d[2])>>] ELSE [ok |-> FALSE, p |-> p]
       ELSE LET f == Find(t, d[2]) IN
            IF f = <<>> THEN [ok |-> FALSE, p |-> p] ELSE DesF[<<ds, i + 1, p \o f>>]

(* the sub-object that value v initialises when the cursor is at p: braces *)
(* omitted around an aggregate let v go to its first element               *)
DownF[x \in Any] ==      \* x = <<p, v>>
  LET p == x[1]  v == x[2]  t == TypeAt(p) IN
  IF \/ v[1] = "{" \/ ~IsAggr(t)
     \/ v[1] = "s" /\ IsStrT(t) /\ t[2][2] = v[2]
     \/ v[1] = "S" /\ t = <<"s", v[2]>>
  THEN p ELSE DownF[<<Append(p, FirstOf(t)), v>>]

(* a scalar in braces *)
Peel[v \in Any] == IF v[1] # "{" THEN v ELSE IF Len(v[2]) = 1 /\ v[2][1][1] = <<>> THEN Peel[v[2][1][2]] ELSE <<"bad">>
(* "{ "abc" }" for an array of characters *)
BracedStr(v, t) == /\ v[1] = "{" /\ IsStrT(t) /\ Len(v[2]) = 1 /\ v[2][1][1] = <<>>
                   /\ v[2][1][2][1] = "s" /\ v[2][1][2][2] = t[2][2]

Apply(f, p0, v0, rest) ==       \* f: frame whose item (index f.i) is being processed
  LET p == DownF[<<p0, v0>>]
      t == TypeAt(p)
      v == IF BracedStr(v0, t) THEN v0[2][1][2] ELSE v0
      nx == SuccF[<<f.base, p>>]
      f2 == [f EXCEPT !.i = @ + 1, !.cur = nx.p, !.full = ~nx.ok, !.items = rest]
      go(s) == /\ Set(s) /\ stack' = <<f2>> \o Tail(stack) /\ UNCHANGED <<k, st>>
  IN IF v[1] = "{" /\ IsAggr(t)
     THEN /\ Set(Clear(S0, p))
          /\ stack' = <<Frame(p, v[2]), f2>> \o Tail(stack) /\ UNCHANGED <<k, st>>
     ELSE IF v[1] = "s" /\ IsStrT(t)
     THEN LET cs == Str(v[3], t[3]) IN
          go([PutAll(Clear(S0, p), [i \in 1..Len(cs) |-> <<Append(p, i - 1), <<"i", IConv(FromInt(cs[i]), t[2])>>>>])
              EXCEPT !.top = IF p = <<>> THEN Len(cs) ELSE @])
     ELSE IF v[1] = "S" /\ IsAgg(t)
     THEN LET s == Clear(S0, p)
              s2 == PutAll([s EXCEPT !.stale = {z \in @ : ~Under(p, z)}], [i \in DOMAIN v[3] |-> <<p \o v[3][i][1], v[3][i][2]>>])
          IN go([s2 EXCEPT !.sx = @ \cup {p}])
     ELSE LET c == ConvLeaf(Peel[v], t, BwAt(p)) IN
          IF c.ok # "" THEN Fail(c.ok) ELSE go(Put(S0, p, c.v))

Item ==
  LET f == Head(stack)  it == f.items[f.i]  ds == it[1]
      rg == {i \in DOMAIN ds : ds[i][1] = "i" /\ ds[i][2] # ds[i][3]}
  IN IF ds = <<>>
     THEN IF f.full
          THEN IF it[2][1] = "{" THEN Fail("excess braces")
               ELSE
               /\ stack' = <<[f EXCEPT !.i = @ + 1]>> \o Tail(stack)       \* excess elements are ignored
               /\ UNCHANGED <<k, w, stale, sx, top, st>>
          ELSE Apply(f, f.cur, it[2], f.items)
     ELSE IF rg # {}
     THEN \* a range stands for one item per element
          LET r == CHOOSE i \in rg : \A j \in rg : i <= j
              d == ds[r]
              one(n) == <<[ds EXCEPT ![r] = <<"i", n, n>>], it[2]>>
              d1 == DesF[<<one(d[2])[1], 1, f.base>>]
              more == [i \in 1..(d[3] - d[2] + 1) |-> one(d[2] + i - 1)]
          IN IF r # Len(ds) \/ ~d1.ok \/ DownF[<<d1.p, it[2]>>] # d1.p
             THEN Fail("range over part of an element")      \* GNU C does not say which element goes on
             ELSE
             /\ stack' = <<[f EXCEPT !.items = SubSeq(@, 1, f.i - 1) \o more \o SubSeq(@, f.i + 1, Len(@))]>> \o Tail(stack)
             /\ UNCHANGED <<k, w, stale, sx, top, st>>
     ELSE LET d == DesF[<<ds, 1, f.base>>] IN
          IF ~d.ok THEN Fail("bad designator") ELSE Apply(f, d.p, it[2], f.items)

(***************************************************************************)
(* The scalars of the finished object, in order                            *)
(***************************************************************************)
LenAt(p, t) == IF t[3] # NOLEN THEN t[3]
               ELSE IF p = <<>> THEN top
               ELSE LET c == {z \in DOMAIN w : Under(p, z)} IN
                    IF c = {} THEN 0 ELSE 1 + (CHOOSE z \in c : \A y \in c : y[Len(p)+1] <= z[Len(p)+1])[Len(p)+1]
LeavesF[x \in Any] ==    \* x = <<path, t>>: sequence of <<path, value>>
  LET p == x[1]  t == x[2] IN
  CASE IsArr(t) -> FoldLeft(LAMBDA a, i : a \o LeavesF[<<Append(p, i - 1), t[2]>>], <<>>, Ids(LenAt(p, t)))
    [] IsUn(t) -> (LET c == {z \in DOMAIN w : Under(p, z)}
                       m == IF c = {} THEN FirstOf(t) ELSE (CHOOSE z \in c : TRUE)[Len(p) + 1]
                   IN IF m = 0 THEN <<>> ELSE LeavesF[<<Append(p, m), SubT(t, m)>>])
    [] IsAgg(t) -> FoldLeft(LAMBDA a, i : IF Takes(Mem(t, i)) THEN a \o LeavesF[<<Append(p, i), Mem(t, i).t>>] ELSE a,
                            <<>>, Ids(Len(P.tags[t[2]].mem)))
    [] OTHER -> << <<p, IF p \in DOMAIN w THEN w[p] ELSE IF IsPtr(t) THEN <<"p", -1>> ELSE <<"i", W0>>>> >>

Start == /\ st = "start"
         /\ st' = "run"
         /\ stack' = <<[base |-> <<>>, items |-> << <<<<>>, P.v>> >>, i |-> 1, cur |-> <<>>, full |-> FALSE]>>
         /\ UNCHANGED <<k, w, stale, sx, top>>
Step == /\ st = "run" /\ stack # <<>> /\ Head(stack).i <= Len(Head(stack).items) /\ Item
Close == /\ st = "run" /\ stack # <<>> /\ Head(stack).i > Len(Head(stack).items)
         /\ stack' = Tail(stack)
         /\ IF Len(stack) = 1
            THEN /\ st' = IF stale = {} THEN "done" ELSE "partly overridden"
                 /\ PrintT("RES " \o ToJson(<<k, st', top, IF stale = {} THEN LeavesF[<<<<>>, TopT>>] ELSE <<>>>>))
            ELSE st' = st
         /\ UNCHANGED <<k, w, stale, sx, top>>
Lost == /\ st \notin {"start", "run", "done", "partly overridden", "reported"}
        /\ PrintT("RES " \o ToJson(<<k, st, 0, <<>>>>))
        /\ st' = "reported" /\ UNCHANGED <<k, stack, w, stale, sx, top>>

Init == /\ k \in DOMAIN Batch /\ stack = <<>> /\ w = <<>> /\ stale = {} /\ sx = {} /\ top = 0 /\ st = "start"
Next == Start \/ Step \/ Close \/ Lost
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every written path is a scalar of the object; a union has one live member; *)
(* nothing is both set and void                                               *)
ScalarsOnly == \A p \in DOMAIN w : ~IsAggr(TypeAt(p))
OneMember == \A p, q \in DOMAIN w : ~Dead(p, q)
Disjoint == DOMAIN w \cap stale = {}
(* without designators sub-objects are initialised in order, none skipped *)
InOrder == [][ (stack # <<>> /\ stack' # <<>> /\ Len(stack) = Len(stack') /\ Head(stack).i <= Len(Head(stack).items)
                /\ Head(stack).items[Head(stack).i][1] = <<>> /\ ~Head(stack).full)
               => \A p \in DOMAIN w' \ DOMAIN w : Under(Head(stack).cur, p) ]_vars
Terminates == <>(st \in {"done", "partly overridden", "reported"})
=============================================================================
