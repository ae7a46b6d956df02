------------------------------- MODULE HashMap ------------------------------
(***************************************************************************)
(* The macro table as an open-addressing table with tombstones and         *)
(* rehashing, refining a plain map.  Keys are small integers with an       *)
(* arbitrary hash; with Emit = FALSE every reachable state is explored for *)
(* every hash function (histories of any length), and every lookup must    *)
(* agree with the map; with Emit = TRUE all histories of MaxOps are listed. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NKeys, InitCap, MaxOps, High, Low, Emit
Keys == 1..NKeys
VARIABLES h,       \* hash of each key
          tab,     \* slots: 0 empty, -1 tombstone, else <<key, value>>
          used,    \* slots that are not empty
          map,     \* the abstract map: key -> value, 0 if absent
          hist
vars == <<h, tab, used, map, hist>>
Cap == Len(tab)
Slot(t, k, i) == ((h[k] + i) % Len(t)) + 1
Empty == <<0, 0>>  Tomb == <<-1, 0>>

\* probe number of the key, or -1
Lookup(t, k) ==
  LET hit(i) == t[Slot(t, k, i)][1] = k
      blank(i) == t[Slot(t, k, i)] = Empty
      ok(i) == hit(i) /\ \A j \in 0..(i-1) : ~blank(j)
      s == {i \in 0..(Len(t)-1) : ok(i)}
  IN IF s = {} THEN -1 ELSE CHOOSE i \in s : \A j \in s : i <= j
\* first slot that may be reused
Free(t, k) == LET s == {i \in 0..(Len(t)-1) : t[Slot(t, k, i)] \in {Empty, Tomb}} IN CHOOSE i \in s : \A j \in s : i <= j
Live(t) == {i \in 1..Len(t) : t[i][1] > 0}

Insert(t, k, v) ==
  LET p == Lookup(t, k)
      q == IF p >= 0 THEN p ELSE Free(t, k)
  IN [t EXCEPT ![Slot(t, k, q)] = <<k, v>>]
RECURSIVE NewCap(_, _)
NewCap(n, c) == IF (n * 100) \div c >= Low THEN NewCap(n, 2 * c) ELSE c
RECURSIVE Refill(_, _)
Refill(t, S) == IF S = {} THEN t ELSE LET i == CHOOSE i \in S : TRUE IN Refill(Insert(t, tab[i][1], tab[i][2]), S \ {i})
Rehashed == Refill([i \in 1..NewCap(Cardinality(Live(tab)), Cap) |-> Empty], Live(tab))

Init == /\ h \in [Keys -> 0..(InitCap - 1)]
        /\ tab = [i \in 1..InitCap |-> Empty] /\ used = 0
        /\ map = [k \in Keys |-> 0] /\ hist = <<>>
Put(k, v) ==
  LET t == IF (used * 100) \div Cap >= High THEN Rehashed ELSE tab
      t2 == Insert(t, k, v)
  IN /\ tab' = t2 /\ used' = Cardinality({i \in 1..Len(t2) : t2[i] # Empty})
     /\ map' = [map EXCEPT ![k] = v]
     /\ hist' = IF Emit THEN Append(hist, k) ELSE hist
Del(k) ==
  LET p == Lookup(tab, k) IN
  /\ tab' = IF p >= 0 THEN [tab EXCEPT ![Slot(tab, k, p)] = Tomb] ELSE tab
  /\ map' = [map EXCEPT ![k] = 0]
  /\ hist' = IF Emit THEN Append(hist, -k) ELSE hist
  /\ UNCHANGED used
Next == /\ Len(hist) < MaxOps
        /\ \E k \in Keys : Del(k) \/ \E v \in (IF Emit THEN {1} ELSE {1, 2}) : Put(k, v)
        /\ h' = h
        /\ (Emit /\ Len(hist') = MaxOps => PrintT("RES " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

\* for emitting histories one hash function is enough
OneHash == \A k \in Keys : h[k] = 0

Agree == \A k \in Keys : LET p == Lookup(tab, k) IN IF p < 0 THEN map[k] = 0 ELSE tab[Slot(tab, k, p)][2] = map[k] /\ map[k] > 0
NoDup == \A i, j \in Live(tab) : i # j => tab[i][1] # tab[j][1]
\* a probe sequence always ends
Room == \E i \in 1..Cap : tab[i] = Empty
UsedOK == used = Cardinality({i \in 1..Cap : tab[i] # Empty})
=============================================================================
