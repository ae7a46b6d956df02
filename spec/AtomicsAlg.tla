----------------------------- MODULE AtomicsAlg -------------------------------
(* The algorithm behind `A op= B`, A++ and compare-exchange: a plain load, a
   computation, and a load-reserved/store-conditional pair that is tried again
   until it succeeds.  The object is one field of a word of two; the other
   field belongs to other threads.  A store-conditional may fail at any time,
   and does if the word was written since it was reserved.
   Checked for every interleaving: the fields end as if every operation had
   happened at once (linearisation point: the successful store-conditional),
   and a failed compare-exchange reports a value the field had. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Max, Plain          \* threads, operations of each; Plain: the defective algorithm without reservation
VARIABLES w, at, old, resv, got, cnt, hist, spur
vars == <<w, at, old, resv, got, cnt, hist, spur>>
T == 1..N
F(t) == (t % 2) + 1              \* threads share the fields of the word: odd ones the second, even ones the first
Mod == 8
Init == /\ w = <<0, 0>> /\ at = [t \in T |-> "idle"] /\ old = [t \in T |-> 0] /\ resv = [t \in T |-> FALSE]
        /\ got = [t \in T |-> <<0, 0>>] /\ cnt = [t \in T |-> 0] /\ hist = <<0, 0>> /\ spur = 0
Load(t) == /\ at[t] = "idle" /\ cnt[t] < Max /\ old' = [old EXCEPT ![t] = w[F(t)]] /\ at' = [at EXCEPT ![t] = "lr"]
           /\ UNCHANGED <<w, resv, got, cnt, hist, spur>>
Lr(t) == /\ at[t] = "lr" /\ got' = [got EXCEPT ![t] = w] /\ resv' = [resv EXCEPT ![t] = TRUE]
         /\ IF w[F(t)] # old[t] THEN old' = [old EXCEPT ![t] = w[F(t)]] /\ at' = at       \* compare fails: *expected = observed
            ELSE old' = old /\ at' = [at EXCEPT ![t] = "sc"]
         /\ UNCHANGED <<w, cnt, hist, spur>>
Sc(t) == /\ at[t] = "sc"
         /\ \/ /\ resv[t] \/ Plain
               /\ w' = [got[t] EXCEPT ![F(t)] = (@ + t) % Mod]
               /\ resv' = [u \in T |-> FALSE] /\ at' = [at EXCEPT ![t] = "idle"]
               /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ hist' = [hist EXCEPT ![F(t)] = (@ + t) % Mod] /\ UNCHANGED spur
            \/ /\ ~Plain /\ (resv[t] => spur < 2) /\ spur' = (IF resv[t] THEN spur + 1 ELSE spur)
               /\ at' = [at EXCEPT ![t] = "lr"] /\ resv' = [resv EXCEPT ![t] = FALSE] /\ UNCHANGED <<w, cnt, hist>>
         /\ UNCHANGED <<old, got>>
Next == \E t \in T : Load(t) \/ Lr(t) \/ Sc(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Load(t) \/ Lr(t) \/ Sc(t))
\* hist applies every operation at its linearisation point
Linear == w = hist
Finish == <>(\A t \in T : cnt[t] = Max)
=============================================================================
