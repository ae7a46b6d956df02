----------------------------- MODULE PlaceArgs ------------------------------
(***************************************************************************)
(* Where the RISC-V LP64D calling convention puts an argument.             *)
(*                                                                         *)
(* An argument class is [n |-> size in bytes, al |-> alignment,            *)
(*   fp |-> TRUE for float/double, var |-> TRUE if it matches the ...].    *)
(* The convention's state is [g, f |-> integer and floating registers      *)
(* used, stk |-> bytes of stack used].  A place is <<"a", i>>, <<"f", i>>  *)
(* or <<"s", offset>>; an argument has one or two places, or one place     *)
(* holding its address.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
NREG == 8
Up(n, a) == ((n + a - 1) \div a) * a
St0 == [g |-> 0, f |-> 0, stk |-> 0]
TakeG(s, al) == IF s.g < NREG THEN [at |-> <<"a", s.g>>, s |-> [s EXCEPT !.g = @ + 1]]
                ELSE LET o == Up(s.stk, al) IN [at |-> <<"s", o>>, s |-> [s EXCEPT !.stk = o + 8]]
Place(s0, c) ==
  IF c.fp /\ ~c.var /\ s0.f < NREG
  THEN [at |-> << <<"f", s0.f>> >>, ref |-> FALSE, s |-> [s0 EXCEPT !.f = @ + 1]]
  ELSE IF c.n > 16
  THEN LET r == TakeG(s0, 8) IN [at |-> <<r.at>>, ref |-> TRUE, s |-> r.s]
  ELSE IF c.n <= 8
  THEN LET r == TakeG(s0, 8) IN [at |-> <<r.at>>, ref |-> FALSE, s |-> r.s]
  ELSE \* two words; a variadic one aligned to 16 takes an aligned register pair
       LET s1 == IF c.var /\ c.al >= 16 /\ s0.g < NREG THEN [s0 EXCEPT !.g = Up(@, 2)] ELSE s0
           r1 == TakeG(s1, IF c.al >= 16 THEN 16 ELSE 8)
           r2 == TakeG(r1.s, 8)
       IN [at |-> <<r1.at, r2.at>>, ref |-> FALSE, s |-> r2.s]
=============================================================================
