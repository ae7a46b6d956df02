---------------------------- MODULE CallConvAll -----------------------------
(* PlaceArgs over every sequence of argument classes: no two words share a *)
(* place, registers are used in order, the stack is dense, alignment holds.*)
EXTENDS PlaceArgs, TLC
CONSTANT MaxArgs
C(n, al, fp) == [n |-> n, al |-> al, fp |-> fp, var |-> FALSE]
Classes == {C(8, 8, FALSE), C(8, 8, TRUE), C(16, 8, FALSE), C(16, 16, FALSE), C(24, 8, FALSE), C(32, 16, FALSE), C(3, 1, FALSE), C(12, 4, FALSE)}
VARIABLES s, used, n, va, last
vars == <<s, used, n, va, last>>
Init == s = St0 /\ used = {} /\ n = 0 /\ va = FALSE /\ last = <<>>
Add(c) == LET r == Place(s, [c EXCEPT !.var = va]) IN
   /\ n < MaxArgs
   /\ Assert(\A i \in DOMAIN r.at : r.at[i] \notin used, <<"place used twice", s, c, r>>)
   /\ Assert(Len(r.at) = 1 \/ r.at[1] # r.at[2], "one place for two words")
   /\ Assert(r.ref <=> c.n > 16, "by reference iff larger than 16 bytes")
   /\ Assert(\A i \in DOMAIN r.at : r.at[i][1] # "s" \/ r.at[i][2] % 8 = 0, "stack words are aligned")
   /\ Assert((c.al >= 16 /\ ~r.ref /\ r.at[1][1] = "s") => r.at[1][2] % 16 = 0, "16-aligned values are aligned on the stack")
   /\ Assert((c.al >= 16 /\ ~r.ref /\ va /\ r.at[1][1] = "a") => r.at[1][2] % 2 = 0, "variadic pairs are even-odd")
   /\ Assert((\E i \in DOMAIN r.at : r.at[i][1] = "s") => (s.g >= NREG \/ (s.g = NREG - 1 /\ Len(r.at) = 2)), "stack only when registers have run out")
   /\ s' = r.s /\ used' = used \cup {r.at[i] : i \in DOMAIN r.at} /\ n' = n + 1 /\ last' = r.at /\ UNCHANGED va
Dots == ~va /\ n > 0 /\ va' = TRUE /\ UNCHANGED <<s, used, n, last>>
Next == Dots \/ \E c \in Classes : Add(c)
Spec == Init /\ [][Next]_vars
Bounds == s.g <= NREG /\ s.f <= NREG /\ s.stk >= 0
UsedIsPrefix == /\ \A p \in used : (p[1] = "a" => p[2] < s.g) /\ (p[1] = "f" => p[2] < s.f) /\ (p[1] = "s" => p[2] < s.stk)
=============================================================================
