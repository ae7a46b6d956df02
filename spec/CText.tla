-------------------------------- MODULE CText -------------------------------
(***************************************************************************)
(* Programs as token sequences: declarations extend the environment, then  *)
(* expression statements run one after another.  A statement that is not a *)
(* phrase of the grammar, breaks a constraint or has no defined behaviour  *)
(* is left out (and reported as such).                                     *)
(* Batch[p]: tags, vars [t, b (initial bytes)], funcs, decls, txt (token   *)
(* sequences), and the tables of CGrammar's X.                             *)
(***************************************************************************)
EXTENDS CGrammar
VARIABLES prog, k, mem, env, out, st
vars == <<prog, k, mem, env, out, st>>

Fn(ps) == [s \in {ps[i][1] : i \in 1..Len(ps)} |-> (ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = s])[2]]
\* env: [v, t, en]: identifiers so far; ts: the types declared so far
Xp == LET b == Batch[prog] IN
      [p |-> prog, v |-> env.v, t |-> env.t, en |-> env.en, c |-> Fn(b.c), f |-> Fn(b.f), m |-> Fn(b.m), s |-> Fn(b.s),
       names |-> {b.names[i] : i \in 1..Len(b.names)}]

Init ==
  /\ prog \in 1..Len(Batch) /\ k = 1 /\ out = <<>> /\ st = "decl"
  /\ LET b == Batch[prog] IN
     /\ mem = [i \in 1..Len(b.vars) |-> IF b.vars[i].o = 0 THEN Undef(SizeOf(Lay[prog], b.vars[i].t))
                                        ELSE Ptr(b.vars[i].o, b.vars[i].off)]
     /\ env = [ts |-> <<>>, v |-> Fn([i \in 1..b.nv |-> <<b.vn[i], i>>]), t |-> Fn(b.t), en |-> [i \in 1..Len(b.vars) |-> <<i, b.vars[i].t>>]]

Decl ==
  LET b == Batch[prog]  r == ParseDecl(Xp, b.decls[k].ts)  ctx == b.decls[k].ctx
      fresh == r.ok /\ \A i, j \in 1..Len(r.e[2]) : r.e[2][i][1] \notin DOMAIN env.v \cup DOMAIN env.t /\ (i # j => r.e[2][i][1] # r.e[2][j][1])
      one(l) == IF ctx = "param" THEN <<l[1], DecayT(l[2])>> ELSE l      \* how a parameter is adjusted
      ls == [i \in 1..Len(r.e[2]) |-> one(r.e[2][i])]
      st1 == r.e[1]
      okst == IF ctx = "typedef" THEN st1 = <<"typedef">>
              ELSE IF ctx = "param" THEN st1 \in {<<>>, <<"register">>}
              ELSE IF ctx = "member" THEN st1 = <<>>
              ELSE IF ctx = "extern" THEN st1 = <<"extern">>
              ELSE st1 \in {<<>>, <<"static">>}
      okt(t) == CASE ctx = "typedef" -> TRUE
                  [] ctx = "extern" -> t # TVoid
                  [] OTHER -> Complete(t)
  IN IF ~fresh \/ ~okst \/ \E i \in 1..Len(ls) : ~okt(ls[i][2])
     THEN out' = Append(out, <<"no">>) /\ UNCHANGED <<env, mem>>
     ELSE /\ out' = Append(out, <<"decl", [i \in 1..Len(ls) |-> <<ls[i][1], ls[i][2], IF Complete(ls[i][2]) THEN SizeOf(Lay[prog], ls[i][2]) ELSE 0,
                                                 [j \in 1..Len(env.ts) |-> IF Compat(env.ts[j], ls[i][2]) THEN 1 ELSE 0]>>]>>)
          /\ LET tt == env.ts \o [i \in 1..Len(ls) |-> ls[i][2]] IN
             IF ctx = "typedef" THEN env' = [env EXCEPT !.t = Fn(ls) @@ @, !.ts = tt]
             ELSE IF ctx \in {"param", "member"} THEN env' = [env EXCEPT !.ts = tt]     \* not visible later
             ELSE env' = [env EXCEPT !.ts = tt, !.v = Fn([i \in 1..Len(ls) |-> <<ls[i][1], Len(env.en) + i>>]) @@ @,
                                     !.en = @ \o [i \in 1..Len(ls) |-> <<0, ls[i][2]>>]]
          /\ UNCHANGED mem
Run ==
  LET b == Batch[prog]  r == ParseExpr(Xp, b.txt[k]) IN
  IF ~r.ok THEN out' = Append(out, <<"no", "syntax">>) /\ UNCHANGED <<env, mem>>
  ELSE IF ~WellTyped(prog, r.e, env.en) THEN out' = Append(out, <<"no", "constraint">>) /\ UNCHANGED <<env, mem>>
  ELSE LET q == Eval(prog, r.e, env.en, mem) IN
       IF q.ub # "" THEN out' = Append(out, <<"no", q.ub>>) /\ UNCHANGED <<env, mem>>
       ELSE /\ mem' = q.m /\ UNCHANGED env
            /\ out' = Append(out, IF q.t[1] = "i" THEN <<"i", PTy(q)[2] * 2 + PTy(q)[3], q.v>> ELSE IF q.t[1] = "f" THEN <<"f", q.t[2], q.v>> ELSE <<"x">>)
Set ==      \* give a variable its next value
  LET b == Batch[prog]  s == b.sets[k] IN
  /\ mem' = [mem EXCEPT ![s[1]] = IF s[2] = <<>> THEN Zeros(Len(@)) ELSE s[2]] /\ UNCHANGED <<env, out>>

Len3 == IF st = "decl" THEN Len(Batch[prog].decls) ELSE IF st = "set" THEN Len(Batch[prog].sets) ELSE Len(Batch[prog].txt)
Next ==
  /\ st # "done" /\ prog' = prog
  /\ IF k <= Len3
     THEN k' = k + 1 /\ st' = st /\ (CASE st = "decl" -> Decl [] st = "set" -> Set [] OTHER -> Run)
     ELSE /\ k' = 1 /\ UNCHANGED <<mem, env, out>>
          /\ st' = (CASE st = "decl" -> "set" [] st = "set" -> "run" [] OTHER -> "done")
          /\ (st' = "done" => PrintT("RES " \o ToJson(<<prog, out, mem>>)))
Spec == Init /\ [][Next]_vars
EnvOK == DOMAIN env.v \cap DOMAIN env.t = {} /\ \A s \in DOMAIN env.v : env.v[s] \in 1..Len(env.en)
MemOK == \A o \in 1..Len(mem) : \A i \in 1..Len(mem[o]) : mem[o][i] \in -1..255
\* a phrase keeps its meaning when its operands are put in parentheses: (e) groups as e
Grows == [][Len(out') >= Len(out) /\ DOMAIN env.v \subseteq DOMAIN env'.v]_vars
=============================================================================
