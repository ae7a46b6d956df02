------------------------------ MODULE CMachine ------------------------------
(***************************************************************************)
(* Small-step semantics of C statements: one transition per statement or   *)
(* loop test.  The control state is a program point <<node, phase>> in the *)
(* table of statement nodes (each node knows its parent), so structured    *)
(* statements, switch and goto are all just choices of the next point.     *)
(***************************************************************************)
EXTENDS CExpr

VARIABLES prog,    \* index of the program in the batch
          pc,      \* <<node, phase>>; <<0, "end">> when finished
          fs,      \* call stack of [en, back (pc to resume), dst (lvalue or <<>>)]
          mem,     \* objects
          out,     \* observable events so far
          steps, st
vars == <<prog, pc, fs, mem, out, steps, st>>

Node(p, n) == Batch[p].stmts[n]
Env == fs[Len(fs)].en
VT(p, v) == Batch[p].vars[v].t

\* ------------------------------------------------------------ control flow
Enter(n) == <<n, "in">>
\* where control goes when statement n has completed
AFT[x \in Any] ==
  LET p == x[1]  n == x[2]  par == Node(p, n).par IN
  IF par = 0 THEN <<0, "ret">>
  ELSE LET q == Node(p, par) IN
       CASE q.op = "block" ->
              (LET i == CHOOSE j \in 1..Len(q.ch) : q.ch[j] = n IN
               IF i < Len(q.ch) THEN Enter(q.ch[i+1]) ELSE AFT[<<p, par>>])
         [] q.op = "while" -> <<par, "test">>
         [] q.op = "do" -> <<par, "test">>
         [] q.op = "for" -> <<par, "inc">>
         [] OTHER -> AFT[<<p, par>>]
After(p, n) == AFT[<<p, n>>]
Loops == {"while", "do", "for"}
\* innermost enclosing statement of one of the given kinds
ENC[x \in Any] ==
  LET p == x[1]  n == Node(p, x[2]).par IN
  IF n = 0 THEN 0 ELSE IF Node(p, n).op \in x[3] THEN n ELSE ENC[<<p, n, x[3]>>]
Enclosing(p, n, kinds) == ENC[<<p, n, kinds>>]
ContinuePoint(p, n) == IF Node(p, n).op = "for" THEN <<n, "inc">> ELSE <<n, "test">>
\* the labels of a switch: case/default nodes whose innermost switch it is
Labels(p, sw) == {c \in 1..Len(Batch[p].stmts) :
                     Node(p, c).op \in {"case", "default"} /\ Enclosing(p, c, {"switch"}) = sw}
Dispatch(p, sw, v, t) ==
  LET cv(e) == IConv(Eval(p, e, Env, mem).v, t)
      hit == {c \in Labels(p, sw) : /\ Node(p, c).op = "case"
                                     /\ ~(IF Signed(t) THEN LtS(v, cv(Node(p, c).lo)) ELSE LtU(v, cv(Node(p, c).lo)))
                                     /\ ~(IF Signed(t) THEN LtS(cv(Node(p, c).hi), v) ELSE LtU(cv(Node(p, c).hi), v))}
      dfl == {c \in Labels(p, sw) : Node(p, c).op = "default"}
  IN IF hit # {} THEN Enter(CHOOSE c \in hit : TRUE)
     ELSE IF dfl # {} THEN Enter(CHOOSE c \in dfl : TRUE)
     ELSE After(p, sw)

\* ------------------------------------------------------------------ output
Code(t) == t[2] * 2 + t[3]
OutVal(v, t) == IF IsFlt(t) THEN <<"f", t[2], v>>
                ELSE IF IsPtr(t) THEN <<"i", 16, v>>
                ELSE <<"i", Code(t), v>>

Pattern(n, s) == [i \in 1..n |-> (s + 31 * i) % 256]

\* ------------------------------------------------------------------- calls
Frame(p, f, en0, n, back, dst) ==
  LET fn == Batch[p].funcs[f]
      ids == fn.par \o fn.loc
  IN [en |-> FoldLeft(LAMBDA ee, i : [ee EXCEPT ![ids[i]] = <<n + i, VT(p, ids[i])>>], en0, Idx(1, Len(ids))),
      back |-> back, dst |-> dst, base |-> n]
GlobalEnv(p) == [v \in 1..Len(Batch[p].vars) |-> <<IF Batch[p].vars[v].g = 1 THEN v ELSE 0, VT(p, v)>>]
\* globals come first in the variable table and start as zero
NGlob(p) == Cardinality({v \in 1..Len(Batch[p].vars) : Batch[p].vars[v].g = 1})

Init ==
  /\ prog \in 1..Len(Batch)
  /\ LET p == prog  n == NGlob(p)
         fn == Batch[p].funcs[Batch[p].main]
         g == [v \in 1..n |-> IF Len(Batch[p].vars[v].init) > 0 THEN Batch[p].vars[v].init ELSE Zeros(SizeOf(Lay[p], VT(p, v)))]
     IN /\ mem = FoldLeft(LAMBDA mm, v : Append(mm, Undef(SizeOf(Lay[p], VT(p, v)))), g, fn.loc)
        /\ fs = <<Frame(p, Batch[p].main, GlobalEnv(p), n, <<0, "end">>, <<>>)>>
        /\ pc = Enter(fn.body)
  /\ out = <<>> /\ steps = 0 /\ st = "run"

Stop(why) == /\ st' = why /\ pc' = <<0, "end">> /\ UNCHANGED <<fs, mem, out>>
Goto(to, m, o) == /\ pc' = to /\ mem' = m /\ out' = o /\ UNCHANGED <<fs, st>>

\* evaluate e, then continue with K(result), or stop if undefined
With(e, K(_)) == LET r == Eval(prog, e, Env, mem) IN IF r.ub # "" THEN Stop(r.ub) ELSE K(r)

Return(e) ==
  LET f == fs[Len(fs)]
      leave(m, v, t) ==
        /\ fs' = SubSeq(fs, 1, Len(fs) - 1)
        /\ pc' = f.back
        /\ out' = out
        /\ LET m2 == SubSeq(m, 1, f.base) IN
           IF Len(fs) = 1 \/ f.dst = <<>> THEN mem' = m2 /\ st' = IF Len(fs) = 1 THEN "done" ELSE st
           ELSE LET l == LvalueOf(prog, f.dst, fs[Len(fs)-1].en, m2)
                    q == Cv(v, t, l.t)
                    s == Store(prog, l.m, l, q.v)
                IN IF l.ub # "" \/ q.ub # "" \/ s.ub # "" THEN st' = "ub-ret" /\ mem' = m2
                   ELSE st' = st /\ mem' = s.m
  IN IF e = <<>> THEN leave(mem, W0, TInt)
     ELSE LET r == Eval(prog, e, Env, mem) IN
          IF r.ub # "" THEN Stop(r.ub)
          ELSE LET q == Cv(r.v, r.t, f.ret) IN
               IF q.ub # "" THEN Stop(q.ub) ELSE leave(r.m, q.v, f.ret)

Step ==
  LET p == prog  n == pc[1]  ph == pc[2] IN
  IF n = 0 THEN Return(<<>>)
  ELSE
  LET nd == Node(p, n)  go(to) == Goto(to, mem, out) IN
  CASE nd.op = "expr" -> With(nd.e, LAMBDA r : Goto(After(p, n), r.m, out))
    [] nd.op = "out" -> With(nd.e, LAMBDA r : Goto(After(p, n), r.m, Append(out, OutVal(r.v, PTy(r)))))
    [] nd.op = "outp" ->     \* side-effect free: an undefined value is just not compared
        (LET r == Eval(p, nd.e, Env, mem) IN
         Goto(After(p, n), mem, Append(out, IF r.ub # "" THEN <<"skip", r.ub>> ELSE OutVal(r.v, PTy(r)))))
    [] nd.op = "try" ->      \* straight-line code: a statement C leaves undefined is left out of the replay
        (LET r == Eval(p, nd.e, Env, mem) IN
         IF r.ub # "" THEN Goto(After(p, n), mem, Append(out, <<"omit", n, r.ub>>))
         ELSE Goto(After(p, n), r.m, IF nd.o = 1 THEN Append(out, OutVal(r.v, PTy(r))) ELSE out))
    [] nd.op = "trace" -> Goto(After(p, n), mem, Append(out, <<"t", nd.id>>))
    [] nd.op = "dump" -> Goto(After(p, n), mem, Append(out, <<"b", nd.id, mem[Env[nd.v][1]]>>))
    \* a recognisable pattern over a whole object, or n bytes from where a pointer points
    [] nd.op = "fill" -> Goto(After(p, n), [mem EXCEPT ![Env[nd.v][1]] = Pattern(Len(@), nd.s)], out)
    [] nd.op = "zero" -> Goto(After(p, n), [mem EXCEPT ![Env[nd.v][1]] = Zeros(Len(@))], out)
    [] nd.op \in {"fillp", "dumpp"} ->
        With(nd.e, LAMBDA r :
          IF ~IsPtrVal(r.v) \/ PObj(r.v) > Len(mem) THEN Stop("bad pointer")
          ELSE IF POff(r.v) + nd.n > Len(mem[PObj(r.v)]) THEN Stop("out of bounds")
          ELSE IF nd.op = "dumpp" THEN Goto(After(p, n), r.m, Append(out, <<"b", nd.id, Bytes(mem[PObj(r.v)], POff(r.v), nd.n)>>))
          ELSE Goto(After(p, n), [r.m EXCEPT ![PObj(r.v)] = Splice(@, POff(r.v), Pattern(nd.n, nd.s))], out))
    [] nd.op = "setb" -> Goto(After(p, n), [mem EXCEPT ![Env[nd.v][1]] = SubSeq(nd.b, 1, Len(@))], out)
    [] nd.op = "decl" ->
        (LET o == Env[nd.v][1]
             m0 == [mem EXCEPT ![o] = Undef(Len(mem[o]))]
         IN IF nd.e = <<>> THEN Goto(After(p, n), m0, out)
            ELSE LET r == Eval(p, nd.e, Env, m0) IN
                 IF r.ub # "" THEN Stop(r.ub)
                 ELSE LET t == VT(p, nd.v)  q == Cv(r.v, r.t, t) IN
                      IF q.ub # "" THEN Stop(q.ub)
                      ELSE LET s == Store(p, r.m, [o |-> o, off |-> 0, t |-> t, bp |-> 0, bw |-> -1], q.v) IN
                           IF s.ub # "" THEN Stop(s.ub) ELSE Goto(After(p, n), s.m, out))
    [] nd.op = "vla" ->      \* dimensions evaluated here fix the object's size and type
        (LET dims == [i \in 1..Len(nd.dims) |-> Eval(p, nd.dims[i], Env, mem)] IN
         IF \E i \in 1..Len(dims) : dims[i].ub # "" \/ ~Small(dims[i].v) \/ ToNat(dims[i].v) = 0 \/ ToNat(dims[i].v) > 5000
         THEN Stop("vla bound")
         ELSE LET t0 == FoldRight(LAMBDA d, tt : <<"a", tt, ToNat(d.v)>>, dims, nd.t)
                  t == IF nd.kind = "ptr" THEN <<"p", t0>> ELSE t0     \* pointer to a VLA
                  o == Len(mem) + 1
              IN IF nd.kind = "typedef"                                \* only the type
                 THEN /\ fs' = [fs EXCEPT ![Len(fs)].en[nd.v] = <<0, t>>]
                      /\ pc' = After(p, n) /\ UNCHANGED <<mem, out, st>>
                 ELSE /\ mem' = Append(mem, Undef(SizeOf(Lay[p], t)))
                      /\ fs' = [fs EXCEPT ![Len(fs)].en[nd.v] = <<o, t>>]
                      /\ pc' = After(p, n) /\ UNCHANGED <<out, st>>)
    [] nd.op = "vlad" ->     \* an object of a typedef'd VLA type
        (LET t == Env[nd.of][2] IN
         /\ mem' = Append(mem, Undef(SizeOf(Lay[p], t)))
         /\ fs' = [fs EXCEPT ![Len(fs)].en[nd.v] = <<Len(mem) + 1, t>>]
         /\ pc' = After(p, n) /\ UNCHANGED <<out, st>>)
    [] nd.op = "alloca" ->   \* v = alloca(e)
        With(nd.e, LAMBDA r :
          IF ~Small(r.v) \/ ToNat(r.v) > 20000 THEN Stop("alloca size")
          ELSE LET m1 == Append(r.m, Undef(ToNat(r.v)))
                   s == Store(p, m1, [o |-> Env[nd.v][1], off |-> 0, t |-> VT(p, nd.v), bp |-> 0, bw |-> -1], Ptr(Len(m1), 0))
               IN Goto(After(p, n), s.m, out))
    [] nd.op = "null" -> go(After(p, n))
    [] nd.op = "block" -> go(IF nd.ch = <<>> THEN After(p, n) ELSE Enter(nd.ch[1]))
    [] nd.op \in {"label", "case", "default"} -> go(Enter(nd.b))
    [] nd.op = "if" ->
        With(nd.c, LAMBDA r : Goto(IF Truth(r.v, r.t) THEN Enter(nd.t) ELSE IF nd.e > 0 THEN Enter(nd.e) ELSE After(p, n), r.m, out))
    [] nd.op = "while" ->
        With(nd.c, LAMBDA r : Goto(IF Truth(r.v, r.t) THEN Enter(nd.b) ELSE After(p, n), r.m, out))
    [] nd.op = "do" /\ ph = "in" -> go(Enter(nd.b))
    [] nd.op = "do" ->
        With(nd.c, LAMBDA r : Goto(IF Truth(r.v, r.t) THEN Enter(nd.b) ELSE After(p, n), r.m, out))
    [] nd.op = "for" /\ ph = "in" ->
        IF nd.i = <<>> THEN go(<<n, "test">>) ELSE With(nd.i, LAMBDA r : Goto(<<n, "test">>, r.m, out))
    [] nd.op = "for" /\ ph = "inc" ->
        IF nd.n = <<>> THEN go(<<n, "test">>) ELSE With(nd.n, LAMBDA r : Goto(<<n, "test">>, r.m, out))
    [] nd.op = "for" ->
        IF nd.c = <<>> THEN go(Enter(nd.b))
        ELSE With(nd.c, LAMBDA r : Goto(IF Truth(r.v, r.t) THEN Enter(nd.b) ELSE After(p, n), r.m, out))
    [] nd.op = "switch" ->
        With(nd.e, LAMBDA r : Goto(Dispatch(p, n, r.v, PTy(r)), r.m, out))
    [] nd.op = "goto" -> go(Enter(nd.to))
    [] nd.op = "cgoto" ->
        With(nd.e, LAMBDA r : IF ~Small(r.v) \/ ToNat(r.v) >= Len(nd.tos) THEN Stop("computed goto")
                              ELSE Goto(Enter(nd.tos[ToNat(r.v) + 1]), r.m, out))
    [] nd.op = "break" -> go(After(p, Enclosing(p, n, Loops \cup {"switch"})))
    [] nd.op = "continue" -> go(ContinuePoint(p, Enclosing(p, n, Loops)))
    [] nd.op = "return" -> Return(nd.e)
    [] nd.op = "call" ->      \* statement-level call of a function with a body of statements
        (LET fn == Batch[p].funcs[nd.f]
             args == [i \in 1..Len(nd.args) |-> Eval(p, nd.args[i], Env, mem)]
             cvs == [i \in 1..Len(nd.args) |-> Cv(args[i].v, args[i].t, VT(p, fn.par[i]))]
         IN IF \E i \in 1..Len(args) : args[i].ub # "" \/ args[i].W # {} THEN Stop("args")
            ELSE IF \E i \in 1..Len(args) : cvs[i].ub # "" THEN Stop("args")
            ELSE LET b == Len(mem)
                     m2 == FoldLeft(LAMBDA mm, i : Append(mm, ToBytes(cvs[i].v, VT(p, fn.par[i]))), mem, Idx(1, Len(fn.par)))
                     m3 == FoldLeft(LAMBDA mm, v : Append(mm, Undef(SizeOf(Lay[p], VT(p, v)))), m2, fn.loc)
                 IN /\ mem' = m3
                    /\ fs' = Append(fs, Frame(p, nd.f, GlobalEnv(p), b, After(p, n), nd.dst) @@ [ret |-> fn.ret])
                    /\ pc' = Enter(fn.body)
                    /\ UNCHANGED <<out, st>>)

MaxSteps == 600
Next ==
  \/ /\ st = "run"
     /\ IF steps >= MaxSteps THEN Stop("too long") ELSE Step
     /\ steps' = steps + 1
     /\ prog' = prog
     /\ (st' # "run" => PrintT("RES " \o ToJson(<<prog, st', steps', IF st' = "done" THEN out' ELSE <<>>>>)))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ sanity
PcOK == pc[1] \in 0..Len(Batch[prog].stmts)
MemOK == \A o \in 1..Len(mem) : \A i \in 1..Len(mem[o]) : mem[o][i] \in -1..255
EnvOK == st = "run" => \A v \in DOMAIN Env : Env[v][1] \in 0..Len(mem)
\* objects never change size; the observable trace only grows
Frames == [][ /\ \A o \in 1..Len(mem) : o <= Len(mem') => Len(mem'[o]) = Len(mem[o])
              /\ (st' # "done" \/ TRUE)
              /\ Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out ]_vars
=============================================================================
