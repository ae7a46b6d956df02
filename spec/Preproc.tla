------------------------------- MODULE Preproc ------------------------------
(***************************************************************************)
(* Translation phase 4 as a transition system: directives, conditional     *)
(* groups, file inclusion and the macro table.  The batch (JSON) holds     *)
(* independent worlds:                                                     *)
(*   files: [path |-> <<component, ...>>, lines |-> <<[n, m, t]>>]; a line *)
(*          is its first and last number and its tokens <<kind, text, sp>> *)
(*   dirs:  the search path, each a component sequence                     *)
(*   hdr:   header spellings -> [q |-> 1 if "...", 2 if the path is        *)
(*          absolute, p |-> components]                                    *)
(*   cmd:   <<"D", name, tokens>> / <<"U", name, <<>>>> in order           *)
(*   pre:   paths given with -include                                      *)
(*   syn:   1 iff the result is then judged as a C program (CSyn)          *)
(* The first file is the main file.                                        *)
(***************************************************************************)
EXTENDS PPExpr, Json, IOUtils

Syn == INSTANCE CSyn

Batch == JsonDeserialize(IOEnv.BATCH)

VARIABLES w, fs, M, conds, once, opened, out, ctr, st, at, steps
vars == <<w, fs, M, conds, once, opened, out, ctr, st, at, steps>>

Wd == Batch[w]
File(f) == Wd.files[f]
ToT(x, ln) == <<x[1], x[2], x[3], {}, ln>>
\* a diagnostic names the physical or the presumed place
Places(top, a, b) == {<<top.nm, j + top.d>> : j \in a..b} \cup {<<top.rn, j>> : j \in a..b}
Toks(line, top) == LET ln == <<line.n + top.d, Places(top, line.n, line.m)>> IN [i \in DOMAIN line.t |-> ToT(line.t[i], ln)]
IsDirective(line) == Len(line.t) > 0 /\ line.t[1][1] = "p" /\ line.t[1][2] = "#"

\* ------------------------------------------------------------ macro table
Def(o, par, va, body) == [o |-> o, par |-> par, va |-> va, body |-> body]
With(T, n, d) == [x \in DOMAIN T \cup {n} |-> IF x = n THEN d ELSE T[x]]
Without(T, n) == [x \in DOMAIN T \ {n} |-> T[x]]
Sub1(ts, i) == SubSeq(ts, i, Len(ts))
\* the parameter list starting after "(" at token i: [par, va, next] or next = 0
ParF[x \in Any] ==
  LET ts == x[1]  i == x[2]  par == x[3] IN
  IF i > Len(ts) THEN [par |-> par, va |-> "", next |-> 0]
  ELSE IF Is(ts[i], ")") THEN [par |-> par, va |-> "", next |-> i + 1]
  ELSE IF Is(ts[i], ",") THEN ParF[<<ts, i + 1, par>>]
  ELSE IF Is(ts[i], "...") THEN [par |-> par, va |-> "__VA_ARGS__", next |-> i + 2]
  ELSE IF i < Len(ts) /\ Is(ts[i+1], "...") THEN [par |-> par, va |-> ts[i][2], next |-> i + 3]
  ELSE ParF[<<ts, i + 1, Append(par, ts[i][2])>>]
\* ts = the tokens after "define"
Define(T, ts) ==
  IF Len(ts) > 1 /\ Is(ts[2], "(") /\ ts[2][3] = 0
  THEN LET p == ParF[<<ts, 3, <<>>>>] IN With(T, ts[1][2], Def(0, p.par, p.va, Sub1(ts, p.next)))
  ELSE With(T, ts[1][2], Def(1, <<>>, "", Sub1(ts, 2)))
InitM(x) == FoldLeft(LAMBDA T, c : IF c[1] = "D" THEN With(T, c[2], Def(1, <<>>, "", [i \in DOMAIN c[3] |-> ToT(c[3][i], NoLoc)]))
                                   ELSE Without(T, c[2]),
                     <<>>, Batch[x].cmd)

\* ------------------------------------------------------------------ files
RECURSIVE Norm(_)
Norm(p) ==               \* "." and ".." resolved
  FoldLeft(LAMBDA a, c : IF c = "." THEN a ELSE IF c = ".." THEN Front(a) ELSE Append(a, c), <<>>, p)
PathOf(f) == File(f).path
Exists(p) == {f \in DOMAIN Wd.files : PathOf(f) = Norm(p)}
FileAt(p) == CHOOSE f \in Exists(p) : TRUE
DirOf(f) == Front(PathOf(f))
JoinPath(p) == FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN "/" ELSE "") \o p[i], "", Ids(Len(p)))
\* search dirs[from..]: [f, di (index found at)] or f = 0; the working directory
\* is the last resort (toycc's own tests rely on it)
SearchF[x \in Any] ==
  LET p == x[1]  i == x[2] IN
  IF i > Len(Wd.dirs) THEN [f |-> IF Exists(p) # {} THEN FileAt(p) ELSE 0, di |-> 0]
  ELSE IF Exists(Wd.dirs[i] \o p) # {} THEN [f |-> FileAt(Wd.dirs[i] \o p), di |-> i]
  ELSE SearchF[<<p, i + 1>>]
Find(h, next, cur, di) ==
  IF h.q = 2 THEN (IF Exists(h.p) # {} THEN [f |-> FileAt(h.p), di |-> 0] ELSE [f |-> 0, di |-> 0])
  ELSE IF next THEN SearchF[<<h.p, di + 1>>]
  ELSE IF h.q = 1 /\ Exists(DirOf(cur) \o h.p) # {} THEN [f |-> FileAt(DirOf(cur) \o h.p), di |-> 0]
  ELSE SearchF[<<h.p, 1>>]

\* -include: the working directory, then the search path
PreFile(p) == IF Exists(p) # {} THEN FileAt(p) ELSE SearchF[<<p, 1>>].f

\* ------------------------------------------------------------ conditionals
\* a group: [act |-> this group is processed, taken |-> some group was, els, f |-> depth of file stack]
Active == \A i \in DOMAIN conds : conds[i].act
Outer == \A i \in 1..(Len(conds) - 1) : conds[i].act
Top == fs[Len(fs)]
Here == LET L == File(Top.f).lines[Top.i] IN Places(Top, L.n, L.m)
Push(b) == Append(conds, [act |-> b, taken |-> b, els |-> FALSE, f |-> Len(fs), at |-> Here])

Ctx(top) == [M |-> M, ctr |-> ctr, file |-> Top.nm, base |-> Wd.base, top |-> top]
Defd(ts) ==              \* defined X / defined ( X ) replaced by 0 or 1
  FoldLeft(LAMBDA a, i :
     IF a.skip >= i THEN a
     ELSE IF Is(ts[i], "defined")
     THEN LET par == i < Len(ts) /\ Is(ts[i+1], "(")
              nm == ts[IF par THEN i + 2 ELSE i + 1]
          IN [out |-> Append(a.out, Tok("n", IF nm[2] \in (DOMAIN M) \cup DynNames THEN "1" ELSE "0", 1, NoLoc)),
              skip |-> IF par THEN i + 3 ELSE i + 1]
     ELSE [a EXCEPT !.out = Append(@, ts[i])],
   [out |-> <<>>, skip |-> 0], Ids(Len(ts))).out
DefdOK(ts) ==
  \A i \in DOMAIN ts : Is(ts[i], "defined") =>
     IF i < Len(ts) /\ Is(ts[i+1], "(") THEN i + 3 <= Len(ts) /\ ts[i+2][1] = "i" /\ Is(ts[i+3], ")")
     ELSE i < Len(ts) /\ ts[i+1][1] = "i"
CondVal(ts) ==           \* [ok, t, err]
  LET e == Expand(Ctx(FALSE), Defd(ts)) IN
  IF ~DefdOK(ts) THEN [ok |-> FALSE, t |-> FALSE, err |-> "syntax", at |-> {}]
  ELSE IF e.err # "" THEN [ok |-> FALSE, t |-> FALSE, err |-> e.err, at |-> e.at]
  ELSE LET v == PPEval(e.out) IN [ok |-> v.ok, t |-> v.t, err |-> v.err, at |-> PlacesOf(e.out)]

\* ------------------------------------------------------------- transitions
Init ==
  /\ w \in 1..Len(Batch)
  /\ M = InitM(w)
  /\ conds = <<>> /\ once = {} /\ out = <<>> /\ ctr = 0 /\ st = "run" /\ at = {} /\ steps = 0
  /\ fs = <<[f |-> 1, i |-> 1, di |-> 0, nm |-> Batch[w].base, rn |-> Batch[w].base, d |-> 0]>> \o
          [k \in 1..Len(Batch[w].pre) |-> LET f == PreFile(Batch[w].pre[Len(Batch[w].pre) + 1 - k]) IN
                                          [f |-> f, i |-> 1, di |-> 0, nm |-> IF f = 0 THEN "" ELSE JoinPath(Batch[w].files[f].path),
                                           rn |-> IF f = 0 THEN "" ELSE JoinPath(Batch[w].files[f].path), d |-> 0]]
  /\ opened = {}

Adv == [fs EXCEPT ![Len(fs)].i = @ + 1]
Keep == UNCHANGED <<M, conds, once, out, ctr, st, at>>
FailAt(why, places) == st' = why /\ at' = places /\ UNCHANGED <<fs, M, conds, once, out, ctr>>
HerePlaces == IF Top.f = 0 \/ Top.i > Len(File(Top.f).lines) THEN {} ELSE Here
Fail(why) == FailAt(why, HerePlaces)

Include(ts0, next) ==
  LET direct == ts0 # <<>> /\ ts0[1][1] = "h"
      e == IF direct THEN [out |-> ts0, err |-> "", ctr |-> ctr] ELSE Expand(Ctx(FALSE), ts0)
      text == IF e.out = <<>> THEN ""
              ELSE IF e.out[1][1] = "h" \/ e.out[1][1] = "s" THEN e.out[1][2]
              ELSE FoldLeft(LAMBDA a, i : a \o (IF i > 2 /\ i < Len(e.out) /\ e.out[i][3] = 1 THEN " " ELSE "") \o e.out[i][2], "", Ids(Len(e.out)))
  IN IF e.err # "" THEN Fail(e.err)
     ELSE IF ~ \E k \in DOMAIN Wd.hdr : Wd.hdr[k].s = text THEN Fail("bad include")
     ELSE LET h == Wd.hdr[CHOOSE k \in DOMAIN Wd.hdr : Wd.hdr[k].s = text]
              r == Find(h, next, Top.f, Top.di)
          IN IF r.f = 0 THEN Fail("not found")
             ELSE IF r.f \in once THEN fs' = Adv /\ ctr' = e.ctr /\ UNCHANGED <<M, conds, once, out, st, at>>
             ELSE IF Len(fs) > 12 THEN Fail("too deep")
             ELSE /\ fs' = Append(Adv, [f |-> r.f, i |-> 1, di |-> r.di, nm |-> JoinPath(PathOf(r.f)), rn |-> JoinPath(PathOf(r.f)), d |-> 0])
                  /\ ctr' = e.ctr /\ UNCHANGED <<M, conds, once, out, st, at>>

\* the parameter list of a function-like definition, ts[i] after the "("
ParamsOK(ts) ==
  "done" = FoldLeft(LAMBDA a, i :
     IF i < 3 \/ a \in {"done", "bad"} THEN a
     ELSE LET x == ts[i][2]  id == ts[i][1] = "i" IN
          CASE a \in {"start", "comma"} /\ id -> "id"
            [] a \in {"start", "comma"} /\ x = "..." -> "dots"
            [] a \in {"start", "id", "dots"} /\ x = ")" -> "done"
            [] a = "id" /\ x = "," -> "comma"
            [] a = "id" /\ x = "..." -> "dots"
            [] OTHER -> "bad", "start", Ids(Len(ts)))
NameOK(arg) == arg # <<>> /\ arg[1][1] = "i"
DefineOK(arg) == NameOK(arg) /\ ((Len(arg) > 1 /\ Is(arg[2], "(") /\ arg[2][3] = 0) => ParamsOK(arg))
LineOK(ts) == ts # <<>> /\ ts[1][1] = "n" /\ (\A i \in 1..Len(ts[1][2]) : Ch(ts[1][2], i) \in CharSet("0123456789")) /\ (Len(ts) > 1 => ts[2][1] = "s")

Directive(line) ==
  LET ts == Tail(Toks(line, Top))
      d == IF ts = <<>> THEN "" ELSE ts[1][2]
      arg == IF ts = <<>> THEN <<>> ELSE Tail(ts)
      cond(b) == fs' = Adv /\ conds' = Push(b) /\ UNCHANGED <<M, once, out, ctr, st, at>>
      inGroup == conds # <<>> /\ Last(conds).f = Len(fs)
  IN
  CASE d \in {"if", "ifdef", "ifndef"} /\ ~Active -> cond(FALSE)
    [] d \in {"ifdef", "ifndef"} /\ ~NameOK(arg) -> Fail("macro name")
    [] d = "ifdef" -> cond(arg[1][2] \in (DOMAIN M) \cup DynNames)
    [] d = "ifndef" -> cond(arg[1][2] \notin (DOMAIN M) \cup DynNames)
    [] d = "if" -> (LET v == CondVal(arg) IN IF v.ok THEN cond(v.t) ELSE FailAt(v.err, v.at \cup HerePlaces))
    [] d \in {"elif", "else"} ->
        (IF ~inGroup \/ (Last(conds).els /\ Outer) THEN Fail("stray " \o d)
         ELSE LET c == Last(conds)
                  v == IF d = "else" THEN [ok |-> TRUE, t |-> TRUE, err |-> "", at |-> {}]
                       ELSE IF c.taken \/ ~Outer THEN [ok |-> TRUE, t |-> FALSE, err |-> "", at |-> {}] ELSE CondVal(arg)
                  b == Outer /\ ~c.taken /\ v.t
              IN IF ~v.ok THEN FailAt(v.err, v.at \cup HerePlaces)
                 ELSE /\ fs' = Adv
                      /\ conds' = Append(Front(conds), [act |-> b, taken |-> c.taken \/ b, els |-> d = "else", f |-> c.f, at |-> c.at])
                      /\ UNCHANGED <<M, once, out, ctr, st, at>>)
    [] d = "endif" ->
        IF ~inGroup THEN Fail("stray endif")
        ELSE fs' = Adv /\ conds' = Front(conds) /\ UNCHANGED <<M, once, out, ctr, st, at>>
    [] ~Active -> fs' = Adv /\ Keep
    [] (d = "define" /\ ~DefineOK(arg)) \/ (d = "undef" /\ ~NameOK(arg)) -> Fail("macro definition")
    [] d = "define" -> fs' = Adv /\ M' = Define(M, arg) /\ UNCHANGED <<conds, once, out, ctr, st, at>>
    [] d = "undef" -> fs' = Adv /\ M' = Without(M, arg[1][2]) /\ UNCHANGED <<conds, once, out, ctr, st, at>>
    [] d = "include" -> Include(arg, FALSE)
    [] d = "include_next" -> Include(arg, TRUE)
    [] d = "pragma" /\ Len(arg) > 0 /\ arg[1][2] = "once" ->
        fs' = Adv /\ once' = once \cup {Top.f} /\ UNCHANGED <<M, conds, out, ctr, st, at>>
    [] d = "pragma" -> fs' = Adv /\ Keep
    [] d = "error" -> Fail("#error")
    \* toycc numbers the line after #line N as N+1 (fixed by its own tests)
    [] d = "line" ->
        (LET e == Expand(Ctx(FALSE), arg)
             n == ToNat(NumF(e.out[1][2]).v)
         IN IF e.err # "" THEN Fail(e.err)
            ELSE IF ~LineOK(e.out) THEN Fail("bad #line")
            ELSE /\ fs' = [Adv EXCEPT ![Len(fs)].d = n - line.n,
                                      ![Len(fs)].nm = IF Len(e.out) > 1 THEN SubSeq(e.out[2][2], 2, Len(e.out[2][2]) - 1) ELSE @]
                 /\ UNCHANGED <<M, conds, once, out, ctr, st, at>>)
    [] d = "" -> fs' = Adv /\ Keep
    [] OTHER -> Fail("bad directive")

\* the text lines from i up to the next directive, as one token list
RunEnd == LET L == File(Top.f).lines
              s == {j \in Top.i..Len(L) : IsDirective(L[j])}
          IN IF s = {} THEN Len(L) ELSE (CHOOSE j \in s : \A k \in s : j <= k) - 1
RunToks(L, a, b) ==
  FoldLeft(LAMBDA acc, j : LET ts == Toks(L[j], Top) IN
                           IF ts = <<>> THEN acc ELSE acc \o <<Sp(ts[1], 1)>> \o Tail(ts), <<>>, [k \in 1..(b - a + 1) |-> a + k - 1])
Text ==
  LET L == File(Top.f).lines  b == RunEnd
      nf == [fs EXCEPT ![Len(fs)].i = b + 1]
  IN IF ~Active THEN fs' = nf /\ Keep
     ELSE LET e == Expand(Ctx(~(Len(fs) = 1 /\ b = Len(L))), RunToks(L, Top.i, b)) IN
          IF e.err # "" THEN FailAt(e.err, e.at)
          ELSE /\ fs' = nf
               /\ out' = out \o [i \in DOMAIN e.out |-> IF Wd.syn = 1 THEN <<e.out[i][1], e.out[i][2], e.out[i][5][2]>> ELSE e.out[i][2]]
               /\ ctr' = e.ctr
               /\ UNCHANGED <<M, conds, once, st, at>>

MaxSteps == 20000
\* the end of the main file, as a diagnostic may name it
EofPlaces == LET L == File(1).lines  d == fs[1].d IN Places(fs[1], L[Len(L)].n, L[Len(L)].m + 1)
Done ==
  IF Wd.syn = 0 THEN st' = "done" /\ at' = {} /\ UNCHANGED <<fs, M, conds, once, out, ctr>>
  ELSE LET r == Syn!Check(out) IN
       /\ st' = CASE r.v = "ok" -> "valid" [] r.v = "open" -> "open: " \o r.why [] OTHER -> "invalid: " \o r.why
       /\ at' = UNION {IF k > Len(out) THEN EofPlaces ELSE out[k][3] : k \in r.at}
       /\ out' = <<>>
       /\ UNCHANGED <<fs, M, conds, once, ctr>>
Step ==
  IF Len(fs) = 1 /\ Top.f # 0 /\ Top.i > Len(File(1).lines) /\ conds = <<>> THEN Done
  ELSE IF Top.f = 0 THEN Fail("not found")
  ELSE LET L == File(Top.f).lines IN
       IF Top.i > Len(L)
       THEN IF conds # <<>> /\ Last(conds).f = Len(fs) THEN FailAt("unterminated conditional", IF Len(fs) = 1 THEN Last(conds).at ELSE {})     \* in a header, it may be found later
            ELSE fs' = Front(fs) /\ Keep
       ELSE IF IsDirective(L[Top.i]) THEN Directive(L[Top.i])
       ELSE Text
Next ==
  /\ st = "run"
  /\ IF steps >= MaxSteps THEN Fail("too long") ELSE Step
  /\ steps' = steps + 1 /\ w' = w
  /\ opened' = IF fs = <<>> \/ fs[Len(fs)].f \in opened THEN opened ELSE opened \cup {fs[Len(fs)].f}
  /\ (st' # "run" => PrintT("RES " \o ToJson(<<w, st', out', [f \in 1..Len(Batch[w].files) |-> IF f \in opened' THEN 1 ELSE 0], SetToSeq(at')>>)))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ sanity
\* groups nest inside files; at most one group of a conditional is taken
CondsOK == \A i \in DOMAIN conds : conds[i].f \in 1..Len(fs) + 1 /\ (conds[i].act => conds[i].taken)
           /\ (i > 1 => conds[i-1].f <= conds[i].f /\ (conds[i].act => conds[i-1].act))
\* text is emitted only where every enclosing group is selected, and is never taken back
Monotone == [][ /\ (Len(out') >= Len(out) \/ Wd.syn = 1)
                /\ (out' # out => Active)
                /\ (M' # M => Active)
                /\ once \subseteq once' ]_vars
=============================================================================
