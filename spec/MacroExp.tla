------------------------------ MODULE MacroExp ------------------------------
(***************************************************************************)
(* Macro replacement (C11 6.10.3), as Prosser's algorithm with hide sets,  *)
(* plus the GNU extensions toycc documents (named variadics, `, ##' comma  *)
(* elision, __VA_OPT__).                                                   *)
(*                                                                         *)
(* A token is <<kind, text, sp, hs, loc>>: kind "i" identifier, "n"       *)
(* pp-number, "p" punctuator, "s" string, "c" character constant, "m"      *)
(* placemarker; sp = 1 iff white space precedes it; hs its hide set; loc = *)
(* <<line, places>>: the line __LINE__ gives and the <<file, line>> pairs  *)
(* a diagnostic may name (where it is spelled, where it is invoked).       *)
(* A macro is [o |-> 1 object-like / 0, par |-> names, va |-> "" or the    *)
(* name of the variadic parameter, body |-> tokens].                       *)
(***************************************************************************)
EXTENDS Word, SequencesExt, FiniteSets

Tok(k, t, s, ln) == <<k, t, s, {}, ln>>
Sp(t, s) == <<t[1], t[2], s, t[4], t[5]>>
Max1(a, b) == IF a > b THEN a ELSE b
NoLoc == <<0, {}>>
PlacesOf(ts) == UNION {ts[i][5][2] : i \in DOMAIN ts}
Is(t, s) == t[2] = s /\ t[1] \in {"p", "i"}
Ids(n) == [i \in 1..n |-> i]

Ch(s, i) == SubSeq(s, i, i)
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
Digits == CharSet("0123456789")
IdChars == CharSet("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
AllIn(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs

Puncts == {"<<=", ">>=", "...", "==", "!=", "<=", ">=", "->", "+=", "-=", "*=", "/=", "++", "--", "%=",
           "&=", "|=", "^=", "&&", "||", "<<", ">>", "##"}

(* ------------------------------------------------------------ # and ## *)
(* Prefix every " and \ of a literal with a backslash. *)
Esc(s) == FoldLeft(LAMBDA a, i : a \o (IF Ch(s, i) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(s, i), "", Ids(Len(s)))
Spell(t) == IF t[1] \in {"s", "c"} THEN Esc(t[2]) ELSE t[2]
Stringize(ts, sp, ln) ==
  Tok("s", "\"" \o FoldLeft(LAMBDA a, i : a \o (IF i > 1 /\ ts[i][3] = 1 THEN " " ELSE "") \o Spell(ts[i]), "", Ids(Len(ts))) \o "\"", sp, ln)

(* kind of the token spelled x.text \o y.text, "" if it is not one token *)
PasteKind(x, y) ==
  CASE x[1] = "i" /\ y[1] = "i" -> "i"
    [] x[1] = "i" /\ y[1] = "n" -> IF AllIn(y[2], IdChars) THEN "i" ELSE ""
    [] x[1] = "i" /\ y[1] = "s" -> IF x[2] \in {"L", "u", "U", "u8"} /\ Ch(y[2], 1) = "\"" THEN "s" ELSE ""
    [] x[1] = "i" /\ y[1] = "c" -> IF x[2] \in {"L", "u", "U"} /\ Ch(y[2], 1) = "'" THEN "c" ELSE ""
    [] x[1] = "n" /\ y[1] \in {"i", "n"} -> "n"
    [] x[1] = "n" /\ y[2] = "." -> "n"
    [] x[1] = "n" /\ y[2] \in {"+", "-"} -> IF Ch(x[2], Len(x[2])) \in CharSet("eEpP") THEN "n" ELSE ""
    [] x[2] = "." /\ y[1] = "n" -> IF Ch(y[2], 1) \in Digits THEN "n" ELSE ""
    [] x[1] = "p" /\ y[1] = "p" -> IF (x[2] \o y[2]) \in Puncts THEN "p" ELSE ""
    [] OTHER -> ""
(* [t |-> token, ok |-> BOOLEAN]; the result's hide set starts empty *)
Paste(x, y) ==
  IF x[1] = "m" THEN [t |-> IF y[1] = "m" THEN x ELSE Sp(y, x[3]), ok |-> TRUE]
  ELSE IF y[1] = "m" THEN [t |-> x, ok |-> TRUE]
  ELSE LET k == PasteKind(x, y)
       IN [t |-> <<k, x[2] \o y[2], x[3], {}, x[5]>>, ok |-> k # ""]

(* ----------------------------------------------------------- arguments *)
(* The argument list of an invocation: todo[2] is the "(".  Commas at      *)
(* depth 0 separate arguments; the comma tokens are kept so that the       *)
(* variadic argument can be put together again.                            *)
ArgsF[x \in Any] ==      \* x = <<todo, i, depth, cur, args, commas>>
  LET ts == x[1]  i == x[2]  d == x[3] IN
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> <<>>, commas |-> <<>>, next |-> 0]
  ELSE LET t == ts[i] IN
    IF d = 0 /\ Is(t, ")") THEN [ok |-> TRUE, args |-> Append(x[5], x[4]), commas |-> x[6], next |-> i]
    ELSE IF d = 0 /\ Is(t, ",") THEN ArgsF[<<ts, i + 1, 0, <<>>, Append(x[5], x[4]), Append(x[6], t)>>]
    ELSE ArgsF[<<ts, i + 1, d + (IF Is(t, "(") THEN 1 ELSE IF Is(t, ")") THEN -1 ELSE 0), Append(x[4], t), x[5], x[6]>>]
ReadArgs(todo) == ArgsF[<<todo, 3, 0, <<>>, <<>>, <<>>>>]

JoinFrom(a, n) ==        \* arguments n.. with their commas
  FoldLeft(LAMBDA acc, i : acc \o (IF i > n THEN <<a.commas[i-1]>> ELSE <<>>) \o a.args[i], <<>>,
           [i \in 1..(Len(a.args) - n + 1) |-> n + i - 1])
(* arguments per parameter, the variadic one last; FALSE if the count is wrong *)
Bind(m, a) ==
  LET n == Len(m.par)  k == Len(a.args) IN
  IF m.va = ""
  THEN IF n = 0 THEN [ok |-> k = 1 /\ a.args[1] = <<>>, args |-> <<>>]
       ELSE [ok |-> k = n, args |-> a.args]
  ELSE IF k < n THEN [ok |-> FALSE, args |-> <<>>]
  ELSE [ok |-> TRUE, args |-> SubSeq(a.args, 1, n) \o <<IF k > n THEN JoinFrom(a, n + 1) ELSE <<>>>>]
\* a variadic argument that is there but empty: compilers differ on `, ##'
VaBlank(m, a) == m.va # "" /\ Len(m.par) > 0 /\ Len(a.args) = Len(m.par) + 1 /\ Last(a.args) = <<>>
Names(m) == IF m.va = "" THEN m.par ELSE Append(m.par, m.va)
ParamNo(m, t) == IF m.o = 1 \/ t[1] # "i" THEN 0
                 ELSE LET s == {i \in DOMAIN Names(m) : Names(m)[i] = t[2]} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

(* index of the ) matching the ( at position i *)
MatchF[x \in Any] == LET ts == x[1]  i == x[2]  d == x[3] IN
  IF i > Len(ts) THEN 0
  ELSE IF Is(ts[i], ")") /\ d = 1 THEN i
  ELSE MatchF[<<ts, i + 1, d + (IF Is(ts[i], "(") THEN 1 ELSE IF Is(ts[i], ")") THEN -1 ELSE 0)>>]

(* -------------------------------------------------------- substitution *)
(* The fold over the replacement list keeps: out, whether a ## is pending, *)
(* how many tokens to skip, and the error.  raw/expd are the argument      *)
(* tokens as written and fully replaced.                                   *)
Put(st, b, S0) ==        \* append the tokens S0 standing for body token b
  LET S == IF S0 = <<>> THEN <<<<"m", "", b[3], {}, b[5]>>>> ELSE <<Sp(S0[1], b[3])>> \o Tail(S0)
  IN IF st.paste
     THEN LET p == Paste(Last(st.out), S[1]) IN
          [st EXCEPT !.out = Front(@) \o <<p.t>> \o Tail(S), !.paste = FALSE,
                     !.err = IF @ # "" THEN @ ELSE IF p.ok THEN "" ELSE "paste"]
     ELSE [st EXCEPT !.out = @ \o S]
SubstF[x \in Any] ==     \* x = <<m, body, raw, expd>>
  LET m == x[1]  b == x[2]  raw == x[3]  expd == x[4]  n == Len(b)
      step(st, i) ==
        IF st.skip >= i \/ st.err # "" THEN st
        ELSE LET t == b[i]
                 p == ParamNo(m, t)
                 pasted == st.paste \/ (i < n /\ Is(b[i+1], "##"))
             IN
             CASE Is(t, "##") /\ t[1] = "p" ->
                    IF i = 1 \/ i = n THEN [st EXCEPT !.err = "## at the edge"] ELSE [st EXCEPT !.paste = TRUE]
               [] m.o = 0 /\ Is(t, "#") ->
                    (IF i = n \/ ParamNo(m, b[i+1]) = 0 THEN [st EXCEPT !.err = "# not before a parameter"]
                     ELSE [Put(st, t, <<Stringize(raw[ParamNo(m, b[i+1])], t[3], t[5])>>) EXCEPT !.skip = i + 1])
               [] p # 0 /\ m.va # "" /\ p = Len(Names(m)) /\ st.paste /\ i > 2 /\ Is(b[i-2], ",") ->
                    \* , ## variadic
                    (IF raw[p] = <<>> THEN [st EXCEPT !.out = Append(Front(@), <<"m", "", Last(@)[3], {}, t[5]>>), !.paste = FALSE]
                     ELSE [Put([st EXCEPT !.paste = FALSE], t, IF i < n /\ Is(b[i+1], "##") THEN raw[p] ELSE expd[p]) EXCEPT !.paste = FALSE])
               [] p # 0 -> Put(st, t, IF pasted THEN raw[p] ELSE expd[p])
               [] m.va # "" /\ Is(t, "__VA_OPT__") /\ i < n /\ Is(b[i+1], "(") ->
                    (LET j == MatchF[<<b, i + 2, 1>>] IN
                     IF j = 0 THEN [st EXCEPT !.err = "unterminated __VA_OPT__"]
                     ELSE LET inner == SubstF[<<m, SubSeq(b, i + 2, j - 1), raw, expd>>] IN
                          IF inner.err # "" THEN [st EXCEPT !.err = inner.err]
                          ELSE [Put(st, t, IF expd[Len(Names(m))] = <<>> THEN <<>> ELSE inner.out) EXCEPT !.skip = j])
               [] OTHER -> Put(st, t, <<t>>)
  IN FoldLeft(step, [out |-> <<>>, paste |-> FALSE, skip |-> 0, err |-> ""], Ids(n))

(* Drop placemarkers; white space before a dropped one stays: it goes to    *)
(* the next token, or (`carry') to the token after the whole replacement.   *)
Clean(ts) == FoldLeft(LAMBDA a, t : IF t[1] = "m" THEN [a EXCEPT !.carry = Max1(@, t[3])]
                                    ELSE [out |-> Append(a.out, Sp(t, Max1(t[3], a.carry))), carry |-> 0],
                      [out |-> <<>>, carry |-> 0], ts)
Replace(todo, k, t, ts, hs) ==   \* todo with its first k tokens replaced by ts, standing for token t
  LET c == IF ts = <<>> THEN [out |-> <<>>, carry |-> t[3]] ELSE Clean(<<Sp(ts[1], t[3])>> \o Tail(ts))
      new == [i \in DOMAIN c.out |-> <<c.out[i][1], c.out[i][2], c.out[i][3], c.out[i][4] \cup hs, <<t[5][1], t[5][2] \cup c.out[i][5][2]>>>>]
      rest == SubSeq(todo, k + 1, Len(todo))
  IN new \o (IF rest # <<>> /\ c.carry = 1 THEN <<Sp(rest[1], 1)>> \o Tail(rest) ELSE rest)

(* -------------------------------------------------------------- rescan *)
(* One replacement or one emission.  E = [M macros, file, ctr]             *)
DynNames == {"__LINE__", "__FILE__", "__COUNTER__", "__BASE_FILE__"}
DecStr(n) == ToString(n)
Macro(M, t) == t[1] = "i" /\ t[2] \in DOMAIN M /\ t[2] \notin t[4]

EXP[x \in Any] ==        \* full replacement of a token list: x = <<E, todo, out, fuel>>
  LET E == x[1]  todo == x[2] IN
  IF todo = <<>> THEN [out |-> x[3], ctr |-> E.ctr, err |-> "", at |-> {}]
  ELSE IF x[4] = 0 THEN [out |-> x[3], ctr |-> E.ctr, err |-> "fuel", at |-> {}]
  ELSE LET t == todo[1] IN
  IF t[1] = "i" /\ t[2] \in DynNames
  THEN EXP[<<[E EXCEPT !.ctr = IF t[2] = "__COUNTER__" THEN @ + 1 ELSE @], Tail(todo),
             Append(x[3], CASE t[2] = "__LINE__" -> <<"n", DecStr(t[5][1]), t[3], t[4], t[5]>>
                            [] t[2] = "__COUNTER__" -> <<"n", DecStr(E.ctr), t[3], t[4], t[5]>>
                            [] t[2] = "__FILE__" -> <<"s", "\"" \o E.file \o "\"", t[3], t[4], t[5]>>
                            [] OTHER -> <<"s", "\"" \o E.base \o "\"", t[3], t[4], t[5]>>), x[4] - 1>>]
  ELSE IF ~Macro(E.M, t) THEN EXP[<<E, Tail(todo), Append(x[3], t), x[4]>>]
  ELSE LET m == E.M[t[2]] IN
  IF m.o = 1
  THEN LET s == SubstF[<<m, m.body, <<>>, <<>>>>] IN
       IF s.err # "" THEN [out |-> x[3], ctr |-> E.ctr, err |-> s.err, at |-> t[5][2] \cup PlacesOf(m.body)]
       ELSE EXP[<<E, Replace(todo, 1, t, s.out, t[4] \cup {t[2]}), x[3], x[4] - 1>>]
  ELSE IF Len(todo) = 1 \/ ~Is(todo[2], "(")
  THEN (IF Len(todo) = 1 /\ E.top THEN [out |-> Append(x[3], t), ctr |-> E.ctr, err |-> "ambiguous", at |-> {}]
        ELSE EXP[<<E, Tail(todo), Append(x[3], t), x[4]>>])
  ELSE LET a == ReadArgs(todo) IN
       IF ~a.ok THEN [out |-> x[3], ctr |-> E.ctr, err |-> "unterminated invocation", at |-> PlacesOf(todo)]
       ELSE LET b == Bind(m, a) IN
       IF ~b.ok THEN [out |-> x[3], ctr |-> E.ctr, err |-> "argument count", at |-> PlacesOf(SubSeq(todo, 1, a.next))]
       ELSE IF VaBlank(m, a) /\ \E i \in DOMAIN m.body : Is(m.body[i], "##") THEN [out |-> x[3], ctr |-> E.ctr, err |-> "ambiguous", at |-> {}]
       ELSE LET E2 == [E EXCEPT !.top = FALSE]
                ex == FoldLeft(LAMBDA acc, i :
                         IF acc.err # "" THEN acc
                         ELSE LET r == EXP[<<[E2 EXCEPT !.ctr = acc.ctr], b.args[i], <<>>, x[4] - 1>>]
                              IN [l |-> Append(acc.l, r.out), ctr |-> r.ctr, err |-> r.err, at |-> r.at],
                       [l |-> <<>>, ctr |-> E.ctr, err |-> "", at |-> {}], Ids(Len(b.args)))
            IN IF ex.err # "" THEN [out |-> x[3], ctr |-> E.ctr, err |-> ex.err, at |-> ex.at]
               ELSE LET s == SubstF[<<m, m.body, b.args, ex.l>>] IN
               IF s.err # "" THEN [out |-> x[3], ctr |-> E.ctr, err |-> s.err, at |-> PlacesOf(SubSeq(todo, 1, a.next)) \cup PlacesOf(m.body)]
               ELSE EXP[<<[E EXCEPT !.ctr = ex.ctr],
                          Replace(todo, a.next, t, s.out, (t[4] \cap todo[a.next][4]) \cup {t[2]}), x[3], x[4] - 1>>]
Expand(E, ts) == EXP[<<E, ts, <<>>, 300>>]
=============================================================================
