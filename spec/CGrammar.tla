------------------------------ MODULE CGrammar ------------------------------
(***************************************************************************)
(* How C's grammar groups a sequence of tokens: expressions (C11 6.5),     *)
(* declaration specifiers (6.7.2), declarators and type names (6.7.6,      *)
(* 6.7.7), typeof and _Generic.  Expressions become the terms that CExpr   *)
(* types and evaluates; declarations become types.                         *)
(*                                                                         *)
(* A token is its spelling.  X describes the identifiers and constants:    *)
(*   X.v : spelling -> index in the environment X.en of <<object, type>>   *)
(*   X.f : spelling -> function,  X.c : spelling -> <<type, value>>        *)
(*   X.t : spelling -> type (typedef names),  X.m : spelling -> member     *)
(*   X.s : spelling -> type (struct tags)                                  *)
(* A result is [e, i, ok, un]: the term, the next token, whether the       *)
(* tokens are a phrase of the grammar, whether it is a unary-expression.   *)
(* Types are those of CTypes, and <<"fn", result, parameters, variadic>>.  *)
(***************************************************************************)
EXTENDS CExpr

Tk(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE "<eof>"
OK(e, i, un) == [e |-> e, i |-> i, ok |-> TRUE, un |-> un]
NO(i) == [e |-> <<"bad">>, i |-> i, ok |-> FALSE, un |-> FALSE]

BinOps == {"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"}
BPrec == [o \in BinOps |->
   CASE o \in {"*", "/", "%"} -> 10 [] o \in {"+", "-"} -> 9 [] o \in {"<<", ">>"} -> 8
     [] o \in {"<", ">", "<=", ">="} -> 7 [] o \in {"==", "!="} -> 6 [] o = "&" -> 5 [] o = "^" -> 4
     [] o = "|" -> 3 [] o = "&&" -> 2 [] OTHER -> 1]
OpAssign == [o \in {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="} |->
   CASE o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/" [] o = "%=" -> "%"
     [] o = "&=" -> "&" [] o = "|=" -> "|" [] o = "^=" -> "^" [] o = "<<=" -> "<<" [] OTHER -> ">>"]
SpecWords == {"void", "_Bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned"}
Quals == {"const", "volatile", "restrict"}
StorWords == {"static", "extern", "typedef", "register", "auto", "inline"}
IsTypeTok(X, s) == s \in SpecWords \cup Quals \cup {"struct", "typeof"} \/ s \in DOMAIN X.t

\* the type a multiset of specifier words names; <<>> if none (C11 6.7.2p2)
SpecType(ws) ==
  LET n(w) == Cardinality({i \in 1..Len(ws) : ws[i] = w})
      only(S) == \A i \in 1..Len(ws) : ws[i] \in S
      sg == n("signed")  us == n("unsigned")  il == n("int") <= 1 /\ sg + us <= 1
      t(a, b) == IF us = 1 THEN b ELSE a
  IN CASE ws = <<"void">> -> TVoid [] ws = <<"_Bool">> -> TBool
       [] ws = <<"float">> -> <<"f", 4>> [] ws = <<"double">> -> <<"f", 8>>
       [] n("char") = 1 /\ only({"char", "signed", "unsigned"}) /\ sg + us <= 1 -> t(TI8, TU8)
       [] n("short") = 1 /\ only({"short", "int", "signed", "unsigned"}) /\ il -> t(TI16, TU16)
       [] n("long") = 1 /\ n("double") = 1 /\ Len(ws) = 2 -> <<"f", 16>>
       [] n("long") = 1 /\ only({"long", "int", "signed", "unsigned"}) /\ il -> t(TLong, TULong)
       [] n("long") = 2 /\ only({"long", "int", "signed", "unsigned"}) /\ il -> t(<<"i",8,1,5>>, <<"i",8,0,5>>)
       [] Len(ws) > 0 /\ only({"int", "signed", "unsigned"}) /\ il -> t(TInt, TUInt)
       [] OTHER -> <<>>

\* compatible types (6.2.7, 6.7.2-6.7.6): qualifiers are not part of the types here, and toycc has
\* long long as a name of long and signed char as a name of char
Rk(t) == IF t[1] = "i" /\ t[4] = 5 THEN <<"i", 8, t[3], 4>> ELSE t
CompatF[x \in Any] ==
  LET a == Rk(x[1])  b == Rk(x[2]) IN
  CASE a[1] # b[1] -> FALSE
    [] a[1] = "p" -> CompatF[<<a[2], b[2]>>]
    [] a[1] = "a" -> CompatF[<<a[2], b[2]>>] /\ (a[3] = b[3] \/ a[3] < 0 \/ b[3] < 0)
    [] a[1] = "fn" -> /\ CompatF[<<a[2], b[2]>>] /\ a[4] = b[4] /\ Len(a[3]) = Len(b[3])
                      /\ \A i \in 1..Len(a[3]) : CompatF[<<a[3][i], b[3][i]>>]
    [] OTHER -> a = b
Compat(a, b) == CompatF[<<a, b>>]
DecayT(t) == IF t[1] = "a" THEN <<"p", t[2]>> ELSE IF t[1] = "fn" THEN <<"p", t>> ELSE t

\* the value of an assignment, ++ or , to a bit-field: whether it keeps the width is
\* not agreed on, so sizeof and _Generic of it are left out
RECURSIVE AsgBase(_)
AsgBase(e) == CASE e[1] = "=" -> AsgBase(e[2])
                [] e[1] \in {"o=", "pre", "post"} -> AsgBase(e[3])
                [] e[1] = "b" /\ e[2] = "," -> AsgBase(e[4])
                [] OTHER -> e

\* no assignment, ++, -- or call (those inside of sizeof count as well; the sequence is left out)
Pure[e \in Any] ==
  CASE e[1] \in {"n", "v", "szt", "alt"} -> TRUE
    [] e[1] \in {"u", "c"} -> Pure[e[3]]
    [] e[1] = "b" -> Pure[e[3]] /\ Pure[e[4]]
    [] e[1] = "?" -> Pure[e[2]] /\ Pure[e[3]] /\ Pure[e[4]]
    [] e[1] \in {"*", "&", ".", "->", "sz"} -> Pure[e[2]]
    [] e[1] = "[]" -> Pure[e[2]] /\ Pure[e[3]]
    [] OTHER -> FALSE

\* ------------------------------------------------ well-typed terms
\* (types and constraints of 6.5; only what the programs use)
Scalar(t) == t[1] \in {"i", "f", "p"}
Complete(t) == t[1] \in {"i", "f", "p", "s"} \/ (t[1] = "a" /\ t[3] > 0)
LvE(e) == e[1] \in {"v", "*", "[]", "->"} \/ e[1] = "."
WT[x \in Any] ==                \* x = <<p, e, en>>
  LET p == x[1]  e == x[2]  en == x[3]  k == e[1]
      w(f) == WT[<<p, f, en>>]
      T(f) == Decay(TypeOf(p, f, en))
      bf(f) == CASE f[1] = "." -> Mem(p, TypeOf(p, f[2], en), f[3]).bw >= 0
                 [] f[1] = "->" -> Mem(p, T(f[2])[2], f[3]).bw >= 0
                 [] OTHER -> FALSE
      int(f) == T(f)[1] = "i"
      ari(f) == T(f)[1] \in {"i", "f"}
      obj(f) == T(f)[1] = "p" /\ Complete(T(f)[2])
      lval(f) == LvE(f) /\ TypeOf(p, f, en)[1] # "a"
      asg(t, f) == IF t[1] \in {"i", "f"} THEN ari(f) ELSE t = T(f)
  IN CASE k = "n" -> TRUE
       [] k = "v" -> TRUE
       [] k = "u" -> w(e[3]) /\ (IF e[2] = "!" THEN Scalar(T(e[3])) ELSE IF e[2] = "~" THEN int(e[3]) ELSE ari(e[3]))
       [] k = "b" ->
           /\ w(e[3]) /\ w(e[4])
           /\ (CASE e[2] = "," -> T(e[4])[1] # "s"
                 [] e[2] \in {"&&", "||"} -> Scalar(T(e[3])) /\ Scalar(T(e[4]))
                 [] e[2] \in {"*", "/"} -> ari(e[3]) /\ ari(e[4])
                 [] e[2] \in {"%", "&", "|", "^", "<<", ">>"} -> int(e[3]) /\ int(e[4])
                 [] e[2] = "+" -> (ari(e[3]) /\ ari(e[4])) \/ (obj(e[3]) /\ int(e[4])) \/ (int(e[3]) /\ obj(e[4]))
                 [] e[2] = "-" -> (ari(e[3]) /\ ari(e[4])) \/ (obj(e[3]) /\ (int(e[4]) \/ T(e[3]) = T(e[4])))
                 [] OTHER -> (ari(e[3]) /\ ari(e[4])) \/ (obj(e[3]) /\ T(e[3]) = T(e[4])))
       [] k = "?" -> /\ w(e[2]) /\ w(e[3]) /\ w(e[4]) /\ Scalar(T(e[2]))
                     /\ ((ari(e[3]) /\ ari(e[4])) \/ (T(e[3])[1] = "p" /\ T(e[3]) = T(e[4])))
       [] k = "c" -> w(e[3]) /\ e[2][1] \in {"i", "f"} /\ ari(e[3])
       [] k = "=" -> w(e[2]) /\ w(e[3]) /\ lval(e[2]) /\ Scalar(T(e[2])) /\ asg(T(e[2]), e[3])
       [] k = "o=" -> /\ w(e[3]) /\ w(e[4]) /\ lval(e[3])
                      /\ (CASE e[2] \in {"+", "-"} -> (ari(e[3]) /\ ari(e[4])) \/ (obj(e[3]) /\ int(e[4]))
                            [] e[2] \in {"*", "/"} -> ari(e[3]) /\ ari(e[4])
                            [] OTHER -> int(e[3]) /\ int(e[4]))
       [] k \in {"pre", "post"} -> w(e[3]) /\ lval(e[3]) /\ (ari(e[3]) \/ obj(e[3]))
       [] k = "*" -> w(e[2]) /\ obj(e[2])
       [] k = "&" -> w(e[2]) /\ lval(e[2]) /\ ~bf(e[2])
       [] k = "[]" -> w(e[2]) /\ w(e[3]) /\ ((obj(e[2]) /\ int(e[3])) \/ (int(e[2]) /\ obj(e[3])))
       [] k = "." -> w(e[2]) /\ LvE(e[2]) /\ TypeOf(p, e[2], en)[1] = "s" /\ e[3] <= Len(Lay[p][TypeOf(p, e[2], en)[2]].mem)
       [] k = "->" -> w(e[2]) /\ obj(e[2]) /\ T(e[2])[2][1] = "s" /\ e[3] <= Len(Lay[p][T(e[2])[2][2]].mem)
       [] k = "sz" -> w(e[2]) /\ ~bf(AsgBase(e[2])) /\ Complete(TypeOf(p, e[2], en))
       [] k \in {"szt", "alt"} -> Complete(e[2])
       [] k = "call" -> Len(e[3]) = Len(Batch[p].funcs[e[2]].par) /\ \A i \in 1..Len(e[3]) : w(e[3][i]) /\ ari(e[3][i])
       [] OTHER -> FALSE
WellTyped(p, e, en) == WT[<<p, e, en>>]

(***************************************************************************)
(* The parser.  G[<<nonterminal, X, tokens, i, ...>>]                       *)
(***************************************************************************)
G[x \in Any] ==
  LET k == x[1]  X == x[2]  ts == x[3]  i == x[4]  s == Tk(ts, i)
      g(n, j) == G[<<n, X, ts, j>>]
  IN
  CASE k = "expr" -> (LET a == g("assign", i) IN IF a.ok THEN G[<<"comma", X, ts, a.i, a>>] ELSE a)
    [] k = "comma" ->
        (LET a == x[5] IN
         IF s # "," THEN a
         ELSE LET b == g("assign", i + 1) IN
              IF ~b.ok THEN b ELSE G[<<"comma", X, ts, b.i, OK(<<"b", ",", a.e, b.e>>, b.i, FALSE)>>])
    [] k = "assign" ->
        (LET a == g("cond", i)  o == Tk(ts, a.i) IN
         IF ~a.ok \/ ~(o = "=" \/ o \in DOMAIN OpAssign) THEN a
         ELSE IF ~a.un THEN NO(a.i)
         ELSE LET b == g("assign", a.i + 1) IN
              IF ~b.ok THEN b ELSE OK(IF o = "=" THEN <<"=", a.e, b.e>> ELSE <<"o=", OpAssign[o], a.e, b.e>>, b.i, FALSE))
    [] k = "cond" ->
        (LET a == G[<<"bin", X, ts, i, 1>>] IN
         IF ~a.ok \/ Tk(ts, a.i) # "?" THEN a
         ELSE IF Tk(ts, a.i + 1) = ":"      \* GNU a ?: b; where a has no side effects it is a ? a : b
         THEN LET c == g("cond", a.i + 2) IN
              IF ~c.ok THEN c ELSE IF ~Pure[a.e] THEN NO(a.i) ELSE OK(<<"?", a.e, a.e, c.e>>, c.i, FALSE)
         ELSE LET b == g("expr", a.i + 1) IN
              IF ~b.ok \/ Tk(ts, b.i) # ":" THEN NO(b.i)
              ELSE LET c == g("cond", b.i + 1) IN
                   IF ~c.ok THEN c ELSE OK(<<"?", a.e, b.e, c.e>>, c.i, FALSE))
    [] k = "bin" -> (LET a == g("cast", i) IN IF a.ok THEN G[<<"climb", X, ts, a.i, x[5], a>>] ELSE a)
    [] k = "climb" ->
        (LET a == x[6] IN
         IF s \notin BinOps THEN a
         ELSE IF BPrec[s] < x[5] THEN a
         ELSE LET b == G[<<"bin", X, ts, i + 1, BPrec[s] + 1>>] IN
              IF ~b.ok THEN b ELSE G[<<"climb", X, ts, b.i, x[5], OK(<<"b", s, a.e, b.e>>, b.i, FALSE)>>])
    [] k = "cast" ->
        IF s = "(" /\ IsTypeTok(X, Tk(ts, i + 1))
        THEN LET t == g("typename", i + 1) IN
             IF ~t.ok \/ Tk(ts, t.i) # ")" \/ Tk(ts, t.i + 1) = "{" THEN NO(t.i)
             ELSE LET a == g("cast", t.i + 1) IN IF a.ok THEN OK(<<"c", t.e, a.e>>, a.i, FALSE) ELSE a
        ELSE g("unary", i)
    [] k = "unary" ->
        (CASE s \in {"+", "-", "~", "!", "*", "&"} ->
               (LET a == g("cast", i + 1) IN
                IF ~a.ok THEN a ELSE OK(CASE s = "*" -> <<"*", a.e>> [] s = "&" -> <<"&", a.e>> [] OTHER -> <<"u", s, a.e>>, a.i, TRUE))
           [] s \in {"++", "--"} ->
               (LET a == g("unary", i + 1) IN IF a.ok THEN OK(<<"pre", IF s = "++" THEN "+" ELSE "-", a.e>>, a.i, TRUE) ELSE a)
           [] s = "sizeof" /\ Tk(ts, i + 1) = "(" /\ IsTypeTok(X, Tk(ts, i + 2)) ->
               (LET t == g("typename", i + 2) IN
                IF ~t.ok \/ Tk(ts, t.i) # ")" THEN NO(t.i) ELSE OK(<<"szt", t.e>>, t.i + 1, TRUE))
           [] s = "sizeof" -> (LET a == g("unary", i + 1) IN IF a.ok THEN OK(<<"sz", a.e>>, a.i, TRUE) ELSE a)
           [] s = "_Alignof" ->
               (LET t == g("typename", i + 2) IN
                IF Tk(ts, i + 1) # "(" \/ ~t.ok \/ Tk(ts, t.i) # ")" THEN NO(i) ELSE OK(<<"alt", t.e>>, t.i + 1, TRUE))
           [] OTHER -> (LET a == g("primary", i) IN IF a.ok THEN G[<<"postfix", X, ts, a.i, a>>] ELSE a))
    [] k = "postfix" ->
        (LET a == x[5]  on(e, j) == G[<<"postfix", X, ts, j, OK(e, j, TRUE)>>] IN
         CASE s = "[" -> (LET b == g("expr", i + 1) IN IF ~b.ok \/ Tk(ts, b.i) # "]" THEN NO(b.i) ELSE on(<<"[]", a.e, b.e>>, b.i + 1))
           [] s = "++" -> on(<<"post", "+", a.e>>, i + 1)
           [] s = "--" -> on(<<"post", "-", a.e>>, i + 1)
           [] s \in {".", "->"} -> IF Tk(ts, i + 1) \notin DOMAIN X.m THEN NO(i) ELSE on(<<s, a.e, X.m[Tk(ts, i + 1)]>>, i + 2)
           [] s = "(" -> IF a.e[1] # "fref" THEN NO(i)
                         ELSE LET r == G[<<"args", X, ts, i + 1, <<>>>>] IN
                              IF r.ok THEN on(<<"call", a.e[2], r.e>>, r.i) ELSE r
           [] OTHER -> IF a.e[1] = "fref" THEN NO(i) ELSE a)
    [] k = "args" ->
        IF s = ")" /\ x[5] = <<>> THEN OK(<<>>, i + 1, TRUE)
        ELSE LET a == g("assign", i) IN
             IF ~a.ok THEN a
             ELSE IF Tk(ts, a.i) = ")" THEN OK(Append(x[5], a.e), a.i + 1, TRUE)
             ELSE IF Tk(ts, a.i) = "," THEN G[<<"args", X, ts, a.i + 1, Append(x[5], a.e)>>] ELSE NO(a.i)
    [] k = "primary" ->
        (CASE s = "(" -> (LET a == g("expr", i + 1) IN IF ~a.ok \/ Tk(ts, a.i) # ")" THEN NO(a.i) ELSE OK(a.e, a.i + 1, TRUE))
           [] s \in DOMAIN X.v -> OK(<<"v", X.v[s]>>, i + 1, TRUE)
           [] s \in DOMAIN X.c -> OK(<<"n", X.c[s][1], X.c[s][2]>>, i + 1, TRUE)
           [] s \in DOMAIN X.f -> OK(<<"fref", X.f[s]>>, i + 1, TRUE)
           [] s = "__builtin_types_compatible_p" ->
               (LET a == g("typename", i + 2) IN
                IF Tk(ts, i + 1) # "(" \/ ~a.ok \/ Tk(ts, a.i) # "," THEN NO(i)
                ELSE LET b == g("typename", a.i + 1) IN
                     IF ~b.ok \/ Tk(ts, b.i) # ")" THEN NO(i)
                     ELSE OK(<<"n", TInt, B2W(Compat(a.e, b.e))>>, b.i + 1, TRUE))
           [] s = "_Generic" ->
               (LET a == g("assign", i + 2) IN
                IF Tk(ts, i + 1) # "(" \/ ~a.ok \/ Tk(ts, a.i) # "," THEN NO(i)
                ELSE IF ~WellTyped(X.p, a.e, X.en) THEN NO(i)
                ELSE LET r == G[<<"assoc", X, ts, a.i + 1, <<>>>>]  t == DecayT(TypeOf(X.p, a.e, X.en)) IN
                     IF ~r.ok THEN r
                     ELSE LET hit == {j \in 1..Len(r.e) : r.e[j][1] # <<>> /\ Compat(r.e[j][1], t)}
                              dfl == {j \in 1..Len(r.e) : r.e[j][1] = <<>>}
                              \* no two associations may name compatible types; at most one default
                              clash == Cardinality(dfl) > 1 \/ \E j, l \in 1..Len(r.e) : j < l /\ r.e[j][1] # <<>> /\ r.e[l][1] # <<>> /\ Compat(r.e[j][1], r.e[l][1])
                          IN IF clash \/ (hit = {} /\ dfl = {}) THEN NO(i)
                             ELSE OK(r.e[CHOOSE j \in (IF hit # {} THEN hit ELSE dfl) : TRUE][2], r.i, TRUE))
           [] OTHER -> NO(i))
    [] k = "assoc" ->
        (LET t == IF s = "default" THEN OK(<<>>, i + 1, FALSE) ELSE g("typename", i) IN
         IF ~t.ok \/ Tk(ts, t.i) # ":" THEN NO(t.i)
         ELSE IF t.e # <<>> /\ ~Complete(t.e) THEN NO(t.i)
         ELSE LET a == g("assign", t.i + 1) IN
              IF ~a.ok THEN a
              ELSE IF ~WellTyped(X.p, a.e, X.en) THEN NO(a.i)
              ELSE LET l == Append(x[5], <<t.e, a.e>>) IN
                   IF Tk(ts, a.i) = ")" THEN OK(l, a.i + 1, FALSE)
                   ELSE IF Tk(ts, a.i) = "," THEN G[<<"assoc", X, ts, a.i + 1, l>>] ELSE NO(a.i))
    \* ------------------------------------------------------- specifiers
    \* "specs": x[5] = [ws |-> basic words, t |-> type from a typedef name, struct or typeof (<<>>), st |-> storage words]
    [] k = "specs" ->
        (LET a == x[5]  done == OK(a, i, FALSE)
             typ(t, j) == IF a.ws # <<>> \/ a.t # <<>> THEN NO(i) ELSE G[<<"specs", X, ts, j, [a EXCEPT !.t = t]>>] IN
         CASE s \in Quals -> G[<<"specs", X, ts, i + 1, a>>]
           [] s \in StorWords -> G[<<"specs", X, ts, i + 1, [a EXCEPT !.st = Append(@, s)]>>]
           [] s \in SpecWords -> IF a.t # <<>> THEN NO(i) ELSE G[<<"specs", X, ts, i + 1, [a EXCEPT !.ws = Append(@, s)]>>]
           [] s = "struct" -> IF Tk(ts, i + 1) \in DOMAIN X.s THEN typ(X.s[Tk(ts, i + 1)], i + 2) ELSE NO(i)
           [] s = "typeof" ->
               (IF Tk(ts, i + 1) # "(" THEN NO(i)
                ELSE IF IsTypeTok(X, Tk(ts, i + 2))
                THEN LET t == g("typename", i + 2) IN IF ~t.ok \/ Tk(ts, t.i) # ")" THEN NO(i) ELSE typ(t.e, t.i + 1)
                ELSE LET e == g("expr", i + 2) IN
                     IF ~e.ok \/ Tk(ts, e.i) # ")" THEN NO(i)
                     ELSE IF ~WellTyped(X.p, e.e, X.en) THEN NO(i)
                     ELSE typ(TypeOf(X.p, e.e, X.en), e.i + 1))
           \* an identifier is a typedef name only where no other type specifier came before
           [] s \in DOMAIN X.t /\ a.ws = <<>> /\ a.t = <<>> -> typ(X.t[s], i + 1)
           [] OTHER -> done)
    [] k = "declspec" ->
        (LET r == G[<<"specs", X, ts, i, [ws |-> <<>>, t |-> <<>>, st |-> <<>>]>>] IN
         IF ~r.ok THEN r
         ELSE LET t == IF r.e.t # <<>> THEN r.e.t ELSE SpecType(r.e.ws) IN
              IF t = <<>> THEN NO(i) ELSE OK(<<t, r.e.st>>, r.i, FALSE))
    [] k = "typename" ->
        (LET r == g("declspec", i) IN
         IF ~r.ok \/ r.e[2] # <<>> THEN NO(i)
         ELSE LET d == G[<<"dcl", X, ts, r.i, "abstract">>] IN
              IF ~d.ok THEN d ELSE LET t == G[<<"apply", d.e.ds, r.e[1], Len(d.e.ds)>>] IN IF t = <<>> THEN NO(i) ELSE OK(t, d.i, FALSE))
    \* ------------------------------------------------------- declarators
    \* "dcl": x[5] = "abstract" / "named" / "param" (either); the result is [nm, ds], ds = the derivations from the name outwards
    [] k = "dcl" ->
        IF s = "*" THEN (LET q == G[<<"quals", X, ts, i + 1>>]  d == G[<<"dcl", X, ts, q, x[5]>>] IN
                         IF d.ok THEN OK([d.e EXCEPT !.ds = Append(@, <<"p">>)], d.i, FALSE) ELSE d)
        ELSE LET paren == s = "(" /\ ~(x[5] # "named" /\ (Tk(ts, i + 1) = ")" \/ IsTypeTok(X, Tk(ts, i + 1))))
                 d == IF paren THEN (LET r == G[<<"dcl", X, ts, i + 1, x[5]>>] IN
                                     IF ~r.ok \/ Tk(ts, r.i) # ")" THEN NO(i) ELSE OK(r.e, r.i + 1, FALSE))
                      ELSE IF s \in X.names /\ x[5] # "abstract" THEN OK([nm |-> s, ds |-> <<>>], i + 1, FALSE)
                      ELSE IF x[5] = "named" THEN NO(i) ELSE OK([nm |-> "", ds |-> <<>>], i, FALSE)
             IN IF d.ok THEN G[<<"suffix", X, ts, d.i, d>>] ELSE d
    [] k = "quals" -> IF s \in Quals THEN g("quals", i + 1) ELSE i
    [] k = "suffix" ->
        (LET d == x[5]  on(y, j) == G[<<"suffix", X, ts, j, OK([d.e EXCEPT !.ds = Append(@, y)], j, FALSE)>>] IN
         CASE s = "[" /\ Tk(ts, i + 1) = "]" -> on(<<"a", -1>>, i + 2)
           [] s = "[" ->
               (LET n == g("cond", i + 1) IN
                IF ~n.ok \/ Tk(ts, n.i) # "]" THEN NO(i)
                ELSE IF ~WellTyped(X.p, n.e, X.en) THEN NO(i)
                ELSE LET v == Eval(X.p, n.e, X.en, <<>>) IN
                     IF v.ub # "" \/ v.t[1] # "i" \/ ~Small(v.v) THEN NO(i)
                     ELSE IF ToNat(v.v) = 0 \/ ToNat(v.v) > 1000 THEN NO(i) ELSE on(<<"a", ToNat(v.v)>>, n.i + 1))
           [] s = "(" /\ Tk(ts, i + 1) = ")" -> on(<<"fn", <<>>, 0>>, i + 2)
           [] s = "(" /\ Tk(ts, i + 1) = "void" /\ Tk(ts, i + 2) = ")" -> on(<<"fn", <<>>, 0>>, i + 3)
           [] s = "(" -> (LET r == G[<<"params", X, ts, i + 1, <<>>>>] IN IF r.ok THEN on(<<"fn", r.e[1], r.e[2]>>, r.i) ELSE r)
           [] OTHER -> d)
    [] k = "params" ->
        IF s = "..." /\ x[5] # <<>> /\ Tk(ts, i + 1) = ")" THEN OK(<<x[5], 1>>, i + 2, FALSE)
        ELSE LET r == g("declspec", i) IN
             IF ~r.ok \/ (r.e[2] # <<>> /\ r.e[2] # <<"register">>) THEN NO(i)
             ELSE LET d == G[<<"dcl", X, ts, r.i, "param">>] IN
                  IF ~d.ok THEN d
                  ELSE LET t == G[<<"apply", d.e.ds, r.e[1], Len(d.e.ds)>>] IN
                       IF t = <<>> \/ t = TVoid THEN NO(i)
                       \* 6.7.6.3p7-8: arrays and functions are adjusted to pointers
                       ELSE LET ps == Append(x[5], DecayT(t)) IN
                            IF Tk(ts, d.i) = ")" THEN OK(<<ps, 0>>, d.i + 1, FALSE)
                            ELSE IF Tk(ts, d.i) = "," THEN G[<<"params", X, ts, d.i + 1, ps>>] ELSE NO(d.i)
    \* the type: the last derivation applies to the specified type first; <<>> if C has no such type
    [] k = "apply" ->
        (LET ds == x[2]  t == x[3]  n == x[4] IN
         IF n = 0 \/ t = <<>> THEN t
         ELSE G[<<"apply", ds,
                  (CASE ds[n][1] = "p" -> <<"p", t>>
                     [] ds[n][1] = "a" -> IF t[1] \in {"fn", "v"} \/ (t[1] = "a" /\ t[3] < 0) THEN <<>> ELSE <<"a", t, ds[n][2]>>
                     [] OTHER -> IF t[1] \in {"fn", "a"} THEN <<>> ELSE <<"fn", t, ds[n][2], ds[n][3]>>), n - 1>>])
    [] k = "declarators" ->     \* the comma-separated declarators of a declaration: x[5] = type, x[6] = so far
        (LET d == G[<<"dcl", X, ts, i, "named">>] IN
         IF ~d.ok THEN d
         ELSE LET t == G[<<"apply", d.e.ds, x[5], Len(d.e.ds)>>]  l == Append(x[6], <<d.e.nm, t>>) IN
              IF t = <<>> THEN NO(i)
              ELSE IF Tk(ts, d.i) = "," THEN G[<<"declarators", X, ts, d.i + 1, x[5], l>>]
              ELSE OK(l, d.i, FALSE))

ParseExpr(X, ts) == LET r == G[<<"expr", X, ts, 1>>] IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE NO(r.i)
\* a declaration without its semicolon: <<storage words, <<name, type>>s>>
ParseDecl(X, ts) ==
  LET r == G[<<"declspec", X, ts, 1>>] IN
  IF ~r.ok THEN r
  ELSE LET d == G[<<"declarators", X, ts, r.i, r.e[1], <<>>>>] IN
       IF d.ok /\ d.i = Len(ts) + 1 THEN OK(<<r.e[2], d.e>>, d.i, FALSE) ELSE NO(d.i)
=============================================================================
