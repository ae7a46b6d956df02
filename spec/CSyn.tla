-------------------------------- MODULE CSyn --------------------------------
(***************************************************************************)
(* Syntax and constraints of C as a parser: a token sequence is accepted,  *)
(* or rejected with the tokens a diagnostic may name.                      *)
(*                                                                         *)
(* The parser state S goes through the token sequence S.t of               *)
(* <<kind, text, places>> from left to right.  A syntax error stops it:    *)
(* S.bad is the first token no valid program continues with.  A violated   *)
(* constraint that toycc documents as an error adds <<lo, hi, what>> to    *)
(* S.errs (the range of the offending construct).  Violations that toycc   *)
(* does not promise to diagnose go to S.open; a program that has only      *)
(* these is not judged.  S.stop means: outside the modelled language.      *)
(*                                                                         *)
(* Types: <<"v">> void, <<"i", k>> any integer type, <<"f">> any floating  *)
(* type, <<"p", T>>, <<"a", T, n>> (n = -1 unknown, -2 variable, -3        *)
(* constant not tracked), <<"s", k>> the k-th struct or union, <<"fn", R,  *)
(* params, kind>> with kind "" / "..." / "()", <<"?">> after an error.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

SV == <<"v">>
SI == <<"i", "n">>
SC == <<"i", "c">>       \* a character type
SF == <<"f">>
SQ == <<"?">>
SPtr(t) == <<"p", t>>
NoVal == -9999999        \* a constant whose value is not tracked
Lim == 1000000
Big(v) == v > Lim \/ v < -Lim

DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE n \in 0..9 : ToString(n) = c]
At(s, i) == SubSeq(s, i, i)
IsFlt(s) == \E i \in 1..Len(s) : At(s, i) = "."
DecVal(s) == IF Len(s) > 5 \/ (Len(s) > 1 /\ At(s, 1) = "0") \/ \E i \in 1..Len(s) : At(s, i) \notin DOMAIN DigitVal THEN NoVal
             ELSE FoldLeft(LAMBDA a, i : a * 10 + DigitVal[At(s, i)], 0, [i \in 1..Len(s) |-> i])

Keywords == {"void", "_Bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "struct", "union", "enum",
             "typedef", "static", "extern", "inline", "const", "volatile", "register", "auto", "restrict",
             "if", "else", "while", "do", "for", "switch", "case", "default", "break", "continue", "return", "goto", "sizeof",
             "typeof", "_Alignas", "_Alignof", "_Generic", "_Atomic", "_Thread_local", "__thread", "_Noreturn", "asm", "__attribute__"}
Basic == {"void", "_Bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned"}
Storage == {"typedef", "static", "extern", "inline"}
Quals == {"const", "volatile", "register", "auto", "restrict"}
NotModelled == {"typeof", "_Alignas", "_Alignof", "_Generic", "_Atomic", "_Thread_local", "__thread", "_Noreturn", "asm", "__attribute__"}

\* --------------------------------------------------------- parser state
TxtAt(S, j) == IF j > Len(S.t) THEN "<eof>" ELSE S.t[j][2]
Txt(S) == TxtAt(S, S.i)
KindAt(S, j) == IF j > Len(S.t) THEN "eof" ELSE S.t[j][1]
IsIdentAt(S, j) == KindAt(S, j) = "i" /\ TxtAt(S, j) \notin Keywords
IsIdent(S) == IsIdentAt(S, S.i)
Go(S) == [S EXCEPT !.i = @ + 1]
Bad(S) == IF S.bad # 0 THEN S ELSE [S EXCEPT !.bad = S.i]
Stop(S) == [S EXCEPT !.bad = IF @ # 0 THEN @ ELSE S.i, !.stop = TRUE]
Skip(S, s) == IF S.bad # 0 THEN S ELSE IF Txt(S) = s THEN Go(S) ELSE Bad(S)
Err(S, lo, hi, why) == IF S.bad # 0 THEN S ELSE [S EXCEPT !.errs = @ \cup {<<lo, hi, why>>}]
Opn(S, lo, hi) == IF S.bad # 0 THEN S ELSE [S EXCEPT !.open = @ \cup {<<lo, hi>>}]
ErrIf(S, c, lo, hi, why) == IF c THEN Err(S, lo, hi, why) ELSE S
OpnIf(S, c, lo, hi) == IF c THEN Opn(S, lo, hi) ELSE S
Bind(S, n, d) == [S EXCEPT !.vars = [x \in DOMAIN @ \cup {n} |-> IF x = n THEN d ELSE @[x]], !.here = @ \cup {n}]
TypedefAt(S, j) == IsIdentAt(S, j) /\ TxtAt(S, j) \in DOMAIN S.vars /\ S.vars[TxtAt(S, j)][1] = "typedef"
IsTypeAt(S, j) == (KindAt(S, j) = "i" /\ TxtAt(S, j) \in Basic \cup Storage \cup Quals \cup {"struct", "union", "enum", "typeof", "_Alignas", "_Atomic", "_Thread_local", "__thread", "_Noreturn"})
                  \/ TypedefAt(S, j)

\* -------------------------------------------------------------- types
IsArith(t) == t[1] \in {"i", "f"}
IsScalar(t) == t[1] \in {"i", "f", "p"}
Unk(t) == t[1] = "?"
Decay(t) == IF t[1] = "a" THEN SPtr(t[2]) ELSE IF t[1] = "fn" THEN SPtr(t) ELSE t
Incomplete(S, t) == CASE t[1] = "v" -> TRUE
                      [] t[1] = "a" -> t[3] = -1
                      [] t[1] = "s" -> ~S.st[t[2]].done
                      [] OTHER -> FALSE
Compat(a, b) == a = b \/ Unk(a) \/ Unk(b)
Hole == <<"hole">>
RECURSIVE Fill(_, _)
Fill(t, x) == CASE t[1] = "hole" -> x
                [] t[1] = "p" -> SPtr(Fill(t[2], x))
                [] t[1] = "a" -> <<"a", Fill(t[2], x), t[3]>>
                [] t[1] = "fn" -> <<"fn", Fill(t[2], x), t[3], t[4]>>
                [] OTHER -> t
\* the value of expression e may initialise, be assigned to, or be passed as a t
Assignable(t, e) ==
  LET r == Decay(e.ty) IN
  \/ Unk(t) \/ Unk(r)
  \/ IsArith(t) /\ IsArith(r)
  \/ t = r /\ t[1] \in {"p", "s"}
  \/ t[1] = "p" /\ r[1] = "p" /\ (t[2][1] = "v" \/ r[2][1] = "v") /\ t[2][1] # "fn" /\ r[2][1] # "fn"
  \/ t[1] = "p" /\ e.c = "i" /\ e.v = 0

\* ----------------------------------------------------- expression records
\* lv: "y" lvalue, "n" not, "o" accepted or not; c: "i" integer constant expression, "x" arithmetic
\* constant, "a" address constant, "n" needs the run time, "o" either;
\* st: "y" designates an object of static storage duration, "n" not, "o" either
Ex(ty, lv, c, v, lo) == [ty |-> ty, lv |-> lv, c |-> c, v |-> v, lo |-> lo, bf |-> FALSE, st |-> "n"]
CStat(s) == CASE s = "y" -> "a" [] s = "n" -> "n" [] OTHER -> "o"
LvAt(ty, lv, st, lo) == [Ex(ty, lv, IF ty[1] = "a" THEN CStat(st) ELSE IF ty[1] = "fn" THEN "o" ELSE "n", NoVal, lo) EXCEPT !.st = st]
StOf(c) == CASE c = "a" -> "y" [] c = "n" -> "n" [] OTHER -> "o"
E0 == Ex(SQ, "o", "o", NoVal, 0)
RE(S, e) == [S EXCEPT !.e = e]
ConstJoin(a, b) == IF a.c = "i" /\ b.c = "i" THEN "i"
                   ELSE IF a.c = "n" \/ b.c = "n" THEN "n"
                   ELSE IF a.c \in {"i", "x"} /\ b.c \in {"i", "x"} THEN "x" ELSE "o"
Val2(op, a, b) ==
  IF a.c # "i" \/ b.c # "i" \/ a.v = NoVal \/ b.v = NoVal THEN NoVal
  ELSE LET x == a.v  y == b.v
           r == CASE op = "+" -> x + y [] op = "-" -> x - y
                  [] op = "*" -> IF x > 1000 \/ x < -1000 \/ y > 1000 \/ y < -1000 THEN NoVal ELSE x * y
                  [] op = "<" -> IF x < y THEN 1 ELSE 0 [] op = ">" -> IF x > y THEN 1 ELSE 0
                  [] op = "<=" -> IF x <= y THEN 1 ELSE 0 [] op = ">=" -> IF x >= y THEN 1 ELSE 0
                  [] op = "==" -> IF x = y THEN 1 ELSE 0 [] op = "!=" -> IF x # y THEN 1 ELSE 0
                  [] op = "&&" -> IF x # 0 /\ y # 0 THEN 1 ELSE 0 [] op = "||" -> IF x # 0 \/ y # 0 THEN 1 ELSE 0
                  [] op = "/" -> IF x >= 0 /\ y > 0 THEN x \div y ELSE NoVal
                  [] op = "%" -> IF x >= 0 /\ y > 0 THEN x % y ELSE NoVal
                  [] OTHER -> NoVal
       IN IF Big(r) THEN NoVal ELSE r

RECURSIVE P(_)           \* P(<<nonterminal, state, ...>>) gives the state after it
Expr(S) == P(<<"expr", S>>)
Assign(S) == P(<<"assign", S>>)
CondE(S) == P(<<"cond", S>>)
Cast(S) == P(<<"cast", S>>)
Unary(S) == P(<<"unary", S>>)
Stmt(S) == P(<<"stmt", S>>)
Block(S) == P(<<"block", S>>)
DeclSpec(S, ctx) == P(<<"spec", S, ctx>>)
Declarator(S, ty) == P(<<"dcl", S, ty>>)
InitFor(S, ty, stat) == P(<<"init", S, ty, stat>>)

\* ------------------------------------------------------------ operators
BinPrec == [o \in {"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"} |->
             CASE o \in {"*", "/", "%"} -> 10 [] o \in {"+", "-"} -> 9 [] o \in {"<<", ">>"} -> 8
               [] o \in {"<", ">", "<=", ">="} -> 7 [] o \in {"==", "!="} -> 6 [] o = "&" -> 5 [] o = "^" -> 4
               [] o = "|" -> 3 [] o = "&&" -> 2 [] OTHER -> 1]
AssignOps == {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
OpOf == [o \in AssignOps |-> CASE o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/" [] o = "%=" -> "%"
                               [] o = "&=" -> "&" [] o = "|=" -> "|" [] o = "^=" -> "^" [] o = "<<=" -> "<<" [] o = ">>=" -> ">>" [] OTHER -> "="]
\* the state after a op b, b just parsed; j = index of op
BinE(S, op, a, b, j) ==
  LET x == Decay(a.ty)  y == Decay(b.ty)  hi == S.i - 1
      q == Unk(x) \/ Unk(y)
      cj == ConstJoin(a, b)
      arith == IF x[1] = "f" \/ y[1] = "f" THEN SF ELSE SI
      res(ty, c, v) == Ex(ty, "n", IF ty[1] = "f" /\ c = "i" THEN "x" ELSE c, v, a.lo)
      addr(p, n) == IF p.c = "a" /\ n.c = "i" THEN "a" ELSE IF p.c = "n" \/ n.c = "n" THEN "n" ELSE "o"
      void1(p) == OpnIf(S, p[2][1] = "v" \/ p[2][1] = "fn" \/ Incomplete(S, p[2]), a.lo, hi)
  IN
  IF S.bad # 0 THEN S
  ELSE CASE q -> RE(S, Ex(IF op \in {"<", ">", "<=", ">=", "==", "!=", "&&", "||"} THEN SI ELSE SQ, "n", "o", NoVal, a.lo))
    [] op = "+" ->
        (IF IsArith(x) /\ IsArith(y) THEN RE(S, res(arith, cj, Val2("+", a, b)))
         ELSE IF x[1] = "p" /\ y[1] = "i" THEN RE(void1(x), res(x, addr(a, b), NoVal))
         ELSE IF y[1] = "p" /\ x[1] = "i" THEN RE(void1(y), res(y, addr(b, a), NoVal))
         ELSE IF (x[1] = "p" /\ y[1] = "f") \/ (x[1] = "f" /\ y[1] = "p") THEN RE(Opn(S, a.lo, hi), res(SQ, "o", NoVal))
         ELSE RE(Err(S, a.lo, hi, "operands of +"), res(SQ, "o", NoVal)))
    [] op = "-" ->
        (IF IsArith(x) /\ IsArith(y) THEN RE(S, res(arith, cj, Val2("-", a, b)))
         ELSE IF x[1] = "p" /\ y[1] = "i" THEN RE(void1(x), res(x, addr(a, b), NoVal))
         ELSE IF x[1] = "p" /\ y[1] = "p" THEN RE(OpnIf(void1(x), ~Compat(x, y), a.lo, hi), res(SI, IF cj = "n" THEN "n" ELSE "o", NoVal))
         ELSE IF x[1] = "p" /\ y[1] = "f" THEN RE(Opn(S, a.lo, hi), res(SQ, "o", NoVal))
         ELSE IF x[1] = "f" /\ y[1] = "p" THEN RE(Opn(S, a.lo, hi), res(SQ, "o", NoVal))
         ELSE RE(Err(S, a.lo, hi, "operands of -"), res(SQ, "o", NoVal)))
    [] op \in {"*", "/", "%", "&", "|", "^", "<<", ">>"} ->
        (IF IsArith(x) /\ IsArith(y) /\ (op \in {"*", "/"} \/ (x[1] = "i" /\ y[1] = "i"))
         THEN RE(IF op \in {"/", "%"} /\ b.c = "i" /\ b.v = 0 /\ a.c = "i" THEN [S EXCEPT !.div = @ \cup {<<a.lo, hi>>}] ELSE S,
                 res(arith, cj, Val2(op, a, b)))
         ELSE RE(Opn(S, a.lo, hi), res(SQ, "o", NoVal)))
    [] op \in {"&&", "||"} ->
        RE(OpnIf(S, ~(IsScalar(x) /\ IsScalar(y)), a.lo, hi),
           res(SI, IF cj \in {"i", "x"} THEN (IF a.c = "i" /\ b.c = "i" THEN "i" ELSE "x") ELSE IF a.c = "n" THEN "n" ELSE "o", Val2(op, a, b)))
    [] OTHER ->          \* comparisons
        RE(OpnIf(S, ~((IsArith(x) /\ IsArith(y)) \/ (x[1] = "p" /\ (x = y \/ (y[1] = "p" /\ (x[2][1] = "v" \/ y[2][1] = "v")) \/ (b.c = "i" /\ b.v = 0)))
                      \/ (y[1] = "p" /\ a.c = "i" /\ a.v = 0)), a.lo, hi),
           res(SI, IF cj \in {"i", "x"} THEN (IF a.c = "i" /\ b.c = "i" THEN "i" ELSE "x") ELSE IF cj = "n" THEN "n" ELSE "o", Val2(op, a, b)))

\* struct values are objects to toycc
ValLv(t) == IF IsScalar(t) THEN "n" ELSE "o"
\* operands are only checked to be lvalues where they are evaluated
LvErr(S, lo, hi, why) == IF S.une \/ S.lvl = 0 THEN Opn(S, lo, hi) ELSE Err(S, lo, hi, why)
\* operand of ++, --, compound or simple assignment must be a modifiable lvalue
NeedLv(S, e, hi) ==
  IF Unk(e.ty) THEN S
  ELSE IF e.ty[1] = "a" THEN (IF e.lv = "y" THEN [S EXCEPT !.open = @ \cup {<<e.lo, hi>>}] ELSE Opn(S, e.lo, hi))
  ELSE IF e.lv = "n" THEN LvErr(S, e.lo, hi, "not an lvalue")
  ELSE OpnIf(S, e.lv = "o", e.lo, hi)

AssignE(S, op, a, b, j) ==
  IF S.bad # 0 THEN S
  ELSE LET hi == S.i - 1
           out(T) == RE(T, Ex(a.ty, ValLv(a.ty), "n", NoVal, a.lo))
       IN IF op = "="
          THEN LET S1 == IF a.ty[1] = "a" THEN Err(S, a.lo, hi, "assignment to an array") ELSE NeedLv(S, a, j - 1)
               IN out(OpnIf(S1, ~Assignable(a.ty, b), a.lo, hi))
          ELSE LET S1 == NeedLv(S, a, j - 1)
                   S2 == BinE(S1, OpOf[op], a, b, j)
               IN out(OpnIf([S2 EXCEPT !.div = S1.div], ~Assignable(a.ty, S2.e), a.lo, hi))

BinLoop(S, min) == P(<<"bin", S, min>>)
PBin(S0, min) ==         \* S0.e = the left operand
  IF S0.bad # 0 THEN S0
  ELSE LET op == Txt(S0) IN
       IF KindAt(S0, S0.i) = "p" /\ op \in DOMAIN BinPrec /\ BinPrec[op] >= min
       THEN LET S1 == Cast(Go(S0))
                S2 == BinLoop(S1, BinPrec[op] + 1)
            IN BinLoop(BinE(S2, op, S0.e, S2.e, S0.i), min)
       ELSE S0
PCond(S) ==
  LET S1 == BinLoop(Cast(S), 1) IN
  IF S1.bad # 0 \/ Txt(S1) # "?" THEN S1
  ELSE LET c == S1.e
           S2 == IF TxtAt(S1, S1.i + 1) = ":" THEN Stop(S1) ELSE Expr(Go(S1))
           S3 == CondE(Skip(S2, ":"))
           a == S2.e  b == S3.e  x == Decay(a.ty)  y == Decay(b.ty)
           hi == S3.i - 1
           S4 == OpnIf(S3, ~IsScalar(Decay(c.ty)) /\ ~Unk(c.ty), c.lo, hi)
           ty == IF Unk(x) \/ Unk(y) THEN SQ
                 ELSE IF IsArith(x) /\ IsArith(y) THEN (IF x[1] = "f" \/ y[1] = "f" THEN SF ELSE SI)
                 ELSE IF x = y THEN x
                 ELSE IF x[1] = "p" /\ b.c = "i" /\ b.v = 0 THEN x
                 ELSE IF y[1] = "p" /\ a.c = "i" /\ a.v = 0 THEN y
                 ELSE IF x[1] = "p" /\ y[1] = "p" /\ x[2] = SV THEN x
                 ELSE IF x[1] = "p" /\ y[1] = "p" /\ y[2] = SV THEN y
                 ELSE <<"!">>
       IN IF S3.bad # 0 THEN S3
          ELSE RE(OpnIf(S4, ty[1] = "!", c.lo, hi),
                  Ex(IF ty[1] = "!" THEN SQ ELSE ty, ValLv(ty),
                     IF c.c = "i" /\ a.c = "i" /\ b.c = "i" THEN "i" ELSE IF c.c = "n" THEN "n" ELSE "o",
                     IF c.c = "i" /\ c.v # NoVal /\ a.c = "i" /\ b.c = "i" THEN (IF c.v # 0 THEN a.v ELSE b.v) ELSE NoVal, c.lo))
PAssign(S) ==
  LET S1 == CondE(S) IN
  IF S1.bad # 0 \/ KindAt(S1, S1.i) # "p" \/ Txt(S1) \notin AssignOps THEN S1
  ELSE LET S2 == Assign(Go(S1)) IN AssignE(S2, Txt(S1), S1.e, S2.e, S1.i)
PExpr(S) ==
  LET S1 == Assign(S) IN
  IF S1.bad # 0 \/ Txt(S1) # "," THEN S1
  ELSE LET S2 == Expr(Go(S1)) IN
       IF S2.bad # 0 THEN S2 ELSE RE(S2, Ex(S2.e.ty, "o", IF S2.e.c = "n" THEN "n" ELSE "o", NoVal, S1.e.lo))

\* a type name in parentheses: S.i after "("; afterwards S.d is the type
TypeName(S) ==
  LET S1 == DeclSpec(S, "type")
      S2 == Declarator(S1, S1.d)
  IN IF S2.bad # 0 THEN S2
     ELSE IF S2.nm # "" THEN [S2 EXCEPT !.bad = S2.nmi] ELSE S2
PCast(S) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "(" /\ IsTypeAt(S, S.i + 1)
  THEN LET S1 == Skip(TypeName(Go(S)), ")") IN
       IF S1.bad # 0 THEN S1
       ELSE IF Txt(S1) = "{" THEN Stop(S1)
       ELSE LET S2 == Cast(S1)  t == S1.d  r == Decay(S2.e.ty)  hi == S2.i - 1 IN
            IF S2.bad # 0 THEN S2
            ELSE RE(OpnIf(S2, ~(t = SV \/ Unk(r) \/ (IsScalar(t) /\ IsScalar(r) /\ ~(t[1] = "p" /\ r[1] = "f") /\ ~(t[1] = "f" /\ r[1] = "p"))), S.i, hi),
                    Ex(IF t[1] \in {"a", "fn"} THEN SQ ELSE t, "n",
                       CASE S2.e.c = "n" -> "n"
                         [] t = SI /\ S2.e.c = "i" -> "i"
                         [] t[1] \in {"i", "f"} /\ S2.e.c \in {"i", "x"} -> "x"
                         [] t[1] = "p" /\ S2.e.c = "a" -> "a"
                         [] OTHER -> "o",
                       IF t = SI /\ S2.e.c = "i" /\ S2.e.v \in 0..100 THEN S2.e.v ELSE NoVal, S.i))
  ELSE Unary(S)
PUnary(S) ==
  LET op == Txt(S)  pn == KindAt(S, S.i) = "p" IN
  IF S.bad # 0 THEN S
  ELSE IF pn /\ op \in {"+", "-", "!", "~"}
  THEN LET S1 == Cast(Go(S))  x == Decay(S1.e.ty)  e == S1.e IN
       IF S1.bad # 0 THEN S1
       ELSE RE(OpnIf(S1, ~(Unk(x) \/ (CASE op = "!" -> IsScalar(x) [] op = "~" -> x[1] = "i" [] OTHER -> IsArith(x))), S.i, S1.i - 1),
               Ex(IF op = "!" THEN SI ELSE IF Unk(x) \/ ~IsArith(x) THEN SQ ELSE x, "n", IF e.c = "a" THEN "o" ELSE e.c,
                  IF e.c # "i" \/ e.v = NoVal THEN NoVal
                  ELSE CASE op = "+" -> e.v [] op = "-" -> 0 - e.v [] op = "!" -> (IF e.v = 0 THEN 1 ELSE 0) [] OTHER -> 0 - e.v - 1, S.i))
  ELSE IF pn /\ op = "&"
  THEN LET S1 == Cast(Go(S))  e == S1.e  hi == S1.i - 1 IN
       IF S1.bad # 0 THEN S1
       ELSE IF Unk(e.ty) THEN RE(S1, Ex(SQ, "n", "o", NoVal, S.i))
       ELSE IF e.bf THEN RE(Err(S1, S.i, hi, "address of a bit-field"), Ex(SQ, "n", "o", NoVal, S.i))
       ELSE IF e.ty[1] = "a" THEN RE(OpnIf(S1, e.lv # "y", S.i, hi), Ex(SQ, "n", CStat(e.st), NoVal, S.i))
       ELSE IF e.lv = "n" THEN RE(LvErr(S1, S.i, hi, "address of a value"), Ex(SQ, "n", "o", NoVal, S.i))
       ELSE IF e.ty[1] = "fn" THEN RE(S1, Ex(SPtr(e.ty), "n", e.c, NoVal, S.i))
       ELSE RE(OpnIf(S1, e.lv = "o" \/ Incomplete(S1, e.ty), S.i, hi), Ex(SPtr(e.ty), "n", CStat(e.st), NoVal, S.i))
  ELSE IF pn /\ op = "*"
  THEN LET S1 == Cast(Go(S))  x == Decay(S1.e.ty)  hi == S1.i - 1 IN
       IF S1.bad # 0 THEN S1
       ELSE IF Unk(x) THEN RE(S1, Ex(SQ, "o", "o", NoVal, S.i))
       ELSE IF x[1] # "p" THEN RE(Err(S1, S.i, hi, "dereference of a non-pointer"), Ex(SQ, "o", "o", NoVal, S.i))
       ELSE IF x[2] = SV THEN RE(Err(S1, S.i, hi, "dereference of void *"), Ex(SQ, "o", "o", NoVal, S.i))
       ELSE RE(OpnIf(S1, Incomplete(S1, x[2]), S.i, hi), LvAt(x[2], IF x[2][1] = "fn" THEN "o" ELSE "y", StOf(S1.e.c), S.i))
  ELSE IF pn /\ op \in {"++", "--"}
  THEN LET S1 == Unary(Go(S))  x == S1.e.ty  hi == S1.i - 1 IN
       IF S1.bad # 0 THEN S1
       ELSE RE(IF x[1] = "s" \/ x = SV THEN Err(S1, S.i, hi, "operand of ++") ELSE NeedLv(S1, S1.e, hi), Ex(x, ValLv(x), "n", NoVal, S.i))
  ELSE IF op = "sizeof" /\ KindAt(S, S.i) = "i"
  THEN IF TxtAt(S, S.i + 1) = "(" /\ IsTypeAt(S, S.i + 2)
       THEN LET S1 == Skip(TypeName(Go(Go(S))), ")") IN
            IF S1.bad # 0 THEN S1
            ELSE IF Txt(S1) = "{" THEN Stop(S1)
            ELSE RE(OpnIf(S1, Incomplete(S1, S1.d) \/ S1.d[1] = "fn" \/ Txt(S1) \in {"(", "[", ".", "->", "++", "--"}, S.i, S1.i - 1), Ex(SI, "n", IF S1.d[1] = "a" /\ S1.d[3] = -2 THEN "o" ELSE "i", NoVal, S.i))
       ELSE LET S1 == [Unary([Go(S) EXCEPT !.une = TRUE]) EXCEPT !.une = S.une] IN
            IF S1.bad # 0 THEN S1
            ELSE RE(OpnIf(S1, ~Unk(S1.e.ty) /\ (Incomplete(S1, S1.e.ty) \/ S1.e.ty[1] = "fn" \/ S1.e.bf), S.i, S1.i - 1),
                    Ex(SI, "n", IF Unk(S1.e.ty) \/ (S1.e.ty[1] = "a" /\ S1.e.ty[3] = -2) THEN "o" ELSE "i", NoVal, S.i))
  ELSE IF pn /\ op = "&&" THEN Stop(S)          \* address of a label
  ELSE P(<<"post", P(<<"prim", S>>)>>)

RECURSIVE PPrim(_)
PPrim(S) ==
  LET k == KindAt(S, S.i)  x == Txt(S) IN
  IF S.bad # 0 THEN S
  ELSE IF x = "(" /\ k = "p"
  THEN IF TxtAt(S, S.i + 1) = "{" THEN Stop(S)
       ELSE LET S1 == Skip(Expr(Go(S)), ")") IN
            IF S1.bad # 0 THEN S1 ELSE RE(S1, [S1.e EXCEPT !.lo = S.i])
  ELSE IF k = "n" THEN RE(Go(S), IF IsFlt(x) THEN Ex(SF, "n", "x", NoVal, S.i) ELSE Ex(SI, "n", "i", DecVal(x), S.i))
  ELSE IF k = "c" THEN RE(Go(S), Ex(SI, "n", "i", NoVal, S.i))
  ELSE IF k = "s"
  THEN LET S1 == IF KindAt(S, S.i + 1) = "s" THEN PPrim(Go(S)) ELSE Go(S) IN RE(S1, LvAt(<<"a", SC, -3>>, "y", "y", S.i))
  ELSE IF k = "i" /\ x \in NotModelled THEN Stop(S)
  ELSE IF IsIdent(S)
  THEN IF x \notin DOMAIN S.vars THEN RE(Go(Err(S, S.i, S.i, "undeclared " \o x)), Ex(SQ, "o", "o", NoVal, S.i))
       ELSE LET d == S.vars[x] IN
            CASE d[1] = "typedef" -> Bad(S)
              [] d[1] = "enum" -> RE(Go(S), Ex(SI, "n", "i", d[3], S.i))
              [] d[2][1] = "fn" -> RE(Go(S), Ex(d[2], "o", "a", NoVal, S.i))
              [] OTHER -> RE(Go(S), LvAt(d[2], "y", IF d[3] THEN "y" ELSE "n", S.i))
  ELSE Bad(S)

\* ------------------------------------------------------- postfix operators
RECURSIVE FindMem(_, _, _)
FindMem(S, k, n) ==      \* <<>> or <<type, is bit-field, through an anonymous member>>
  LET m == S.st[k].mem
      direct == {j \in DOMAIN m : m[j][1] = n}
      anon == {j \in DOMAIN m : m[j][1] = "" /\ m[j][2][1] = "s" /\ FindMem(S, m[j][2][2], n) # <<>>}
  IN IF direct # {} THEN LET j == CHOOSE x \in direct : TRUE IN <<m[j][2], m[j][3], FALSE>>
     ELSE IF anon # {} THEN LET j == CHOOSE x \in anon : TRUE  r == FindMem(S, m[j][2][2], n) IN <<r[1], r[2], TRUE>>
     ELSE <<>>
PosOf(S, k, n) == LET m == S.st[k].mem IN IF \E j \in DOMAIN m : m[j][1] = n THEN CHOOSE j \in DOMAIN m : m[j][1] = n ELSE 0
\* the member named by the token S.i of an object of type t
Member(S, a, t, lv, st) ==
  IF S.bad # 0 THEN S
  ELSE IF Unk(t) THEN (IF IsIdent(S) THEN RE(Go(S), Ex(SQ, "o", "o", NoVal, a.lo)) ELSE Bad(S))
  ELSE IF t[1] # "s" THEN RE(Go(Err(S, a.lo, S.i, "not a struct")), Ex(SQ, "o", "o", NoVal, a.lo))
  ELSE IF ~IsIdent(S) THEN Bad(S)
  ELSE LET m == FindMem(S, t[2], Txt(S)) IN
       IF m = <<>> THEN RE(Go(Err(S, S.i, S.i, "no member " \o Txt(S))), Ex(SQ, "o", "o", NoVal, a.lo))
       ELSE RE(Go(S), [LvAt(m[1], lv, st, a.lo) EXCEPT !.bf = m[2]])
\* the arguments of a call; S.i after "(" or ","; n = arguments so far
PArgs(S, f, n, a) ==
  LET ps == IF f[1] = "fn" THEN f[3] ELSE <<>>
      S1 == Assign(S)
      hi == S1.i - 1
      extra == f[1] = "fn" /\ f[4] = "" /\ n + 1 > Len(ps)
      S2 == IF S1.bad # 0 THEN S1
            ELSE IF f[1] # "fn" THEN S1
            ELSE IF extra THEN Err(S1, S1.e.lo, hi + 1, "too many arguments")   \* up to the token after it
            ELSE IF n + 1 > Len(ps) THEN OpnIf(S1, f[4] = "()" \/ S1.e.ty = SV, S1.e.lo, hi)
            ELSE OpnIf(S1, ~Assignable(ps[n + 1], S1.e), S1.e.lo, hi)
  IN IF S2.bad # 0 THEN S2
     ELSE IF Txt(S2) = "," THEN P(<<"args", Go(S2), f, n + 1, a>>)
     ELSE Skip(ErrIf(S2, Txt(S2) = ")" /\ n + 1 < Len(ps), S2.i, S2.i, "too few arguments"), ")")
PPost(S) ==
  LET x == Txt(S)  a == S.e IN
  IF S.bad # 0 \/ KindAt(S, S.i) # "p" THEN S
  ELSE CASE x = "[" ->
        (LET S1 == Skip(Expr(Go(S)), "]")
             p == Decay(a.ty)  q == Decay(S1.e.ty)  hi == S1.i - 1
             el(t, c) == RE(OpnIf(S1, Incomplete(S1, t) \/ t[1] = "fn", a.lo, hi), LvAt(t, "y", StOf(c), a.lo))
             ok(u, v) == u[1] = "p" /\ v[1] = "i"
             cc(u, v) == IF u.c = "a" /\ v.c = "i" THEN "a" ELSE IF u.c = "n" \/ v.c = "n" THEN "n" ELSE "o"
             S2 == IF S1.bad # 0 THEN S1
                   ELSE IF Unk(p) \/ Unk(q) THEN RE(S1, Ex(SQ, "o", "o", NoVal, a.lo))
                   ELSE IF ok(p, q) /\ p[2] # SV THEN el(p[2], cc(a, S1.e))
                   ELSE IF ok(q, p) /\ q[2] # SV THEN el(q[2], cc(S1.e, a))
                   ELSE IF (p[1] = "p" /\ q[1] = "f") \/ (q[1] = "p" /\ p[1] = "f") THEN RE(Opn(S1, a.lo, hi), Ex(SQ, "o", "o", NoVal, a.lo))
                   ELSE RE(Err(S1, a.lo, hi, "subscript"), Ex(SQ, "o", "o", NoVal, a.lo))
         IN P(<<"post", S2>>))
    [] x = "(" ->
        (LET t == Decay(a.ty)
             f == IF t[1] = "p" /\ t[2][1] = "fn" THEN t[2] ELSE SQ
             S0 == ErrIf(S, ~Unk(t) /\ Unk(f), a.lo, S.i, "not a function")
             S1 == IF TxtAt(S, S.i + 1) = ")"
                   THEN LET T == Go(S0) IN Go(ErrIf(T, f[1] = "fn" /\ Len(f[3]) > 0, S.i, T.i, "too few arguments"))
                   ELSE P(<<"args", Go(S0), f, 0, a>>)
         IN P(<<"post", IF S1.bad # 0 THEN S1 ELSE RE(S1, IF f[1] = "fn" THEN Ex(f[2], IF f[2][1] = "s" THEN "o" ELSE "n", "n", NoVal, a.lo)
                                                          ELSE Ex(SQ, "o", "o", NoVal, a.lo))>>))
    [] x = "." -> P(<<"post", Member(Go(S), a, a.ty, IF a.lv = "y" THEN "y" ELSE "o", a.st)>>)
    [] x = "->" ->
        (LET t == Decay(a.ty) IN
         P(<<"post", IF Unk(t) THEN Member(Go(S), a, SQ, "o", "o")
                     ELSE IF t[1] # "p" \/ t[2] = SV THEN Member(Go(Err(S, a.lo, S.i + 1, "-> of a non-pointer")), a, SQ, "o", "o")
                     ELSE Member(Go(S), a, t[2], "y", StOf(a.c))>>))
    [] x \in {"++", "--"} ->
        P(<<"post", RE(IF a.ty[1] = "s" \/ a.ty = SV THEN Err(Go(S), a.lo, S.i, "operand of ++") ELSE NeedLv(Go(S), a, S.i),
                       Ex(a.ty, "n", "n", NoVal, a.lo))>>)
    [] OTHER -> S

\* ------------------------------------------------------ constant expressions
HasLazy(S, lo, hi) == \E j \in lo..hi : TxtAt(S, j) \in {"&&", "||", "?"}
DivCheck(S, T, lo) ==    \* T follows S over a constant expression that starts at lo
  IF T.bad # 0 \/ T.div = S.div THEN T
  ELSE IF HasLazy(T, lo, T.i - 1) THEN Opn([T EXCEPT !.div = S.div], lo, T.i - 1)
  ELSE Err([T EXCEPT !.div = S.div], lo, T.i - 1, "division by zero")
ConstE(S) ==             \* an integer constant expression
  LET S1 == CondE(S)
      S2 == DivCheck(S, S1, S.i)
      hi == S1.i - 1
  IN IF S1.bad # 0 THEN S1
     ELSE IF Unk(S1.e.ty) THEN S2
     ELSE IF S1.e.c = "n" THEN Err(S2, S.i, hi, "not constant")
     ELSE OpnIf(S2, S1.e.c # "i" \/ S1.e.ty[1] # "i", S.i, hi)

\* ------------------------------------------------------ declaration specifiers
Cnt0 == [b \in Basic |-> 0]
OkCnt(c, n) ==           \* n = sum of the counts
  CASE c["void"] + c["_Bool"] + c["float"] > 0 -> n = 1
    [] c["double"] > 0 -> c["double"] = 1 /\ n = 1 + c["long"] /\ c["long"] <= 1
    [] c["signed"] > 0 /\ c["unsigned"] > 0 -> FALSE
    [] c["char"] > 0 -> c["char"] = 1 /\ n = 1 + c["signed"] + c["unsigned"]
    [] c["short"] > 0 -> c["short"] = 1 /\ c["int"] <= 1 /\ c["long"] = 0
    [] OTHER -> c["int"] <= 1 /\ c["long"] <= 2
TypeOf(c) == IF c["void"] > 0 THEN SV ELSE IF c["float"] + c["double"] > 0 THEN SF ELSE IF c["char"] > 0 THEN SC ELSE SI
\* acc = [cnt, n, other, ty, sto, ctx]
PSpec(S, acc) ==
  LET x == Txt(S)  k == KindAt(S, S.i) IN
  IF S.bad # 0 THEN S
  ELSE IF k # "i" \/ ~IsTypeAt(S, S.i) \/ (TypedefAt(S, S.i) /\ (acc.n > 0 \/ acc.other)) \/ (x \in {"struct", "union", "enum"} /\ (acc.n > 0 \/ acc.other))
  THEN [S EXCEPT !.d = IF acc.other THEN acc.ty ELSE TypeOf(acc.cnt), !.sto = acc.sto, !.any = acc.other \/ acc.n > 0]
  ELSE IF x \in NotModelled THEN Stop(S)
  ELSE IF x \in Storage
  THEN LET S1 == IF acc.ctx \in {"type", "param", "for"} THEN Err(S, S.i, S.i, "storage class")
                 ELSE IF acc.ctx = "member" THEN Opn(S, S.i, S.i)
                 ELSE IF (x = "typedef" /\ acc.sto \ {"typedef"} # {}) \/ (x # "typedef" /\ "typedef" \in acc.sto) THEN Err(S, S.i, S.i, "typedef with a storage class")
                 ELSE OpnIf(S, x \in acc.sto \/ (acc.sto \cup {x} \in {{"static", "extern"}}) \/ (acc.ctx = "block" /\ x = "inline"), S.i, S.i)
       IN P(<<"spec2", Go(S1), [acc EXCEPT !.sto = @ \cup {x}]>>)
  ELSE IF x \in Quals THEN P(<<"spec2", Go(OpnIf(S, x \in {"auto", "register", "restrict"}, S.i, S.i)), acc>>)
  ELSE IF x \in {"struct", "union"} THEN LET S1 == P(<<"struct", Go(S), x, acc.ctx>>) IN P(<<"spec2", S1, [acc EXCEPT !.other = TRUE, !.ty = S1.d]>>)
  ELSE IF x = "enum" THEN LET S1 == P(<<"enum", Go(S), acc.ctx>>) IN P(<<"spec2", S1, [acc EXCEPT !.other = TRUE, !.ty = SI]>>)
  ELSE IF x \in Basic
  THEN IF acc.other THEN P(<<"spec2", Go(Err(S, S.i, S.i, "two types")), acc>>)
       ELSE LET c == [acc.cnt EXCEPT ![x] = @ + 1] IN
            IF x \in {"signed", "unsigned"} /\ c[x] > 1 THEN P(<<"spec2", Go(Opn(S, S.i, S.i)), acc>>)
            ELSE P(<<"spec2", Go(ErrIf(S, ~OkCnt(c, acc.n + 1), S.i, S.i, "invalid type")), [acc EXCEPT !.cnt = c, !.n = @ + 1]>>)
  ELSE P(<<"spec2", Go(S), [acc EXCEPT !.other = TRUE, !.ty = S.vars[x][2]]>>)

SetTag(S, n, d) == [S EXCEPT !.tags = [x \in DOMAIN @ \cup {n} |-> IF x = n THEN d ELSE @[x]], !.htags = @ \cup {n}]
PStruct(S, kw, ctx) ==   \* S.i after struct/union
  LET tag == IF IsIdent(S) THEN Txt(S) ELSE ""
      S1 == IF tag # "" THEN Go(S) ELSE S
      def == Txt(S1) = "{"
      old == IF tag # "" /\ tag \in DOMAIN S.tags THEN S.tags[tag] ELSE <<>>
      fresh == Len(S.st) + 1
      new(T) == [T EXCEPT !.st = Append(@, [done |-> FALSE, mem |-> <<>>, u |-> kw = "union"])]
  IN
  IF S.bad # 0 THEN S
  ELSE IF ~def
  THEN IF tag = "" THEN Bad(S1)
       ELSE IF old = <<>> THEN [SetTag(new(OpnIf(S1, ctx = "param", S.i, S.i)), tag, <<kw, fresh>>) EXCEPT !.d = <<"s", fresh>>]
       ELSE IF old[1] # kw THEN [Opn(S1, S.i, S.i) EXCEPT !.d = SQ]
       ELSE [OpnIf(S1, Txt(S1) = ";" /\ tag \notin S.htags, S.i, S.i) EXCEPT !.d = <<"s", old[2]>>]
  ELSE LET reuse == old # <<>> /\ tag \in S.htags
           clash == reuse /\ (old[1] # kw \/ S.st[old[2]].done)
           k == IF reuse /\ ~clash THEN old[2] ELSE fresh
           S2 == IF reuse /\ ~clash THEN S1 ELSE new(S1)
           S3 == IF tag = "" THEN S2 ELSE SetTag(S2, tag, <<kw, k>>)
           S4 == P(<<"members", Go(OpnIf(S3, clash \/ ctx = "param", S.i, S.i)), k>>)
       IN IF S4.bad # 0 THEN S4 ELSE [S4 EXCEPT !.st[k].done = TRUE, !.d = <<"s", k>>]
PMembers(S, k) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "}" THEN Go(S)
  ELSE LET S1 == DeclSpec(S, "member") IN
       IF S1.bad # 0 THEN S1
       ELSE IF S1.i = S.i /\ ~(IsIdent(S) \/ Txt(S) \in {"*", "(", ";", ":"}) THEN Bad(Opn(S, S.i, S.i))
       ELSE LET S2 == OpnIf(S1, ~S1.any, S.i, S1.i)
                add(T, n, t, b) == [T EXCEPT !.st[k].mem = Append(@, <<n, t, b>>)]
            IN IF Txt(S2) = ";"
               THEN P(<<"members", Go(IF S1.d[1] = "s" /\ S1.st[S1.d[2]].done THEN add(S2, "", S1.d, FALSE) ELSE Opn(S2, S.i, S2.i)), k>>)
               ELSE P(<<"members", P(<<"mdecls", S2, k, S1.d>>), k>>)
PMDecls(S, k, base) ==   \* declarators of one member declaration, with the ";"
  LET j == S.i
      S1 == Declarator(S, base)
      nm == S1.nm  t == S1.d
      bf == Txt(S1) = ":"
      S2 == IF S1.bad # 0 \/ ~bf THEN S1
            ELSE LET T == ConstE(Go(S1)) IN
                 OpnIf(T, T.bad = 0 /\ (t[1] # "i" \/ T.e.v = NoVal \/ T.e.v < 0 \/ T.e.v > 8 \/ (T.e.v = 0 /\ nm # "")), j, T.i - 1)
      bad == ~bf /\ (nm = "" \/ t[1] \in {"fn", "v"} \/ (Incomplete(S1, t) /\ t[1] # "a") \/ (t[1] = "a" /\ t[3] \in {-1, -2}))
      dup == nm # "" /\ FindMem(S1, k, nm) # <<>>
      S3 == IF S2.bad # 0 THEN S2
            ELSE LET T == OpnIf(S2, bad \/ dup, j, S2.i - 1) IN
                 IF nm = "" THEN T ELSE [T EXCEPT !.st[k].mem = Append(@, <<nm, t, bf>>)]
  IN IF S3.bad # 0 THEN S3
     ELSE IF Txt(S3) = "," THEN P(<<"mdecls", Go(S3), k, base>>)
     ELSE Skip(S3, ";")
PEnum(S, ctx) ==
  LET tag == IF IsIdent(S) THEN Txt(S) ELSE ""
      S1 == IF tag # "" THEN Go(S) ELSE S
  IN IF S.bad # 0 THEN S
     ELSE IF Txt(S1) # "{"
     THEN IF tag = "" THEN Bad(S1)
          ELSE ErrIf(S1, tag \notin DOMAIN S.tags \/ S.tags[tag][1] # "enum", S.i, S.i, "unknown enum")
     ELSE LET S2 == OpnIf(Go(S1), (tag # "" /\ tag \in S.htags) \/ ctx = "param" \/ TxtAt(S1, S1.i + 1) = "}", S.i, S1.i + 1)
              S3 == P(<<"enums", S2, 0>>)
          IN IF S3.bad # 0 \/ tag = "" THEN S3 ELSE SetTag(S3, tag, <<"enum">>)
PEnums(S, v) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "}" THEN Go(S)
  ELSE IF ~IsIdent(S) THEN Bad(S)
  ELSE LET n == Txt(S)
           S1 == IF TxtAt(S, S.i + 1) = "=" THEN ConstE(Go(Go(S))) ELSE Go(S)
           val == IF TxtAt(S, S.i + 1) = "=" THEN S1.e.v ELSE v
           S2 == Bind(OpnIf(S1, n \in S.here, S.i, S.i), n, <<"enum", SI, val>>)
       IN IF S1.bad # 0 THEN S1
          ELSE IF Txt(S2) = "," THEN P(<<"enums", Go(S2), IF val = NoVal THEN NoVal ELSE val + 1>>)
          ELSE Skip(S2, "}")

\* -------------------------------------------------------------- declarators
PDcl(S, ty) ==           \* gives d, nm, nmi, ps (the parameters of the outermost function)
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "*"
  THEN LET j == CHOOSE j \in (S.i + 1)..(Len(S.t) + 1) : TxtAt(S, j) \notin Quals /\ \A m \in (S.i + 1)..(j - 1) : TxtAt(S, m) \in Quals
       IN P(<<"dcl", [S EXCEPT !.i = j], SPtr(ty)>>)
  ELSE IF Txt(S) = "("
  THEN IF TxtAt(S, S.i + 1) = ")" \/ IsTypeAt(S, S.i + 1) \/ TxtAt(S, S.i + 1) = "..." THEN Stop(S)
       ELSE LET S1 == Skip(P(<<"dcl", Go(S), Hole>>), ")")
                S2 == P(<<"suffix", S1, ty>>)
            IN IF S2.bad # 0 THEN S2
               ELSE [S2 EXCEPT !.d = Fill(S1.d, S2.d), !.nm = S1.nm, !.nmi = S1.nmi, !.ps = IF S1.d = Hole THEN S2.ps ELSE S1.ps,
                               !.open = IF S1.d[1] \in {"fn", "a"} /\ (S2.d[1] = "fn" \/ (S1.d[1] = "fn" /\ S2.d[1] = "a")) THEN @ \cup {<<S.i, S2.i - 1>>} ELSE @]
  ELSE LET nm == IF IsIdent(S) THEN Txt(S) ELSE ""
           S1 == P(<<"suffix", IF nm # "" THEN Go(S) ELSE S, ty>>)
       IN IF S1.bad # 0 THEN S1 ELSE [S1 EXCEPT !.nm = nm, !.nmi = S.i]
PSuffix(S, ty) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "("
  THEN IF TxtAt(S, S.i + 1) = ")" THEN [Go(Go(S)) EXCEPT !.d = <<"fn", ty, <<>>, "()">>, !.ps = <<>>]
       ELSE IF TxtAt(S, S.i + 1) = "void" /\ TxtAt(S, S.i + 2) = ")" THEN [Go(Go(Go(S))) EXCEPT !.d = <<"fn", ty, <<>>, "">>, !.ps = <<>>]
       ELSE LET S1 == P(<<"params", Go(S), <<>>>>) IN
            IF S1.bad # 0 THEN S1
            ELSE OpnIf([S1 EXCEPT !.d = <<"fn", ty, [j \in DOMAIN S1.ps |-> S1.ps[j][2]], S1.nm>>], ty[1] \in {"a", "fn"}, S.i, S1.i - 1)
  ELSE IF Txt(S) = "["
  THEN IF TxtAt(S, S.i + 1) \in {"static", "restrict", "const", "*"} /\ (TxtAt(S, S.i + 1) # "*" \/ TxtAt(S, S.i + 2) = "]") THEN Stop(S)
       ELSE LET S1 == IF TxtAt(S, S.i + 1) = "]" THEN Go(S) ELSE CondE(Go(S))
                e == S1.e
                none == TxtAt(S, S.i + 1) = "]"
                S2 == IF S1.bad = 0 /\ Txt(S1) \in AssignOps THEN Stop(S1) ELSE Skip(S1, "]")
                S3 == P(<<"suffix", S2, ty>>)
                n == IF none THEN -1 ELSE IF e.c = "i" THEN (IF e.v = NoVal THEN -3 ELSE e.v) ELSE -2
                strange == ~none /\ ~Unk(e.ty) /\ (e.ty[1] # "i" \/ e.c \in {"o", "x"} \/ (e.c = "i" /\ e.v < 1) \/ (n = -2 /\ S.lvl = 0))
                S4 == IF S3.bad # 0 THEN S3
                      ELSE OpnIf(IF e.c = "i" /\ ~none THEN (IF S1.div # S.div THEN Err(S3, S.i, S1.i, "division by zero") ELSE S3) ELSE S3,
                                 strange \/ S3.d[1] \in {"fn", "v"} \/ (S3.d[1] # "hole" /\ Incomplete(S3, S3.d)) \/ (n = -2 /\ S.inps), S.i, S3.i - 1)
            IN IF S4.bad # 0 THEN S4 ELSE [S4 EXCEPT !.d = <<"a", S3.d, n>>, !.div = S.div]
  ELSE [S EXCEPT !.d = ty, !.ps = <<>>]
\* parameters after "(": ps <<name, type, position>> and nm = the kind of the list
PParams(S, ps) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "..." THEN LET S1 == Skip(OpnIf(Go(S), ps = <<>>, S.i, S.i), ")") IN [S1 EXCEPT !.ps = ps, !.nm = "..."]
  ELSE LET S1 == DeclSpec([S EXCEPT !.inps = TRUE], "param")
           S2 == Declarator(OpnIf(S1, ~S1.any, S.i, S1.i), S1.d)
           t == S2.d
           u == Decay(t)
           S3 == IF S2.bad # 0 THEN S2
                 ELSE OpnIf(S2, u = SV \/ (S2.nm # "" /\ \E j \in DOMAIN ps : ps[j][1] = S2.nm), S.i, S2.i - 1)
           all == Append(ps, <<S2.nm, u, S2.nmi>>)
       IN IF S3.bad # 0 THEN S3
          ELSE IF Txt(S3) = "," THEN P(<<"params", Go(S3), all>>)
          ELSE LET S4 == Skip(S3, ")") IN [S4 EXCEPT !.ps = all, !.nm = "", !.inps = FALSE]

\* -------------------------------------------------------------- initialisers
ItemOK(S, T, t, stat, lo) ==   \* the expression T.e, parsed from S, initialises a t
  LET e == T.e  hi == T.i - 1
      T1 == IF stat THEN DivCheck(S, T, lo) ELSE T
      T2 == IF T.bad # 0 \/ ~stat \/ Unk(e.ty) THEN T1
            ELSE IF e.ty[1] = "s" THEN Err(T1, lo, hi, "not constant")
            ELSE IF e.c = "n" THEN Err(T1, lo, hi, "not constant")
            ELSE OpnIf(T1, e.c = "o" \/ (e.c = "a" /\ t[1] # "p" /\ ~Unk(t)), lo, hi)
  IN IF T.bad # 0 THEN T
     ELSE OpnIf(T2, ~Unk(t) /\ ~(Assignable(t, e) \/ (t[1] = "a" /\ t[2] = SC /\ KindAt(S, lo) = "s")), lo, hi)
PInit(S, t, stat) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "{"
  THEN IF TxtAt(S, S.i + 1) = "}" THEN Go(Go(OpnIf(S, t[1] \notin {"a", "s", "?"} \/ (t[1] = "a" /\ t[3] < 0), S.i, S.i + 1)))
       ELSE IF t[1] \in {"a", "s"} THEN P(<<"items", OpnIf(Go(S), Incomplete(S, t) /\ t[1] = "s", S.i, S.i), t, 1, stat, FALSE>>)
       ELSE IF Unk(t) THEN P(<<"items", Go(S), t, 1, stat, TRUE>>)
       ELSE IF TxtAt(S, S.i + 1) \in {"{", ".", "["} THEN Stop(S)
       ELSE LET S1 == ItemOK(Go(S), Assign(Go(S)), t, stat, S.i + 1) IN
            IF S1.bad # 0 THEN S1
            ELSE IF Txt(S1) = "," THEN (IF TxtAt(S1, S1.i + 1) = "}" THEN Go(Go(S1)) ELSE Stop(S1))
            ELSE Skip(S1, "}")
  ELSE LET S1 == Assign(S) IN
       IF S1.bad # 0 THEN S1
       ELSE ItemOK(S, S1, t, stat, S.i)
\* designators from S.i on for an object of type t: d = type designated, e.v = position or NoVal if more than one
PDesig(S, t, n) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "["
  THEN LET S1 == ConstE(Go(S)) IN
       IF S1.bad # 0 THEN S1
       ELSE IF Txt(S1) = "..." THEN Stop(S1)
       ELSE LET S2 == Skip(S1, "]")
                v == S1.e.v
                S3 == IF S2.bad # 0 \/ Unk(t) THEN S2
                      ELSE IF t[1] # "a" THEN Err(S2, S.i, S2.i - 1, "index in a non-array")
                      ELSE IF S1.e.c = "i" /\ v # NoVal /\ (v < 0 \/ (t[3] >= 0 /\ v >= t[3])) THEN Err(S2, S.i, S2.i - 1, "index out of bounds")
                      ELSE S2
            IN IF S3.bad # 0 THEN S3
               ELSE P(<<"desig", [S3 EXCEPT !.d = IF t[1] = "a" THEN t[2] ELSE SQ, !.nmi = IF n > 0 \/ v = NoVal \/ S1.e.c # "i" THEN NoVal ELSE v + 1],
                        IF t[1] = "a" THEN t[2] ELSE SQ, n + 1>>)
  ELSE IF Txt(S) = "."
  THEN LET S1 == Go(S) IN
       IF ~IsIdent(S1) THEN Bad(S1)
       ELSE LET m == IF t[1] = "s" THEN FindMem(S, t[2], Txt(S1)) ELSE <<>>
                S2 == IF Unk(t) THEN S1
                      ELSE IF t[1] # "s" THEN Err(S1, S.i, S1.i, "field in a non-struct")
                      ELSE ErrIf(S1, m = <<>>, S1.i, S1.i, "no member")
            IN P(<<"desig", [Go(S2) EXCEPT !.d = IF m = <<>> THEN SQ ELSE m[1],
                                           !.nmi = IF n > 0 \/ m = <<>> \/ PosOf(S, t[2], Txt(S1)) = 0 THEN NoVal ELSE PosOf(S, t[2], Txt(S1))],
                     IF m = <<>> THEN SQ ELSE m[1], n + 1>>)
  ELSE S
ElemAt(S, t, k) ==       \* the type of subobject k, <<"!">> if there is none
  IF t[1] = "a" THEN (IF t[3] >= 0 /\ k > t[3] THEN <<"!">> ELSE t[2])
  ELSE LET m == S.st[t[2]].mem IN IF k > Len(m) \/ (S.st[t[2]].u /\ k > 1) THEN <<"!">> ELSE m[k][2]
PItems(S, t, k, stat, loose) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "}" THEN Go(S)
  ELSE LET isd == Txt(S) \in {"[", "."} /\ KindAt(S, S.i) = "p"
           S0 == IF isd THEN P(<<"desig", S, IF loose THEN SQ ELSE t, 0>>) ELSE S
           S1 == IF ~isd \/ S0.bad # 0 THEN S0 ELSE IF Txt(S0) = "=" THEN Go(S0) ELSE Opn(S0, S.i, S0.i)
           pos == IF isd THEN S0.nmi ELSE k
           el == IF isd THEN S0.d ELSE IF loose \/ Unk(t) THEN SQ ELSE ElemAt(S, t, k)
           over == el[1] = "!"
           S2 == OpnIf(S1, over, S1.i, S1.i)
           elt == IF over THEN SQ ELSE el
           agg == elt[1] \in {"a", "s"}
           braced == Txt(S2) = "{"
           str == KindAt(S2, S2.i) = "s" /\ elt[1] = "a" /\ elt[2] = SC
           S3 == IF S2.bad # 0 THEN S2
                 ELSE IF braced \/ ~agg \/ str THEN InitFor(S2, elt, stat)
                 ELSE LET T == Assign(S2) IN ItemOK(S2, T, IF T.e.ty = elt /\ elt[1] = "s" THEN elt ELSE SQ, stat, S2.i)
           elided == ~braced /\ agg /\ ~str /\ ~(elt[1] = "s" /\ S3.e.ty = elt)
           l2 == elided \/ Unk(t) \/ (IF isd THEN pos = NoVal ELSE loose)
       IN IF S3.bad # 0 THEN S3
          ELSE IF Txt(S3) = "," THEN P(<<"items", Go(S3), t, IF pos = NoVal THEN 1 ELSE pos + 1, stat, l2>>)
          ELSE Skip(S3, "}")

\* -------------------------------------------------------------- declarations
\* one init-declarator of a non-typedef declaration, S.d/nm/nmi from the declarator; lo = its first token
DeclVar(S, ctx, sto, lo) ==
  LET t == S.d  nm == S.nm  j == S.nmi
      stat == ctx = "file" \/ "static" \in sto \/ "extern" \in sto
      init == Txt(S) = "="
      S0 == ErrIf(S, nm = "", j, j, "name omitted")
      ini == (nm \in S.here /\ ctx = "file" /\ S.vars[nm][1] = "var" /\ Len(S.vars[nm]) = 5) /\ S.vars[nm][5]
      again == nm \in S.here /\ ~(ctx = "file" /\ S.vars[nm][1] = "var" /\ S.vars[nm][2] = t /\ ~S.vars[nm][4] /\ "static" \notin sto /\ ~(init /\ ini))
      S1 == IF t = SV THEN (IF ctx = "file" \/ "extern" \in sto THEN Opn(S0, lo, S.i) ELSE Err(S0, lo, S.i, "void variable")) ELSE S0
      S2 == OpnIf(S1, (nm # "" /\ again) \/ ("inline" \in sto) \/ (t[1] = "a" /\ t[3] = -2 /\ stat)
                      \/ (init /\ "extern" \in sto), lo, S.i)
      S3 == IF nm = "" THEN S2 ELSE Bind(S2, nm, <<"var", IF t[1] = "v" THEN SQ ELSE t, stat, "static" \in sto, init \/ ini>>)
      S4 == IF ~init THEN S3
            ELSE IF t[1] = "a" /\ t[3] = -2 THEN [InitFor(Go(Err(S3, S.i, S.i, "VLA initialised")), SQ, FALSE) EXCEPT !.e = E0]
            ELSE InitFor(Go(S3), t, stat)
  IN IF S4.bad # 0 THEN S4
     ELSE IF t = SV \/ nm = "" THEN S4
     ELSE IF Incomplete(S4, t)
     THEN IF init /\ t[1] = "a" THEN Bind(S4, nm, <<"var", <<"a", t[2], -3>>, stat, "static" \in sto, TRUE>>)
          ELSE IF "extern" \in sto THEN S4
          ELSE IF ctx = "file" \/ stat THEN OpnIf(S4, ~(ctx = "file" /\ t[1] = "a"), lo, S4.i)
          ELSE Err(S4, j, j, "incomplete type")
     ELSE S4
\* a function declarator was read; def = a body follows
DeclFn(S, ctx, sto, lo, def) ==
  LET t == S.d  nm == S.nm
      old == IF nm \in DOMAIN S.gfn THEN S.gfn[nm] ELSE <<>>
      S0 == ErrIf(S, nm = "", S.nmi, S.nmi, "name omitted")
      S1 == IF nm = "" THEN S0
            ELSE LET kind == old # <<>> /\ old[1] = "var"
                     T1 == ErrIf(S0, kind, lo, S.i, "different kind")
                     T2 == ErrIf(T1, ~kind /\ old # <<>> /\ old[2] /\ def, lo, S.i, "redefined")
                     T3 == ErrIf(T2, ~kind /\ old # <<>> /\ ~old[3] /\ "static" \in sto, lo, S.i, "static after non-static")
                     clash == (nm \in S.here /\ S.vars[nm][1] # "fn") \/ (nm \in S.here /\ S.vars[nm][1] = "fn" /\ S.vars[nm][2] # t)
                              \/ (ctx # "file" /\ sto # {} /\ sto # {"extern"}) \/ (old # <<>> /\ nm \notin S.here)
                 IN OpnIf(T3, clash \/ t[2][1] \in {"a", "fn"} \/ (def /\ t[2] # SV /\ Incomplete(S, t[2])), lo, S.i)
      S2 == IF nm = "" THEN S1
            ELSE [Bind(S1, nm, <<"fn", t>>) EXCEPT !.gfn = [x \in DOMAIN @ \cup {nm} |->
                    IF x # nm THEN @[x] ELSE IF old # <<>> /\ old[1] = "fn" THEN <<"fn", old[2] \/ def, old[3]>> ELSE <<"fn", def, "static" \in sto \/ "inline" \in sto>>]]
  IN S2
GVar(S, nm) == IF nm = "" THEN S
               ELSE [S EXCEPT !.gfn = [x \in DOMAIN @ \cup {nm} |-> IF x = nm /\ ~(x \in DOMAIN @ /\ @[x][1] = "fn") THEN <<"var", FALSE, FALSE>> ELSE @[x]]]
PDecls(S, ctx, base, sto, first) ==
  LET lo == S.i
      S1 == Declarator(S, base)
      isfn == S1.d[1] = "fn"
  IN IF S1.bad # 0 THEN S1
     ELSE IF "typedef" \in sto
     THEN LET S2 == ErrIf(S1, S1.nm = "", S1.nmi, S1.nmi, "name omitted")
              S3 == IF S1.nm = "" THEN S2 ELSE Bind(OpnIf(S2, S1.nm \in S.here, lo, S1.i), S1.nm, <<"typedef", S1.d>>)
          IN IF Txt(S3) = "," THEN P(<<"decls", Go(S3), ctx, base, sto, FALSE>>) ELSE Skip(S3, ";")
     ELSE IF isfn
     THEN IF Txt(S1) = "{"
          THEN IF ctx = "file" /\ first THEN P(<<"fndef", DeclFn(S1, ctx, sto, lo, TRUE), S1.d, S1.ps>>)
               ELSE Bad(S1)
          ELSE LET S2 == DeclFn(S1, ctx, sto, lo, FALSE) IN
               IF Txt(S2) = "," THEN P(<<"decls", Go(S2), ctx, base, sto, FALSE>>)
               ELSE IF Txt(S2) = ";" THEN Go(S2)
               ELSE Bad(Opn(S2, lo, S2.i))
     ELSE LET fnclash == ctx = "file" /\ S1.nm \in DOMAIN S.gfn /\ S.gfn[S1.nm][1] = "fn"
              S2 == DeclVar(OpnIf(S1, fnclash, lo, S1.i), ctx, sto, lo)
              S3 == IF ctx = "file" \/ "extern" \in sto THEN GVar(S2, S1.nm) ELSE S2
          IN IF S3.bad # 0 THEN S3
             ELSE IF Txt(S3) = "," THEN P(<<"decls", Go(S3), ctx, base, sto, FALSE>>)
             ELSE Skip(S3, ";")
PDecl(S, ctx) ==         \* a declaration or, at file scope, a function definition
  LET S1 == DeclSpec(S, ctx) IN
  IF S1.bad # 0 THEN S1
  ELSE IF S1.i = S.i /\ ~(IsIdent(S) \/ Txt(S) \in {"*", "(", ";"}) THEN Bad(S)
  ELSE IF Txt(S1) = ";" THEN Go(OpnIf(S1, ~(\E j \in S.i..(S1.i - 1) : TxtAt(S, j) \in {"struct", "union", "enum"}) \/ S1.sto # {}, S.i, S1.i))
  ELSE P(<<"decls", OpnIf(S1, ~S1.any, S.i, S1.i), ctx, S1.d, S1.sto, TRUE>>)
PFnDef(S, t, ps) ==
  LET S1 == FoldLeft(LAMBDA T, j : LET p == ps[j] IN
                       IF p[1] = "" THEN Err(T, p[3], p[3], "parameter name omitted")
                       ELSE Bind(OpnIf(T, Incomplete(T, p[2]), S.i, S.i), p[1], <<"var", p[2], FALSE>>),
                     [S EXCEPT !.here = {}, !.htags = {}, !.ret = t[2], !.labels = {}, !.gotos = {}, !.lvl = 1], [j \in DOMAIN ps |-> j])
      S2 == P(<<"items2", Skip([Bind(S1, "__func__", <<"var", <<"a", SC, -3>>, TRUE>>) EXCEPT !.here = S1.here], "{")>>)
      S3 == IF S2.bad # 0 THEN S2
            ELSE FoldLeft(LAMBDA T, g : ErrIf(T, g[1] \notin S2.labels, g[2], g[2], "undeclared label"), S2, SetToSeq(S2.gotos))
  IN IF S3.bad # 0 THEN S3
     ELSE [S3 EXCEPT !.vars = S.vars, !.tags = S.tags, !.here = S.here, !.htags = S.htags, !.lvl = 0]

\* -------------------------------------------------------------- statements
Paren(S) == Skip(Expr(Skip(S, "(")), ")")
ScalarCond(S) == IF S.bad # 0 THEN S ELSE OpnIf(S, ~Unk(S.e.ty) /\ ~IsScalar(Decay(S.e.ty)), S.e.lo, S.i)
Body(S, f) ==            \* a loop or switch body; f sets the context
  LET S1 == P(<<"stmt", f>>) IN [S1 EXCEPT !.loop = S.loop, !.sw = S.sw, !.brk = S.brk]
Leave(T, S) == [T EXCEPT !.vars = S.vars, !.tags = S.tags, !.here = S.here, !.htags = S.htags]
AfterLabel(S) ==         \* what follows a label
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "}" THEN Opn(S, S.i, S.i)
  ELSE IF IsTypeAt(S, S.i) /\ TxtAt(S, S.i + 1) # ":" THEN Stop(S)
  ELSE Stmt(S)
PStmt(S) ==
  LET x == IF KindAt(S, S.i) \in {"i", "p"} THEN Txt(S) ELSE "" IN
  IF S.bad # 0 THEN S
  ELSE CASE x = "{" -> P(<<"block", Go(S)>>)
    [] x = ";" -> Go(S)
    [] x = "if" ->
        (LET S1 == Stmt(ScalarCond(Paren(Go(S)))) IN
         IF S1.bad = 0 /\ Txt(S1) = "else" THEN Stmt(Go(S1)) ELSE S1)
    [] x = "while" -> LET S1 == ScalarCond(Paren(Go(S))) IN Body(S, [S1 EXCEPT !.loop = TRUE, !.brk = TRUE])
    [] x = "do" ->
        (LET S1 == Body(S, [Go(S) EXCEPT !.loop = TRUE, !.brk = TRUE]) IN Skip(ScalarCond(Paren(Skip(S1, "while"))), ";"))
    [] x = "for" ->
        (LET S1 == Skip(Go(S), "(")
             S2 == IF S1.bad # 0 THEN S1
                   ELSE IF IsTypeAt(S1, S1.i) THEN P(<<"decl", [S1 EXCEPT !.here = {}, !.htags = {}], "for">>)
                   ELSE IF Txt(S1) = ";" THEN Go(S1) ELSE Skip(Expr(S1), ";")
             S3 == IF S2.bad # 0 THEN S2 ELSE IF Txt(S2) = ";" THEN Go(S2) ELSE Skip(ScalarCond(Expr(S2)), ";")
             S4 == IF S3.bad # 0 THEN S3 ELSE IF Txt(S3) = ")" THEN Go(S3) ELSE Skip(Expr(S3), ")")
             S5 == Body(S, [S4 EXCEPT !.loop = TRUE, !.brk = TRUE])
         IN IF S5.bad # 0 THEN S5 ELSE Leave(S5, S))
    [] x = "switch" ->
        (LET S1 == Expr(Skip(Go(S), "("))
             S2 == IF S1.bad # 0 THEN S1 ELSE Skip(ErrIf(S1, ~Unk(S1.e.ty) /\ S1.e.ty[1] # "i", S1.e.lo, S1.i - 1, "switch on a non-integer"), ")")
         IN Body(S, [S2 EXCEPT !.sw = TRUE, !.brk = TRUE]))
    [] x = "case" ->
        (LET S1 == ConstE(Go(ErrIf(S, ~S.sw, S.i, S.i, "stray case")))
             S2 == IF S1.bad = 0 /\ Txt(S1) = "..." THEN Stop(S1) ELSE Skip(S1, ":")
         IN AfterLabel(S2))
    [] x = "default" -> AfterLabel(Skip(Go(ErrIf(S, ~S.sw, S.i, S.i, "stray default")), ":"))
    [] x = "break" -> Skip(Go(ErrIf(S, ~S.brk, S.i, S.i, "stray break")), ";")
    [] x = "continue" -> Skip(Go(ErrIf(S, ~S.loop, S.i, S.i, "stray continue")), ";")
    [] x = "return" ->
        (IF TxtAt(S, S.i + 1) = ";" THEN Go(Go(OpnIf(S, S.ret # SV, S.i, S.i)))
         ELSE LET S1 == Expr(Go(S)) IN
              Skip(IF S1.bad # 0 THEN S1 ELSE OpnIf(S1, S.ret = SV \/ ~Assignable(S.ret, S1.e), S.i, S1.i), ";"))
    [] x = "goto" ->
        (IF TxtAt(S, S.i + 1) = "*" THEN Stop(S)
         ELSE IF ~IsIdentAt(S, S.i + 1) THEN Bad(Go(S))
         ELSE Skip([Go(Go(S)) EXCEPT !.gotos = @ \cup {<<TxtAt(S, S.i + 1), S.i + 1>>}], ";"))
    [] IsIdent(S) /\ TxtAt(S, S.i + 1) = ":" ->
        AfterLabel(Go(Go([ErrIf(S, x \in S.labels, S.i, S.i, "duplicate label") EXCEPT !.labels = @ \cup {x}])))
    [] OTHER -> Skip(Expr(S), ";")
PBlockItems(S) ==
  IF S.bad # 0 THEN S
  ELSE IF Txt(S) = "}" THEN Go(S)
  ELSE P(<<"items2", IF IsTypeAt(S, S.i) /\ TxtAt(S, S.i + 1) # ":" THEN P(<<"decl", S, "block">>) ELSE Stmt(S)>>)
PBlock(S) ==             \* after "{"
  IF S.bad # 0 THEN S
  ELSE LET S1 == P(<<"items2", [S EXCEPT !.here = {}, !.htags = {}]>>) IN IF S1.bad # 0 THEN S1 ELSE Leave(S1, S)
PUnit(S) ==
  IF S.bad # 0 \/ S.i > Len(S.t) THEN S ELSE P(<<"unit", P(<<"decl", S, "file">>)>>)

PF[x \in Any] ==
  LET n == x[1]  S == x[2] IN
  CASE n = "expr" -> PExpr(S) [] n = "assign" -> PAssign(S) [] n = "cond" -> PCond(S) [] n = "cast" -> PCast(S)
    [] n = "unary" -> PUnary(S) [] n = "bin" -> PBin(S, x[3]) [] n = "post" -> PPost(S) [] n = "prim" -> PPrim(S)
    [] n = "args" -> PArgs(S, x[3], x[4], x[5])
    [] n = "spec" -> PSpec(S, [cnt |-> Cnt0, n |-> 0, other |-> FALSE, ty |-> SI, sto |-> {}, ctx |-> x[3]])
    [] n = "spec2" -> PSpec(S, x[3]) [] n = "struct" -> PStruct(S, x[3], x[4]) [] n = "members" -> PMembers(S, x[3])
    [] n = "mdecls" -> PMDecls(S, x[3], x[4]) [] n = "enum" -> PEnum(S, x[3]) [] n = "enums" -> PEnums(S, x[3])
    [] n = "dcl" -> PDcl(S, x[3]) [] n = "suffix" -> PSuffix(S, x[3]) [] n = "params" -> PParams(S, x[3])
    [] n = "init" -> PInit(S, x[3], x[4]) [] n = "items" -> PItems(S, x[3], x[4], x[5], x[6]) [] n = "desig" -> PDesig(S, x[3], x[4])
    [] n = "decl" -> PDecl(S, x[3]) [] n = "decls" -> PDecls(S, x[3], x[4], x[5], x[6]) [] n = "fndef" -> PFnDef(S, x[3], x[4])
    [] n = "stmt" -> PStmt(S) [] n = "block" -> PBlock(S) [] n = "items2" -> PBlockItems(S) [] OTHER -> PUnit(S)
P(x) == PF[x]

NoMap == [x \in {} |-> 0]
S0(ts) == [t |-> ts, i |-> 1, bad |-> 0, stop |-> FALSE, errs |-> {}, open |-> {}, div |-> {},
           vars |-> NoMap, tags |-> NoMap, here |-> {}, htags |-> {}, st |-> <<>>, gfn |-> NoMap,
           e |-> E0, d |-> SQ, sto |-> {}, any |-> FALSE, nm |-> "", nmi |-> 0, ps |-> <<>>, inps |-> FALSE,
           ret |-> SV, labels |-> {}, gotos |-> {}, loop |-> FALSE, sw |-> FALSE, brk |-> FALSE, une |-> FALSE, lvl |-> 0]
\* [v |-> "ok" / "err" / "open", why, at |-> token positions a diagnostic may name]
Check(ts) ==
  LET S == P(<<"unit", S0(ts)>>)
      \* what a constraint that need not be diagnosed makes of the rest of its statement or declaration is open too
      ends == {j \in 1..Len(ts) : ts[j][1] = "p" /\ ts[j][2] \in {";", "{", "}"}}
      wide(o) == LET a == {j \in ends : j < o[1]}  b == {j \in ends : j >= o[2]}
                 IN (IF a = {} THEN 1 ELSE Max(a) + 1)..(IF b = {} THEN Len(ts) + 1 ELSE Min(b))
      spots == UNION ({e[1]..e[2] : e \in S.errs} \cup {wide(o) : o \in S.open}) \cup (IF S.bad # 0 THEN {S.bad} ELSE {})
  IN IF S.stop THEN [v |-> "open", why |-> "not modelled", at |-> {}]
     ELSE IF S.errs # {} THEN [v |-> "err", why |-> (CHOOSE e \in S.errs : \A f \in S.errs : e[1] <= f[1])[3], at |-> spots]
     ELSE IF S.bad # 0 THEN [v |-> "err", why |-> "syntax", at |-> spots]
     ELSE IF S.open # {} THEN [v |-> "open", why |-> "undiagnosed", at |-> spots]
     ELSE [v |-> "ok", why |-> "", at |-> {}]
=============================================================================
