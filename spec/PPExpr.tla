------------------------------- MODULE PPExpr -------------------------------
(***************************************************************************)
(* #if expressions (C11 6.10.1): precedence-climbing evaluation of a token *)
(* list in 64-bit arithmetic.  A result is [v, u (1 unsigned), i (next     *)
(* token), err]; an operand that is not evaluated cannot make an error.    *)
(***************************************************************************)
EXTENDS MacroExp

DigitVal == [c \in CharSet("0123456789abcdefABCDEF") |->
   CHOOSE n \in 0..15 : c \in CHOOSE s \in {{Ch("0123456789abcdef", n+1), Ch("0123456789ABCDEF", n+1)}} : TRUE]
W10 == FromInt(10)  W16 == FromInt(16)  W8 == FromInt(8)
Suffix == CharSet("uUlL")
(* integer constant -> [v, u] *)
NumF(s) ==
  LET hex == Len(s) > 2 /\ SubSeq(s, 1, 2) \in {"0x", "0X"}
      oct == ~hex /\ Len(s) > 1 /\ Ch(s, 1) = "0"
      base == IF hex THEN W16 ELSE IF oct THEN W8 ELSE W10
      from == IF hex THEN 3 ELSE 1
      ds == {i \in from..Len(s) : Ch(s, i) \in Suffix}
      end == IF ds = {} THEN Len(s) ELSE (CHOOSE i \in ds : \A j \in ds : i <= j) - 1
      v == FoldLeft(LAMBDA a, i : Add(Mul(a, base), FromInt(DigitVal[Ch(s, from + i - 1)])), W0, Ids(end - from + 1))
      u == \/ \E i \in ds : Ch(s, i) \in {"u", "U"}
           \/ Neg(v)
  IN [v |-> v, u |-> IF u THEN 1 ELSE 0]

Prec == [op \in {"||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%", "?"} |->
   CASE op = "?" -> 1 [] op = "||" -> 2 [] op = "&&" -> 3 [] op = "|" -> 4 [] op = "^" -> 5 [] op = "&" -> 6
     [] op \in {"==", "!="} -> 7 [] op \in {"<", ">", "<=", ">="} -> 8 [] op \in {"<<", ">>"} -> 9
     [] op \in {"+", "-"} -> 10 [] OTHER -> 11]

Rs(v, u, i, e) == [v |-> v, u |-> u, i |-> i, err |-> e]
Bin(op, a, b) ==      \* value and signedness; err for division by zero and shifts out of range
  LET u == Max1(a.u, b.u)
      lt(x, y) == IF u = 1 THEN LtU(x, y) ELSE LtS(x, y)
      r(v) == <<v, u, "">>  bo(p) == <<B2W(p), 0, "">> IN
  CASE op = "+" -> r(Add(a.v, b.v)) [] op = "-" -> r(Sub(a.v, b.v)) [] op = "*" -> r(Mul(a.v, b.v))
    [] op \in {"/", "%"} ->
        IF IsZero(b.v) THEN <<W0, u, "div">>
        ELSE (LET d == IF u = 1 THEN DivModU(a.v, b.v) ELSE DivModS(a.v, b.v) IN
              IF u = 0 /\ a.v = WMin /\ b.v = WM1 THEN <<W0, u, "ovf">> ELSE r(IF op = "/" THEN d.q ELSE d.r))
    [] op = "&" -> r(WAnd(a.v, b.v)) [] op = "|" -> r(WOr(a.v, b.v)) [] op = "^" -> r(WXor(a.v, b.v))
    [] op = "<<" -> IF ~Small(b.v) \/ ToNat(b.v) > 63 THEN <<W0, a.u, "shift">> ELSE <<Shl(a.v, ToNat(b.v)), a.u, "">>
    [] op = ">>" -> IF ~Small(b.v) \/ ToNat(b.v) > 63 THEN <<W0, a.u, "shift">>
                    ELSE <<IF a.u = 1 THEN ShrU(a.v, ToNat(b.v)) ELSE ShrS(a.v, ToNat(b.v)), a.u, "">>
    [] op = "==" -> bo(a.v = b.v) [] op = "!=" -> bo(a.v # b.v)
    [] op = "<" -> bo(lt(a.v, b.v)) [] op = ">" -> bo(lt(b.v, a.v))
    [] op = "<=" -> bo(~lt(b.v, a.v)) [] op = ">=" -> bo(~lt(a.v, b.v))
    [] OTHER -> <<W0, 0, "op">>

PE[x \in Any] ==         \* x = <<mode, toks, i, prec, lhs>>: "u" unary, "e" climb from unary, "l" the loop
  LET ts == x[2]  i == x[3]  n == Len(ts) IN
  CASE x[1] = "u" ->
        IF i > n THEN Rs(W0, 0, i, "syntax")
        ELSE (LET t == ts[i] IN
          CASE t[1] = "n" /\ \E j \in 1..Len(t[2]) : Ch(t[2], j) = "." -> Rs(W0, 0, i, "syntax")
            [] t[1] = "n" -> (LET q == NumF(t[2]) IN Rs(q.v, q.u, i + 1, ""))
            [] t[1] = "i" -> Rs(W0, 0, i + 1, "")          \* remaining identifiers are 0
            [] Is(t, "(") -> (LET r == PE[<<"e", ts, i + 1, 1, 0>>] IN
                              IF r.i > n \/ ~Is(ts[r.i], ")") THEN Rs(W0, 0, i, "syntax") ELSE [r EXCEPT !.i = @ + 1])
            [] t[2] \in {"-", "+", "!", "~"} ->
                 (LET r == PE[<<"u", ts, i + 1, 0, 0>>] IN
                  CASE t[2] = "-" -> [r EXCEPT !.v = Minus(@)] [] t[2] = "+" -> r
                    [] t[2] = "!" -> [r EXCEPT !.v = B2W(IsZero(@)), !.u = 0] [] OTHER -> [r EXCEPT !.v = WNot(@)])
            [] OTHER -> Rs(W0, 0, i, "syntax"))
    [] x[1] = "e" -> PE[<<"l", ts, 0, x[4], PE[<<"u", ts, i, 0, 0>>]>>]
    [] x[1] = "l" ->
        (LET a == x[5] IN
         IF a.err = "syntax" \/ a.i > n \/ ts[a.i][2] \notin DOMAIN Prec \/ ts[a.i][1] # "p" THEN a
         ELSE LET op == ts[a.i][2]  p == Prec[op] IN
         IF p < x[4] THEN a
         ELSE IF op = "?" THEN
              (LET b == PE[<<"e", ts, a.i + 1, 1, 0>>] IN
               IF b.err = "syntax" \/ b.i > n \/ ~Is(ts[b.i], ":") THEN Rs(W0, 0, a.i, "syntax")
               ELSE LET c == PE[<<"e", ts, b.i + 1, 1, 0>>] IN
                    IF c.err = "syntax" THEN c
                    ELSE Rs(IF IsZero(a.v) THEN c.v ELSE b.v, Max1(b.u, c.u), c.i,
                            IF a.err # "" THEN a.err ELSE IF IsZero(a.v) THEN c.err ELSE b.err))
         ELSE LET b == PE[<<"e", ts, a.i + 1, p + 1, 0>>] IN
              IF b.err = "syntax" THEN b
              ELSE LET r == CASE op = "&&" -> IF a.err # "" THEN <<W0, 0, a.err>> ELSE IF IsZero(a.v) THEN <<W0, 0, "">> ELSE <<B2W(~IsZero(b.v)), 0, b.err>>
                             [] op = "||" -> IF a.err # "" THEN <<W0, 0, a.err>> ELSE IF ~IsZero(a.v) THEN <<W1, 0, "">> ELSE <<B2W(~IsZero(b.v)), 0, b.err>>
                             [] OTHER -> IF a.err # "" THEN <<W0, 0, a.err>> ELSE IF b.err # "" THEN <<W0, 0, b.err>> ELSE Bin(op, a, b)
                   IN PE[<<"l", ts, 0, x[4], Rs(r[1], r[2], b.i, r[3])>>])
(* value of a whole token list: [ok, t (truth), err] *)
PPEval(ts) ==
  LET r == PE[<<"e", ts, 1, 1, 0>>] IN
  IF r.err # "" THEN [ok |-> FALSE, t |-> FALSE, err |-> r.err]
  ELSE IF r.i # Len(ts) + 1 THEN [ok |-> FALSE, t |-> FALSE, err |-> "syntax"]
  ELSE [ok |-> TRUE, t |-> ~IsZero(r.v), err |-> ""]
=============================================================================
