------------------------------- MODULE Lexer --------------------------------
(* What the lexer means (C26, C27): at every position of the text, the white space is skipped and the    *)
(* longest token, or one error, is taken. A text is a sequence of code points.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxInt        \* the digits of the greatest integer

White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
Digit == 48..57
Letter == (65..90) \cup (97..122)
Quote == 34
Bksl == 92
Dot == 46
Punct == [x \in {123, 125, 91, 93, 61, 44, 59} |->
            CASE x = 123 -> "lcurly" [] x = 125 -> "rcurly" [] x = 91 -> "lsquare" [] x = 93 -> "rsquare"
              [] x = 61 -> "equals" [] x = 44 -> "comma" [] x = 59 -> "semicolon"]
IdentChar == Letter \cup Digit \cup {95}
NumChar == Digit \cup {Dot}
(* The first (last) position of a..b where t is (not) in S; b + 1 (a - 1) if there is none.               *)
RECURSIVE FirstIn(_, _, _, _), FirstOut(_, _, _, _), LastOut(_, _, _, _)
FirstIn(t, a, b, S) ==
  IF a > b THEN b + 1 ELSE IF a = b THEN (IF t[a] \in S THEN a ELSE b + 1)
  ELSE LET m == (a + b) \div 2  x == FirstIn(t, a, m, S) IN IF x <= m THEN x ELSE FirstIn(t, m + 1, b, S)
FirstOut(t, a, b, S) ==
  IF a > b THEN b + 1 ELSE IF a = b THEN (IF t[a] \in S THEN b + 1 ELSE a)
  ELSE LET m == (a + b) \div 2  x == FirstOut(t, a, m, S) IN IF x <= m THEN x ELSE FirstOut(t, m + 1, b, S)
LastOut(t, a, b, S) ==
  IF a > b THEN a - 1 ELSE IF a = b THEN (IF t[a] \in S THEN a - 1 ELSE a)
  ELSE LET m == (a + b) \div 2  x == LastOut(t, m + 1, b, S) IN IF x > m THEN x ELSE LastOut(t, a, m, S)
RECURSIVE FlatPart(_, _, _)
FlatPart(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                      ELSE LET m == (a + b) \div 2 IN FlatPart(ss, a, m) \o FlatPart(ss, m + 1, b)
(* The first position from i on whose character is not in C (one behind the end if there is none).        *)
Past(t, i, C) == IF i > Len(t) THEN i ELSE FirstOut(t, i, Len(t), C)
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
StripFront(s) == SubSeq(s, Past(s, 1, {48}), Len(s))
StripBack(s) == SubSeq(s, 1, LastOut(s, 1, Len(s), {48}))
(* Digit strings without leading zeros are ordered by length, then lexically.                            *)
AtMost(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                ELSE \/ a = b
                     \/ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
(* Numbers: digits, with fractions that begin and end with a digit. One that starts at i ends before n if *)
(* n is the greatest such.                                                                               *)
IsNumber(t, i, n) == /\ n > i /\ \A k \in i..(n - 1) : t[k] \in Digit \cup {Dot}
                     /\ t[i] \in Digit /\ t[n - 1] \in Digit
                     /\ \A k \in i..(n - 2) : ~(t[k] = Dot /\ t[k + 1] = Dot)
LongestNumber(t, i) == Greatest({n \in (i + 1)..Past(t, i, NumChar) : IsNumber(t, i, n)})
(* That is: it ends before the first dot that no digit follows.                                          *)
NumberEnd(t, i) == LET e == Past(t, i, NumChar)
                   IN FirstIn([k \in i..(e - 1) |-> t[k] = Dot /\ (IF k + 1 >= e THEN TRUE ELSE t[k + 1] = Dot)], i, e - 1, {TRUE})
Dots(s) == {k \in 1..Len(s) : s[k] = Dot}
IntText(s) == LET d == StripFront(s) IN IF d = <<>> THEN <<48>> ELSE d
(* In a string whose body starts at i, position k is escaped if the backslashes before it are odd.        *)
Escaped(t, i, k) == (k - 1 - LastOut(t, i, k - 1, {Bksl})) % 2 = 1
(* The position of the quote that closes the string whose body starts at i, or 0.                         *)
Closing(t, i) == LET n == FirstIn([k \in i..Len(t) |-> t[k] = Quote /\ ~Escaped(t, i, k)], i, Len(t), {TRUE})
                 IN IF n > Len(t) THEN 0 ELSE n
Escape(c) == CASE c = 110 -> <<10>> [] c = 116 -> <<9>> [] c = 114 -> <<13>> [] OTHER -> <<Bksl, c>>
Body(t, i, n) ==
  LET part(k) == IF t[k] = Bksl THEN (IF Escaped(t, i, k) THEN <<>> ELSE Escape(t[k + 1]))
                 ELSE IF k > i /\ t[k - 1] = Bksl /\ Escaped(t, i, k) THEN <<>> ELSE <<t[k]>>
      parts == TLCEval([k \in 1..(n - i) |-> part(i + k - 1)])
  IN FlatPart(parts, 1, n - i)
Token(k, v, n) == [what |-> k, val |-> v, next |-> n]
(* The token, error or end that comes next from position i: what, its value, where the next one starts,   *)
(* and (start) where it starts itself.                                                                   *)
At(t, i) ==
  LET s == Past(t, i, White) IN
  IF s > Len(t) THEN [start |-> s, what |-> "end", val |-> <<>>, next |-> s]
  ELSE LET c == t[s]
           r == IF c \in DOMAIN Punct THEN Token(Punct[c], <<>>, s + 1)
                ELSE IF c = 45 /\ s < Len(t) /\ t[(s % Len(t)) + 1] = 62 THEN Token("arrow", <<>>, s + 2)
                ELSE IF c \in Letter \cup {95}
                THEN LET n == Past(t, s, IdentChar) IN Token("ident", SubSeq(t, s, n - 1), n)
                ELSE IF c \in Digit
                THEN LET n == NumberEnd(t, s)
                         x == SubSeq(t, s, n - 1)
                         d == Cardinality(Dots(x))
                     IN IF d = 0 THEN Token(IF AtMost(StripFront(x), MaxInt) THEN "integer" ELSE "error", IntText(x), n)
                        ELSE Token(IF d = 1 THEN "float" ELSE "error", x, n)
                ELSE IF c = Quote
                THEN LET n == Closing(t, s + 1) IN
                     IF n = 0 THEN Token("error", <<>>, Len(t) + 1) ELSE Token("string", Body(t, s + 1, n), n + 1)
                ELSE Token("error", <<>>, s + 1)
       IN [start |-> s, what |-> r.what, val |-> r.val, next |-> r.next]
(* Line and column of position i.                                                                        *)
LineCol(t, i) == <<Cardinality({k \in 1..(i - 1) : t[k] = 10}) + 1, i - LastOut([k \in 1..(i - 1) |-> t[k] = 10], 1, i - 1, {FALSE})>>
(* Everything, to the end.                                                                               *)
RECURSIVE All(_, _)
All(t, i) == LET r == At(t, i) IN IF r.what = "end" THEN <<>> ELSE <<r>> \o All(t, r.next)

(* The same, by induction along the text.                                                                *)
RECURSIVE PastInd(_, _, _), ClosingInd(_, _), BodyInd(_, _, _), StripFrontInd(_), StripBackInd(_)
PastInd(t, i, C) == IF i > Len(t) THEN i ELSE IF t[i] \in C THEN PastInd(t, i + 1, C) ELSE i
ClosingInd(t, i) == IF i > Len(t) THEN 0
                    ELSE IF t[i] = Quote THEN i ELSE ClosingInd(t, IF t[i] = Bksl THEN i + 2 ELSE i + 1)
BodyInd(t, i, n) == IF i >= n THEN <<>>
                    ELSE IF t[i] = Bksl THEN Escape(t[i + 1]) \o BodyInd(t, i + 2, n) ELSE <<t[i]>> \o BodyInd(t, i + 1, n)
StripFrontInd(s) == IF s # <<>> /\ s[1] = 48 THEN StripFrontInd(Tail(s)) ELSE s
StripBackInd(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripBackInd(SubSeq(s, 1, Len(s) - 1)) ELSE s
LineColInd(t, i) == LET nl == {k \in 1..(i - 1) : t[k] = 10} IN
                    <<Cardinality(nl) + 1, IF nl = {} THEN i ELSE i - Greatest(nl)>>
SameAt(t, i) ==
  /\ \A C \in {White, NumChar, IdentChar} : Past(t, i, C) = PastInd(t, i, C)
  /\ Closing(t, i) = ClosingInd(t, i) /\ (Closing(t, i) # 0 => Body(t, i, Closing(t, i)) = BodyInd(t, i, Closing(t, i)))
  /\ LineCol(t, i) = LineColInd(t, i)
  /\ (IF i <= Len(t) THEN t[i] \in Digit ELSE FALSE) => NumberEnd(t, i) = LongestNumber(t, i)
Inductive(t) == StripFront(t) = StripFrontInd(t) /\ StripBack(t) = StripBackInd(t) /\ \A i \in 1..(Len(t) + 1) : SameAt(t, i)
=============================================================================
