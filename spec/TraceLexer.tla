----------------------------- MODULE TraceLexer -----------------------------
(* Validates recorded calls of the lexer: with MODE = "tokens" the tokens up to the first error (C26),    *)
(* with MODE = "errors" where calls fail, what is reported, and where they resume (C27).                  *)
EXTENDS TraceLib
VARIABLES l, text, pos, errs
L == INSTANCE Lexer WITH MaxInt <- <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
vars == <<l, text, pos, errs>>
Tokens == IOEnv.MODE = "tokens"
E0 == Trace[l]
TInit == l = 1 /\ text = <<>> /\ pos = 1 /\ errs = <<>>
IsEvent(n) == l <= Len(Trace) /\ E0.ev = n /\ l' = l + 1

(* Decimal numbers: the significant digits, and the place of the decimal point relative to the first of     *)
(* them. Zero has no digits.                                                                            *)
Zero == 48
RECURSIVE Inc(_)
Inc(s) == IF s = <<>> THEN <<49>> ELSE IF s[Len(s)] = 57 THEN Append(Inc(SubSeq(s, 1, Len(s) - 1)), Zero)
          ELSE [s EXCEPT ![Len(s)] = @ + 1]
Decimal(s) ==
  LET dots == {k \in 1..Len(s) : s[k] = 46}
      k == IF dots = {} THEN Len(s) + 1 ELSE CHOOSE k \in dots : TRUE
      all == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
      lead == L!StripFront(all)
  IN [digits |-> L!StripBack(lead), point |-> IF lead = <<>> THEN 0 ELSE k - 1 - (Len(all) - Len(lead))]
First(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE Zero]
(* v, the shortest text of a binary floating point number, is s. Up to 15 digits survive exactly; beyond     *)
(* that the first 15 may be off by one in the last; beyond 10^300 nothing is said.                        *)
SameFloat(v, s) ==
  LET a == Decimal(v)  b == Decimal(s) IN
  IF b.point > 300 \/ b.point < -290 THEN TRUE
  ELSE IF Len(b.digits) <= 15 THEN a = b
  ELSE LET x == First(a.digits, 15)  y == First(b.digits, 15) IN
       \/ a.point = b.point /\ (x = y \/ x = Inc(y) \/ y = Inc(x))
       \/ a.point = b.point + 1 /\ Inc(y) = Append(x, Zero)
Value(r, tok) == IF r.what = "float" THEN SameFloat(tok.v, r.val) ELSE tok.v = r.val

Open == IsEvent("open") /\ text' = E0.text /\ pos' = 1 /\ errs' = <<>>
Call ==
  /\ IsEvent("next") /\ ~E0.panic /\ UNCHANGED text
  /\ LET r == L!At(text, pos) IN
     /\ pos' = r.next
     /\ errs' = IF r.what = "error" THEN Append(errs, L!LineCol(text, r.start)) ELSE errs
     /\ (Tokens /\ errs # <<>>) \/
        /\ E0.some <=> r.what \notin {"end", "error"}
        /\ Tokens /\ E0.some => E0.tok.t = r.what /\ Value(r, E0.tok)
        /\ ~Tokens => E0.errs = Len(errs') /\ (E0.has <=> errs' # <<>>)
(* All errors are reported, at their places, in order.                                                  *)
Errors == IsEvent("errors") /\ UNCHANGED <<text, pos, errs>> /\ (Tokens \/ E0.pos = errs)
Again == IsEvent("again") /\ UNCHANGED <<text, pos, errs>> /\ (Tokens => E0.same)
TNext == Open \/ Call \/ Errors \/ Again
TSpec == TInit /\ [][TNext]_vars
=============================================================================
