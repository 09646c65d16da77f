----------------------------- MODULE LexerImpl ------------------------------
(* The lexer, shape of the code: a machine that consumes one character at a time, and looks at most two   *)
(* ahead. Checked against Lexer on every text of up to N characters over Alphabet.                       *)
(* Mode "ok" is the code; "dot" takes a dot without looking for a digit behind it; "esc" does not take    *)
(* the character behind a backslash together with it; "lost" loses the character that ends a number.      *)
EXTENDS Lexer, TLC
CONSTANTS Alphabet, N, Mode
VARIABLES text, pos, pc, start, buf, out
vars == <<text, pos, pc, start, buf, out>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..N}
Eleven == <<49, 49>>
Init == text \in Texts /\ pos = 1 /\ pc = "next" /\ start = 0 /\ buf = <<>> /\ out = <<>>
More == pos <= Len(text)
C == text[pos]
PeekIs(k, S) == IF pos + k > Len(text) THEN FALSE ELSE text[pos + k] \in S
Emit(w, v) == out' = Append(out, [start |-> start', what |-> w, val |-> v, next |-> pos']) /\ pc' = "next" /\ buf' = <<>>
Dispatch ==
  /\ pc = "next" /\ More /\ UNCHANGED text
  /\ IF C \in {32, 10, 13, 9} \cup White /\ C \notin DOMAIN Punct THEN pos' = pos + 1 /\ UNCHANGED <<pc, start, buf, out>>
     ELSE /\ start' = pos
          /\ IF C = 45 /\ PeekIs(1, {62}) THEN pos' = pos + 2 /\ Emit("arrow", <<>>)
             ELSE /\ pos' = pos + 1
                  /\ IF C \in DOMAIN Punct THEN Emit(Punct[C], <<>>)
                     ELSE IF C = Quote THEN pc' = "string" /\ buf' = <<>> /\ UNCHANGED out
                     ELSE IF C \in Letter \cup {95} THEN pc' = "ident" /\ buf' = <<C>> /\ UNCHANGED out
                     ELSE IF C \in Digit THEN pc' = "number" /\ buf' = <<C>> /\ UNCHANGED out
                     ELSE Emit("error", <<>>)
Finish == pc = "next" /\ ~More /\ pc' = "done" /\ UNCHANGED <<text, pos, start, buf, out>>
Ident == /\ pc = "ident" /\ UNCHANGED <<text, start>>
         /\ IF PeekIs(0, Letter \cup Digit \cup {95}) THEN pos' = pos + 1 /\ buf' = Append(buf, C) /\ UNCHANGED <<pc, out>>
            ELSE pos' = pos /\ Emit("ident", buf)
Str == /\ pc = "string" /\ UNCHANGED <<text, start>>
       /\ IF ~More THEN pos' = pos /\ Emit("error", <<>>)
          ELSE IF C = Quote THEN pos' = pos + 1 /\ Emit("string", buf)
          ELSE IF C = Bksl
          THEN IF pos + 1 > Len(text) THEN pos' = pos + 1 /\ UNCHANGED <<pc, buf, out>>
               ELSE IF Mode = "esc" /\ text[pos + 1] = Quote THEN pos' = pos + 1 /\ buf' = Append(buf, C) /\ UNCHANGED <<pc, out>>
               ELSE pos' = pos + 2 /\ buf' = buf \o Escape(text[pos + 1]) /\ UNCHANGED <<pc, out>>
          ELSE pos' = pos + 1 /\ buf' = Append(buf, C) /\ UNCHANGED <<pc, out>>
Number == /\ pc = "number" /\ UNCHANGED <<text, start>>
          /\ IF PeekIs(0, Digit) \/ (PeekIs(0, {Dot}) /\ (PeekIs(1, Digit) \/ Mode = "dot"))
             THEN pos' = pos + 1 /\ buf' = Append(buf, C) /\ UNCHANGED <<pc, out>>
             ELSE LET d == Cardinality(Dots(buf)) IN
                  /\ pos' = IF Mode = "lost" /\ More THEN pos + 1 ELSE pos
                  /\ IF d = 0 THEN Emit(IF AtMost(StripFront(buf), MaxInt) THEN "integer" ELSE "error", IntText(buf))
                     ELSE Emit(IF d = 1 THEN "float" ELSE "error", buf)
Next == Dispatch \/ Finish \/ Ident \/ Str \/ Number
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == pc = "done" => out = All(text, 1)
Same == pc = "done" => Inductive(text)
(* What has been returned is always a prefix of what is right.                                           *)
Prefix == LET a == All(text, 1) IN Len(out) <= Len(a) /\ out = SubSeq(a, 1, Len(out))
(* Laws of the specification itself: tokens do not overlap and are in order, and the gaps between them     *)
(* are white space.                                                                                      *)
Covers == LET a == All(text, 1) IN
  \A k \in 1..Len(a) : /\ a[k].start < a[k].next /\ a[k].next <= Len(text) + 1
                       /\ LET b == IF k = 1 THEN 1 ELSE a[k - 1].next IN
                          b <= a[k].start /\ \A j \in b..(a[k].start - 1) : text[j] \in White
Ends == <>(pc = "done")
=============================================================================
