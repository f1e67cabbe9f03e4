------------------------------ MODULE MC_Multi ------------------------------
\* C10: reading texts of several lines, by an automaton which takes them one character at a time
EXTENDS ModelBase
CONSTANTS TL      \* length of the texts
VARIABLES s, lines, cur, open

Alphabet == {49, 50, 10, 32}
Init == s = <<>> /\ lines = <<>> /\ cur = <<>> /\ open = FALSE
\* lines: the bells of the lines which have ended; cur: those of the present one; open: whether it has any characters
Read(c) == /\ s' = Append(s, c)
           /\ IF c = 10 THEN lines' = Append(lines, cur) /\ cur' = <<>> /\ open' = FALSE
              ELSE lines' = lines /\ open' = TRUE /\ cur' = IF BellOf(c) >= 0 THEN Append(cur, BellOf(c)) ELSE cur
Next == /\ Len(s) < TL /\ \E c \in Alphabet : Read(c)
        /\ Emit(<<[op |-> "mparse", s |-> s', how |-> "vec"], [op |-> "mparse", s |-> s', how |-> "blk"]>>)
AllTexts == IF open THEN Append(lines, cur) ELSE lines
Law == LET l == Lines(s) IN Len(l) = Len(AllTexts) /\ \A k \in 1..Len(l) : BellsIn(l[k]) = AllTexts[k]
\* Exactly one kind of result is possible
Res == LET good == AllTexts # <<>> /\ \A k \in 1..Len(AllTexts) : IsRow(AllTexts[k]) /\ Len(AllTexts[k]) = Len(AllTexts[1])
       IN  [t |-> "ok", n |-> IF good THEN Len(AllTexts[1]) ELSE 0, rows |-> AllTexts, an |-> <<>>]
Errs == {[t |-> "err", k |-> "row", line |-> l, e |-> e] :
            l \in 1..(TL + 1), e \in {RowErr("none", 0, 0), RowErr("dup", 0, 0), RowErr("dup", 1, 0), RowErr("out", 1, 1),
                                      RowErr("miss", 0, 0), RowErr("miss", 1, 0)}}
        \cup {[t |-> "err", k |-> "stage", line |-> l, p |-> p, q |-> q] : l \in 1..(TL + 1), p, q \in 1..2}
        \cup {[t |-> "err", k |-> "zero"]}
GoodLaw == LET good == AllTexts # <<>> /\ \A k \in 1..Len(AllTexts) : IsRow(AllTexts[k]) /\ Len(AllTexts[k]) = Len(AllTexts[1])
           IN  /\ MultiParseOk(s, Res, FALSE) <=> good
               /\ good => \A e \in Errs : ~MultiParseOk(s, e, FALSE)
\* There always is an error to give, and it names a line which is bad
BadLaw == LET good == MultiParseOk(s, Res, FALSE)
          IN  ~good => /\ \E e \in Errs : MultiParseOk(s, e, FALSE)
                       /\ \A e \in Errs : MultiParseOk(s, e, FALSE) /\ e.k = "stage" =>
                            e.line <= Len(AllTexts) /\ Len(AllTexts[e.line]) # Len(AllTexts[1])
=============================================================================
