------------------------------- MODULE MC_Regex -----------------------------
\* C23, C25: all short regexes on all rows of the small stages
EXTENDS ModelBase
CONSTANTS E,      \* longest regex
          N       \* largest stage
VARIABLES e, done
Els == -2..N
Init == e \in Seqs(Els, E) /\ done = FALSE
Rows == RowsUpTo(N)
Ops == {[op |-> "rx_match", e |-> e, a |-> a] : a \in Rows}
       \cup {[op |-> "rx_count", e |-> e, n |-> n] : n \in 1..(N + 2)}
       \cup {[op |-> "rx_norm", e |-> e, how |-> h] : h \in {"elems", "vec", "twice"}}
       \cup {[op |-> "rx_parse", s |-> RegexText(e)]}
Next == /\ ~done /\ done' = TRUE /\ e' = e
        /\ EmitAll(<<>>, SetToSeq(Ops), <<>>)

\* Matching, by the ways to cut the row up into parts for the elements
RECURSIVE Cuts(_, _)
\* All ways of writing k as a sum of len numbers
Cuts(k, len) == IF len = 0 THEN IF k = 0 THEN {<<>>} ELSE {}
                ELSE UNION {{<<x>> \o c : c \in Cuts(k - x, len - 1)} : x \in 0..k}
Fits(r, c) == \A i \in 1..Len(e) :
                 LET at == SumSeq(SubSeq(c, 1, i - 1))
                 IN  /\ e[i] # Glob => c[i] = 1
                     /\ e[i] >= 0 => r[at + 1] = e[i]
CutsOf == TLCEval([k \in 1..N |-> Cuts(k, Len(e))])
Matching(n) == {r \in RowsOf(n) : \E c \in CutsOf[n] : Fits(r, c)}
MatchLaw == \A n \in 1..N : \A r \in RowsOf(n) : RegexMatches(e, r) <=> r \in Matching(n)
NormLaw == /\ \A r \in Rows : RegexMatches(Normal(e), r) = RegexMatches(e, r)
           /\ Normal(Normal(e)) = Normal(e) /\ IsNormal(Normal(e))
           /\ RegexParse(RegexText(e)) = e
\* The count is that of the matching rows, when no row is divided in two ways (see Ambiguous)
CountLaw == \A n \in 1..N : RegexCount(e, n) = LET k == Cardinality(Matching(n)) IN IF k = 0 THEN <<>> ELSE <<k>>
=============================================================================
