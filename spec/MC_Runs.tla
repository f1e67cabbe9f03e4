------------------------------- MODULE MC_Runs ------------------------------
\* C24: run regexes against the runs of all rows of the small stages
EXTENDS ModelBase
CONSTANTS N
VARIABLES a, done
Init == a \in RowsUpTo(N) /\ done = FALSE
n == Len(a)
Hows == {"front", "back", "all", "fb", "ext", "int"}
Ops == {[op |-> "runs_match", a |-> a, len |-> l] : l \in 2..(n + 1)} \cup {[op |-> "runlen", a |-> a]}
       \cup (IF a = Rounds(n) THEN {[op |-> "runs", n |-> k, len |-> l, how |-> h] : k \in {n, n + 8}, l \in 2..(n + 3), h \in Hows} ELSE {})
       \cup {[op |-> "rx_match", e |-> x, a |-> a] : x \in IF n = 4 THEN Rng(RunsAll(4, 3)) \cup Rng(RunsFront(4, 2)) ELSE {}}
Next == ~done /\ done' = TRUE /\ a' = a /\ EmitAll(<<>>, SetToSeq(Ops), <<>>)
\* A run from place s of length l
IsRunAt(s, l) == s + l <= n /\ (\/ \A i \in 1..(l - 1) : a[s + i + 1] = a[s + i] + 1
                                \/ \A i \in 1..(l - 1) : a[s + i + 1] = a[s + i] - 1)
Matched(rs) == \E k \in 1..Len(rs) : RegexMatches(rs[k], a)
RunLaw == \A l \in 2..(n + 1) :
  /\ Matched(RunsFront(n, l)) <=> IsRunAt(0, l)
  /\ Matched(RunsBack(n, l)) <=> (l <= n /\ IsRunAt(n - l, l))
  /\ Matched(RunsAll(n, l)) <=> \E s \in 0..(n - 1) : IsRunAt(s, l)
  /\ Cardinality(Rng(RunsOf(n, l))) = Len(RunsOf(n, l))
  /\ FrontRuns(a, l) = Cardinality({k \in 1..Len(RunsFront(n, l)) : RegexMatches(RunsFront(n, l)[k], a)})
  /\ BackRuns(a, l) = Cardinality({k \in 1..Len(RunsBack(n, l)) : RegexMatches(RunsBack(n, l)[k], a)})
  /\ NumRunsIn(a, l) = Cardinality({k \in 1..Len(RunsAll(n, l)) : RegexMatches(RunsAll(n, l)[k], a)})
LenLaw == LET k == RunLen(a)
          IN  /\ k \in 1..n
              /\ \A i \in 1..(k - 1) : Abs(a[i] - a[i + 1]) = 1
              /\ k < n => Abs(a[k] - a[k + 1]) # 1
=============================================================================
