------------------------------- MODULE MC_Make ------------------------------
\* C01: making rows out of sequences of bells, and out of texts
EXTENDS ModelBase
CONSTANTS N,      \* length of sequences of bells
          TL      \* length of texts
VARIABLES ev, done

Alphabet == {49, 50, 51, 120, 32, 304}
Cases == {[op |-> "row_vec", v |-> v] : v \in Seqs(0..N, N)}
         \cup {[op |-> "row_vec_st", v |-> v, n |-> n] : v \in Seqs(0..N, N - 1), n \in 1..N}
         \cup {[op |-> "row_parse", s |-> s] : s \in Seqs(Alphabet, TL)}
         \cup {[op |-> "row_parse_st", s |-> s, n |-> n] : s \in Seqs(Alphabet, TL - 1), n \in 1..3}
         \cup {[op |-> "row_std", how |-> h, n |-> n] : h \in {"rounds", "backrounds", "queens"}, n \in 1..20}
Init == ev \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ ev' = ev /\ Emit(<<ev>>)

Allowed == Call(InitState, ev).exp
Given   == IF ev.op \in {"row_parse", "row_parse_st"} THEN BellsIn(ev.s) ELSE ev.v
\* Whether an error tells of a real fault
Real(e, v, n) == CASE e.k = "none" -> v = <<>>
                   [] e.k = "dup"  -> \E i, j \in 1..Len(v) : i < j /\ v[i] = v[j] /\ v[i] = e.b
                   [] e.k = "out"  -> e.b \in Rng(v) /\ e.b >= e.s /\ e.s = n
                   [] e.k = "miss" -> e.b \notin Rng(v) /\ e.b < n
Law == IF ev.op = "row_std" THEN \A o \in Allowed : IsRow(o.v) /\ Len(o.v) = ev.n
       ELSE LET v == Given
                st == ev.op \in {"row_vec_st", "row_parse_st"}
                n == IF st THEN ev.n ELSE Len(v)
                good == IF st THEN v = <<>> \/ ((\A b \in 0..(Len(v) - 1) : CountOf(b, v) = 1) /\ Len(v) <= n)
                        ELSE v # <<>> /\ \A b \in 0..(Len(v) - 1) : CountOf(b, v) = 1
            IN  /\ Allowed # {}
                /\ good => \A o \in Allowed : o.t = "ok" /\ IsRow(o.v) /\ Len(o.v) = n
                                              /\ SubSeq(o.v, 1, Len(v)) = v
                                              /\ \A i \in (Len(v) + 1)..n : o.v[i] = i - 1
                /\ ~good => \A o \in Allowed : o.t = "err" /\ Real(o, v, n)
=============================================================================
