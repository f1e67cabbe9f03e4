------------------------------ MODULE MC_Groups -----------------------------
\* C04: closures, products and groups
EXTENDS ModelBase
CONSTANT N        \* largest stage
VARIABLES ev, done

rows(n) == SetToSeq(RowsOf(n))
Order(S) == SetToSeq(S)
Sets2 == UNION {{<<Order(A), Order(B)>> : A \in SUBSET RowsOf(2), B \in SUBSET RowsOf(2)}}
         \cup {<<Order(A), Order(B)>> : A \in {S \in SUBSET RowsOf(3) : Cardinality(S) <= 2},
                                         B \in {S \in SUBSET RowsOf(3) : Cardinality(S) <= 2}}
         \cup {<<Order(A), Order(B), Order(C)>> : A, B, C \in SUBSET RowsOf(2)}
         \cup {<<>>} \cup {<<Order(A)>> : A \in SUBSET RowsOf(3)}
Cases == {[op |-> o, rows |-> Order(S)] : o \in {"lgroup", "isgroup"}, S \in UNION {SUBSET RowsOf(n) : n \in 1..3}}
         \cup {[op |-> o, rows |-> Order(S)] : o \in {"lgroup", "isgroup"},
                 S \in {{x, y} : x \in RowsOf(N), y \in RowsOf(N)}}
         \cup {[op |-> "closure", a |-> r, how |-> h] : r \in RowsUpTo(N), h \in {"self", "rounds"}}
         \cup {[op |-> "cart", sets |-> s] : s \in Sets2}
Init == ev \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ ev' = ev /\ Emit(<<ev>>)

Closed(S) == \A x, y \in S : Mul(x, y) \in S
Law ==
  CASE ev.op = "lgroup" ->
         LET S == Rng(ev.rows)  L == LeastGroup(S)
         IN  /\ S \subseteq L /\ Closed(L)
             /\ S # {} => IsGroup(L) /\ Rounds(Len(ev.rows[1])) \in L /\ \A x \in L : Inv(x) \in L
             /\ S # {} /\ Len(ev.rows[1]) <= 3 =>
                  \A W \in SUBSET RowsOf(Len(ev.rows[1])) : S \subseteq W /\ Closed(W) => L \subseteq W
    [] ev.op = "isgroup" ->
         LET S == Rng(ev.rows)
         IN  IsGroup(S) <=> (S # {} /\ Closed(S) /\ \A x \in S : Inv(x) \in S)
    [] ev.op = "closure" ->
         LET c == Closure(ev.a)  f == ClosureFromRounds(ev.a)
         IN  /\ \A i \in 1..Len(c) : c[i] = Pow(ev.a, i) /\ f[i] = Pow(ev.a, i - 1)
             /\ Len(f) = Len(c) /\ Cardinality(Rng(c)) = Len(c) /\ Rng(c) = Rng(f)
             /\ c[Len(c)] = Rounds(Len(ev.a)) /\ IsGroup(Rng(c))
    [] ev.op = "cart" ->
         LET p == CartProduct(ev.sets)
             size == IF ev.sets = <<>> THEN 0 ELSE FoldLeft(LAMBDA x, s : x * Len(s), 1, ev.sets)
         IN  /\ Len(p) = size
             /\ size > 0 =>
                  /\ \A f \in [1..Len(ev.sets) -> 1..4] :
                        (\A i \in 1..Len(ev.sets) : f[i] <= Len(ev.sets[i])) =>
                          FoldLeft(LAMBDA x, i : Mul(x, ev.sets[i][f[i]]), Rounds(Len(p[1])), [i \in 1..Len(ev.sets) |-> i]) \in Rng(p)
=============================================================================
