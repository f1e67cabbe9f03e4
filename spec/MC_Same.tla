------------------------------ MODULE MC_Same ------------------------------
\* C36: equality, order, hashing and cloning, for each pair of small values of each kind and each way to make them
EXTENDS ModelBase
VARIABLES ev, done
CONSTANTS N, B

ValidSets(n) == {Ascending(S, n) : S \in SUBSET (0..(n - 1))}
Pns == UNION {{Pn(n, pl) : pl \in {x \in ValidSets(n) : ValidPlaces(x, n)}} : n \in 1..(N + 2)}
PnsAt(n) == {p \in Pns : p.n = n}
PnBlocks == UNION {UNION {[1..k -> PnsAt(n)] : k \in 1..2} : n \in 1..N}
Masks == {m \in Seqs(Free..(N - 1), N) : Satisfiable(m)}
Regexes == Seqs({Glob, Wild, 0, 1}, N)
Vecs == UNION {{Vec(n, rows) : rows \in Seqs(RowsOf(n), 2)} : n \in 1..B}
Blks == UNION {{[n |-> n, rows |-> rows, an |-> an] : an \in [1..(Len(rows) - 1) -> 0..1]}
                : <<n, rows>> \in UNION {{<<n, rows>> : rows \in Seqs(RowsOf(n), 3) \ {<<>>}} : n \in 1..B}}
Classes == {[j |-> j, l |-> l, d |-> d, c |-> c] : j, l, d \in BOOLEAN, c \in 0..8}

Values(kind) ==
  CASE kind = "row" -> RowsUpTo(N + 1)
    [] kind = "bell" -> 0..(N + 2)
    [] kind = "stage" -> 1..(N + 2)
    [] kind = "hunt" -> 0..4
    [] kind = "class" -> Classes
    [] kind = "main" -> 0..8
    [] kind = "parity" -> 0..1
    [] kind = "elem" -> Glob..N
    [] kind = "mis" -> {<<x, y>> \in (1..N) \X (1..N) : x # y}
    [] kind = "pn" -> Pns
    [] kind = "pnb" -> PnBlocks
    [] kind = "mask" -> Masks
    [] kind = "regex" -> Regexes
    [] kind = "vec" -> Vecs
    [] kind = "blk" -> Blks
    [] kind = "arow" -> {[r |-> r, a |-> a] : r \in RowsUpTo(N), a \in 0..1}
Kinds == {"row", "bell", "stage", "hunt", "class", "main", "parity", "elem", "mis", "pn", "pnb", "mask", "regex", "vec", "blk", "arow"}
Ways(kind) == IF kind \in {"hunt", "class", "main", "elem", "mis"} THEN {0} ELSE IF kind \in {"bell", "stage", "parity", "pn"} THEN 0..2 ELSE 0..5

\* Each pair of values, and each value made in each pair of ways
Init == /\ done = FALSE
        /\ \E k \in Kinds :
              \/ \E a, b \in Values(k) : ev = <<k, a, b, 0, 0>>
              \/ \E a \in Values(k), x, y \in Ways(k) : ev = <<k, a, a, x, y>>
Event == [op |-> "same", how |-> ev[1], a |-> ev[2], b |-> ev[3], wa |-> ev[4], wb |-> ev[5]]
Next == ~done /\ done' = TRUE /\ ev' = ev /\ Emit(<<Event>>)

\* Regexes are equal only if they match the same rows; the order is one, and agrees with equality
Law == LET k == ev[1]
           a == ev[2]
           b == ev[3]
       IN  /\ SameContent(k, a, b) = SameContent(k, b, a)
           /\ k = "regex" /\ SameContent(k, a, b) => \A r \in RowsUpTo(N + 1) : RegexMatches(a, r) = RegexMatches(b, r)
           /\ k \in OrderedKinds => /\ (ContentOrder(k, a, b) = 0) = SameContent(k, a, b)
                                    /\ ContentOrder(k, a, b) = 0 - ContentOrder(k, b, a)
=============================================================================
