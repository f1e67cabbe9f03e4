-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Rows as permutations: construction, algebra and queries (src/row).      *)
(***************************************************************************)
EXTENDS Names

IsRow(r)      == Len(r) >= 1 /\ Rng(r) = 0..(Len(r) - 1)
Rounds(n)     == [i \in 1..n |-> i - 1]
Backrounds(n) == [i \in 1..n |-> n - i]
Queens(n)     == LET odds == (n + 1) \div 2
                 IN  [i \in 1..n |-> IF i <= odds THEN 2 * (i - 1) ELSE 2 * (i - odds - 1) + 1]
\* All the rows of a stage (for the small stages of the model checking configurations)
RowsOf(n)     == {r \in [1..n -> 0..(n - 1)] : Cardinality(Rng(r)) = n}

\* a * b has, in each place, the bell of a at the place given by b
Mul(a, b) == TLCEval([i \in 1..Len(b) |-> a[b[i] + 1]])
Inv(a)    == TLCEval([i \in 1..Len(a) |-> (CHOOSE j \in 1..Len(a) : a[j] = i - 1) - 1])
RECURSIVE PowU(_, _)
PowU(a, k) == IF k = 0 THEN Rounds(Len(a))
              ELSE LET h == PowU(a, k \div 2)
                       s == Mul(h, h)
                   IN  IF k % 2 = 0 THEN s ELSE Mul(s, a)
Pow(a, k) == IF k < 0 THEN PowU(Inv(a), -k) ELSE PowU(a, k)
SolveAX(a, b) == Mul(Inv(a), b)     \* x such that a * x = b
SolveXA(a, b) == Mul(b, Inv(a))     \* x such that x * a = b

Swapped(r, p, q) == [r EXCEPT ![p + 1] = r[q + 1], ![q + 1] = r[p + 1]]
Extended(r, n)   == [i \in 1..n |-> IF i <= Len(r) THEN r[i] ELSE i - 1]
PlaceOf(r, b)    == IF b < Len(r) THEN (CHOOSE i \in 1..Len(r) : r[i] = b) - 1 ELSE -1
EffectiveStage(r) == LET moved == {i \in 1..Len(r) : r[i] # i - 1}
                     IN  IF moved = {} THEN 1 ELSE SetMax(moved)
Inversions(r) == Cardinality({<<i, j>> \in (1..Len(r)) \X (1..Len(r)) : i < j /\ r[i] > r[j]})
\* The parity of a row: that of the number of its inversions.  It equals that of the stage less the
\* number of cycles (see MC_Rows), which is quicker to compute for big rows.
ParityByInversions(r) == Inversions(r) % 2
RECURSIVE CycleFrom(_, _, _)
CycleFrom(r, i, seen) == IF i \in seen THEN seen ELSE CycleFrom(r, r[i] + 1, seen \cup {i})
RECURSIVE NumCycles(_, _)
NumCycles(r, left) == IF left = {} THEN 0
                      ELSE LET i == CHOOSE i \in left : TRUE
                           IN  1 + NumCycles(r, left \ CycleFrom(r, i, {}))
ParityByCycles(r) == (Len(r) - NumCycles(r, 1..Len(r))) % 2
Parity(r) == IF Len(r) <= 12 THEN ParityByInversions(r) ELSE ParityByCycles(r)
FixedBells(r) == SelectSeq(r, LAMBDA b : r[b + 1] = b)

\* -1, 0 or 1: the lexicographic order of sequences of numbers
Lex(a, b) ==
  LET m == Min2(Len(a), Len(b))
      d == {i \in 1..m : a[i] # b[i]}
  IN  IF d = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
      ELSE LET i == SetMin(d) IN IF a[i] < b[i] THEN -1 ELSE 1

-----------------------------------------------------------------------------
\* Construction from a sequence of bells: the result, or the set of the faults of the input.
RowErr(k, b, s) == [t |-> "err", k |-> k, b |-> b, s |-> s]

RowFaults(v) ==
  IF v = <<>> THEN {RowErr("none", 0, 0)}
  ELSE {RowErr("out", b, Len(v)) : b \in {c \in Rng(v) : c >= Len(v)}}
       \cup {RowErr("dup", b, 0) : b \in {c \in Rng(v) : CountOf(c, v) > 1}}
       \cup {RowErr("miss", b, 0) : b \in (0..(Len(v) - 1)) \ Rng(v)}
\* The outcomes allowed for making a row of these bells
MakeRow(v) == IF IsRow(v) THEN {Ok(v)} ELSE RowFaults(v)

\* With a target stage, bells 0..k-1 have to be there, and cover bells are added
RowFaultsSt(v, n) ==
  {RowErr("out", b, n) : b \in {c \in Rng(v) : c >= n}}
  \cup {RowErr("dup", b, 0) : b \in {c \in Rng(v) : CountOf(c, v) > 1}}
  \cup (IF v = <<>> THEN {} ELSE
        {RowErr("miss", b, 0) : b \in (0..Min2(SetMax(Rng(v)), n - 1)) \ Rng(v)})
MakeRowSt(v, n) == IF v = <<>> \/ (IsRow(v) /\ Len(v) <= n) THEN {Ok(Extended(v, n))}
                   ELSE RowFaultsSt(v, n)

-----------------------------------------------------------------------------
\* Families of rows
RECURSIVE PowersFrom(_, _)
PowersFrom(acc, a) == LET l == acc[Len(acc)]
                      IN  IF l = Rounds(Len(a)) THEN acc ELSE PowersFrom(Append(acc, Mul(l, a)), a)
\* a, a^2, ..., rounds
Closure(a) == PowersFrom(<<a>>, a)
\* rounds, a, a^2, ... (stopping before rounds comes again)
ClosureFromRounds(a) == LET c == Closure(a) IN <<Rounds(Len(a))>> \o SubSeq(c, 1, Len(c) - 1)

RECURSIVE CartProduct(_)
\* All products of one row from each of the sets (given as sequences), with multiplicity
CartProduct(sets) ==
  IF sets = <<>> THEN <<>>
  ELSE IF Len(sets) = 1 THEN sets[1]
  ELSE LET rest == CartProduct(SubSeq(sets, 1, Len(sets) - 1))
           last == sets[Len(sets)]
       IN  Concat([i \in 1..Len(last) |-> [j \in 1..Len(rest) |-> Mul(rest[j], last[i])]])

RECURSIVE GroupClosure(_, _)
\* The smallest set containing S which is closed under multiplication by the generators G
GroupClosure(S, G) == LET more == S \cup {Mul(a, b) : a \in S, b \in G}
                      IN  IF more = S THEN S ELSE GroupClosure(more, G)
LeastGroup(G) == GroupClosure(G, G)
IsGroup(S)    == S # {} /\ \A a, b \in S : Mul(a, Inv(b)) \in S
SameStage(S)  == \A a, b \in S : Len(a) = Len(b)
SameStageSeq(s) == \A i \in 1..Len(s) : Len(s[i]) = Len(s[1])

-----------------------------------------------------------------------------
\* A row accumulator is the row it holds
AccMul(acc, r)    == IF Len(r) # Len(acc) THEN Out(Err, acc) ELSE Out([t |-> "ok"], Mul(acc, r))
AccPreMul(acc, r) == IF Len(r) # Len(acc) THEN Out(Err, acc) ELSE Out([t |-> "ok"], Mul(r, acc))
AccSet(acc, r)    == Out([t |-> "ok"], r)
=============================================================================
