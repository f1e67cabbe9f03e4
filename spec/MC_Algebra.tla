----------------------------- MODULE MC_Algebra -----------------------------
\* C02, C05, C06: the laws of the algebra of rows, for all rows of the small stages
EXTENDS ModelBase
CONSTANTS N,      \* largest stage of triples
          M       \* largest stage of pairs
VARIABLES a, b, c, done

Triples == UNION {RowsOf(n) \X RowsOf(n) \X RowsOf(n) : n \in 1..N}
Pairs   == UNION {{<<x, y, <<>>>> : x \in RowsOf(n), y \in RowsOf(n)} : n \in (N + 1)..M}
Init == \E t \in Triples \cup Pairs : a = t[1] /\ b = t[2] /\ c = t[3] /\ done = FALSE

Hows == <<"result", "rr", "rb", "br", "bb", "unchecked", "into", "into_unchecked", "into_row", "into_row_unchecked">>
mulOp(h) == [op |-> "mul", a |-> a, b |-> b, o |-> a, how |-> h]
invOp(h) == [op |-> "inv", a |-> a, o |-> b, how |-> h]
powOp(e) == [op |-> "pow", a |-> a, e |-> e, how |-> "i"]
Calls == [k \in 1..10 |-> mulOp(Hows[k])]
         \o <<[op |-> "solve", a |-> a, b |-> b, how |-> "ax"], [op |-> "solve", a |-> a, b |-> b, how |-> "xa"],
              [op |-> "solve", a |-> a, b |-> b, how |-> "tt"], [op |-> "parity2", a |-> a, b |-> b],
              [op |-> "rowcmp", a |-> a, b |-> b]>>
         \o (IF b = Rounds(Len(a))
             THEN <<invOp("inv"), invOp("not_r"), invOp("not_b"), invOp("into"), invOp("into_buf"), [op |-> "inspect", a |-> a]>>
                  \o [e \in 1..15 |-> powOp(e - 8)]
             ELSE <<>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<a, b, c>>
        /\ c \in {<<>>, Rounds(Len(a))} => Emit(Calls)

n == Len(a)
e0 == Rounds(n)
RECURSIVE NaivePow(_, _)
NaivePow(x, k) == IF k = 0 THEN Rounds(Len(x)) ELSE Mul(NaivePow(x, k - 1), x)
GroupLaws ==
  /\ IsRow(Mul(a, b)) /\ IsRow(Inv(a))
  /\ c # <<>> => Mul(Mul(a, b), c) = Mul(a, Mul(b, c))
  /\ Mul(a, e0) = a /\ Mul(e0, a) = a
  /\ Mul(a, Inv(a)) = e0 /\ Mul(Inv(a), a) = e0
  /\ Inv(Mul(a, b)) = Mul(Inv(b), Inv(a))
  /\ Mul(a, SolveAX(a, b)) = b /\ Mul(SolveXA(a, b), a) = b
  /\ \A k \in 0..5 : Pow(a, k) = NaivePow(a, k) /\ Mul(Pow(a, -k), Pow(a, k)) = e0
ParityLaws ==
  /\ ParityByInversions(a) = ParityByCycles(a)
  /\ Parity(Mul(a, b)) = (Parity(a) + Parity(b)) % 2
  /\ Parity(Inv(a)) = Parity(a)
  /\ b = e0 => \A i, j \in 0..(n - 1) : i # j => Parity(Swapped(a, i, j)) # Parity(a)
QueryLaws ==
  b = e0 =>
    /\ \A p \in 0..(n - 1) : PlaceOf(a, a[p + 1]) = p
    /\ PlaceOf(a, n) = -1
    /\ LET e == EffectiveStage(a)
       IN  /\ \A i \in (e + 1)..n : a[i] = i - 1
           /\ e > 1 => a[e] # e - 1
    /\ Rng(FixedBells(a)) = {x \in 0..(n - 1) : PlaceOf(a, x) = x}
OrderLaws ==
  /\ (Lex(a, b) = 0) <=> (a = b)
  /\ Lex(a, b) = -Lex(b, a)
  /\ c # <<>> /\ Lex(a, b) <= 0 /\ Lex(b, c) <= 0 => Lex(a, c) <= 0
=============================================================================
