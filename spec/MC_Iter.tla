------------------------------- MODULE MC_Iter ------------------------------
\* C09: iterators as a state machine: what is left to yield of rows 0 .. M - 1 (each represented by
\* its number) and what has come from either end
EXTENDS ModelBase
CONSTANTS M,      \* most rows
          D       \* steps
VARIABLES m, script, left, front, back

\* The rows are the rotations of a stage, so that all are different
RowNo(n, k) == [i \in 1..n |-> (i + k - 2) % n]
RowList(n)  == [k \in 1..n |-> RowNo(Max2(M, 1), k)]
Init == m \in 0..M /\ script = <<>> /\ left = RowList(m) /\ front = <<>> /\ back = <<>>
Codes == {0, 1, 4, 9, 10, 11, 12, 100, 101, 102}
Take(c) ==
  LET o == IterStep(left, c)
      isFront == c = 0 \/ (c >= 10 /\ c < 100)
      isBack == c = 1 \/ c >= 100
      gone == Len(left) - Len(o.s)
  IN  /\ left' = o.s
      /\ script' = Append(script, c) /\ m' = m
      /\ front' = IF isFront THEN front \o SubSeq(left, 1, gone) ELSE front
      /\ back' = IF isBack THEN SubSeq(left, Len(left) - gone + 1, Len(left)) \o back ELSE back
\* Each step of the script is followed by a look at the sizes
Looked == Concat([k \in 1..Len(script) |-> <<script[k], 2 + (k % 2)>>])
Hows == <<"vec", "vinto", "rows", "all_rows">>
Setup == <<[op |-> "vnew", i |-> 0, how |-> "lit", n |-> Max2(M, 1), rows |-> RowList(m)],
           [op |-> "bnew", i |-> 0, how |-> "idx", n |-> Max2(M, 1), rows |-> RowList(m) \o <<RowNo(Max2(M, 1), M + 1)>>, an |-> [k \in 1..m |-> k]]>>
Next == \/ /\ Len(script) < D /\ \E c \in Codes : Take(c)
        \/ /\ Len(script) = D /\ UNCHANGED <<m, script, left, front, back>>
           /\ Emit(Setup \o [k \in 1..4 |-> [op |-> "iter", i |-> 0, how |-> Hows[k], script |-> Looked \o <<3, 2, 0, 1, 3>>]])
\* Together the ends and what is left are always all the rows, in order
Law == front \o left \o back = RowList(m)
RECURSIVE IterFrom(_, _)
IterFrom(l, s) == IF s = <<>> THEN l ELSE IterFrom(IterStep(l, s[1]).s, Tail(s))
\* nth is the same as so many nexts; nothing comes after the end
NthLaw == \A k \in 0..(M + 1) :
  /\ IterNth(left, k).s = IterFrom(left, Repeat(0, k + 1))
  /\ IterNth(left, k).r = IterNext(IterFrom(left, Repeat(0, k))).r
  /\ IterNthBack(left, k).s = IterFrom(left, Repeat(1, k + 1))
  /\ IterNthBack(left, k).r = IterNextBack(IterFrom(left, Repeat(1, k))).r
Fused == left = <<>> => \A c \in {0, 1, 10, 101} : IterStep(left, c) = Out(None, <<>>)
=============================================================================
