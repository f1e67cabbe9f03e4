------------------------------- MODULE MC_Blk -------------------------------
\* C03, C11: all the operations of annotated blocks, on two of them
EXTENDS ModelBase
CONSTANTS N,      \* largest stage
          L       \* most annotations
VARIABLE st
Rows == RowsUpTo(N)
Annots == {3, 4}
Init == st = InitState

b1 == st.blks[1]
b2 == st.blks[2]
Ops ==
  LET len == BlkLen(b1)
  IN  {[op |-> "bnew", i |-> 0, how |-> "empty", n |-> n] : n \in 1..N}
      \cup UNION {{[op |-> "bnew", i |-> 0, how |-> "idx", n |-> n, rows |-> <<a, b>>, an |-> <<4>>] : a, b \in RowsOf(n)} : n \in 1..N}
      \cup {[op |-> "bnew", i |-> 0, how |-> "def", n |-> Len(a), rows |-> <<a>>] : a \in Rows}
      \cup {[op |-> "bnew", i |-> 0, how |-> "idx", n |-> n, rows |-> <<>>, an |-> <<>>] : n \in 1..N}
      \cup {[op |-> "bset", i |-> 0, x |-> x, v |-> v] : x \in 0..(len + 1) \cup {MaxUsize}, v \in Annots}
      \cup {[op |-> "bext", i |-> 0, j |-> 1, how |-> "all"]}
      \cup {[op |-> "bext", i |-> 0, j |-> 1, how |-> "range", rg |-> g] : g \in GoodRanges(BlkLen(b2))}
      \cup {[op |-> "bextw", i |-> 0, rg |-> g] : g \in GoodRanges(len)}
      \cup {[op |-> "bpre", i |-> 0, a |-> a, how |-> h] : a \in Rows, h \in {"pre", "permute"}}
      \cup {[op |-> "bmap", i |-> 0, v |-> 1, how |-> h] : h \in {"map", "mapi", "clone"}}
      \cup {[op |-> "bsplit", i |-> 0, j |-> 1, x |-> x] : x \in 0..(len + 1) \cup {MaxUsize}}
      \cup {[op |-> "bget", i |-> 0, x |-> x] : x \in 0..(len + 2) \cup {MaxUsize}}
      \cup {[op |-> "bobs", i |-> 0], [op |-> "aiter", i |-> 0], [op |-> "beq", i |-> 0, j |-> 1]}
SetupOf(i) == LET b == st.blks[i + 1] IN [op |-> "bnew", i |-> i, how |-> "idx", n |-> b.n, rows |-> b.rows, an |-> b.an]
Probe == <<[op |-> "bobs", i |-> 0], [op |-> "bobs", i |-> 1], [op |-> "beq", i |-> 0, j |-> 1]>>
Swap == st' = [st EXCEPT !.blks = <<b2, b1, st.blks[3]>>]
Next == Swap \/ Explore(st, st', Ops, <<SetupOf(0), SetupOf(1)>>, Probe)
\* Annotations say where they came from: they are only 3 or 4 here
Small == \A i \in 1..2 : LET b == st.blks[i] IN BlkLen(b) <= L /\ \A k \in 1..BlkLen(b) : b.an[k] \in Annots
Law == StateOk(st)
\* The change between neighbouring rows, on which chaining has no effect
Change(rows, k) == SolveAX(rows[k], rows[k + 1])
ChainLaw ==
  LET o == BlkExtend(b1, b2, <<"full", 0, 0>>)
      l == BlkLen(b1)
  IN  IF b1.n # b2.n THEN o = Out("err", b1)
      ELSE /\ BlkLen(o.s) = l + BlkLen(b2)
           /\ SubSeq(o.s.rows, 1, l + 1) = b1.rows
           /\ \A k \in 1..BlkLen(b2) : Change(o.s.rows, l + k) = Change(b2.rows, k)
           /\ o.s.an = b1.an \o b2.an
RangeLaw == \A g \in GoodRanges(BlkLen(b2)) :
  LET r == RangeOf(g, BlkLen(b2))  l == BlkLen(b1)  o == BlkExtend(b1, b2, g)
  IN  b1.n = b2.n =>
        /\ o.s.an = b1.an \o SubSeq(b2.an, r[1] + 1, r[2])
        /\ SubSeq(o.s.rows, 1, l + 1) = b1.rows
        /\ \A k \in 1..(r[2] - r[1]) : Change(o.s.rows, l + k) = Change(b2.rows, r[1] + k)
SplitLaw == \A x \in 0..(BlkLen(b1) + 1) :
  LET s == BlkSplit(b1, x)
  IN  IF x > BlkLen(b1) THEN s = <<>>
      ELSE BlkOk(s[1]) /\ BlkOk(s[2]) /\ BlkExtend(s[1], s[2], <<"full", 0, 0>>) = Out("ok", b1)
PreLaw == \A a \in RowsOf(b1.n) : BlkPreMul(BlkPreMul(b1, a).s, Inv(a)).s = b1
FailLaw == \A o \in Ops : LET r == Call(st, o) IN \A e \in r.exp : e.t = "err" => r.s = st
=============================================================================
