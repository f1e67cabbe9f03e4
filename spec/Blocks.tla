------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Annotated blocks (block.rs): [n, rows, an] where the last row is the    *)
(* left-over one, so there is one more row than annotations; and iterators *)
(* which repeat a block for ever.                                          *)
(***************************************************************************)
EXTENDS Buffers

Blk(n, rows, an) == [n |-> n, rows |-> rows, an |-> an]
EmptyBlk(n)      == Blk(n, <<Rounds(n)>>, <<>>)
BlkOk(b)    == /\ Len(b.rows) = Len(b.an) + 1
               /\ \A i \in 1..Len(b.rows) : IsRow(b.rows[i]) /\ Len(b.rows[i]) = b.n
BlkLen(b)   == Len(b.an)
LeftOver(b) == b.rows[Len(b.rows)]

\* Chaining: the rows of the chosen range of o (and the row after it, which becomes left over) are
\* transposed to start with the left-over row of b, which they replace
BlkExtend(b, o, rg) ==
  IF o.n # b.n THEN Out("err", b)
  ELSE LET r == RangeOf(rg, BlkLen(o))
           a == SolveXA(o.rows[r[1] + 1], LeftOver(b))
       IN  Out("ok", Blk(b.n,
              SubSeq(b.rows, 1, Len(b.rows) - 1) \o Transposed(a, Slice(o.rows, <<r[1], r[2] + 1>>)),
              b.an \o Slice(o.an, r)))
BlkExtendWithin(b, rg) == BlkExtend(b, b, rg)
BlkPreMul(b, a) == IF Len(a) # b.n THEN Out("err", b) ELSE Out("ok", [b EXCEPT !.rows = Transposed(a, @)])
BlkSetAnnot(b, x, v) == IF x < BlkLen(b) THEN Out("some", [b EXCEPT !.an[x + 1] = v]) ELSE Out("none", b)
BlkMap(b, f(_, _)) == [b EXCEPT !.an = [i \in 1..Len(@) |-> f(i - 1, @[i])]]
BlkSplit(b, x) ==
  IF x > BlkLen(b) THEN <<>>
  ELSE <<Blk(b.n, SubSeq(b.rows, 1, x + 1), SubSeq(b.an, 1, x)),
         Blk(b.n, SubSeq(b.rows, x + 1, Len(b.rows)), SubSeq(b.an, x + 1, Len(b.an)))>>
BlkEffective(b) == SetMax({EffectiveStage(b.rows[i]) : i \in 1..Len(b.rows)})

-----------------------------------------------------------------------------
\* A repeating iterator is [b, start, k]: the block, the start row and the number of rows yielded.
\* So that k stays small it also holds h, the head of the current repeat.
RepNew(b, start) == [b |-> b, start |-> start, h |-> start, k |-> 0, done |-> 0]
\* The row it yields next, as it would be without the bookkeeping
RepRow(rep) == LET n == BlkLen(rep.b)
                   total == rep.done * n + rep.k
               IN  Mul(Mul(rep.start, PowU(LeftOver(rep.b), total \div n)), rep.b.rows[(total % n) + 1])
\* One step: what is yielded (row, index and annotation, or nothing) and the next state
RepStep(rep) ==
  LET n == BlkLen(rep.b)
  IN  IF n = 0 THEN Out(None, rep)
      ELSE LET w == IF rep.k < n THEN rep
                    ELSE [rep EXCEPT !.h = Mul(rep.h, LeftOver(rep.b)), !.k = 0, !.done = @ + 1]
           IN  Out([t |-> "some", v |-> Mul(w.h, w.b.rows[w.k + 1]), x |-> w.k, a |-> w.b.an[w.k + 1]],
                   [w EXCEPT !.k = @ + 1])
\* Skipping x rows at once
RepSkip(rep, x) ==
  LET n == BlkLen(rep.b)
      total == rep.done * n + rep.k + x
      d == IF rep.k + x = 0 THEN 0 ELSE (total - 1) \div n     \* completed repeats
  IN  IF n = 0 \/ x = 0 THEN rep
      ELSE [rep EXCEPT !.done = d, !.k = total - d * n, !.h = Mul(rep.start, PowU(LeftOver(rep.b), d))]
=============================================================================
