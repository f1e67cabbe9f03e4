------------------------------ MODULE Buffers -------------------------------
(***************************************************************************)
(* Same-stage row buffers (same_stage_vec.rs): [n, rows], and iterators    *)
(* over them.  Each operation gives its outcome: what it reports and what  *)
(* the buffer has become.                                                  *)
(***************************************************************************)
EXTENDS Rows

Vec(n, rows) == [n |-> n, rows |-> rows]
VecOk(v)     == v.n >= 1 /\ \A i \in 1..Len(v.rows) : IsRow(v.rows[i]) /\ Len(v.rows[i]) = v.n
Post(t, v)   == [t |-> t, post |-> v]

\* A range of indices <<kind, lo, hi>> over something of some length, as <<first, after last>>
RangeOf(rg, len) ==
  LET k == rg[1] lo == rg[2] hi == rg[3]
  IN  CASE k = "full" -> <<0, len>>
        [] k = "from" -> <<lo, len>>
        [] k = "to"   -> <<0, hi>>
        [] k = "toi"  -> <<0, hi + 1>>
        [] k = "r"    -> <<lo, hi>>
        [] k = "ri"   -> <<lo, hi + 1>>
        [] k = "x"    -> <<lo + 1, hi>>
        [] k = "xi"   -> <<lo + 1, hi + 1>>
        [] k = "xf"   -> <<lo + 1, len>>
InRange(rg, len) == LET r == RangeOf(rg, len) IN r[1] <= r[2] /\ r[2] <= len
Slice(s, r) == SubSeq(s, r[1] + 1, r[2])

Transposed(a, rows) == [i \in 1..Len(rows) |-> Mul(a, rows[i])]

VecPush(v, row) == IF Len(row) # v.n THEN Out("err", v) ELSE Out("ok", Vec(v.n, Append(v.rows, row)))
VecPop(v) == IF v.rows = <<>> THEN Out(None, v)
             ELSE Out(Some(v.rows[Len(v.rows)]), Vec(v.n, SubSeq(v.rows, 1, Len(v.rows) - 1)))
\* Nothing is added unless everything is
VecExtend(v, rows) == IF \E i \in 1..Len(rows) : Len(rows[i]) # v.n THEN Out("err", v)
                      ELSE Out("ok", Vec(v.n, v.rows \o rows))
VecExtendBuf(v, o) == IF o.n # v.n THEN Out("err", v) ELSE Out("ok", Vec(v.n, v.rows \o o.rows))
VecExtendTransposed(v, a, o, rg) ==
  IF Len(a) # v.n \/ o.n # v.n THEN Out("err", v)
  ELSE Out("ok", Vec(v.n, v.rows \o Transposed(a, Slice(o.rows, RangeOf(rg, Len(o.rows))))))
VecExtendWithin(v, rg, a) ==
  IF Len(a) # v.n THEN Out("err", v)
  ELSE Out("ok", Vec(v.n, v.rows \o Transposed(a, Slice(v.rows, RangeOf(rg, Len(v.rows))))))
VecPreMul(v, a) == IF Len(a) # v.n THEN Out("err", v) ELSE Out("ok", Vec(v.n, Transposed(a, v.rows)))
\* The two parts, or nothing
VecSplit(v, x) == IF x > Len(v.rows) THEN <<>>
                  ELSE <<Vec(v.n, SubSeq(v.rows, 1, x)), Vec(v.n, SubSeq(v.rows, x + 1, Len(v.rows)))>>
VecGet(v, x) == IF x < Len(v.rows) THEN Some(v.rows[x + 1]) ELSE None
VecEdit(v, x, p, q) == IF x < Len(v.rows)
                       THEN Out("some", [v EXCEPT !.rows[x + 1] = Swapped(@, p, q)])
                       ELSE Out("none", v)
PathOf(rows, b) == [i \in 1..Len(rows) |-> PlaceOf(rows[i], b)]

-----------------------------------------------------------------------------
\* An iterator is the sequence of the rows still to come.  Steps are numbers: 0 next, 1 next_back,
\* 2 len, 3 size_hint, 4 collect a clone, 5 collect a clone backwards, 6 count a clone, 7 last of a
\* clone, 8 the length of a peekable clone, 9 every second row of a clone after the first,
\* 10 + k nth(k), 100 + k nth_back(k)
RowItem(r) == [t |-> "row", v |-> r]
NumItem(x) == [t |-> "num", v |-> x]
IterNext(left)     == IF left = <<>> THEN Out(None, left) ELSE Out(RowItem(Head(left)), Tail(left))
IterNextBack(left) == IF left = <<>> THEN Out(None, left)
                      ELSE Out(RowItem(left[Len(left)]), SubSeq(left, 1, Len(left) - 1))
IterNth(left, k)     == IF k >= Len(left) THEN Out(None, <<>>)
                        ELSE Out(RowItem(left[k + 1]), SubSeq(left, k + 2, Len(left)))
IterNthBack(left, k) == IF k >= Len(left) THEN Out(None, <<>>)
                        ELSE Out(RowItem(left[Len(left) - k]), SubSeq(left, 1, Len(left) - k - 1))
IterStep(left, c) ==
  LET n == Len(left)
  IN  CASE c = 0 -> IterNext(left)
        [] c = 1 -> IterNextBack(left)
        [] c = 2 -> Out(NumItem(n), left)
        [] c = 3 -> Out([t |-> "hint", lo |-> n, hi |-> n], left)
        [] c = 4 -> Out([t |-> "rows", v |-> left], left)
        [] c = 5 -> Out([t |-> "rows", v |-> Reverse(left)], left)
        [] c = 6 -> Out(NumItem(n), left)
        [] c = 7 -> Out(IF n = 0 THEN None ELSE RowItem(left[n]), left)
        [] c = 8 -> Out(NumItem(n), left)
        [] c = 9 -> Out([t |-> "rows", v |-> [i \in 1..(n \div 2) |-> left[2 * i]]], left)
        [] c >= 100 -> IterNthBack(left, c - 100)
        [] OTHER -> IterNth(left, c - 10)
IterRun(rows, script) ==
  FoldLeft(LAMBDA acc, c : LET o == IterStep(acc.s, c) IN Out(Append(acc.r, o.r), o.s), Out(<<>>, rows), script).r

-----------------------------------------------------------------------------
\* Multi-line texts
Lines(s) ==
  LET parts == SplitAt(s, LAMBDA c : c = 10)
      lines == [k \in 1..Len(parts) |-> Part(s, parts[k])]
  IN  IF lines[Len(lines)] = <<>> THEN SubSeq(lines, 1, Len(lines) - 1) ELSE lines
NoErr == [t |-> "err", k |-> "", b |-> 0, s |-> 0]
\* Whether a result is right for reading a text into a buffer
MultiParseOk(s, r, defaultAnnots) ==
  LET lines == Lines(s)
      bells == [k \in 1..Len(lines) |-> BellsIn(lines[k])]
      good  == Len(lines) > 0 /\ \A k \in 1..Len(lines) : IsRow(bells[k]) /\ Len(bells[k]) = Len(bells[1])
  IN  IF good
      THEN r = [t |-> "ok", n |-> Len(bells[1]), rows |-> bells,
                an |-> IF defaultAnnots THEN Repeat(0, Len(lines) - 1) ELSE <<>>]
      ELSE /\ r.t = "err"
           /\ \/ r.k \in {"zero", "zlb"} /\ Len(lines) = 0
              \/ r.k = "row" /\ r.line = 1 /\ Len(lines) = 0 /\ r.e.k = "none"
              \/ /\ r.k = "row" /\ r.line \in 1..Len(lines)
                 /\ ~IsRow(bells[r.line]) /\ r.e \in RowFaults(bells[r.line])
              \/ /\ r.k = "stage" /\ r.line \in 1..Len(lines) /\ r.line > 1
                 /\ IsRow(bells[1]) /\ IsRow(bells[r.line])
                 /\ r.p = Len(bells[1]) /\ r.q = Len(bells[r.line]) /\ r.p # r.q
=============================================================================
