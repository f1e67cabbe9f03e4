------------------------------- MODULE MC_Gen -------------------------------
\* C17, C32: rows, blocks and calls from all short lists of place notations of the small stages
EXTENDS ModelBase
CONSTANTS N, L       \* largest stage, most notations
VARIABLES ev, done
ValidSets(n) == {Ascending(S, n) : S \in SUBSET (0..(n - 1))}
Pns(n) == {Pn(n, pl) : pl \in {x \in ValidSets(n) : ValidPlaces(x, n)}}
Lists(n) == UNION {[1..k -> Pns(n)] : k \in 1..L}
Mixed == Seqs(Pns(1) \cup Pns(2) \cup {Pn(3, <<0>>)}, 4)
Loc == {<<>>, T("LE")}
Cases == UNION {{[op |-> "pnb_rows", pns |-> p, a |-> a, how |-> h] : p \in Lists(n), a \in RowsOf(n), h \in {"rows", "block"}} : n \in 1..3}
         \cup UNION {{[op |-> "pnb_rows", pns |-> p, a |-> Rounds(n), how |-> h] : p \in Lists(n), h \in {"rows", "block", "rounds"}} : n \in 4..N}
         \cup {[op |-> "pnb_rows", pns |-> p, a |-> a, how |-> h] : p \in Lists(2), a \in RowsOf(1) \cup RowsOf(3), h \in {"rows", "block"}}
         \cup {[op |-> "pnb_vec", pns |-> p, how |-> h] : p \in Mixed, h \in {"vec", "iter"}}
         \cup UNION {{[op |-> "call", how |-> h, cov |-> c, loc |-> T("HL"), n |-> n, pns |-> p, a |-> Reverse(Rounds(n)), not |-> 45] :
                        p \in Lists(n), c \in {0, 3}, h \in {"new", "bob", "single"}} : n \in 1..3}
         \cup {[op |-> "call", how |-> h, cov |-> 1, loc |-> <<>>, n |-> n, pns |-> <<Pn(n, Rounds(n))>>, a |-> Rounds(n), not |-> 233] :
                        n \in 1..8, h \in {"empty", "bob"}}
Init == ev \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ ev' = ev /\ Emit(<<ev>>)
RowsLaw == ev.op = "pnb_rows" /\ Len(ev.a) = ev.pns[1].n =>
  LET rows == NotationRows(ev.pns, ev.a)
      k == Len(ev.pns)
  IN  /\ Len(rows) = k + 1 /\ rows[1] = ev.a
      /\ \A i \in 1..k : PnBetween(rows[i], rows[i + 1]) = ev.pns[i]
      \* it doesn't matter where it starts, and it may be done in two goes, or backwards
      /\ rows = Transposed(ev.a, NotationRows(ev.pns, Rounds(Len(ev.a))))
      /\ \A i \in 0..k : rows = NotationRows(SubSeq(ev.pns, 1, i), ev.a)
                                \o Tail(NotationRows(SubSeq(ev.pns, i + 1, k), rows[i + 1]))
      /\ NotationRows(Reverse(ev.pns), rows[k + 1]) = Reverse(rows)
VecLaw == ev.op = "pnb_vec" =>
  \A e \in Call(InitState, ev).exp :
     /\ (e.t = "ok") <=> (ev.pns # <<>> /\ \A i, j \in 1..Len(ev.pns) : ev.pns[i].n = ev.pns[j].n)
     /\ e.t = "err" /\ e.k = "stage" => e.x >= 1 /\ ev.pns[e.x + 1].n # ev.pns[1].n
=============================================================================
