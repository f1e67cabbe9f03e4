------------------------------ MODULE ModelBase -----------------------------
(***************************************************************************)
(* Shared by the exhaustive models.  A model explores cases or states of   *)
(* the specification within small constants, checks the laws that the      *)
(* specification is supposed to obey, and prints each transition as a      *)
(* history of calls, which is then executed by the implementation.         *)
(***************************************************************************)
EXTENDS Bellframe, Json

\* The (unknown) result of a call which is about to be made
NoR == [t |-> "?"]
Emit(h)  == PrintT("H|" \o ToJson(h))
Call(st, ev) == Step(st, ev, NoR)
After(st, ev) == Call(st, ev).s
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
RowsUpTo(n) == UNION {RowsOf(k) : k \in 1..n}
\* All the ranges within a sequence of some length, in a few spellings
RangesIn(len) ==
  {<<"full", 0, 0>>}
  \cup UNION {{<<"r", lo, hi>>} \cup (IF hi > lo THEN {<<"ri", lo, hi - 1>>} ELSE {})
              \cup (IF lo > 0 THEN {<<"x", lo - 1, hi>>} ELSE {}) : lo \in 0..len, hi \in 0..len}
  \cup {<<"from", lo, 0>> : lo \in 0..len} \cup {<<"to", 0, hi>> : hi \in 0..len}
GoodRanges(len) == {g \in RangesIn(len) : InRange(g, len)}

\* A model of part of the state.  Every state is set up literally by a history, from which the calls
\* which don't change it are made all in a row, and each of the others in a history of its own.
RECURSIVE EmitAll(_, _, _)
EmitAll(setup, quiet, probe) ==
  IF quiet = <<>> THEN TRUE
  ELSE LET k == Min2(40, Len(quiet))
       IN  Emit(setup \o SubSeq(quiet, 1, k) \o probe) /\ EmitAll(setup, SubSeq(quiet, k + 1, Len(quiet)), probe)
Explore(st, st2, ops, setup, probe) ==
  \/ \E o \in ops : /\ st2 = After(st, o) /\ st2 # st
                     /\ Emit(setup \o <<o>> \o probe)
  \/ st2 = st /\ EmitAll(setup, SetToSeq({o \in ops : After(st, o) = st}), probe)
=============================================================================
