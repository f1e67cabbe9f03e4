------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* Place notation (place_not.rs).  A place notation is [n, pl]: its stage  *)
(* and the places made, in ascending order.                                *)
(***************************************************************************)
EXTENDS Rows

Fault(k, p, q) == [k |-> k, p |-> p, q |-> q]

\* The places given may be in any order.  The gap before the first place, after the last one, and
\* between neighbours has to be filled by swaps, with at most one implied place.
SortPlaces(pl) == SortSeq(pl, LAMBDA a, b : a < b)
PnFaults(pl, n) ==
  IF pl = <<>> THEN {Fault("none", 0, 0)}
  ELSE LET s == SortPlaces(pl)
       IN  {Fault("out", p, n) : p \in {x \in Rng(s) : x >= n}}
           \cup {Fault("dup", s[i], 0) : i \in {j \in 1..(Len(s) - 1) : s[j] = s[j + 1]}}
           \cup {Fault("amb", s[i], s[i + 1]) :
                   i \in {j \in 1..(Len(s) - 1) : s[j + 1] - s[j] >= 4 /\ (s[j + 1] - s[j]) % 2 = 0}}
\* The places made by a fault-free list of places
Completed(pl, n) ==
  LET s == SortPlaces(pl)
      given == Rng(s)
      lead  == IF s[1] % 2 = 1 THEN {0} ELSE {}
      back  == IF (n - 1 - s[Len(s)]) % 2 = 1 THEN {n - 1} ELSE {}
      mid   == {s[i] + 1 : i \in {j \in 1..(Len(s) - 1) : s[j + 1] - s[j] = 2}}
  IN  Ascending(given \cup lead \cup back \cup mid, n)
Pn(n, pl) == [n |-> n, pl |-> pl]
MakePn(pl, n) == Pn(n, Completed(pl, n))
CrossPn(n)    == Pn(n, <<>>)
IsCrossChar(c) == c \in {120, 88, 45}     \* x X -

\* A set of places is a place notation if what is left is made of adjacent pairs
ValidPlaces(pl, n) ==
  /\ Rng(pl) \subseteq 0..(n - 1)
  /\ \A i \in 1..(Len(pl) - 1) : pl[i] < pl[i + 1]
  /\ LET ends == <<-1>> \o pl \o <<n>>
     IN  \A i \in 1..(Len(ends) - 1) : (ends[i + 1] - ends[i]) % 2 = 1

\* The outcomes allowed for parsing a text as one place notation
PnParse(s, n) ==
  IF Len(s) = 1 /\ IsCrossChar(s[1])
  THEN IF n % 2 = 0 THEN [ok |-> TRUE, pn |-> CrossPn(n), faults |-> {}]
       ELSE [ok |-> FALSE, pn |-> CrossPn(n), faults |-> {Fault("cross", 0, n)}]
  ELSE LET pl == BellsIn(s)
           f  == PnFaults(pl, n)
       IN  IF f = {} THEN [ok |-> TRUE, pn |-> MakePn(pl, n), faults |-> {}]
           ELSE [ok |-> FALSE, pn |-> CrossPn(n), faults |-> f]

PnText(pn) == IF pn.pl = <<>> THEN T("-") ELSE Concat([i \in 1..Len(pn.pl) |-> BellText(pn.pl[i])])
HasInternal(pn) == \E p \in Rng(pn.pl) : p # 0 /\ p # pn.n - 1

\* The transposition of a place notation: bells in the places made stay, the others swap in pairs
Transposition(pn) ==
  LET made == Rng(pn.pl)
      before(i) == Cardinality({p \in 0..(i - 1) : p \notin made})
  IN  TLCEval([i \in 1..pn.n |->
         IF (i - 1) \in made THEN i - 1
         ELSE IF before(i - 1) % 2 = 0 THEN i ELSE i - 2])
Apply(pn, row) == Mul(row, Transposition(pn))

\* The place notation between two rows, if there is one
Adjacent(a, b) == /\ Len(a) = Len(b)
                  /\ LET x == SolveAX(a, b)
                     IN  \A i \in 1..Len(x) : Abs(x[i] - (i - 1)) <= 1
PnBetween(a, b) == Pn(Len(a), Ascending({i \in 0..(Len(a) - 1) : a[i + 1] = b[i + 1]}, Len(a)))

-----------------------------------------------------------------------------
(***************************************************************************)
(* The grammar of blocks of place notation:                                *)
(*                                                                         *)
(*   block  ::=  part ("," part)*                                          *)
(*   part   ::=  skip* "+"? (cross | places | delimiter | ignored)*        *)
(*                                                                         *)
(* where skip is a delimiter or an ignored character, and places are bell  *)
(* names with ignored characters in between.                               *)
(***************************************************************************)
Comma == 44
Plus  == 43
IsDelim(c)   == c \in {32, 46}            \* space and dot
IsIgnored(c) == BellOf(c) < 0 /\ ~IsDelim(c) /\ ~IsCrossChar(c) /\ c # Plus /\ c # Comma

\* The characters (by position in s) of a part: [p[1] + 1 .. p[2] - 1]
PlusAt(s, p) == \* the position of the plus marking the part as asymmetric, or 0
  LET idx == SelectSeq([i \in 1..(p[2] - p[1] - 1) |-> p[1] + i], LAMBDA i : ~(IsDelim(s[i]) \/ IsIgnored(s[i])))
  IN  IF idx = <<>> \/ s[idx[1]] # Plus THEN 0 ELSE idx[1]

\* The notations written in a part, as a sequence of [cross, pl, lo, last, hi]: whether it's a cross,
\* its places, and the positions of its first and last character and of the one which ended it
Chunks(s, p) ==
  LET step(acc, i) ==
        LET c == s[i]
            isEnd == i = p[2] \/ IsDelim(c) \/ IsCrossChar(c)
            closed == IF isEnd /\ acc.pl # <<>>
                      THEN Append(acc.out, [cross |-> FALSE, pl |-> acc.pl, lo |-> acc.lo, last |-> acc.last, hi |-> i])
                      ELSE acc.out
        IN  IF isEnd
            THEN [out |-> IF i < p[2] /\ IsCrossChar(c)
                          THEN Append(closed, [cross |-> TRUE, pl |-> <<>>, lo |-> i, last |-> i, hi |-> i + 1])
                          ELSE closed,
                  pl |-> <<>>, lo |-> 0, last |-> 0]
            ELSE IF BellOf(c) >= 0
            THEN [acc EXCEPT !.pl = Append(@, BellOf(c)), !.lo = IF acc.pl = <<>> THEN i ELSE @, !.last = i]
            ELSE acc
  IN  FoldLeft(step, [out |-> <<>>, pl |-> <<>>, lo |-> 0, last |-> 0],
               [i \in 1..(p[2] - p[1]) |-> p[1] + i]).out

ChunkFaults(c, n) == IF c.cross THEN (IF n % 2 = 0 THEN {} ELSE {Fault("cross", 0, n)}) ELSE PnFaults(c.pl, n)
ChunkPn(c, n)     == IF c.cross THEN CrossPn(n) ELSE MakePn(c.pl, n)

\* The parse of a text: its notations (if there are no faults) and all its faults
PnBlockParse(s, n) ==
  LET parts  == SplitAt(s, LAMBDA c : c = Comma)
      chunks == [k \in 1..Len(parts) |-> Chunks(s, parts[k])]
      pluses == [k \in 1..Len(parts) |-> PlusAt(s, parts[k])]
      strays == {i \in 1..Len(s) : s[i] = Plus /\ \A k \in 1..Len(parts) : pluses[k] # i}
      badChunks == {<<k, m>> \in (1..Len(parts)) \X (1..Len(s)) :
                       m <= Len(chunks[k]) /\ ChunkFaults(chunks[k][m], n) # {}}
      empty  == \A k \in 1..Len(parts) : chunks[k] = <<>>
      isOk   == strays = {} /\ badChunks = {} /\ ~empty
      part(k) == LET w == [m \in 1..Len(chunks[k]) |-> ChunkPn(chunks[k][m], n).pl]
                 IN  IF Len(parts) = 1 \/ pluses[k] # 0 \/ w = <<>> THEN w
                     ELSE w \o Reverse(SubSeq(w, 1, Len(w) - 1))
  IN  [ok |-> isOk,
       empty |-> empty,
       strays |-> strays,
       bad |-> {chunks[km[1]][km[2]] : km \in badChunks},
       pns |-> IF isOk THEN Concat([k \in 1..Len(parts) |-> part(k)]) ELSE <<>>]

\* Whether an error describes a fault which is present.  The range of a faulty notation starts at its
\* first character and ends after its last one, but not after the character which ended it.
PnBlockErrOk(s, n, parse, r) ==
  \/ r.k = "plus" /\ \E i \in parse.strays : r.lo = BytePos(s, i)
  \/ r.k = "empty" /\ parse.empty
  \/ r.k = "pn" /\ \E c \in parse.bad :
       /\ r.lo = BytePos(s, c.lo)
       /\ \E e \in (c.last + 1)..c.hi : r.hi = BytePos(s, e)
       /\ r.e \in ChunkFaults(c, n)

-----------------------------------------------------------------------------
\* The rows of a block of notations (given by their places)
RECURSIVE RowsFrom(_, _)
RowsFrom(acc, pns) == IF pns = <<>> THEN acc
                      ELSE RowsFrom(Append(acc, Apply(Head(pns), acc[Len(acc)])), Tail(pns))
NotationRows(pns, start) == RowsFrom(<<start>>, pns)
PnsOf(n, pls) == [i \in 1..Len(pls) |-> Pn(n, pls[i])]
PnStagesOk(pns) == \A i \in 1..Len(pns) : pns[i].n = pns[1].n
=============================================================================
