-------------------------------- MODULE MC_Pn -------------------------------
\* C13, C14: single place notations of the small stages
EXTENDS ModelBase
CONSTANTS N,      \* largest stage for lists of places
          PL,     \* most places in a list
          R,      \* largest stage for pairs of rows
          A       \* largest stage for rows with notations
VARIABLES kind, ev, done

ValidSets(n) == {Ascending(S, n) : S \in SUBSET (0..(n - 1))}
Pns(n) == {Pn(n, pl) : pl \in {x \in ValidSets(n) : ValidPlaces(x, n)}}
\* Texts: lists of places, as they come, with another character after the first one (or not)
NameText(v, c) == IF v = <<>> THEN c ELSE <<BellNames[v[1] + 1]>> \o c \o [i \in 1..(Len(v) - 1) |-> BellNames[v[i + 1] + 1]]
Cases ==
  UNION {{[op |-> "pn_slice", v |-> v, n |-> n] : v \in {s \in Seqs(0..n, PL) : \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]}} : n \in 1..N}
  \cup UNION {{[op |-> "pn_parse", s |-> NameText(v, c), n |-> n] : v \in Seqs(0..n, 3), c \in {<<>>, <<46>>, <<45>>}} : n \in 1..5}
  \cup UNION {{[op |-> "pn_slice", v |-> Ascending(S, n), n |-> n] : S \in SUBSET (0..(n - 1))} : n \in 1..N}
  \cup {[op |-> "pn_parse", s |-> <<c>>, n |-> n] : c \in 32..126, n \in 1..6}
  \cup {[op |-> "pn_cross", n |-> n] : n \in 1..12}
  \cup UNION {{[op |-> "pn_lit", pn |-> p] : p \in Pns(n)} : n \in 1..(N + 2)}
  \cup UNION {{[op |-> "pn_act", pn |-> p, a |-> a, how |-> h] : p \in Pns(n), a \in RowsOf(n), h \in {"permute", "new_unchecked"}} : n \in 1..A}
  \cup {[op |-> "pn_act", pn |-> p, a |-> a, how |-> h] : p \in Pns(3), a \in RowsOf(2) \cup RowsOf(4), h \in {"permute", "new"}}
  \cup UNION {{[op |-> "pn_btw", a |-> a, b |-> b] : a \in RowsOf(n), b \in RowsOf(n)} : n \in 1..R}
  \cup UNION {{[op |-> "pn_btw", a |-> Rounds(n), b |-> b] : b \in RowsOf(n)} : n \in 1..(R + 1)}
  \cup {[op |-> "pn_btw", a |-> a, b |-> b] : a \in RowsOf(2), b \in RowsOf(3)}
Init == ev \in Cases /\ kind = ev.op /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<ev, kind>> /\ Emit(<<ev>>)

\* What a set of places could stand for: valid sets of places which add at most one place to each
\* gap; a place added at the front or the back is a lead or a lie
Candidates(G, n) ==
  LET s == Ascending(G, n)
      gaps == {<<s[i], s[i + 1]>> : i \in 1..(Len(s) - 1)}
  IN  {q \in ValidSets(n) :
         /\ ValidPlaces(q, n)
         /\ G \subseteq Rng(q)
         /\ \A x \in Rng(q) \ G : (x < s[1] => x = 0) /\ (x > s[Len(s)] => x = n - 1)
         /\ \A g \in gaps : Cardinality({x \in Rng(q) : x > g[1] /\ x < g[2]}) <= 1}
SliceLaw == kind = "pn_slice" =>
  LET v == ev.v  n == ev.n  G == Rng(v)
      fine == v # <<>> /\ Cardinality(G) = Len(v) /\ \A p \in G : p < n
  IN  /\ (PnFaults(v, n) = {}) <=> (fine /\ Cardinality(Candidates(G, n)) = 1)
      /\ PnFaults(v, n) = {} => {Completed(v, n)} = Candidates(G, n)
ParseLaw == kind = "pn_parse" =>
  LET p == PnParse(ev.s, ev.n)
      names == BellsIn(ev.s)
  IN  IF Len(ev.s) = 1 /\ ev.s[1] \in {45, 88, 120} THEN p.ok = (ev.n % 2 = 0)
      ELSE \A q \in {names, Reverse(names)} : p.ok <=> PnFaults(q, ev.n) = {}
PnLaw == kind = "pn_lit" =>
  LET p == ev.pn  t == Transposition(p)
  IN  /\ IsRow(t) /\ Mul(t, t) = Rounds(p.n)
      /\ {i \in 0..(p.n - 1) : t[i + 1] = i} = Rng(p.pl)
      /\ \A i \in 1..p.n : Abs(t[i] - (i - 1)) <= 1
      \* printing and parsing gives it back (unless it is nothing but places made)
      /\ PnParse(PnText(p), p.n).ok /\ PnParse(PnText(p), p.n).pn = p
ActLaw == kind = "pn_act" =>
  LET p == ev.pn  a == ev.a  b == Apply(p, a)
  IN  Len(a) = p.n =>
        /\ IsRow(b) /\ Apply(p, b) = a
        /\ \A i \in 1..p.n : (a[i] = b[i]) <=> (i - 1) \in Rng(p.pl)
        /\ Adjacent(a, b) /\ PnBetween(a, b) = p
BtwLaw == kind = "pn_btw" =>
  LET a == ev.a  b == ev.b
      S == {p \in Pns(Len(a)) : Len(a) = Len(b) /\ Apply(p, a) = b}
  IN  /\ Adjacent(a, b) <=> S # {}
      /\ S # {} => S = {PnBetween(a, b)}
=============================================================================
