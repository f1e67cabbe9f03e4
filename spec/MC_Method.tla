------------------------------ MODULE MC_Method -----------------------------
\* C18, C19: methods whose lead is any short list of changes of a small stage
EXTENDS ModelBase
CONSTANTS N, L,        \* largest stage, longest lead
          H,           \* longest half of a palindromic lead (on stage 4)
          Turn         \* longest lead on which the classification of rotated leads is compared
VARIABLES pns, done
ValidSets(n) == {Ascending(S, n) : S \in SUBSET (0..(n - 1))}
PnsAt == [n \in 1..N |-> {Pn(n, pl) : pl \in {x \in ValidSets(n) : ValidPlaces(x, n)}}]
Halves == UNION {[1..k -> PnsAt[4]] : k \in 2..H}
Init == /\ \/ \E n \in 1..N, k \in 1..L : pns \in [1..k -> PnsAt[n]]
           \/ \E h \in Halves, l \in PnsAt[4] : pns = h \o Tail(Reverse(h)) \o <<l>>
        /\ done = FALSE
n == pns[1].n
rows == NotationRows(pns, Rounds(n))
m == MethodFromPns(T("A"), pns)
Next == /\ ~done /\ done' = TRUE /\ pns' = pns
        /\ Emit(<<[op |-> "classify", pns |-> pns]>>)
        /\ Len(pns) <= L =>
             Emit(<<[op |-> "mnew", name |-> T("A"), how |-> "le", pns |-> pns], [op |-> "minfo"], [op |-> "mcourse"]>>
                  \o [k \in 1..(3 * Len(pns) + 1) |-> [op |-> "mrow", x |-> k - 1]]
                  \o [k \in 1..(Len(pns) + 2) |-> [op |-> "mlrow", x |-> k - 1]]
                  \o [k \in 1..(Len(pns) + 1) |-> [op |-> "mgetl", x |-> k - 1]]
                  \o <<[op |-> "mfind", label |-> T("LE")], [op |-> "mrow", x |-> 1000003]>>)
CourseLaw == Len(pns) <= L =>
  LET c == PlainCourse(m)
      total == NumLeads(m) * LeadLen(m)
  IN  /\ Len(c.rows) = total + 1 /\ Len(c.an) = total
      /\ \A k \in 0..total : CourseRow(m, k) = c.rows[k + 1] /\ CourseRow(m, k + total) = CourseRow(m, k)
      /\ c.rows[total + 1] = Rounds(n) /\ c.rows[1] = Rounds(n)
      /\ \A k \in 1..total : /\ c.an[k].x = (k - 1) % LeadLen(m)
                             /\ Adjacent(c.rows[k], c.rows[k + 1])
                             /\ PnBetween(c.rows[k], c.rows[k + 1]) = pns[((k - 1) % LeadLen(m)) + 1]
      /\ \A k \in 1..(NumLeads(m) - 1) : c.rows[k * LeadLen(m) + 1] # Rounds(n)
\* Where a lead begins and the direction it's rung in make no difference to its classification
ClassLaw ==
  Len(pns) <= Turn =>
  LET c == Classify(rows)
      turned(k) == SubSeq(pns, k + 1, Len(pns)) \o SubSeq(pns, 1, k)
  IN  /\ \A k \in 1..(Len(pns) - 1) : Classify(NotationRows(turned(k), Rounds(n))) = c
      /\ Classify(NotationRows(Reverse(pns), Rounds(n))) = c
\* The hunt bells are exactly those at home in the lead head
HuntLaw == LET c == Classify(rows) IN (c.c = Principle) <=> \A b \in 1..n : LeadHead(m)[b] # b - 1
=============================================================================
