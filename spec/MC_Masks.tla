------------------------------- MODULE MC_Masks -----------------------------
\* C21, C22: masks of the small stages as the sets of rows they denote
EXTENDS ModelBase
CONSTANTS N,      \* largest stage of satisfiable masks
          U       \* largest stage of other masks
VARIABLES m, done
AllMasks(n) == [1..n -> -1..n]
SatMasks == TLCEval([n \in 1..N |-> {x \in AllMasks(n) : Satisfiable(x)}])
Masks(n) == IF n <= U THEN AllMasks(n) ELSE SatMasks[n]
Init == m \in UNION {Masks(n) : n \in 1..N} /\ done = FALSE
n == Len(m)
sat == Satisfiable(m)
Texts == LET t == MaskText(m) IN {t, [i \in 1..Len(t) |-> IF t[i] = 120 THEN 46 ELSE t[i]],
                                  <<32>> \o [i \in 1..Len(t) |-> IF t[i] = 120 THEN 88 ELSE t[i]] \o <<45>>}
Rels == {[op |-> "mk_rel", m |-> m, p |-> p] : p \in Masks(n) \cup Masks(1)}
Others == {[op |-> "mk_match", m |-> m, a |-> a] : a \in RowsOf(n) \cup RowsOf(IF n = 1 THEN 2 ELSE n - 1)}
          \cup {[op |-> "mk_mul", m |-> m, a |-> a, how |-> h] :
                  a \in IF \A b \in Rng(m) : b < n THEN RowsOf(n) ELSE {}, h \in {"rm", "mr"}}
          \cup {[op |-> "mk_parse", s |-> t] : t \in Texts}
          \cup {[op |-> "mk_info", m |-> m]}
Fixes == IF m = Repeat(Free, n) THEN {[op |-> "mk_new", how |-> "fix", n |-> n, bs |-> bs] : bs \in Seqs(0..(n - 1), 3)}
                                     \cup {[op |-> "mk_new", how |-> "empty", n |-> n]}
         ELSE IF IsRow(m) THEN {[op |-> "mk_new", how |-> "full", a |-> m]} ELSE {}
Edits == {<<[op |-> "mk_set", i |-> 0, m |-> m],
            [op |-> "mk_edit", i |-> 0, b |-> b, p |-> p, how |-> h],
            [op |-> "mk_edit", i |-> 0, b |-> b, p |-> n - 1 - p, how |-> "set"]>> :
              b \in 0..n, p \in 0..(n - 1), h \in {"set"}}
         \cup {<<[op |-> "mk_set", i |-> 0, m |-> m], [op |-> "mk_edit", i |-> 0, b |-> b, p |-> 0, how |-> "fix"]>> : b \in 0..(n - 1)}
Next == /\ ~done /\ done' = TRUE /\ m' = m
        /\ EmitAll(<<>>, SetToSeq(Rels), <<>>)
        /\ EmitAll(<<>>, SetToSeq(Others \cup Fixes), <<>>)
        /\ \A h \in Edits : Emit(h)

R == TLCEval(MaskRows(m))
SetLaw == /\ sat <=> R # {}
          /\ \A r \in RowsOf(n) : r \in R <=> MaskMatches(m, r)
          /\ (MaskAsRow(m) # <<>>) <=> (Cardinality(R) = 1)
          /\ Cardinality(R) = 1 => R = {MaskAsRow(m)}
RelLaw == sat => \A p \in Masks(n) : Satisfiable(p) =>
  LET S == MaskRows(p)
  IN  /\ MaskSubset(m, p) <=> (R \subseteq S)
      /\ MaskCompatible(m, p) <=> (R \cap S # {})
      /\ MaskCompatible(m, p) => MaskRows(MaskCombined(m, p)) = R \cap S
MulLaw == sat => \A r \in RowsOf(n) : /\ MaskRows(RowTimesMask(r, m)) = {Mul(r, x) : x \in R}
                                      /\ MaskRows(MaskTimesRow(m, r)) = {Mul(x, r) : x \in R}
TextLaw == \A t \in Texts : MaskParse(t) = m
\* Setting a bell leaves the rows which have it there
SetLaw2 == sat => \A b \in 0..(n - 1), p \in 0..(n - 1) :
  LET o == MaskSet(m, b, p)
  IN  IF o.r = "ok" THEN o.s[p + 1] = b /\ (m[p + 1] = Free => MaskRows(o.s) = {r \in R : r[p + 1] = b}) ELSE o.s = m
=============================================================================
