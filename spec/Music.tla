-------------------------------- MODULE Music -------------------------------
(***************************************************************************)
(* Masks (mask.rs) and music regexes (music.rs).                           *)
(*                                                                         *)
(* A mask is a sequence of bells, or -1 for a free place.  A regex is a    *)
(* sequence of bells, -1 for a wildcard (one bell) and -2 for a glob (any  *)
(* number of bells).                                                       *)
(***************************************************************************)
EXTENDS Rows

Free == -1
Wild  == -1
Glob == -2

NamedBells(m) == SelectSeq(m, LAMBDA b : b >= 0)
MaskMatches(m, r) == Len(m) = Len(r) /\ \A i \in 1..Len(m) : m[i] < 0 \/ m[i] = r[i]
\* Some row matches: the named bells are different and within the stage
Satisfiable(m) == Len(m) >= 1 /\ (\A b \in Rng(NamedBells(m)) : b < Len(m) /\ CountOf(b, m) = 1)
\* The rows it denotes (for small stages)
MaskRows(m) == {r \in RowsOf(Len(m)) : MaskMatches(m, r)}
FreePlaces(m) == SelectSeq([i \in 1..Len(m) |-> i - 1], LAMBDA p : m[p + 1] < 0)

\* The only matching row, or the empty sequence
MaskAsRow(m) ==
  IF ~Satisfiable(m) \/ Len(FreePlaces(m)) > 1 THEN <<>>
  ELSE LET missing == CHOOSE b \in 0..Len(m) : b \notin Rng(m)
       IN  [i \in 1..Len(m) |-> IF m[i] >= 0 THEN m[i] ELSE missing]
\* For satisfiable masks (see MC_Music for the proof that these are right for the rows they denote)
MaskSubset(m, p) == Len(m) = Len(p) /\ \A i \in 1..Len(p) :
                       LET f == IF MaskAsRow(m) # <<>> THEN MaskAsRow(m) ELSE m IN p[i] < 0 \/ p[i] = f[i]
MaskCompatible(m, p) == /\ Len(m) = Len(p)
                        /\ \A i, j \in 1..Len(p) :
                              m[i] >= 0 /\ p[j] >= 0 => ((i = j) <=> (m[i] = p[j]))
MaskCombined(m, p) == [i \in 1..Len(m) |-> IF m[i] >= 0 THEN m[i] ELSE p[i]]

MaskFixed(n, bs) == [i \in 1..n |-> IF i - 1 \in Rng(bs) THEN i - 1 ELSE Free]
MaskParse(s) == SelectSeq([i \in 1..Len(s) |-> IF s[i] \in {120, 88, 46} THEN Free
                                               ELSE IF BellOf(s[i]) >= 0 THEN BellOf(s[i]) ELSE -9],
                          LAMBDA b : b # -9)
MaskText(m) == Concat([i \in 1..Len(m) |-> IF m[i] < 0 THEN <<120>> ELSE BellText(m[i])])
MaskPlaceOf(m, b) == LET hits == {i \in 1..Len(m) : m[i] = b} IN IF hits = {} THEN -1 ELSE SetMin(hits) - 1
\* r * m: the bells are relabelled;  m * r: the places are moved
RowTimesMask(r, m) == [i \in 1..Len(m) |-> IF m[i] < 0 THEN Free ELSE r[m[i] + 1]]
MaskTimesRow(m, r) == [i \in 1..Len(r) |-> m[r[i] + 1]]
\* Fixing a bell in a place
MaskSet(m, b, p) == IF MaskPlaceOf(m, b) \in {-1, p} THEN Out("ok", [m EXCEPT ![p + 1] = b]) ELSE Out("err", m)

-----------------------------------------------------------------------------
\* The lengths of the starts of r which the start of a pattern can take up
RECURSIVE Reach(_, _, _, _)
Reach(e, r, k, S) ==
  IF k > Len(e) \/ S = {} THEN S
  ELSE Reach(e, r, k + 1,
         IF e[k] = Glob THEN SetMin(S)..Len(r)
         ELSE {p + 1 : p \in {q \in S : q < Len(r) /\ (e[k] = Wild \/ r[q + 1] = e[k])}})
RegexMatches(e, r) == Len(r) \in Reach(e, r, 1, {0})
RegexPlaces(e, r)  == Sorted({PlaceOf(r, b) : b \in Rng(NamedBells(e))})

\* Normal form: in each stretch of wildcards and globs, the wildcards followed by at most one glob
RECURSIVE NormalFrom(_, _, _, _)
NormalFrom(e, k, anys, glob) ==
  LET flush == Repeat(Wild, anys) \o (IF glob THEN <<Glob>> ELSE <<>>)
  IN  IF k > Len(e) THEN flush
      ELSE IF e[k] = Wild THEN NormalFrom(e, k + 1, anys + 1, glob)
      ELSE IF e[k] = Glob THEN NormalFrom(e, k + 1, anys, TRUE)
      ELSE flush \o <<e[k]>> \o NormalFrom(e, k + 1, 0, FALSE)
Normal(e)   == NormalFrom(e, 1, 0, FALSE)
IsNormal(e) == \A k \in 1..(Len(e) - 1) : e[k] = Glob => e[k + 1] >= 0

RegexParse(s) == SelectSeq([i \in 1..Len(s) |-> IF s[i] \in {120, 46} THEN Wild ELSE IF s[i] = 42 THEN Glob
                                                ELSE IF BellOf(s[i]) >= 0 THEN BellOf(s[i]) ELSE -9],
                           LAMBDA b : b # -9)
RegexText(e) == Concat([i \in 1..Len(e) |-> CASE e[i] = Wild -> <<120>> [] e[i] = Glob -> <<42>>
                                              [] OTHER -> BellText(e[i])])

-----------------------------------------------------------------------------
\* Numbers too big for TLC, as their digits in base 10000 with the lowest first
Base == 10000
RECURSIVE Carried(_, _, _)
Carried(ds, f, carry) ==
  IF ds = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % Base>> \o Carried(<<>>, f, carry \div Base))
  ELSE LET x == ds[1] * f + carry IN <<x % Base>> \o Carried(Tail(ds), f, x \div Base)
Times(ds, f) == IF f = 0 THEN <<>> ELSE Carried(ds, f, 0)
MaxUsizeDigits == <<1615, 955, 737, 6744, 1844>>       \* 2^64 - 1
Exceeds(a, b) == \/ Len(a) > Len(b)
                 \/ Len(a) = Len(b) /\ Lex(Reverse(a), Reverse(b)) = 1
RECURSIVE Product(_, _)
\* The product of some positive factors, or <<-1>> when it exceeds the largest usize
Product(acc, fs) == IF Exceeds(acc, MaxUsizeDigits) THEN <<-1>>
                    ELSE IF fs = <<>> THEN acc ELSE Product(Times(acc, fs[1]), Tail(fs))

\* How many rows match: choose bells for the wildcards, then arrange the others and the boundaries
\* between the globs (see MC_Music for the proof on small stages)
Unmatchable(e, n) == \/ \E b \in Rng(NamedBells(e)) : b >= n \/ CountOf(b, e) > 1
                     \/ Len(NamedBells(e)) + CountOf(Wild, e) > n
                     \/ Len(NamedBells(e)) + CountOf(Wild, e) < n /\ CountOf(Glob, Normal(e)) = 0
CountFactors(e, n) ==
  LET free  == n - Len(NamedBells(e))
      anys  == CountOf(Wild, e)
      globs == CountOf(Glob, Normal(e))
      rest  == free - anys
  IN  [i \in 1..anys |-> rest + i] \o [i \in 1..rest |-> globs - 1 + i]
RegexCount(e, n) == IF Unmatchable(e, n) THEN <<>> ELSE Product(<<1>>, CountFactors(e, n))

-----------------------------------------------------------------------------
\* Runs
AscRun(s, len)  == [i \in 1..len |-> s + i - 1]
DescRun(s, len) == [i \in 1..len |-> s + len - i]
RunsOf(n, len)  == IF len > n THEN <<>>
                   ELSE [k \in 1..(2 * (n - len + 1)) |->
                           IF k % 2 = 1 THEN AscRun((k - 1) \div 2, len) ELSE DescRun((k - 1) \div 2, len)]
RunsFront(n, len) == LET r == RunsOf(n, len) IN [k \in 1..Len(r) |-> r[k] \o <<Glob>>]
RunsBack(n, len)  == LET r == RunsOf(n, len) IN [k \in 1..Len(r) |-> <<Glob>> \o r[k]]
RunsAll(n, len)   == LET r == RunsOf(n, len) IN [k \in 1..Len(r) |-> <<Glob>> \o r[k] \o <<Glob>>]
Runs(how, n, len) == CASE how = "front" -> RunsFront(n, len)
                       [] how = "back" -> RunsBack(n, len)
                       [] how \in {"all", "int"} -> RunsAll(n, len)
                       [] how \in {"fb", "ext"} -> RunsFront(n, len) \o RunsBack(n, len)
\* A row has a run of a length at a place if neighbours there go up by one, or all down by one
RunAt(r, i, len) == /\ i + len - 1 <= Len(r)
                    /\ \/ \A k \in i..(i + len - 2) : r[k + 1] = r[k] + 1
                       \/ \A k \in i..(i + len - 2) : r[k + 1] = r[k] - 1
NumRunsIn(r, len) == Cardinality({i \in 1..Len(r) : RunAt(r, i, len)})
FrontRuns(r, len) == IF RunAt(r, 1, len) THEN 1 ELSE 0
BackRuns(r, len)  == IF Len(r) >= len /\ RunAt(r, Len(r) - len + 1, len) THEN 1 ELSE 0
\* The length of the longest start in which neighbours differ by one
RunLen(r) == SetMax({k \in 1..Len(r) : \A i \in 1..(k - 1) : Abs(r[i + 1] - r[i]) = 1})
=============================================================================
