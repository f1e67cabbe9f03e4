-------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The names of bells and stages (bell.rs, stage.rs).                      *)
(***************************************************************************)
EXTENDS Common

BellNames    == T("1234567890ETABCDFGHJKLMNPQRSUVWYZ")
NumBellNames == Len(BellNames)

\* The bell whose name is a character, or -1.  (BellTable is BellOf on 0..127, computed once.)
BellTable == [c \in 0..127 |->
                IF c \in Rng(BellNames) THEN (CHOOSE i \in 1..NumBellNames : BellNames[i] = c) - 1 ELSE -1]
BellOf(c)  == IF c \in 0..127 THEN BellTable[c] ELSE -1
BellChar(b) == IF b < NumBellNames THEN BellNames[b + 1] ELSE 0
BellText(b) == IF b < NumBellNames THEN <<BellNames[b + 1]>> ELSE T("<") \o Digits(b + 1) \o T(">")
\* The bells named in a text: other characters are ignored
BellsIn(s) == SelectSeq([i \in 1..Len(s) |-> BellOf(s[i])], LAMBDA b : b >= 0)
RowText(r) == Concat([i \in 1..Len(r) |-> BellText(r[i])])

StageNames == <<T("One"), T("Two"), T("Singles"), T("Minimus"), T("Doubles"), T("Minor"), T("Triples"),
                T("Major"), T("Caters"), T("Royal"), T("Cinques"), T("Maximus"), T("Sextuples"),
                T("Fourteen"), T("Septuples"), T("Sixteen"), T("Octuples"), T("Eighteen"),
                T("Nonuples"), T("Twenty"), T("Decuples"), T("Twenty-two")>>
LowerStageNames == [n \in 1..Len(StageNames) |-> Lower(StageNames[n])]
StageHasName(n) == n <= Len(StageNames)
StageText(n)    == IF StageHasName(n) THEN StageNames[n] ELSE Digits(n) \o T(" bells")
\* The stage with a lower case name, or 0
StageOfLower(s) == LET hits == {n \in 1..Len(StageNames) : LowerStageNames[n] = s}
                   IN  IF hits = {} THEN 0 ELSE CHOOSE n \in hits : TRUE
\* The stage constants of the API
StageConsts == [n \in 1..16 |-> n]
\* The names the debug output of a stage uses
StageDebugNames == <<T("ONE"), T("TWO"), T("SINGLES"), T("MINIMUS"), T("DOUBLES"), T("MINOR"), T("TRIPLES"),
                T("MAJOR"), T("CATERS"), T("ROYAL"), T("CINQUES"), T("MAXIMUS"), T("SEXTUPLES"),
                T("FOURTEEN"), T("SEPTUPLES"), T("SIXTEEN")>>
=============================================================================
